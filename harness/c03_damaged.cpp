/* C03: truncated (every crash point of the writer) and malformed data files. */
#include "io.h"
using namespace mc;

enum Verdict { MUST_FAIL, MUST_SUCCEED, EITHER };
/* k first bytes of a well formed file */
static Verdict cut(const std::string& full, size_t k) {
    auto a = tokens(full), b = tokens(full.substr(0, k));
    if (b.size() < a.size()) return MUST_FAIL;
    return a.empty() || a.back().s == b.back().s ? MUST_SUCCEED : EITHER;   /* inside the last number: indistinguishable from a shorter number */
}
static std::string corrupt(const std::string& full, int tok, const char* by) { auto t = tokens(full); std::string r = full; r.replace(t[tok].at, t[tok].len, by); return r; }
static const std::vector<const char*> BAD = {"abc", "*", "--", "x1", "#"};

static std::vector<target> buf_of(int n) { std::vector<target> v(n); for (int i = 0; i < n; i++) v[i] = junk_target(i); return v; }

/* the buffers are exactly as long as the announced number of records, so that the sanitizer sees any excess */
static void targets_case(const std::string& d, const std::string& what, Verdict v, const std::vector<target>& truth) {
    int n = truth.size(); put("cam1.0007_targets", d);
    target* b = (target*)malloc(std::max(1, n) * sizeof(target)); for (int i = 0; i < n; i++) b[i] = junk_target(i);
    int r = read_targets(b, Z("cam1."), 7); step();
    std::string bad;
    if (v == MUST_FAIL && r != -1) bad = strf("%d targets reported instead of a failure", r);
    if (v == MUST_SUCCEED && r != n) bad = strf("%d reported instead of %d targets", r, n);
    if (v == EITHER && r != -1 && r != n) bad = strf("%d reported instead of %d targets or a failure", r, n);
    if (bad.empty() && r > 0) for (int i = 0; i < n; i++) { target t = b[i]; if (v == EITHER && i == n - 1) t.tnr = truth[i].tnr; if (!same_target(t, truth[i])) bad = strf("target %d is %s", i, str(b[i]).c_str()); }
    free(b);
    MC_CHECK(bad.empty(), "targets", "target file of %d targets, %s: %s", n, what.c_str(), bad.c_str());
    state(hash_s(what, r));
}
SCENARIO(targets_cut) {
    int n = pick({0, 1, 2, 3, 10, 12}), shape = choose(3); std::vector<target> t; for (int i = 0; i < n; i++) { t.push_back(mk_target(shape == 1 ? i * 1111 : i)); if (shape == 2) { t[i].tnr = -1; t[i].x = -999; t[i].sumg = 12345678; } }
    std::vector<target> w = t; w.push_back(junk_target(0)); if (!write_targets(w.data(), n, Z("cam1."), 7)) fail("setup", "write failed");
    std::string full = get("cam1.0007_targets"); size_t k = choose(full.size() + 1); note("%d targets, first %zu of %zu bytes", n, k, full.size());
    targets_case(full.substr(0, k), strf("cut after %zu of %zu bytes", k, full.size()), cut(full, k), t);
}
SCENARIO(targets_bad_number) {
    int n = pick({1, 2, 3, 10}); std::vector<target> t; for (int i = 0; i < n; i++) t.push_back(mk_target(i));
    write_targets(t.data(), n, Z("cam1."), 7); std::string full = get("cam1.0007_targets");
    int tok = choose(tokens(full).size()); const char* by = pick(BAD);
    targets_case(corrupt(full, tok, by), strf("number %d replaced by \"%s\"", tok, by), MUST_FAIL, t);
}
SCENARIO1(targets_missing) {
    int kind = choose(4); del("cam1.0007_targets"); target b[2] = {junk_target(0), junk_target(1)};
    if (kind == 1) put("cam1.0007_targets", ""); if (kind == 2) put("cam1.0007_targets", "\n \n"); if (kind == 3) put("cam1.0007_targets", "-1\n");
    int r = read_targets(b, Z("cam1."), 7); step(); MC_CHECK(r == -1, "targets", "missing/empty target file (kind %d): %d", kind, r); state(kind);
}

/* correspondence, linkage and priority files */
static std::string F[3]; static const char* FN[3] = {"rt_is.3", "ptv_is.3", "added.3"};
static void mk_files(int n, int shape) {
    std::vector<P> p; std::vector<corres> c; for (int i = 0; i < n; i++) { p.push_back(mk_path(shape ? i * 1001 : i)); c.push_back(mk_cor(i)); }
    p.push_back(junk_path()); c.push_back(corres());
    if (!write_path_frame(c.data(), p.data(), n, Z("rt_is"), Z("ptv_is"), Z("added"), 3)) fail("setup", "write failed");
    for (int i = 0; i < 3; i++) F[i] = get(FN[i]);
}
static void path_case(int n, int shape, int links, int prio, const std::string& what, Verdict v, int damaged) {
    corres* c = (corres*)malloc(n * sizeof *c); P* p = (P*)malloc(n * sizeof *p); for (int i = 0; i < n; i++) { p[i] = junk_path(); memset(&c[i], 0x5a, sizeof *c); }
    int r = read_path_frame(c, p, Z("rt_is"), links ? (char*)Z("ptv_is") : nullptr, prio ? (char*)Z("added") : nullptr, 3); step();
    std::string bad;
    if (v == MUST_FAIL && r != -1) bad = strf("%d particles reported instead of a failure", r);
    if (v == MUST_SUCCEED && r != n) bad = strf("%d reported instead of %d particles", r, n);
    if (v == EITHER && r != -1 && r != n) bad = strf("%d reported instead of %d particles or a failure", r, n);
    if (bad.empty() && r == n) for (int i = 0; i < n; i++) {
        P e = mk_path(shape ? i * 1001 : i); corres ec = mk_cor(i); bool last = v == EITHER && i == n - 1;
        for (int j = 0; j < 3; j++) if (!same_d(e.x[j], p[i].x[j], 1e-3)) bad = strf("particle %d at %g instead of %g", i, p[i].x[j], e.x[j]);
        for (int j = 0; j < 4; j++) if (ec.p[j] != c[i].p[j] && !(last && damaged == 0 && j == 3)) bad = strf("particle %d camera %d: target %d instead of %d", i, j, c[i].p[j], ec.p[j]);
        if (links && (p[i].prev != e.prev || p[i].next != e.next)) bad = strf("particle %d links %d %d", i, p[i].prev, p[i].next);
        if (prio && p[i].prio != e.prio && !(last && damaged == 2)) bad = strf("particle %d priority %d", i, p[i].prio);
    }
    free(c); free(p);
    MC_CHECK(bad.empty(), "path", "frame of %d particles (links read %d, priorities read %d), %s: %s", n, links, prio, what.c_str(), bad.c_str());
    state(hash_s(what, r * 8 + links * 2 + prio));
}
SCENARIO(path_cut) {
    int n = pick({1, 2, 3, 10, 11}), shape = choose(2), links = choose(2), prio = choose(2); mk_files(n, shape);
    int f = choose(3); size_t k = choose(F[f].size() + 1); put(FN[f], F[f].substr(0, k));
    Verdict v = (f == 1 && !links) || (f == 2 && !prio) ? MUST_SUCCEED : cut(F[f], k);
    if (f == 1 && v == EITHER) v = EITHER;
    path_case(n, shape, links, prio, strf("%s cut after %zu of %zu bytes", FN[f], k, F[f].size()), v, f);
}
SCENARIO(path_bad_number) {
    int n = pick({1, 2, 3, 10}), links = choose(2), prio = choose(2); mk_files(n, 0);
    int f = choose(3), tok = choose(tokens(F[f]).size()); const char* by = pick(BAD); put(FN[f], corrupt(F[f], tok, by));
    Verdict v = (f == 1 && !links) || (f == 2 && !prio) ? MUST_SUCCEED : MUST_FAIL;
    if (f > 0 && tok == 0 && v == MUST_FAIL) v = MUST_FAIL;
    path_case(n, 0, links, prio, strf("%s number %d replaced by \"%s\"", FN[f], tok, by), v, f);
}
/* two files damaged at once, and files missing */
SCENARIO(path_two_damaged) {
    int n = 1 + choose(2), links = choose(2), prio = choose(2); mk_files(n, 0); std::string what; Verdict v = MUST_SUCCEED;
    for (int f = 0; f < 3; f++) {
        int how = choose(6); bool used = f == 0 || (f == 1 ? links : prio); auto t = tokens(F[f]);
        if (how == 0) continue;
        if (how == 1) del(FN[f]); else if (how == 2) put(FN[f], ""); else if (how == 3) put(FN[f], F[f].substr(0, t[0].at + t[0].len)); else if (how == 4) put(FN[f], F[f].substr(0, t.back().at)); else put(FN[f], F[f].substr(0, t[t.size() / 2].at));
        what += strf("%s damaged in way %d; ", FN[f], how); if (used) v = MUST_FAIL;
    }
    path_case(n, 0, links, prio, what, v, 0);
}
/* whole frames */
SCENARIO(frame_damaged) {
    int cams = 1 + choose(4), file = choose(cams + 3); 
    frame f, g; frame_init(&f, cams, 3); frame_init(&g, cams, 3); f.num_parts = 2; for (int i = 0; i < 2; i++) { f.path_info[i] = mk_path(i); f.correspond[i] = mk_cor(i); }
    std::vector<Z> z; std::vector<char*> tb; for (int c = 0; c < cams; c++) z.push_back(Z(strf("cam%d.", c + 1))); for (auto& x : z) tb.push_back(x);
    for (int c = 0; c < cams; c++) { f.num_targets[c] = 2; for (int i = 0; i < 2; i++) f.targets[c][i] = mk_target(i + c); }
    if (!write_frame(&f, Z("rt_is"), Z("ptv_is"), Z("added"), tb.data(), 3)) fail("setup", "write failed");
    std::string name = file < 3 ? FN[file] : strf("cam%d.0003_targets", file - 2), full = get(name); size_t k = choose(full.size() + 2); int links = choose(2);
    Verdict v = file && file < 3 && !links ? MUST_SUCCEED : k > full.size() ? MUST_FAIL : cut(full, k);
    if (k > full.size()) del(name); else put(name, full.substr(0, k));
    int r = read_frame(&g, Z("rt_is"), links ? (char*)Z("ptv_is") : nullptr, links ? (char*)Z("added") : nullptr, tb.data(), 3); step();
    MC_CHECK(v != MUST_FAIL || !r, "frame", "frame of %d cameras with %s cut after %zu of %zu bytes (links read %d): success reported", cams, name.c_str(), k, full.size(), links);
    MC_CHECK(v != MUST_SUCCEED || (r && g.num_parts == 2), "frame", "frame of %d cameras with %s cut after %zu of %zu bytes (links read %d): failure reported though nothing read is missing", cams, name.c_str(), k, full.size(), links);
    if (r) for (int c = 0; c < cams; c++) MC_CHECK(g.num_targets[c] == 2, "frame", "frame of %d cameras with %s cut after %zu bytes: camera %d has %d targets", cams, name.c_str(), k, c, g.num_targets[c]);
    state(hash_s(name, k * 2 + links)); free_frame(&f); free_frame(&g);
}
