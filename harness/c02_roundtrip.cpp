/* C02: what is written to disk reads back. */
#include "io.h"
using namespace mc;

static const std::vector<int> FRAMES = {-1000000, -5, -1, 0, 1, 7, 9, 10, 99, 100, 999, 1000, 9999, 10000, 10001, 99999, 123456, INT_MAX};
static const std::vector<int> INTS = {0, 1, -1, -2, -999, 99, 999, 1000, -1000, 9999, 10000, 99999, 100000, 1234567, 123456789, INT_MAX, INT_MIN};
static const std::vector<double> REALS = {0.0, -0.0, 1, -1, 0.5, 0.00004, 0.00005, -0.00005, 0.0001, 0.9999, 0.99995, 9.99994999, 99.9999, 1023.4375, 9999.9999, 99999.99995, -999, -9999.9999, 123456.789, -12345678.25, 1e9, 1e15};

static std::string tname(const std::string& base, int frame) { return frame > 0 ? strf("%s%04d_targets", base.c_str(), frame) : base + "_targets"; }

/* writes, reads into a dirty buffer, compares */
static void targets_trip(const std::vector<target>& in, const std::string& base, int frame) {
    int n = in.size();
    std::vector<target> w = in; w.push_back(junk_target(1));
    int ok = write_targets(w.data(), n, Z(base), frame); step();
    std::string d; for (auto& t : in) d += str(t);
    MC_CHECK(ok, "targets-write", "writing %d targets %s as %s, frame %d: failure reported", n, d.c_str(), base.c_str(), frame);
    std::vector<target> r(n + 2); for (int i = 0; i < n + 2; i++) r[i] = junk_target(i);
    int k = read_targets(r.data(), Z(base), frame); step();
    MC_CHECK(k == n, "targets-count", "%d targets %s written to %s, frame %d: %d read back", n, d.c_str(), base.c_str(), frame, k);
    for (int i = 0; i < n; i++) MC_CHECK(same_target(in[i], r[i]), "targets-fields", "target %d of %d, %s, frame %d: wrote %s, read %s", i, n, base.c_str(), frame, str(in[i]).c_str(), str(r[i]).c_str());
    for (int i = n; i < n + 2; i++) { target j = junk_target(i); MC_CHECK(!memcmp(&j, &r[i], sizeof j), "targets-outside", "reading %d targets changed entry %d of the buffer", n, i); }
    MC_CHECK(exists(tname(base, frame)), "targets-name", "targets of frame %d, base %s are not stored as %s", frame, base.c_str(), tname(base, frame).c_str());
    state(hash_s(get(tname(base, frame))));
    del(tname(base, frame));
}
static void set_field(target& t, int f, int iv, double rv) {
    switch (f) { case 0: t.pnr = iv; break; case 1: t.n = iv; break; case 2: t.nx = iv; break; case 3: t.ny = iv; break; case 4: t.sumg = iv; break; case 5: t.tnr = iv; break; case 6: t.x = rv; break; default: t.y = rv; }
}
SCENARIO(target_fields) {
    int n = 1 + choose(3), which = choose(n), f = choose(8);
    std::vector<target> v; for (int i = 0; i < n; i++) v.push_back(mk_target(i));
    set_field(v[which], f, f < 6 ? pick(INTS) : 0, f >= 6 ? pick(REALS) : 0);
    int g = choose(8); if (g != f) set_field(v[which], g, g < 6 ? pick(INTS) : 0, g >= 6 ? pick(REALS) : 0);
    note("%d targets, %s", n, str(v[which]).c_str());
    targets_trip(v, "cam1.", 12);
}
SCENARIO(target_frames) {
    int frame = pick(FRAMES), n = choose(5); std::string base = pick<std::string>({"cam1.", "c", "sub/cam1.tif", "./cam2_"});
    if (base[0] == 's') mkdir("sub", 0777);
    std::vector<target> v; for (int i = 0; i < n; i++) v.push_back(mk_target(i));
    targets_trip(v, base, frame);
}
SCENARIO(target_many) {
    int n = thorough ? choose(1500) : choose(300); std::vector<target> v; for (int i = 0; i < n; i++) v.push_back(mk_target(i));
    targets_trip(v, "cam1.", 3);
}

/* path frames */
struct Names { Z c, l, p; };
static void path_trip(const std::vector<P>& pi, const std::vector<corres>& ci, int frame, int rd_links, int rd_prio, bool wr_prio) {
    int n = pi.size();
    std::vector<P> p = pi; std::vector<corres> c = ci; p.push_back(junk_path()); c.push_back(corres());
    Z cn("rt_is"), ln("ptv_is"), an("added");
    int ok = write_path_frame(c.data(), p.data(), n, cn, ln, wr_prio ? (char*)an : nullptr, frame); step();
    MC_CHECK(ok, "path-write", "writing %d particles, frame %d: failure reported", n, frame);
    MC_CHECK(exists(strf("added.%d", frame)) == wr_prio, "path-prio-file", "the priority file of frame %d was %swritten", frame, wr_prio ? "not " : "");
    std::vector<P> rp(n + 2); std::vector<corres> rc(n + 2); P jp = junk_path(); corres jc; memset(&jc, 0x5a, sizeof jc);
    for (auto& x : rp) x = jp; for (auto& x : rc) x = jc;
    int k = read_path_frame(rc.data(), rp.data(), cn, rd_links ? (char*)ln : nullptr, rd_prio ? (char*)an : nullptr, frame); step();
    std::string d = strf("frame %d, %d particles, read links %d prio %d", frame, n, rd_links, rd_prio);
    if (n == 0) { if (k == -1) finding("empty-frame-read", "a frame without particles, written successfully, reads back as a failure (%s)", d.c_str()); else MC_CHECK(k == 0, "path-count", "%s: %d read back", d.c_str(), k); }
    else {
        MC_CHECK(k == n, "path-count", "%s: %d read back", d.c_str(), k);
        for (int i = 0; i < n; i++) {
            const P& a = pi[i]; const P& b = rp[i];
            for (int j = 0; j < 3; j++) MC_CHECK(same_d(a.x[j], b.x[j], 1e-3), "path-position", "%s: particle %d coordinate %d wrote %.17g read %.17g", d.c_str(), i, j, a.x[j], b.x[j]);
            MC_CHECK(b.prev == (rd_links ? a.prev : -1) && b.next == (rd_links ? a.next : -2), "path-links", "%s: particle %d links wrote %d %d, read %d %d", d.c_str(), i, a.prev, a.next, b.prev, b.next);
            MC_CHECK(b.prio == (rd_prio ? a.prio : 4), "path-prio", "%s: particle %d priority wrote %d, read %d", d.c_str(), i, a.prio, b.prio);
            MC_CHECK(rc[i].nr == i + 1, "path-nr", "%s: particle %d got number %d", d.c_str(), i, rc[i].nr);
            for (int j = 0; j < 4; j++) MC_CHECK(rc[i].p[j] == ci[i].p[j], "path-corres", "%s: particle %d camera %d wrote %d, read %d", d.c_str(), i, j, ci[i].p[j], rc[i].p[j]);
            MC_CHECK(b.inlist == 0 && b.finaldecis == 1000000.0f, "path-transient", "%s: particle %d: transient fields not reset", d.c_str(), i);
            for (int j = 0; j < POSI; j++) MC_CHECK(b.decis[j] == 0 && b.linkdecis[j] == -999, "path-transient", "%s: particle %d: candidate list not reset at %d", d.c_str(), i, j);
        }
        for (int i = n; i < n + 2; i++) MC_CHECK(!memcmp(&rp[i], &jp, sizeof jp) && !memcmp(&rc[i], &jc, sizeof jc), "path-outside", "%s: entry %d after the last was changed", d.c_str(), i);
    }
    /* the linkage and priority files, as other programs read them: columns of numbers that repeat the positions */
    for (int w = 0; w < (wr_prio ? 2 : 1); w++) {
        auto t = tokens(get(strf(w ? "added.%d" : "ptv_is.%d", frame))); int per = w ? 6 : 5; MC_CHECK((int)t.size() == 1 + per * n && atoi(t[0].s.c_str()) == n, "path-columns", "%s: the %s file has %d numbers", d.c_str(), w ? "priority" : "linkage", (int)t.size());
        for (int i = 0; i < n; i++) for (int j = 0; j < per; j++) { double v = atof(t[1 + per * i + j].s.c_str()), e = j == 0 ? pi[i].prev : j == 1 ? pi[i].next : j < 5 ? pi[i].x[j - 2] : pi[i].prio; MC_CHECK(same_d(v, e, 1e-3), "path-columns", "%s: particle %d, column %d of the %s file is %.17g instead of %.17g", d.c_str(), i, j, w ? "priority" : "linkage", v, e); }
    }
    { auto t = tokens(get(strf("rt_is.%d", frame))); MC_CHECK((int)t.size() == 1 + 8 * n && atoi(t[0].s.c_str()) == n, "path-columns", "%s: the correspondence file has %d numbers", d.c_str(), (int)t.size());
      for (int i = 0; i < n; i++) for (int j = 0; j < 8; j++) { double v = atof(t[1 + 8 * i + j].s.c_str()), e = j == 0 ? i + 1 : j < 4 ? pi[i].x[j - 1] : ci[i].p[j - 4]; MC_CHECK(same_d(v, e, 1e-3), "path-columns", "%s: particle %d, column %d of the correspondence file is %.17g instead of %.17g", d.c_str(), i, j, v, e); } }
    state(hash_s(get(strf("rt_is.%d", frame)) + get(strf("ptv_is.%d", frame)) + get(strf("added.%d", frame)), k));
    del(strf("rt_is.%d", frame)); del(strf("ptv_is.%d", frame)); del(strf("added.%d", frame));
}
static void set_pf(P& p, corres& c, int f) {
    if (f < 3) p.x[f] = pick(REALS); else if (f == 3) p.prev = pick(INTS); else if (f == 4) p.next = pick(INTS); else if (f == 5) p.prio = pick(INTS); else c.p[f - 6] = pick(INTS);
}
SCENARIO(path_fields) {
    int n = 1 + choose(3), which = choose(n), f = choose(10);
    std::vector<P> p; std::vector<corres> c; for (int i = 0; i < n; i++) { p.push_back(mk_path(i)); c.push_back(mk_cor(i)); }
    set_pf(p[which], c[which], f); int g = choose(11); if (g < 10 && g != f) set_pf(p[which], c[which], g);
    path_trip(p, c, 10, 1, 1, true);
}
SCENARIO(path_frames) {
    int frame = pick(FRAMES), n = choose(5), wp = choose(2), rp = wp ? choose(2) : 0, rl = choose(2);
    std::vector<P> p; std::vector<corres> c; for (int i = 0; i < n; i++) { p.push_back(mk_path(i)); c.push_back(mk_cor(i)); }
    path_trip(p, c, frame, rl, rp, wp);
}
SCENARIO(path_many) {
    int n = 1 + (thorough ? choose(800) : choose(200)); std::vector<P> p; std::vector<corres> c; for (int i = 0; i < n; i++) { p.push_back(mk_path(i)); c.push_back(mk_cor(i)); }
    path_trip(p, c, 4, 1, 1, true);
}

/* whole frames: for every camera count, particle count and per-camera target count */
static void fill(frame& f, int s, int parts, const std::vector<int>& nt) {
    f.num_parts = parts; for (int i = 0; i < parts; i++) { f.path_info[i] = mk_path(i + s); f.correspond[i] = mk_cor(i + s); f.correspond[i].nr = i + 1; }
    for (int c = 0; c < f.num_cams; c++) { f.num_targets[c] = nt[c]; for (int i = 0; i < nt[c]; i++) f.targets[c][i] = mk_target(i + 5 * c + 3 * s); }
}
static void junk(frame& f) { for (int i = 0; i < f.max_targets; i++) { f.path_info[i] = junk_path(); for (int c = 0; c < f.num_cams; c++) f.targets[c][i] = junk_target(i); } f.num_parts = f.max_targets; for (int c = 0; c < f.num_cams; c++) f.num_targets[c] = f.max_targets; }
static std::string diff(const frame& a, const frame& b, bool links, bool prio) {
    if (a.num_parts != b.num_parts) return strf("%d particles instead of %d", b.num_parts, a.num_parts);
    for (int i = 0; i < a.num_parts; i++) {
        const P &p = a.path_info[i], &q = b.path_info[i];
        for (int j = 0; j < 3; j++) if (!same_d(p.x[j], q.x[j], 1e-3)) return strf("particle %d moved", i);
        if (q.prev != (links ? p.prev : -1) || q.next != (links ? p.next : -2)) return strf("particle %d links %d %d", i, q.prev, q.next);
        if (q.prio != (prio ? p.prio : 4)) return strf("particle %d priority %d", i, q.prio);
        for (int j = 0; j < 4; j++) if (a.correspond[i].p[j] != b.correspond[i].p[j]) return strf("particle %d camera %d correspondence", i, j);
        if (b.correspond[i].nr != i + 1) return strf("particle %d number %d", i, b.correspond[i].nr);
    }
    for (int c = 0; c < a.num_cams; c++) {
        if (a.num_targets[c] != b.num_targets[c]) return strf("camera %d: %d targets instead of %d", c, b.num_targets[c], a.num_targets[c]);
        for (int i = 0; i < a.num_targets[c]; i++) if (!same_target(a.targets[c][i], b.targets[c][i])) return strf("camera %d target %d: %s", c, i, str(b.targets[c][i]).c_str());
    }
    return "";
}
static void cleanup_frame(int cams, int fr) { del(strf("rt_is.%d", fr)); del(strf("ptv_is.%d", fr)); del(strf("added.%d", fr)); for (int c = 0; c < cams; c++) del(tname(strf("cam%d.", c + 1), fr)); }
SCENARIO(frames) {
    int cams = 1 + choose(4), parts = choose(4), fr = pick({-3, 0, 1, 10, 12345}), prio = choose(2), rl = choose(2); std::vector<int> nt; for (int c = 0; c < cams; c++) nt.push_back(choose(3));
    frame f, g; frame_init(&f, cams, 5); frame_init(&g, cams, 5); fill(f, 1, parts, nt); junk(g);
    Z cn("rt_is"), ln("ptv_is"), an("added"); std::vector<Z> z; std::vector<char*> tb; for (int c = 0; c < cams; c++) z.push_back(Z(strf("cam%d.", c + 1))); for (auto& x : z) tb.push_back(x);
    int ok = write_frame(&f, cn, ln, prio ? (char*)an : nullptr, tb.data(), fr), r = read_frame(&g, cn, rl ? (char*)ln : nullptr, prio ? (char*)an : nullptr, tb.data(), fr); step(2);
    std::string d = strf("frame %d with %d cameras, %d particles, priorities %d, read links %d", fr, cams, parts, prio, rl);
    MC_CHECK(ok, "frame-write", "%s: write failure", d.c_str());
    if (!parts && !r) { finding("empty-frame-read", "%s reads back as a failure", d.c_str()); MC_CHECK(g.num_parts <= 0, "frame-differs", "%s: %d particles read back", d.c_str(), g.num_parts); g.num_parts = 0; std::string e = diff(f, g, rl, prio); MC_CHECK(e.empty(), "frame-differs", "%s: %s", d.c_str(), e.c_str()); }
    else { MC_CHECK(r, "frame-read", "%s: read failure", d.c_str()); std::string e = diff(f, g, rl, prio); MC_CHECK(e.empty(), "frame-differs", "%s: %s", d.c_str(), e.c_str()); }
    state(hash_s(d)); free_frame(&f); free_frame(&g); cleanup_frame(cams, fr);
}
/* file names of every length that the settings files can give */
SCENARIO(long_names) {
    int len = thorough ? 1 + choose(239) : pick({1, 2, 50, 100, 127, 128, 199, 200, 220, 229, 230, 235, 238, 239}), deep = choose(2), which = choose(6), fr = pick({1, 12, 9999, 10000, 123456}); std::string nm = std::string(len, 'n'); if (deep) { if (len < 4) return; nm = "sub/" + std::string(len - 4, 'n'); mkdir("sub", 0777); }
    std::string b[5] = {"rt_is", "ptv_is", "added", "cam1.", "cam2."}; if (which < 5) b[which] = nm; else for (int i = 0; i < 5; i++) { b[i] = nm; b[i].back() = 'a' + i; }
    frame f, g; frame_init(&f, 2, 5); frame_init(&g, 2, 5); fill(f, 1, 3, {2, 3}); junk(g); Z z[5] = {Z(b[0]), Z(b[1]), Z(b[2]), Z(b[3]), Z(b[4])}; char* tb[] = {z[3], z[4]};
    int ok = write_frame(&f, z[0], z[1], z[2], tb, fr), r = read_frame(&g, z[0], z[1], z[2], tb, fr); step(2); std::string d = strf("frame %d, %s name of %d characters%s", fr, which < 3 ? "a particle file" : which < 5 ? "a target file" : "every", len, deep ? " in a directory" : "");
    for (int i = 0; i < 5; i++) MC_CHECK(b[i] == z[i].b.data(), "name-changed", "%s: the name itself was changed", d.c_str());
    MC_CHECK(ok && r, "long-names", "%s: writing %d, reading %d", d.c_str(), ok, r); std::string e = diff(f, g, true, true); MC_CHECK(e.empty(), "long-names", "%s: %s", d.c_str(), e.c_str());
    for (int i = 0; i < 5; i++) { std::string w = i < 3 ? strf("%s.%d", b[i].c_str(), fr) : tname(b[i], fr); MC_CHECK(exists(w), "long-names", "%s: no file %s", d.c_str(), w.c_str()); del(w); }
    state(hash_s(d)); free_frame(&f); free_frame(&g);
}
/* histories: several frames, cameras and kinds stored side by side, also overwriting; the last stored of each comes back */
SCENARIO(side_by_side) {
    int len = thorough ? 4 : 3, cams = 2; std::vector<int> nums = {1, 2, 10, 11, 100, 10000};
    Z cn("rt_is"), ln("ptv_is"), an("added"); Z z1("cam1."), z2("cam2."); char* tb[] = {z1, z2};
    std::vector<std::pair<int, frame>> model; std::string d;
    for (int s = 0; s < len; s++) {
        int fr = pick(nums), parts = 1 + choose(2), t0 = choose(2) * 2;
        frame f; frame_init(&f, cams, 6); fill(f, s, parts, {t0, 2 - t0 / 2}); d += strf("[%d: %d particles, %d targets] ", fr, parts, t0);
        MC_CHECK(write_frame(&f, cn, ln, an, tb, fr), "frame-write", "%s: write failure", d.c_str()); step();
        bool have = false; for (auto& m : model) if (m.first == fr) { free_frame(&m.second); m.second = f; have = true; } if (!have) model.push_back({fr, f});
    }
    frame g; frame_init(&g, cams, 6);
    for (auto& m : model) {
        junk(g); MC_CHECK(read_frame(&g, cn, ln, an, tb, m.first), "frame-read", "%s: frame %d: read failure", d.c_str(), m.first); step();
        std::string e = diff(m.second, g, true, true); MC_CHECK(e.empty(), "frame-differs", "after writing %s frame %d has changed: %s", d.c_str(), m.first, e.c_str());
    }
    state(hash_s(d)); free_frame(&g); for (auto& m : model) { free_frame(&m.second); cleanup_frame(cams, m.first); }
}
