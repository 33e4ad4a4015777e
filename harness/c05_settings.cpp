/* C05: settings files are read exactly or refused. */
#include "io.h"
using namespace mc;

enum Kind { SEQ, TRACK, VOL, CTRL, TARG, ORI, GRID, MAN, KINDS };
static const char* KN[] = {"sequence", "tracking", "volume", "control", "detection", "orientation flags", "matching radius", "manual points"};
/* field types in file order: s name, i integer, d real */
static std::string layout(int k, int cams) {
    std::string r;
    switch (k) {
        case SEQ: return std::string(cams, 's') + "ii"; case TRACK: return "ddddddddi"; case VOL: return std::string(12, 'd');
        case CTRL: r = "c"; for (int i = 0; i < cams; i++) r += "ss"; return r + "iiiiiddidddd";
        case TARG: return std::string(13, 'i'); case ORI: return std::string(12, 'i'); case GRID: return "i"; default: return std::string(4 * cams, 'i');
    }
}
static std::string value(char t, int i, int cams) { return t == 's' ? strf("img/cam%d.%d", i, i + 5) : t == 'c' ? strf("%d", cams) : t == 'i' ? strf("%d", 10 + i) : strf("%d.%d25", i - 3, i); }
static std::vector<std::string> base(int k, int cams) { std::vector<std::string> v; std::string l = layout(k, cams); for (size_t i = 0; i < l.size(); i++) v.push_back(value(l[i], i, cams)); return v; }
static std::string join(const std::vector<std::string>& v, const char* sep) { std::string r; for (auto& s : v) r += s + sep; return r; }
struct Got { bool ok; std::vector<std::string> s; std::vector<double> d; };   /* in file order */
static Got read_kind(int k, int cams, const char* name) {
    Got g; g.ok = false; Z f(name); auto N = [&](double d) { g.d.push_back(d); g.s.push_back(""); }; auto S = [&](char* c) { g.d.push_back(0); g.s.push_back(std::string(c, strnlen(c, SEQ_FNAME_MAX_LEN))); };
    switch (k) {
        case SEQ: { auto* p = read_sequence_par(f, cams); if (!p) break; g.ok = true; MC_CHECK(p->num_cams == cams, "count", "sequence for %d cameras reports %d", cams, p->num_cams); for (int c = 0; c < cams; c++) S(p->img_base_name[c]); N(p->first); N(p->last); free_sequence_par(p); break; }
        case TRACK: { auto* p = read_track_par(f); if (!p) break; g.ok = true; N(p->dvxmin); N(p->dvxmax); N(p->dvymin); N(p->dvymax); N(p->dvzmin); N(p->dvzmax); N(p->dangle); N(p->dacc); N(p->add); MC_CHECK(!p->dsumg && !p->dn && !p->dnx && !p->dny, "extra", "tracking settings: similarity limits not in the file are not zero"); free(p); break; }
        case VOL: { auto* p = read_volume_par(f); if (!p) break; g.ok = true; N(p->X_lay[0]); N(p->Zmin_lay[0]); N(p->Zmax_lay[0]); N(p->X_lay[1]); N(p->Zmin_lay[1]); N(p->Zmax_lay[1]); N(p->cnx); N(p->cny); N(p->cn); N(p->csumg); N(p->corrmin); N(p->eps0); free(p); break; }
        case CTRL: { auto* p = read_control_par(f); if (!p) break; g.ok = true; N(p->num_cams); for (int c = 0; c < p->num_cams; c++) { S(p->img_base_name[c]); S(p->cal_img_base_name[c]); }
            N(p->hp_flag); N(p->allCam_flag); N(p->tiff_flag); N(p->imx); N(p->imy); N(p->pix_x); N(p->pix_y); N(p->chfield); N(p->mm->n1); N(p->mm->n2[0]); N(p->mm->n3); N(p->mm->d[0]); MC_CHECK(p->mm->nlay == 1, "extra", "control settings: %d layers", p->mm->nlay); free_control_par(p); break; }
        case TARG: { auto* p = read_target_par(f); if (!p) break; g.ok = true; for (int i = 0; i < 4; i++) N(p->gvthres[i]); N(p->discont); N(p->nnmin); N(p->nnmax); N(p->nxmin); N(p->nxmax); N(p->nymin); N(p->nymax); N(p->sumg_min); N(p->cr_sz); free(p); break; }
        case ORI: { auto* p = read_orient_par(f); if (!p) break; g.ok = true; unsigned v[] = {p->useflag, p->ccflag, p->xhflag, p->yhflag, p->k1flag, p->k2flag, p->k3flag, p->p1flag, p->p2flag, p->scxflag, p->sheflag, p->interfflag}; for (unsigned x : v) N((int)x); free(p); break; }
        case GRID: { int e = read_sortgrid_par(f); if (e) { g.ok = true; N(e); } break; }
    }
    step(); return g;
}
static std::string want(int k, int cams, const std::string& l, const std::vector<std::string>& v, const Got& g) {
    if (!g.ok) return "refused";
    if (g.d.size() != l.size()) return strf("%zu values instead of %zu", g.d.size(), l.size());
    for (size_t i = 0; i < l.size(); i++) if (l[i] == 's' ? g.s[i] != v[i] : g.d[i] != strtod(v[i].c_str(), nullptr)) return strf("value %zu is %s%.17g instead of %s", i, g.s[i].c_str(), g.d[i], v[i].c_str());
    return "";
}
static const std::vector<std::string> INTS = {"0", "1", "-1", "7", "+12", "007", "99999", "2147483647", "-2147483648"};
static const std::vector<std::string> REALS = {"0", "-0.0", "1", "-1.5", "0.001", "1e-3", "1.25E+4", "123456.789", "-.5", "5.", "+2.75", "1e300", "4.9e-7"};
static const std::vector<std::string> NAMES = {"a", "img/cam1.", "./x_y-z", "0", "12", "1.5", "cam%d", "\xc3\xa9t\xc3\xa9"};
static std::vector<std::string> alphabet(char t) { return t == 's' ? NAMES : t == 'd' ? REALS : INTS; }
static std::string desc(int k, int cams) { return strf("%s settings%s", KN[k], k == SEQ || k == CTRL ? strf(" (%d cameras)", cams).c_str() : ""); }

SCENARIO(values) {
    int k = choose(MAN), cams = k == SEQ || k == CTRL ? 1 + choose(4) : 1; std::string l = layout(k, cams); auto v = base(k, cams);
    int a = choose(l.size()); if (l[a] != 'c') v[a] = pick(alphabet(l[a])); int b = choose(l.size()); if (b != a && l[b] != 'c') v[b] = pick(alphabet(l[b]));
    if (k == GRID && atoi(v[0].c_str()) == 0) return;   /* a radius of zero is indistinguishable from a failure */
    const char* sep = pick({"\n", " \n", "\r\n", "\n\n"}); put("f.par", join(v, sep)); note("%s: %s", desc(k, cams).c_str(), join(v, " ").c_str());
    Got g = read_kind(k, cams, "f.par"); std::string e = want(k, cams, l, v, g); MC_CHECK(e.empty(), "values", "%s with value %d=%s, %d=%s: %s", desc(k, cams).c_str(), a, v[a].c_str(), b, v[b].c_str(), e.c_str());
    state(hash_s(join(v, " "), k));
}
SCENARIO(without_final_newline) {
    int k = choose(MAN), cams = k == SEQ || k == CTRL ? 1 + choose(4) : 1; std::string l = layout(k, cams), d = join(base(k, cams), "\n"); d += pick({"", "\n", " ", "extra text\n", "5\n"}); if (!choose(2)) { auto t = tokens(join(base(k, cams), "\n")); d = d.substr(0, t.back().at + t.back().len); }
    put("f.par", d); std::string e = want(k, cams, l, base(k, cams), read_kind(k, cams, "f.par")); MC_CHECK(e.empty(), "values", "%s: %s", desc(k, cams).c_str(), e.c_str()); state(hash_s(d, k));
}
/* every crash point of whoever wrote the file */
SCENARIO(cut) {
    int k = choose(MAN), cams = k == SEQ || k == CTRL ? 1 + choose(4) : 1; std::string l = layout(k, cams); auto v = base(k, cams); std::string d = join(v, pick({"\n", "  \n"})); size_t at = choose(d.size()); int dirt = choose(2);
    put("f.par", d.substr(0, at)); if (dirt) dirty_stack(0x31);
    auto t = tokens(d.substr(0, at)); bool must = t.size() < v.size(), exact = !must && t.back().s == v.back();
    Got g = read_kind(k, cams, "f.par"); MC_CHECK(!(must && g.ok), "cut", "%s cut after %zu bytes, %zu of %zu values left: read as valid", desc(k, cams).c_str(), at, t.size(), v.size());
    if (exact) { std::string e = want(k, cams, l, v, g); MC_CHECK(e.empty(), "cut", "%s cut after %zu bytes with all values present: %s", desc(k, cams).c_str(), at, e.c_str()); }
    state(hash_v(at, k * 10 + cams));
}
SCENARIO(bad_value) {
    int k = choose(MAN), cams = k == SEQ || k == CTRL ? 1 + choose(4) : 1; std::string l = layout(k, cams); auto v = base(k, cams); int a = choose(l.size()); if (l[a] == 's') return;
    v[a] = pick({"abc", "*", "--3", "e5", "#7", "x"}); put("f.par", join(v, "\n")); Got g = read_kind(k, cams, "f.par");
    MC_CHECK(!g.ok, "bad", "%s with value %d replaced by \"%s\": read as valid", desc(k, cams).c_str(), a, v[a].c_str()); state(hash_v(a, k * 10 + cams));
}
SCENARIO(missing) {
    int k = choose(MAN), cams = 1 + choose(4), how = choose(3); del("f.par"); if (how == 1) put("f.par", ""); if (how == 2) put("f.par", "\n\n");
    Got g = read_kind(k, cams, "f.par"); MC_CHECK(!g.ok, "missing", "%s from a %s file: read as valid", desc(k, cams).c_str(), how ? "empty" : "missing"); state(k * 100 + cams * 10 + how);
}
/* image names of every length around the program's limit */
SCENARIO(long_names) {
    int k = pick({SEQ, CTRL}), cams = 1 + choose(3); std::string l = layout(k, cams); auto v = base(k, cams); std::vector<int> pos; for (size_t i = 0; i < l.size(); i++) if (l[i] == 's') pos.push_back(i);
    int a = pick(pos), len = pick({1, 100, 200, 237, 238, 239, 240, 241, 255, 256, 300, 1000}); v[a] = std::string(len, 'n'); put("f.par", join(v, "\n")); Got g = read_kind(k, cams, "f.par"); std::string e = want(k, cams, l, v, g);
    MC_CHECK(e.empty() || (len > 239 && !g.ok), "names", "%s with an image name of %d characters: %s", desc(k, cams).c_str(), len, e.c_str()); state(len * 10 + cams);
}
/* detection settings stored and read back; fields that are equal in file and memory */
SCENARIO(detection_trip) {
    target_par t, *r; int* f = (int*)&t; enum { NF = sizeof(target_par) / sizeof(int) }; for (int i = 0; i < NF; i++) f[i] = 3 * i + 1;
    std::vector<int> al = {0, 1, -1, 255, 65535, INT_MAX, INT_MIN}; int a = choose(NF); f[a] = pick(al); int b = choose(NF); if (b != a) f[b] = pick(al); if (choose(2)) put("f.par", std::string(2000, '9'));
    write_target_par(&t, Z("f.par")); r = read_target_par(Z("f.par")); step(2); MC_CHECK(r, "trip", "detection settings written do not read back"); bool same = compare_target_par(&t, r); int* q = (int*)r; bool eq = true; for (int i = 0; i < NF; i++) eq = eq && q[i] == f[i]; free(r);
    MC_CHECK(same && eq, "trip", "detection settings change in a round trip (fields %d, %d)", a, b); state(hash(f, sizeof t)); del("f.par");
}
SCENARIO1(detection_unwritable) { target_par t; memset(&t, 0, sizeof t); del("d"); mkdir("d", 0777); write_target_par(&t, Z("d")); write_target_par(&t, Z("no/such/dir")); step(2); rmdir("d"); state(1); }
/* manually selected points: ids from one line per camera, positions from the block file */
SCENARIO(manual_points) {
    int cams = 1 + choose(4), cam = choose(cams), n = pick({3, 4, 5, 8}); std::string ids, block; std::vector<int> id;
    int perm = choose(6), missing = choose(3);  /* missing: 1 refers to a point that does not exist */
    for (int c = 0; c < cams; c++) for (int i = 0; i < 4; i++) { int x = 1 + (i * (perm % 2 ? 3 : 1) + c + perm) % std::max(4, n); if (missing && c == cam && i == 2) x = missing == 1 ? n + 5 : 0; if (c == cam) id.push_back(x); ids += strf("%d ", x) + (i == 3 ? "\n" : ""); }
    for (int i = 0; i < n; i++) block += strf("%d %d.5 %d.25 %d\n", i + 1, i, 2 * i, -i);
    int cutid = choose(3); size_t keep = ids.size(); if (cutid) { auto t = tokens(ids); keep = cutid == 1 ? t[4 * cam + 3].at : t[4 * cam].at; }
    put("man", ids.substr(0, keep)); put("block", block); vec3d fix[4]; for (auto& f : fix) vec_set(f, -7, -7, -7); dirty_stack(1);
    int r = read_man_ori_fix(fix, Z("block"), Z("man"), cam); step(); bool good = !cutid && n >= 4; int have = 0; for (int i = 0; i < 4; i++) have += id[i] >= 1 && id[i] <= n;
    std::string d = strf("camera %d of %d, ids %d %d %d %d of %d points%s", cam, cams, id[0], id[1], id[2], id[3], n, cutid ? ", file cut short" : "");
    if (!good) MC_CHECK(r < 4, "manual", "%s: success reported", d.c_str());
    else { MC_CHECK((r == 4) == (have == 4), "manual", "%s: %d points reported", d.c_str(), r); for (int i = 0; i < 4; i++) if (id[i] >= 1 && id[i] <= n) MC_CHECK(fix[i][0] == id[i] - 1 + 0.5 && fix[i][1] == 2 * (id[i] - 1) + 0.25 && fix[i][2] == -(id[i] - 1), "manual", "%s: point %d at %g %g %g", d.c_str(), i, fix[i][0], fix[i][1], fix[i][2]); }
    state(hash_s(d, r));
}
SCENARIO1(manual_missing) {
    int how = choose(3); vec3d fix[4]; put("man", "1 2 3 4\n"); put("block", "1 0 0 0\n2 1 1 1\n3 2 2 2\n4 3 3 3\n"); if (how == 0) del("man"); if (how == 1) del("block"); if (how == 2) put("block", "1 0 0 0\n2 1 1 1\n");
    int r = read_man_ori_fix(fix, Z("block"), Z("man"), 0); step(); MC_CHECK(r < 4, "manual", "manual points with file %d missing: success", how); state(how);
}
