/* C08: every call that reads or writes leaves no file open and, after freeing what it returned, no memory allocated. */
#include "scene.h"
#include <functional>
using namespace mc; using trk::Par; using std::vector; using std::string; using ref::V;
static const unsigned ALL = 15;
struct File { string name, text; };
struct Op { string name; vector<File> in; vector<string> out; std::function<void()> run; };
static string join(const vector<string>& v) { string r; for (auto& x : v) r += x + "\n"; return r; }
static string targets_text(int n) { string s = strf("%d\n", n); for (int i = 0; i < n; i++) s += strf("%4d %9.4f %9.4f %5d %5d %5d %5d %5d\n", i, 10. + i, 20. + 3 * i, 9, 3, 3, 99, -1); return s; }
static string rt(int n) { string s = strf("%d\n", n); for (int i = 0; i < n; i++) s += strf("%4d %9.3f %9.3f %9.3f %4d %4d %4d %4d\n", i + 1, 1. + i, 2. + i, 3. + i, 0, 1, 0, -1); return s; }
static string lt(int n, bool prio) { string s = strf("%d\n", n); for (int i = 0; i < n; i++) s += strf("%4d %4d %10.3f %10.3f %10.3f%s\n", -1, -2, 1. + i, 2. + i, 3. + i, prio ? " 4" : ""); return s; }
static const char* ORI = "10.5 -3 100\n0.1 -0.2 0.3\n\n1 0 0\n0 1 0\n0 0 1\n\n0.1 -0.2\n80\n\n0 0.1 30\n"; static const char* ADD = "0.001 0 0 0 0 1 0\n";
static string block(int n) { string s; for (int i = 0; i < n; i++) s += strf("%d %d %d %d\n", i + 1, 10 * (i % 3), 8 * (i / 3), (i * 7) % 5); return s; }
static Calibration cam() { static Calibration c = ref::camera(0.1, 0.2, 0.05, ref::V(0, 0, 0), 200, 60, ref::V(0, 0, 30)); return c; }
static vector<Op>& ops() {
    static vector<Op> v; if (v.size()) return v;
    auto tb = [] { return vector<Z>{Z("cam1."), Z("cam2.")}; };
    v.push_back({"read targets", {{"cam1.0005_targets", targets_text(4)}}, {}, [] { target t[64]; read_targets(t, Z("cam1."), 5); }});
    v.push_back({"write targets", {}, {"cam1.0005_targets"}, [] { target t[4]; for (int i = 0; i < 4; i++) t[i] = mk_target(i); write_targets(t, 4, Z("cam1."), 5); }});
    v.push_back({"read particles", {{"rt.5", rt(3)}, {"ptv.5", lt(3, false)}, {"prio.5", lt(3, true)}}, {}, [] { P p[64]; corres c[64]; read_path_frame(c, p, Z("rt"), Z("ptv"), Z("prio"), 5); }});
    v.push_back({"read particles without links", {{"rt.5", rt(3)}}, {}, [] { P p[64]; corres c[64]; read_path_frame(c, p, Z("rt"), nullptr, nullptr, 5); }});
    v.push_back({"write particles", {}, {"rt.5", "ptv.5", "prio.5"}, [] { P p[3]; corres c[3]; for (int i = 0; i < 3; i++) p[i] = mk_path(i), c[i] = mk_cor(i); write_path_frame(c, p, 3, Z("rt"), Z("ptv"), Z("prio"), 5); }});
    v.push_back({"read frame", {{"rt.5", rt(3)}, {"ptv.5", lt(3, false)}, {"prio.5", lt(3, true)}, {"cam1.0005_targets", targets_text(2)}, {"cam2.0005_targets", targets_text(3)}}, {}, [] { frame f; frame_init(&f, 2, 64); Z a("cam1."), b("cam2."); char* t[] = {a, b}; read_frame(&f, Z("rt"), Z("ptv"), Z("prio"), t, 5); free_frame(&f); }});
    v.push_back({"write frame", {}, {"rt.5", "ptv.5", "prio.5", "cam1.0005_targets", "cam2.0005_targets"}, [] { frame f; frame_init(&f, 2, 8); f.num_parts = 2; for (int i = 0; i < 2; i++) { f.path_info[i] = mk_path(i); f.correspond[i] = mk_cor(i); } for (int c = 0; c < 2; c++) { f.num_targets[c] = 2; for (int i = 0; i < 2; i++) f.targets[c][i] = mk_target(i); } Z a("cam1."), b("cam2."); char* t[] = {a, b}; write_frame(&f, Z("rt"), Z("ptv"), Z("prio"), t, 5); free_frame(&f); }});
    v.push_back({"frame window", {{"rt.5", rt(3)}, {"ptv.5", lt(3, false)}, {"prio.5", lt(3, true)}, {"cam1.0005_targets", targets_text(2)}, {"cam2.0005_targets", targets_text(3)}}, {"rt.6", "ptv.6", "prio.6", "cam1.0006_targets", "cam2.0006_targets"}, [] { Z a("rt"), b("ptv"), d("prio"), c1("cam1."), c2("cam2."); char* t[] = {c1, c2}; framebuf fb; fb_init(&fb, 3, 2, 64, a, b, d, t); fb_read_frame_at_end(&fb.base, 5, 1); fb_next(&fb.base); fb_read_frame_at_end(&fb.base, 5, 0); fb_next(&fb.base); fb_write_frame_from_start(&fb.base, 6); fb_prev(&fb.base); fb_free(&fb.base); }});
    v.push_back({"sequence settings", {{"seq.par", "a1\na2\na3\n1\n9\n"}}, {}, [] { auto* p = read_sequence_par(Z("seq.par"), 3); if (p) free_sequence_par(p); }});
    v.push_back({"tracking settings", {{"tra.par", "-1\n1\n-1\n1\n-1\n1\n100\n0.5\n1\n"}}, {}, [] { free(read_track_par(Z("tra.par"))); }});
    v.push_back({"volume settings", {{"cri.par", "-40\n-25\n25\n40\n-24\n26\n.02\n.02\n.02\n.02\n33\n1\n"}}, {}, [] { free(read_volume_par(Z("cri.par"))); }});
    v.push_back({"control settings", {{"ptv.par", "2\ni1\nc1\ni2\nc2\n1\n0\n1\n1280\n1024\n0.01\n0.01\n0\n1\n1.5\n1.3\n5\n"}}, {}, [] { auto* p = read_control_par(Z("ptv.par")); if (p) free_control_par(p); }});
    v.push_back({"detection settings", {{"det.par", "10\n10\n10\n10\n5\n1\n99\n1\n99\n1\n99\n10\n2\n"}}, {}, [] { free(read_target_par(Z("det.par"))); }});
    v.push_back({"write detection settings", {}, {"det2.par"}, [] { target_par t; memset(&t, 0, sizeof t); t.nnmin = 4; write_target_par(&t, Z("det2.par")); }});
    v.push_back({"orientation flags", {{"ori.par", "0\n1\n1\n1\n0\n0\n0\n0\n0\n0\n0\n0\n"}}, {}, [] { free(read_orient_par(Z("ori.par"))); }});
    v.push_back({"matching radius", {{"grid.par", "25\n"}}, {}, [] { read_sortgrid_par(Z("grid.par")); }});
    v.push_back({"manual points", {{"man.par", "1 2 3 4\n5 6 7 8\n"}, {"blk.txt", block(9)}}, {}, [] { vec3d f[4]; read_man_ori_fix(f, Z("blk.txt"), Z("man.par"), 1); }});
    v.push_back({"calibration block", {{"blk.txt", block(7)}}, {}, [] { int n = 0; free(read_calblock(&n, Z("blk.txt"))); }});
    v.push_back({"calibration", {{"c.ori", ORI}, {"c.add", ADD}}, {}, [] { free(read_calibration(Z("c.ori"), Z("c.add"), nullptr)); }});
    v.push_back({"calibration with fallback", {{"c.ori", ORI}, {"fb.add", ADD}}, {}, [] { free(read_calibration(Z("c.ori"), Z("c.add"), Z("fb.add"))); }});
    v.push_back({"orientation file", {{"c.ori", ORI}, {"c.add", ADD}}, {}, [] { Exterior e; Interior i; Glass g; ap_52 a; read_ori(&e, &i, &g, Z("c.ori"), &a, Z("c.add"), nullptr); }});
    v.push_back({"write calibration", {}, {"w.ori", "w.add"}, [] { Calibration c = cam(); write_calibration(&c, Z("w.ori"), Z("w.add")); }});
    v.push_back({"write orientation", {}, {"w.ori"}, [] { Calibration c = cam(); write_ori(c.ext_par, c.int_par, c.glass_par, c.added_par, Z("w.ori"), nullptr); }});
    v.push_back({"filter file", {{"flt.txt", "0.1 0.1 0.1\n0.1 0.2 0.1\n0.1 0.1 0.1\n"}}, {}, [] { Par p; control_par* c = trk::mk_cpar(p); c->imx = c->imy = 8; unsigned char a[64] = {}, b[64] = {}; prepare_image(a, b, 1, 2, Z("flt.txt"), c); prepare_image(a, b, 1, 1, nullptr, c); prepare_image(a, b, 5, 0, nullptr, c); free_control_par(c); }});
    v.push_back({"tracking job", {{"seq.par", "cam1.\ncam2.\n1\n9\n"}, {"tra.par", "-1\n1\n-1\n1\n-1\n1\n100\n0.5\n1\n"}, {"cri.par", "-40\n-25\n25\n40\n-24\n26\n.02\n.02\n.02\n.02\n33\n1\n"}, {"ptv.par", "2\ni1\nc1\ni2\nc2\n1\n0\n1\n1280\n1024\n0.01\n0.01\n0\n1\n1\n1\n1\n"}}, {}, [] { Par p; p.cams = 2; vector<Calibration*> c; for (auto& x : trk::calibs(p)) c.push_back(&x); auto* t = tr_new_legacy(Z("seq.par"), Z("tra.par"), Z("cri.par"), Z("ptv.par"), c.data()); if (t) { tr_free(t); free(t); } }});
    return v;
}
static void prepare(const Op& o) { for (auto& f : o.in) put(f.name, f.text); for (auto& f : o.out) del(f); }
static void tidy(const Op& o) { for (auto& f : o.in) del(f.name); for (auto& f : o.out) del(f); }
/* the outcome: 0 success; then missing / directory / empty / cut after token k / token k corrupted, per input; per output: a directory in its place; device full after k bytes */
static int outcomes(const Op& o) { int n = 1; for (auto& f : o.in) n += 3 + 2 * tokens(f.text).size(); n += o.out.size(); if (o.out.size()) n += 6; return n; }
static string set(const Op& o, int k, long& quota) {
    prepare(o); quota = -1; if (k == 0) return "complete"; k--;
    for (auto& f : o.in) { auto t = tokens(f.text); int m = 3 + 2 * t.size(); if (k >= m) { k -= m; continue; } if (k == 0) { del(f.name); return f.name + " missing"; } if (k == 1) { del(f.name); mkdir(f.name.c_str(), 0777); return f.name + " is a directory"; } if (k == 2) { put(f.name, ""); return f.name + " empty"; } k -= 3; size_t i = k / 2; if (k & 1) { string d = f.text; d.replace(t[i].at, t[i].len, "x"); put(f.name, d); return strf("value %zu of %s corrupted", i, f.name.c_str()); } put(f.name, f.text.substr(0, t[i].at)); return strf("%s cut before value %zu", f.name.c_str(), i); }
    if (k < (int)o.out.size()) { mkdir(o.out[k].c_str(), 0777); return o.out[k] + " is a directory"; } k -= o.out.size(); static const long q[] = {0, 1, 5, 30, 60, 100}; quota = q[k]; return strf("device full after %ld bytes", quota);
}
static void once(const Op& o, int k, string* d = nullptr) { long q; string s = set(o, k, q); if (d) *d += o.name + ": " + s + "; "; if (q >= 0) { Quota z(q); o.run(); } else o.run(); mc::step(); tidy(o); }
static void balance(const std::function<void()>& f, const char* what) { f(); f(); size_t b = live_bytes(); int n = open_files(); f(); f(); long d = (long)(live_bytes() - b); int e = open_files() - n; MC_CHECK(d == 0, "memory", "%s: %ld bytes remain allocated after two calls", what, d); MC_CHECK(e == 0, "files", "%s: %d files remain open after two calls", what, e); }
SCENARIO_N(each, 32, 60) { auto& o = ops()[choose(ops().size())]; int k = choose(outcomes(o)); string d; { long q; d = o.name + ": " + set(o, k, q); tidy(o); } note("%s", d.c_str()); balance([&] { once(o, k); }, d.c_str()); state(hash_s(d)); }
/* all pairs of calls in their coarse outcomes, and triples of the readers and writers of one frame */
static int coarse(const Op& o, int c) { int n = outcomes(o); int t[] = {0, 1, n - 1, n / 2, n / 3}; return t[c]; }
SCENARIO_N(pairs, 64, 60) { auto& a = ops()[choose(ops().size())]; int ka = coarse(a, choose(thorough ? 5 : 3)); auto& b = ops()[choose(ops().size())]; int kb = coarse(b, choose(thorough ? 5 : 3)); string d; { long q; d = a.name + ": " + set(a, ka, q) + "; "; tidy(a); d += b.name + ": " + set(b, kb, q); tidy(b); } note("%s", d.c_str()); balance([&] { once(a, ka); once(b, kb); }, d.c_str()); state(hash_s(d)); }
SCENARIO_N(failed_pairs, 64, 60) { /* two things wrong at once in the calls that use several files */
    vector<int> multi; for (size_t i = 0; i < ops().size(); i++) if (ops()[i].in.size() + ops()[i].out.size() > 1) multi.push_back(i); auto& o = ops()[pick(multi)]; vector<string> all; for (auto& f : o.in) all.push_back(f.name); for (auto& f : o.out) all.push_back(f); vector<int> st; string d; for (size_t i = 0; i < all.size(); i++) { int s = choose(i < o.in.size() ? 4 : 2); st.push_back(s); d += strf(" %s:%s", all[i].c_str(), (const char*[]){"good", "no file", "empty", "cut"}[s]); } note("%s%s", o.name.c_str(), d.c_str());
    auto f = [&] { prepare(o); for (size_t i = 0; i < all.size(); i++) { if (st[i] == 0) continue; if (i >= o.in.size()) { mkdir(all[i].c_str(), 0777); continue; } if (st[i] == 1) del(all[i]); else if (st[i] == 2) put(all[i], ""); else put(all[i], o.in[i].text.substr(0, o.in[i].text.size() * 2 / 3)); } o.run(); mc::step(); tidy(o); }; balance(f, (o.name + d).c_str()); state(hash_s(o.name + d));
}
/* what is done with the data that was read */
SCENARIO_N(work, 32, 60) {
    int kind = choose(8), n = choose(6), cams = 2 + choose(3), v = choose(4); Par p; p.cams = cams; p.last = p.first + 1 + v; p.add = v & 1; note("work %d on %d items with %d cameras, variant %d", kind, n, cams, v); const char* what[] = {"tracking", "tracking backward", "correspondences", "orientation", "matching of known points", "detection", "refraction table", "position"}; vector<trk::RF> fr; for (int t = 0; t < 6; t++) { trk::Frame f; for (int i = 0; i < n; i++) f.push_back({V(-4 + 2 * i, i % 3, 0.3 * i) + (double)t * V(0.4, 0.1, -0.1), ALL, (i + t) % 4 != 3}); fr.push_back(trk::build(p, f)); }
    auto f = [&] {
        if (kind < 2) { for (int t = 0; t < 6; t++) trk::write_frame_files(p, fr[t], p.first + t); vector<Calibration*> cp; auto* tr = trk::mk_run(p, cp); track_forward_start(tr); for (int s = p.first; s < p.last; s++) trackcorr_c_loop(tr, s); trackcorr_c_finish(tr, p.last); if (kind == 1) trackback_c(tr); tr_free(tr); free(tr); trk::clean(p, 0, 10); }
        else if (kind == 2) { auto* cp = trk::mk_cpar(p); auto* vp = trk::mk_vpar(p); frame F; frame_init(&F, cams, 32); vector<vector<coord_2d>> co(cams); coord_2d* cr[4]; vector<Calibration*> c; for (auto& x : trk::calibs(p)) c.push_back(&x); for (int k = 0; k < cams; k++) { auto& t = fr[0].t[k]; F.num_targets[k] = t.size(); for (size_t i = 0; i < t.size(); i++) { F.targets[k][i] = t[i]; coord_2d q; q.pnr = i; double x, y; pixel_to_metric(&x, &y, t[i].x, t[i].y, cp); q.x = x; q.y = y; co[k].push_back(q); } co[k].push_back({}); quicksort_coord2d_x(co[k].data(), t.size()); cr[k] = co[k].data(); } int mcnt[8] = {}; vp->eps0 = 0.01 + v; free(correspondences(&F, cr, vp, cp, c.data(), mcnt)); free_frame(&F); free(vp); free_control_par(cp); }
        else if (kind == 3) { auto* cp = trk::mk_cpar(p); Calibration c = trk::calibs(p)[0]; vector<double> fx; vec3d fix[16]; target px[16]; int m = 3 + 2 * n; for (int i = 0; i < m; i++) { fix[i][0] = 6 * (i % 3) - 5; fix[i][1] = 5 * (i / 3) - 6; fix[i][2] = (i * 5) % 7; memset(&px[i], 0, sizeof px[i]); px[i].pnr = i; double x, y; img_coord(fix[i], &c, cp->mm, &x, &y); metric_to_pixel(&px[i].x, &px[i].y, x, y, cp); } c.ext_par.x0 += v == 3 ? 400 : 0.3 * v; rotation_matrix(&c.ext_par); orient_par fl; memset(&fl, 0, sizeof fl); fl.ccflag = n & 1; double sg[20]; free(orient(&c, cp, m, fix, px, &fl, sg)); raw_orient(&c, cp, 4, fix, px); free_control_par(cp); }
        else if (kind == 4) { auto* cp = trk::mk_cpar(p); Calibration c = trk::calibs(p)[0]; vec3d fix[8]; for (int i = 0; i < n; i++) { fix[i][0] = 3 * i; fix[i][1] = i; fix[i][2] = 0; } vector<target> t = fr[0].t[0]; int m = t.size(); t.push_back(mk_target(0)); free(sortgrid(&c, cp, n, fix, m, 5 * v, t.data())); free_control_par(cp); }
        else if (kind == 5) { auto* cp = trk::mk_cpar(p); cp->imx = cp->imy = 16; unsigned char im[256]; for (int i = 0; i < 256; i++) im[i] = (i * 37 * (n + 1)) % 97; target_par t; memset(&t, 0, sizeof t); t.gvthres[0] = 20 * v; t.discont = 30; t.nnmax = t.nxmax = t.nymax = 99; t.nnmin = t.nxmin = t.nymin = 1; target out[512]; targ_rec(im, &t, 0, 16, 0, 16, cp, 0, out); peak_fit(im, &t, 0, 16, 0, 16, cp, 0, out); free_control_par(cp); }
        else if (kind == 6) { Par q = p; q.glass = true; auto* cp = trk::mk_cpar(q); auto* vp = trk::mk_vpar(q); Calibration c = trk::calibs(q)[0]; c.mmlut.data = NULL; init_mmlut(vp, cp, &c); free(c.mmlut.data); free(vp); free_control_par(cp); }
        else { auto* cp = trk::mk_cpar(p); vec2d t[4]; vector<Calibration*> c; for (auto& x : trk::calibs(p)) c.push_back(&x); for (int i = 0; i < 4; i++) t[i][0] = t[i][1] = i < n ? 0.5 * v : COORD_UNUSED; vec3d r; point_position(t, cams, cp->mm, c.data(), r); vec2d* tt[2] = {t, t}; weighted_dumbbell_precision(tt, 2, cams, cp->mm, c.data(), 5, 1); free_control_par(cp); }
        mc::step(); };
    balance(f, what[kind]); state(hash_v(kind * 1000 + n * 100 + cams * 10 + v));
}
