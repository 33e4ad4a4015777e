/* synthetic tracking jobs and an independent model of one tracking step.
 *
 * A scene is a list of frames; a frame is a list of items (a point, the cameras
 * that see it, and whether it is a known particle or only a set of unused
 * targets).  The files of the scene are written by this header, the real
 * library tracks them, and the model below states step by step which links,
 * particles and targets must result: candidates are found by brute force, costs
 * come from the documented formula, conflicts go to the lower cost.  When a
 * decision is closer than the arithmetic can tell, `amb` is set and the
 * execution is not compared further. */
#pragma once
#include <map>
#include <set>
#include "ref.h"
#include "io.h"
namespace trk {
using ref::V; using std::vector; using std::string;
struct Item { V x; unsigned cams; bool known; };
typedef vector<Item> Frame;
struct Par { double dv = 1.5, dacc = 0.9, dangle = 120; int add = 0; int first = 1, last = 4; int cap = 24; int cams = 3; bool glass = false; double dvlo = 0; V sc = V(1, 1, 1); /* limits per axis */ bool box = false; /* a small volume */ vector<double> vol; /* X_lay, y, Zmin_lay, Zmax_lay */ V lo() const { double l = dvlo ? dvlo : -dv; return V(l * sc.x, l * sc.y, l * sc.z); } V hi() const { return V(dv * sc.x, dv * sc.y, dv * sc.z); } };
inline const char* CN = "rt"; inline const char* LN = "ptv"; inline const char* AN = "prio";

static vector<Calibration>& calibs(const Par& p) {
    static std::map<int, vector<Calibration>> memo; int key = p.cams * 2 + p.glass; auto& v = memo[key]; if (v.size()) return v;
    double A[4][3] = {{0.25, 0.3, 0.05}, {0.28, -0.3, 0.4}, {-0.3, 0.22, -1.2}, {-0.25, -0.28, 2.9}}; for (int i = 0; i < p.cams; i++) v.push_back(ref::camera(A[i][0], A[i][1], A[i][2], V(0, 0, 0), 180 + 15 * i, 40 + 3 * i, V(0, 0, 30))); return v;
}
static control_par* mk_cpar(const Par& p) { control_par* c = new_control_par(p.cams); for (int i = 0; i < p.cams; i++) { snprintf(c->img_base_name[i], 200, "cam%d.", i + 1); snprintf(c->cal_img_base_name[i], 200, "cal%d", i + 1); } c->hp_flag = 1; c->allCam_flag = 0; c->tiff_flag = 1; c->imx = 1280; c->imy = 1024; c->pix_x = 0.01; c->pix_y = 0.011; c->chfield = 0; *c->mm = p.glass ? ref::media(1, 1.46, 1.33, 5) : ref::media(1, 1, 1, 1); return c; }
static sequence_par* mk_spar(const Par& p) { sequence_par* s = new_sequence_par(p.cams); for (int i = 0; i < p.cams; i++) snprintf(s->img_base_name[i], 200, "cam%d.", i + 1); s->first = p.first; s->last = p.last; return s; }
static track_par* mk_tpar(const Par& p) { track_par* t = (track_par*)calloc(1, sizeof(track_par)); V lo = p.lo(), hi = p.hi(); t->dvxmin = lo.x; t->dvymin = lo.y; t->dvzmin = lo.z; t->dvxmax = hi.x; t->dvymax = hi.y; t->dvzmax = hi.z; t->dacc = p.dacc; t->dangle = p.dangle; t->add = p.add; return t; }
static volume_par* mk_vpar(const Par&) { volume_par* v = (volume_par*)calloc(1, sizeof(volume_par)); v->X_lay[0] = -40; v->X_lay[1] = 40; v->Zmin_lay[0] = v->Zmin_lay[1] = -25; v->Zmax_lay[0] = v->Zmax_lay[1] = 25; v->cn = v->cnx = v->cny = v->csumg = 0; v->corrmin = 33; v->eps0 = 0.1; return v; }
static tracking_run* mk_run(const Par& p, vector<Calibration*>& ptr) { ptr.clear(); for (auto& c : calibs(p)) ptr.push_back(&c); tracking_run* r = tr_new(mk_spar(p), mk_tpar(p), mk_vpar(p), mk_cpar(p), 4, p.cap, (char*)CN, (char*)LN, (char*)AN, ptr.data(), 1e-4); if (p.box && r) { volume_par* v = r->vpar; v->X_lay[0] = -0.2; v->X_lay[1] = 1.5; r->ymin = -0.9; r->ymax = -0.2; v->Zmin_lay[0] = -0.4; v->Zmin_lay[1] = -0.1; v->Zmax_lay[0] = 0.2; v->Zmax_lay[1] = 0.5; } if (p.vol.size() && r) { volume_par* v = r->vpar; for (int i = 0; i < 2; i++) { v->X_lay[i] = p.vol[i]; v->Zmin_lay[i] = p.vol[4 + i]; v->Zmax_lay[i] = p.vol[6 + i]; } r->ymin = p.vol[2]; r->ymax = p.vol[3]; } return r; }

/* ---- input files ---- */
struct RP { V x; int p[4]; int prev = -1, next = -2; float fin = 1e6; vector<std::pair<float, int>> cand; bool added = false; };
struct RF { int count = 0; vector<RP> parts; vector<target> t[4]; bool read = false; };
static double rnd(double v, const char* f) { char b[64]; snprintf(b, 64, f, v); return atof(b); }
static RF build(const Par& p, const Frame& f) {
    static std::map<int, control_par*> cps; auto*& cp = cps[p.cams * 2 + p.glass]; if (!cp) cp = mk_cpar(p); RF r; vector<Calibration>& cal = calibs(p); r.read = true; vector<vector<std::pair<int, target>>> tt(4); int np = 0; vector<int> pn;
    for (auto& it : f) { pn.push_back(it.known ? np++ : -1); if (it.known) { RP q; q.x = V(rnd(it.x.x, "%.3f"), rnd(it.x.y, "%.3f"), rnd(it.x.z, "%.3f")); for (int k = 0; k < 4; k++) q.p[k] = -1; r.parts.push_back(q); } }
    for (int c = 0; c < p.cams; c++) { vector<std::pair<target, int>> v; for (size_t i = 0; i < f.size(); i++) { if (!(f[i].cams >> c & 1)) continue; double x, y; if (!ref::project(cal[c], *cp->mm, f[i].x, x, y)) continue; double px = x / cp->pix_x + cp->imx / 2.0, py = cp->imy / 2.0 - y / cp->pix_y; if (px < 1 || py < 1 || px > cp->imx - 2 || py > cp->imy - 2) continue; target t; memset(&t, 0, sizeof t); t.x = rnd(px, "%.4f"); t.y = rnd(py, "%.4f"); t.n = 20 + i; t.nx = 5; t.ny = 6; t.sumg = 900 + i; t.tnr = pn[i]; v.push_back({t, (int)i}); }
        std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first.y < b.first.y; }); for (size_t k = 0; k < v.size(); k++) { v[k].first.pnr = k; r.t[c].push_back(v[k].first); if (pn[v[k].second] >= 0) r.parts[pn[v[k].second]].p[c] = k; } }
    r.count = np ? np : -1; /* a frame without particles is not readable (known finding of C02) */ return r;
}
static string rt_text(const RF& f) { string s = strf("%d\n", f.count); int i = 0; for (auto& q : f.parts) s += strf("%4d %9.3f %9.3f %9.3f %4d %4d %4d %4d\n", ++i, q.x.x, q.x.y, q.x.z, q.p[0], q.p[1], q.p[2], q.p[3]); return s; }
static string ptv_text(const RF& f) { string s = strf("%d\n", f.count); for (auto& q : f.parts) s += strf("%4d %4d %10.3f %10.3f %10.3f\n", q.prev, q.next, q.x.x, q.x.y, q.x.z); return s; }
static string prio_text(const RF& f) { string s = strf("%d\n", f.count); for (auto& q : f.parts) s += strf("%4d %4d %10.3f %10.3f %10.3f %d\n", q.prev, q.next, q.x.x, q.x.y, q.x.z, q.added ? PRIO_DEFAULT : 4); return s; }
static string t_text(const vector<target>& v) { string s = strf("%zu\n", v.size()); for (auto& t : v) s += strf("%4d %9.4f %9.4f %5d %5d %5d %5d %5d\n", t.pnr, t.x, t.y, t.n, t.nx, t.ny, t.sumg, t.tnr); return s; }
static string tname(int cam, int fr) { if (fr == 0) return strf("cam%d._targets", cam + 1); return strf("cam%d.%04d_targets", cam + 1, fr); }
static void write_frame_files(const Par& p, const RF& f, int fr) { put(strf("%s.%d", CN, fr), rt_text(f)); for (int c = 0; c < p.cams; c++) put(tname(c, fr), t_text(f.t[c])); }
static void clean(const Par& p, int lo, int hi) { for (int f = lo; f <= hi; f++) { for (auto n : {CN, LN, AN}) del(strf("%s.%d", n, f)); for (int c = 0; c < 4; c++) del(tname(c, f)); } }

/* ---- frames served from memory (through the buffer's own function table) ---- */
struct Mem { std::map<int, RF> in; struct Put { int frame; RF f; }; vector<Put> out; vector<int> reads; };
static std::map<const framebuf_base*, Mem*> mems;
static void load(frame* f, const RF* r, int links) {
    f->num_parts = r ? r->count : -1; for (int c = 0; c < f->num_cams; c++) f->num_targets[c] = 0; if (!r) return;
    for (int i = 0; i < r->count; i++) { ::P& q = f->path_info[i]; const RP& s = r->parts[i]; q.x[0] = s.x.x; q.x[1] = s.x.y; q.x[2] = s.x.z; q.prev = links ? s.prev : -1; q.next = links ? s.next : -2; q.prio = 4; q.inlist = 0; q.finaldecis = 1e6; for (int k = 0; k < POSI; k++) { q.decis[k] = 0; q.linkdecis[k] = -999; } f->correspond[i].nr = i + 1; for (int c = 0; c < 4; c++) f->correspond[i].p[c] = s.p[c]; }
    for (int c = 0; c < f->num_cams; c++) { f->num_targets[c] = r->t[c].size(); for (size_t k = 0; k < r->t[c].size(); k++) f->targets[c][k] = r->t[c][k]; }
}
static RF store(const frame* f) {
    RF r; r.count = f->num_parts; r.read = true; for (int i = 0; i < f->num_parts; i++) { RP q; q.x = V(f->path_info[i].x); q.prev = f->path_info[i].prev; q.next = f->path_info[i].next; for (int c = 0; c < 4; c++) q.p[c] = f->correspond[i].p[c]; r.parts.push_back(q); }
    for (int c = 0; c < f->num_cams; c++) r.t[c].assign(f->targets[c], f->targets[c] + f->num_targets[c]); return r;
}
static int mem_read(framebuf_base* b, int n, int links) { Mem* mem = mems[b]; mem->reads.push_back(n); auto it = mem->in.find(n); load(b->buf[b->buf_len - 1], it == mem->in.end() ? nullptr : &it->second, links); return it != mem->in.end(); }
static int mem_write(framebuf_base* b, int n) { Mem* mem = mems[b]; mem->out.push_back({n, store(b->buf[0])}); return 1; }
static void in_memory(tracking_run* r, Mem* m) { mems[r->fb] = m; r->fb->_vptr->read_frame_at_end = mem_read; r->fb->_vptr->write_frame_from_start = mem_write; }

/* ---- the model ---- */
struct Model {
    Par P; tracking_run* tr; RF b[4]; bool amb = false; int npart = 0, nlinks = 0, counted = 0; vector<Calibration>& cal; static constexpr double M = 1e-6;
    Model(const Par& p, tracking_run* r) : P(p), tr(r), cal(calibs(p)) {}
    bool lt(double a, double b2, double m = M) { if (fabs(a - b2) < m) amb = true; return a < b2; }
    void pix(V x, int c, double& px, double& py) { vec3d p = {x.x, x.y, x.z}; vec2d o; point_to_pixel(o, p, &cal[c], tr->cpar); px = o[0]; py = o[1]; }
    V lo() const { return P.lo(); } V hi() const { return P.hi(); } double diag() const { return ref::len(hi() - lo()); }
    bool inb(V d) { bool r = true; V l = lo(), u = hi(); double D[3][3] = {{l.x, d.x, u.x}, {l.y, d.y, u.y}, {l.z, d.z, u.z}}; for (auto& e : D) { if (!lt(e[0], e[1], 1e-9)) r = false; if (!lt(e[1], e[2], 1e-9)) r = false; } return r; }
    void motion(V start, V pred, V cand, double& ang, double& acc) { V v0 = pred - start, v1 = cand - start; acc = ref::len(v0 - v1); ang = ref::len(v0) == 0 || ref::len(v1) == 0 ? 0 : 200 / M_PI * atan2(ref::len(ref::cross(v0, v1)), ref::dot(v0, v1)); }
    bool okay(double ang, double acc) { bool a = lt(acc, P.dacc, 1e-7), g = lt(ang, P.dangle, 1e-5), s = lt(acc, P.dacc / 10, 1e-7); return (a && g) || s; }
    struct C { int id, freq; };
    /* known particles seen in the projected box around centre */
    vector<C> candidates(V centre, const double (*proj)[2], const RF& f) {
        vector<int> order; std::map<int, int> freq; double imx = tr->cpar->imx, imy = tr->cpar->imy;
        for (int c = 0; c < P.cams; c++) {
            double xl = imx, xr = 0, yu = imy, yd = 0, cx, cy; pix(centre, c, cx, cy);
            for (int k = 0; k < 8; k++) { double x, y; V q = centre + V(k & 1 ? hi().x : lo().x, k & 2 ? hi().y : lo().y, k & 4 ? hi().z : lo().z); pix(q, c, x, y); xl = std::min(xl, x); xr = std::max(xr, x); yu = std::min(yu, y); yd = std::max(yd, y); }
            xl = std::max(xl, 0.0); yu = std::max(yu, 0.0); xr = std::min(xr, imx); yd = std::min(yd, imy); double X = proj[c][0], Y = proj[c][1], x0 = std::max(0.0, X - (cx - xl)), x1 = std::min(imx, X + (xr - cx)), y0 = std::max(0.0, Y - (cy - yu)), y1 = std::min(imy, Y + (yd - cy));
            if (X < 0 || X > imx || Y < 0 || Y > imy) continue; vector<std::pair<double, int>> in;
            for (auto& t : f.t[c]) { if (t.tnr == -1) continue; bool a = lt(x0, t.x), b2 = lt(t.x, x1), c2 = lt(y0, t.y), d = lt(t.y, y1); if (a && b2 && c2 && d) in.push_back({hypot(t.x - X, t.y - Y), t.tnr}); }
            std::sort(in.begin(), in.end()); for (size_t i = 1; i < in.size() && i < 5; i++) if (in[i].first - in[i - 1].first < M) amb = true; if (in.size() > 4) in.resize(4);
            std::set<int> seen; for (auto& e : in) { if (e.second < 0 || e.second >= f.count) continue; if (!freq.count(e.second)) order.push_back(e.second); if (seen.insert(e.second).second) freq[e.second]++; }
        }
        vector<C> r; for (int id : order) if (freq[id] >= 2) r.push_back({id, freq[id]}); std::stable_sort(r.begin(), r.end(), [](const C& a, const C& b2) { return a.freq > b2.freq; }); if (r.empty() && order.size()) r.push_back({order[0], 1}); return r;
    }
    /* nearest unused targets within three pixels of a position */
    int assess(V pos, int idx[4], const RF& f, V& at) {
        int n = 0; vec2d tp[4]; for (int c = 0; c < 4; c++) { idx[c] = -1; tp[c][0] = tp[c][1] = COORD_UNUSED; } double imx = tr->cpar->imx, imy = tr->cpar->imy;
        for (int c = 0; c < P.cams; c++) { double X, Y; pix(pos, c, X, Y); if (X < 0 || X > imx || Y < 0 || Y > imy) continue; double best = 1e20; for (size_t k = 0; k < f.t[c].size(); k++) { auto& t = f.t[c][k]; if (t.tnr != -1) continue; bool a = lt(std::max(0.0, X - 3), t.x), b2 = lt(t.x, std::min(imx, X + 3)), c2 = lt(std::max(0.0, Y - 3), t.y), d2 = lt(t.y, std::min(imy, Y + 3)); if (!(a && b2 && c2 && d2)) continue; double d = hypot(t.x - X, t.y - Y); if (idx[c] >= 0 && fabs(d - best) < M) amb = true; if (d < best) { best = d; idx[c] = k; } }
            if (idx[c] >= 0) { auto& t = f.t[c][idx[c]]; pixel_to_metric(&tp[c][0], &tp[c][1], t.x, t.y, tr->cpar); dist_to_flat(tp[c][0], tp[c][1], &cal[c], &tp[c][0], &tp[c][1], tr->flatten_tol); n++; } }
        if (n >= 2) { vec3d o; vector<Calibration*> cp; for (auto& c : cal) cp.push_back(&c); point_position(tp, P.cams, tr->cpar->mm, cp.data(), o); at = V(o); } return n;
    }
    bool volume(V x) { volume_par* v = tr->vpar; bool r = true; for (auto& e : vector<vector<double>>{{v->X_lay[0], x.x, v->X_lay[1]}, {tr->ymin, x.y, tr->ymax}, {v->Zmin_lay[0], x.z, v->Zmax_lay[1]}}) { if (!lt(e[0], e[1])) r = false; if (!lt(e[1], e[2])) r = false; } return r; }
    void add(RF& f, V x, const int idx[4]) { if (f.count < 0) { f.count = 0; f.parts.clear(); } RP q; q.x = x; q.added = true; for (int c = 0; c < 4; c++) { q.p[c] = c < P.cams ? idx[c] : -1; if (c < P.cams && idx[c] >= 0) f.t[c][idx[c]].tnr = f.count; } f.parts.push_back(q); f.count++; }
    void step() {
        int n0 = b[1].count; double lmax = diag();
        for (int h = 0; h < n0; h++) {
            RP& me = b[1].parts[h]; me.cand.clear(); V X1 = me.x, X0, X2; double v1[4][2]; bool has = me.prev >= 0;
            if (has) { X0 = b[0].parts[me.prev].x; X2 = 2.0 * X1 - X0; for (int c = 0; c < P.cams; c++) pix(X2, c, v1[c][0], v1[c][1]); } else { X2 = X1; for (int c = 0; c < P.cams; c++) if (me.p[c] == -1) pix(X2, c, v1[c][0], v1[c][1]); else { auto& t = b[1].t[c][me.p[c]]; v1[c][0] = t.x; v1[c][1] = t.y; } }
            vector<C> w = candidates(X2, v1, b[2]); if (w.empty()) continue;
            for (auto& c1 : w) {
                V X3 = b[2].parts[c1.id].x, X5 = has ? 0.5 * (5.0 * X3 - 4.0 * X1 + X0) : 2.0 * X3 - X1; for (int c = 0; c < P.cams; c++) pix(X5, c, v1[c][0], v1[c][1]); double a0, g0, a1, g1;
                for (auto& c2 : candidates(X5, v1, b[3])) { V X4 = b[3].parts[c2.id].x; if (!inb(X4 - X3)) continue; motion(X3, X4, X5, g1, a1); if (has) motion(X1, X2, X3, g0, a0); else a0 = a1, g0 = g1; double acc = (a0 + a1) / 2, ang = (g0 + g1) / 2; if (okay(ang, acc)) me.cand.push_back({(float)(((ref::len(X1 - X3) + ref::len(X4 - X3)) / 2 / lmax + acc / P.dacc + ang / P.dangle) / (c2.freq + c1.freq)), c1.id}); }
                int idx[4]; V X4; int q = assess(X5, idx, b[3], X4);
                if (q >= 2 && volume(X4) && inb(X3 - X4)) { double g, a; motion(X3, X4, X5, g, a); if (okay(g, a)) { me.cand.push_back({(float)(((ref::len(X1 - X3) + ref::len(X4 - X3)) / 2 / lmax + a / P.dacc + g / P.dangle) / (q + c1.freq)), c1.id}); if (P.add && b[3].count < P.cap) add(b[3], X4, idx); } }
                if (me.cand.empty() && has && inb(X3 - X1)) { double g, a; motion(X1, X2, X3, g, a); if (okay(g, a)) me.cand.push_back({(float)(((ref::len(X1 - X3) + ref::len(X0 - X1)) / 2 / lmax + a / P.dacc + g / P.dangle) / c1.freq), c1.id}); }
            }
            if (P.add && me.cand.empty() && has) { int idx[4]; V X3; int q = assess(X2, idx, b[2], X3); if (q >= 2 && b[2].count < P.cap && volume(X3) && inb(X2 - X3)) { double g, a; motion(X1, X2, X3, g, a); if (okay(g, a)) { add(b[2], X3, idx); me.cand.push_back({(float)(((ref::len(X1 - X3) + ref::len(X0 - X1)) / 2 / lmax + a / P.dacc + g / P.dangle) / q), b[2].count - 1}); } } }
        }
        /* choice */
        auto tie = [](float a, float c) { return fabs(a - c) < 2e-5 * std::max(1.f, std::max(fabsf(a), fabsf(c))); };
        for (int h = 0; h < b[1].count; h++) { RP& me = b[1].parts[h]; if (me.cand.empty()) continue; auto best = *std::min_element(me.cand.begin(), me.cand.end()); for (auto& c : me.cand) if (c.second != best.second && tie(c.first, best.first)) amb = true; me.fin = best.first; me.next = best.second; }
        counted = 0;
        for (int h = 0; h < b[1].count; h++) { RP& me = b[1].parts[h]; if (me.cand.size()) { RP& to = b[2].parts[me.next]; if (to.prev == -1) to.prev = h; else { RP& other = b[1].parts[to.prev]; if (tie(other.fin, me.fin)) amb = true; if (other.fin > me.fin) { other.next = -2; to.prev = h; } else me.next = -2; } } if (me.next != -2) counted++; }
        int l = 0; for (int h = 0; h < b[1].count; h++) if (b[1].parts[h].next != -2) l++; npart += b[1].count; nlinks += l;
    }
    /* one backward step: b[0] is the later frame, b[1] the present, b[2] the one before, b[3] two before */
    void back() {
        double lmax = diag(); int n0 = std::max(0, b[1].count); vector<char> did(n0, 0);
        for (int h = 0; h < n0; h++) {
            RP& me = b[1].parts[h]; me.cand.clear(); if (me.next < 0 || me.prev != -1 || me.next >= b[0].count) continue; V X1 = me.x, X0 = b[0].parts[me.next].x, X2 = 2.0 * X1 - X0; double v1[4][2]; for (int c = 0; c < P.cams; c++) pix(X2, c, v1[c][0], v1[c][1]);
            for (auto& c1 : candidates(X2, v1, b[2])) { V X3 = b[2].parts[c1.id].x; if (!inb(X1 - X3)) continue; double g, a; motion(X1, X2, X3, g, a); if (okay(g, a)) me.cand.push_back({(float)(((ref::len(X1 - X3) + ref::len(X0 - X1)) / 2 / lmax + a / P.dacc + g / P.dangle) / c1.freq), c1.id}); }
        }
        auto tie = [](float a, float c) { return fabs(a - c) < 2e-5 * std::max(1.f, std::max(fabsf(a), fabsf(c))); };
        for (int h = 0; h < n0; h++) {
            RP& me = b[1].parts[h]; if (me.cand.empty()) continue; auto best = *std::min_element(me.cand.begin(), me.cand.end()); for (auto& c : me.cand) if (c.second != best.second && tie(c.first, best.first)) amb = true; RP& to = b[2].parts[best.second]; if (to.next != -2) continue;
            if (to.prev != -1) { if (to.prev >= b[3].count) continue; V X0 = b[0].parts[me.next].x, X5 = 0.5 * (5.0 * to.x - 4.0 * me.x + X0); double g, a; motion(to.x, b[3].parts[to.prev].x, X5, g, a); if (!okay(g, a)) continue; }
            me.prev = best.second; to.next = h; counted++;
        }
    }
    void rotate() { std::rotate(b, b + 1, b + 4); }
};

/* ---- comparisons ---- */
static string frame_diff(const Par& p, const frame* f, const RF& m, bool links) {
    if (f->num_parts != m.count) return strf("%d particles, the model has %d", f->num_parts, m.count);
    for (int i = 0; i < m.count; i++) { const ::P& q = f->path_info[i]; const RP& r = m.parts[i]; if (!(ref::len(V(q.x) - r.x) < 1e-6)) return strf("particle %d at (%.6f,%.6f,%.6f) instead of (%.6f,%.6f,%.6f)", i, q.x[0], q.x[1], q.x[2], r.x.x, r.x.y, r.x.z); for (int c = 0; c < 4; c++) if (f->correspond[i].p[c] != r.p[c]) return strf("particle %d: target %d in camera %d instead of %d", i, f->correspond[i].p[c], c, r.p[c]); if (links && (q.prev != r.prev || q.next != r.next)) return strf("particle %d links (%d,%d) instead of (%d,%d)", i, q.prev, q.next, r.prev, r.next); }
    for (int c = 0; c < p.cams; c++) { if (f->num_targets[c] != (int)m.t[c].size()) return strf("camera %d: %d targets instead of %zu", c, f->num_targets[c], m.t[c].size()); for (size_t k = 0; k < m.t[c].size(); k++) if (!same_target(f->targets[c][k], m.t[c][k])) return strf("camera %d target %zu: %s instead of %s", c, k, str(f->targets[c][k]).c_str(), str(m.t[c][k]).c_str()); }
    return "";
}
/* the structural part: mutual, exclusive, in range, within capacity */
static string link_errors(const frame* a, const frame* c) {
    int na = std::max(0, a->num_parts), nc = std::max(0, c->num_parts); if (a->num_parts > a->max_targets || c->num_parts > c->max_targets) return "a frame exceeds its capacity";
    vector<int> claim(nc, -1);
    for (int h = 0; h < na; h++) { int n = a->path_info[h].next; if (n == -2) continue; if (n < 0 || n >= nc) return strf("particle %d is linked forward to %d of %d", h, n, nc); if (claim[n] >= 0) return strf("particles %d and %d are both linked to %d", claim[n], h, n); claim[n] = h; if (c->path_info[n].prev != h) return strf("particle %d is linked to %d, which is linked back to %d", h, n, c->path_info[n].prev); }
    for (int k = 0; k < nc; k++) { int q = c->path_info[k].prev; if (q == -1) continue; if (q < 0 || q >= na) return strf("particle %d is linked back to %d of %d", k, q, na); if (claim[k] != q) return strf("particle %d is linked back to %d, which is linked to %d", k, q, a->path_info[q].next); }
    return "";
}
static string particle_errors(const Par& p, const frame* f) { for (int i = 0; i < f->num_parts; i++) { if (!std::isfinite(f->path_info[i].x[0] + f->path_info[i].x[1] + f->path_info[i].x[2])) return strf("particle %d has no position", i); for (int c = 0; c < 4; c++) { int k = f->correspond[i].p[c]; if (k == -1) continue; if (c >= p.cams || k < 0 || k >= f->num_targets[c]) return strf("particle %d names target %d of camera %d", i, k, c); if (f->targets[c][k].tnr != i) return strf("particle %d names target %d of camera %d, which belongs to %d", i, k, c, f->targets[c][k].tnr); } } return ""; }
}
