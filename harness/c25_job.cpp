/* C25: a job made from settings files has exactly their values or does not exist; its run covers exactly its range and its totals are true. */
#include "scene.h"
using namespace mc; using namespace trk;
static const unsigned ALL = 15;
struct Set { vector<string> seq, tra, cri, ptv; };
/* every number is different, so that a mix-up of values shows */
static Set settings(const Par& p, bool odd) {
    Set s; for (int c = 0; c < p.cams; c++) s.seq.push_back(strf("cam%d.", c + 1)); s.seq.push_back(strf("%d", p.first)); s.seq.push_back(strf("%d", p.last));
    double e = odd ? 0.015625 : 0; for (int k = 0; k < 3; k++) { s.tra.push_back(strf("%.6f", -p.dv - k * e)); s.tra.push_back(strf("%.6f", p.dv + (k + 3) * e)); } s.tra.push_back(strf("%g", p.dangle)); s.tra.push_back(strf("%g", p.dacc)); s.tra.push_back(strf("%d", p.add));
    for (double v : {-40., -25., 25., 40., -24., 26., 0.021, 0.031, 0.041, 0.051, 33., 0.1}) s.cri.push_back(strf("%g", v));
    s.ptv.push_back(strf("%d", p.cams)); for (int c = 0; c < p.cams; c++) { s.ptv.push_back(strf("img/cam%d", c)); s.ptv.push_back(strf("cal/cam%d", c)); } for (auto v : {"1", "0", "1", "1280", "1024", "0.01", "0.011", "0", "1", "1", "1", "1"}) s.ptv.push_back(v); if (odd) { size_t n = s.ptv.size(); s.ptv[n - 4] = "1.01"; s.ptv[n - 3] = "1.46"; s.ptv[n - 2] = "1.33"; s.ptv[n - 1] = "5.25"; } return s;
}
static const char* FN[] = {"seq.par", "tra.par", "cri.par", "ptv.par"};
static vector<string>& file(Set& s, int k) { return k == 0 ? s.seq : k == 1 ? s.tra : k == 2 ? s.cri : s.ptv; }
static string text(const vector<string>& v) { string r; for (auto& x : v) r += x + "\n"; return r; }
static void write(Set& s) { for (int k = 0; k < 4; k++) put(FN[k], text(file(s, k))); }
static tracking_run* make(const Par& p, vector<Calibration*>& ptr) { ptr.clear(); for (auto& c : calibs(p)) ptr.push_back(&c); Z a(FN[0]), b(FN[1]), c(FN[2]), d(FN[3]); return tr_new_legacy(a, b, c, d, ptr.data()); }
static void check_values(const Par& p, Set& s, tracking_run* t) {
    auto D = [&](int k, int i) { return atof(file(s, k)[i].c_str()); }; auto eq = [&](const char* w, double a, double b) { MC_CHECK(a == b, "values", "%s is %.17g in the job and %.17g in the file", w, a, b); };
    eq("number of cameras", t->cpar->num_cams, p.cams); eq("number of sequence names", t->seq_par->num_cams, p.cams); for (int c = 0; c < p.cams; c++) { MC_CHECK(s.seq[c] == t->seq_par->img_base_name[c], "values", "sequence name %d is %s", c, t->seq_par->img_base_name[c]); MC_CHECK(s.ptv[1 + 2 * c] == t->cpar->img_base_name[c] && s.ptv[2 + 2 * c] == t->cpar->cal_img_base_name[c], "values", "names of camera %d are %s and %s", c, t->cpar->img_base_name[c], t->cpar->cal_img_base_name[c]); }
    eq("first frame", t->seq_par->first, D(0, p.cams)); eq("last frame", t->seq_par->last, D(0, p.cams + 1)); double* lim[] = {&t->tpar->dvxmin, &t->tpar->dvxmax, &t->tpar->dvymin, &t->tpar->dvymax, &t->tpar->dvzmin, &t->tpar->dvzmax, &t->tpar->dangle, &t->tpar->dacc}; for (int i = 0; i < 8; i++) eq("limit", *lim[i], D(1, i)); eq("adding", t->tpar->add, D(1, 8));
    double* vol[] = {&t->vpar->X_lay[0], &t->vpar->Zmin_lay[0], &t->vpar->Zmax_lay[0], &t->vpar->X_lay[1], &t->vpar->Zmin_lay[1], &t->vpar->Zmax_lay[1], &t->vpar->cnx, &t->vpar->cny, &t->vpar->cn, &t->vpar->csumg, &t->vpar->corrmin, &t->vpar->eps0};
    /* creating the job widens the volume to what the cameras see (X_lay[0,1], Zmin_lay[0], Zmax_lay[1]) */
    for (int i = 6; i < 12; i++) eq("criterion", *vol[i], D(2, i)); eq("Zmax at X0", *vol[2], D(2, 2)); eq("Zmin at X1", *vol[4], D(2, 4)); 
    int b = 1 + 2 * p.cams; double got[] = {(double)t->cpar->hp_flag, (double)t->cpar->allCam_flag, (double)t->cpar->tiff_flag, (double)t->cpar->imx, (double)t->cpar->imy, t->cpar->pix_x, t->cpar->pix_y, (double)t->cpar->chfield, t->cpar->mm->n1, t->cpar->mm->n2[0], t->cpar->mm->n3, t->cpar->mm->d[0]}; for (int i = 0; i < 12; i++) eq("camera setting", got[i], D(3, b + i));
    double want = sqrt(pow(D(1, 1) - D(1, 0), 2) + pow(D(1, 3) - D(1, 2), 2) + pow(D(1, 5) - D(1, 4), 2)); MC_CHECK(fabs(t->lmax - want) < 1e-12 * want, "values", "the longest possible step is %.17g instead of %.17g", t->lmax, want);
    eq("totals before the run", t->npart + t->nlinks, 0); eq("cameras of the frames", t->fb->num_cams, p.cams); MC_CHECK(t->ymin < t->ymax && std::isfinite(t->ymax - t->ymin), "values", "the observed volume is %g..%g in Y", t->ymin, t->ymax);
}
SCENARIO_N(created, 16, 60) { /* complete files: the job has their values */
    Par p; p.cams = 1 + choose(4); p.first = pick({0, 1, 10240}); p.last = p.first + choose(3); p.add = choose(2); Set s = settings(p, true); write(s); note("%d cameras, frames %d..%d, add %d", p.cams, p.first, p.last, p.add); vector<Calibration*> c; tracking_run* t = make(p, c); step(); MC_CHECK(t, "complete", "no job from complete files"); check_values(p, s, t); tr_free(t); free(t); state(hash_v(p.first, hash_v(p.cams)));
}
SCENARIO_N(incomplete, 64, 60) { /* one file cut after any number of values (or missing), any subset of the others missing */
    Par p; p.cams = 1 + choose(4); Set s = settings(p, false); int k = choose(4); auto& v = file(s, k); int keep = choose(v.size() + 2) - 1, also = keep < 0 || keep == (int)v.size() ? choose(16) : 0; write(s); string d; if (keep < 0) del(FN[k]); else put(FN[k], text(vector<string>(v.begin(), v.begin() + keep)));
    for (int q = 0; q < 4; q++) if (also >> q & 1) del(FN[q]); note("%d cameras, %s has %d of %zu values, missing %x", p.cams, FN[k], keep, v.size(), also); bool want = keep == (int)v.size() && !also; size_t before = 0; int files = 0;
    for (int r = 0; r < 3; r++) { vector<Calibration*> c; tracking_run* t = make(p, c); step(); MC_CHECK((t != nullptr) == want, "complete", "%s", t ? "a job was created from incomplete files" : "no job was created from complete files"); if (t) { check_values(p, s, t); tr_free(t); free(t); } if (r == 1) before = live_bytes(), files = open_files(); if (r == 2) { MC_CHECK(live_bytes() == before, "leak", "%ld bytes remain after creating and freeing a job", (long)(live_bytes() - before)); MC_CHECK(open_files() == files, "leak", "%d files remain open", open_files() - files); } } state(hash_v(keep, hash_v(k, hash_v(also))));
}
SCENARIO_N(corrupted, 32, 60) { /* any value of any file is not a number */
    Par p; p.cams = 1 + choose(4); Set s = settings(p, false); int k = choose(4); auto& v = file(s, k); int at = choose(v.size()); bool name = (k == 0 && at < p.cams) || (k == 3 && at >= 1 && at <= 2 * p.cams); if (name) return; v[at] = pick({"x", "--1", "?"}); write(s); note("%d cameras, value %d of %s is %s", p.cams, at, FN[k], v[at].c_str()); vector<Calibration*> c; tracking_run* t = make(p, c); step(); MC_CHECK(!t, "corrupt", "a job was created although value %d of %s is not a number", at, FN[k]); state(hash_v(at, hash_v(k)));
}
/* runs */
static vector<Frame> flow(int T, int n, int kind) { vector<Frame> f(T); for (int t = 0; t < T; t++) for (int i = 0; i < n; i++) { if (kind == 1 && (i + t) % 3 == 2) continue; if (kind == 4 && (t & 1) && i) continue; /* two meet where one is seen, nearer to the later one */ bool known = !(kind == 2 && (i + t) % 3 == 1); f[t].push_back({kind == 4 ? V(t & 1 ? 0 : 0.7 - 0.5 * i, t & 1 ? 0 : 0.2 * i, 0.01 * t) : kind == 3 ? V(0.3 * i, 0.2 * i, 0.1 * i) + (double)t * V(i % 2 ? 0.35 : -0.3, 0.1, 0.05 * i) : V(-6 + 4 * i, 3 - 2 * i, i) + (double)t * V(0.4, 0.1 * i, -0.2), ALL, known}); } return f; }
static std::map<string, string> files(const Par& p, int lo, int hi) { std::map<string, string> r; for (int n = lo; n <= hi; n++) { for (auto s : {CN, LN, AN}) { auto f = strf("%s.%d", s, n); r[f] = exists(f) ? get(f) : "-"; } for (int c = 0; c < p.cams; c++) r[tname(c, n)] = exists(tname(c, n)) ? get(tname(c, n)) : "-"; } return r; }
static bool belongs(const string& f, int n) { for (auto s : {CN, LN, AN}) if (f == strf("%s.%d", s, n)) return true; for (int c = 0; c < 4; c++) if (f == tname(c, n)) return true; return false; }
SCENARIO_N(run, 64, 60) {
    Par p; p.first = pick({5, 99, 9999}); int T = 1 + choose(thorough ? 7 : 5), outer = choose(3), kind = choose(5), n = 2 + choose(2), bad = choose(T + 1) - 1; p.cams = 1 + choose(4); p.add = choose(2); p.last = p.first + T - 1; p.dangle = 200; int lo = p.first - 4, hi = p.last + 4; clean(p, lo - 1, hi + 1);
    /* outer: 0 nothing outside the range, 1 the flow goes on outside, 2 something else is outside */
    auto f = flow(T + 8, n, kind), g = flow(T + 8, n, 3); for (int k = 0; k < T + 8; k++) { bool in = k >= 4 && k < T + 4; if (!in && !outer) continue; RF r = build(p, in || outer == 1 ? f[k] : g[k]); if (in && k - 4 == bad) { for (int c = 0; c < p.cams; c++) put(tname(c, lo + k), t_text(r.t[c])); continue; } write_frame_files(p, r, lo + k); }
    note("frames %d..%d of %s, flow %d of %d particles, %d cameras, add %d, frame %d unreadable", p.first, p.last, outer == 0 ? "just these" : outer == 1 ? "a longer flow" : "others", kind, n, p.cams, p.add, bad < 0 ? -1 : p.first + bad);
    vector<Calibration*> cp; tracking_run* tr = mk_run(p, cp); auto before = files(p, lo, hi); track_forward_start(tr); auto now = files(p, lo, hi); MC_CHECK(now == before, "written", "files change when the run is prepared"); int parts = 0, links = 0, over = 0;
    for (int s = p.first; s <= p.last; s++) {
        int l0 = tr->nlinks, n0 = tr->npart; if (s < p.last) trackcorr_c_loop(tr, s); else trackcorr_c_finish(tr, s); step(); auto after = files(p, lo, hi); for (auto& e : after) if (e.second != now[e.first]) MC_CHECK(belongs(e.first, s), "written", "%s changes in step %d", e.first.c_str(), s); for (auto x : {CN, LN, AN}) MC_CHECK(after[strf("%s.%d", x, s)] != "-", "written", "%s.%d is missing after its step", x, s); now = after;
        if (s < p.last) { auto t = tokens(after[strf("%s.%d", LN, s)]); int c = atoi(t[0].s.c_str()), l = 0; for (int i = 0; i < c; i++) if (atoi(t[1 + 5 * i + 1].s.c_str()) >= 0) l++; parts += std::max(0, c); links += l;
            int dn = tr->npart - n0, dl = tr->nlinks - l0; if (dn != std::max(0, c)) finding(c == -1 && dn == -1 ? "unreadable-counted" : "particles", "step %d: %d particles are counted and %d written", s, dn, c); if (dl != l) finding(kind == 4 && dl == l + 1 ? "links-overcounted" : "links", "step %d: %d links are counted and %d written", s, dl, l); } }
    /* the same without anything outside the range */
    if (outer) { std::map<string, string> in; for (auto& e : now) for (int s = p.first; s <= p.last; s++) if (belongs(e.first, s)) in[e.first] = e.second; clean(p, lo, hi); for (int k = 4; k < T + 4; k++) { RF r = build(p, f[k]); if (k - 4 == bad) { for (int c = 0; c < p.cams; c++) put(tname(c, lo + k), t_text(r.t[c])); continue; } write_frame_files(p, r, lo + k); } tr_free(tr); free(tr); tr = mk_run(p, cp); track_forward_start(tr); for (int s = p.first; s < p.last; s++) trackcorr_c_loop(tr, s); trackcorr_c_finish(tr, p.last); auto again = files(p, p.first, p.last); for (auto& e : again) MC_CHECK(in[e.first] == e.second, "range", "%s depends on files outside the range", e.first.c_str()); }
    state(hash_v(parts, hash_v(links, hash_v(T)))); tr_free(tr); free(tr);
}
