/* C15: the same job gives the same files whatever memory holds and whatever ran before or in between. */
#include "scene.h"
#include <malloc.h>
using namespace mc; using namespace trk;
static const unsigned ALL = 15;
static unsigned seen(int i, int t) { static const unsigned M[] = {15, 7, 15, 11, 15, 14, 13}; return M[(3 * i + t) % 7]; } /* one camera in four misses about every second one */
static const V PLACE[4] = {{0, 0, 0}, {0.93, 0.11, -0.17}, {0.21, 0.87, 0.31}, {-0.72, 0.35, 0.44}};
/* what fresh memory and the stack below hold: the given number in every word */
static unsigned memword; static bool memfill;
extern "C" void* __libc_malloc(size_t); extern "C" void* __libc_realloc(void*, size_t);
static void* filled(void* q, size_t from, size_t to) { unsigned* w = (unsigned*)q; for (size_t i = (from + 3) / 4; i < to / 4; i++) w[i] = memword; return q; }
extern "C" void* malloc(size_t n) { void* q = __libc_malloc(n); return q && memfill ? filled(q, 0, malloc_usable_size(q)) : q; }
extern "C" void* realloc(void* p, size_t n) { size_t o = p ? malloc_usable_size(p) : 0; void* q = __libc_realloc(p, n); return q && memfill ? filled(q, o, malloc_usable_size(q)) : q; }
__attribute__((noinline)) static void stack(unsigned w) { volatile unsigned b[50000]; for (int i = 0; i < 50000; i++) b[i] = w; }
static void fill(unsigned w) { memword = w; memfill = true; stack(w); }
typedef std::map<string, string> Files;
static Files files(const Par& p) { Files r; for (int n = p.first - 4; n <= p.last + 4; n++) { for (auto s : {CN, LN, AN}) { auto f = strf("%s.%d", s, n); if (exists(f)) r[f] = get(f); } for (int c = 0; c < p.cams; c++) if (exists(tname(c, n))) r[tname(c, n)] = get(tname(c, n)); } return r; }
static string diff(const Files& a, const Files& b) { for (auto& e : a) { auto it = b.find(e.first); if (it == b.end()) return e.first + " is missing"; if (it->second != e.second) return e.first + " differs: " + it->second + " instead of " + e.second; } for (auto& e : b) if (!a.count(e.first)) return e.first + " is additional"; return ""; }
struct Job { Par p; vector<RF> fr; vector<char> whole; };
static void inputs(const Job& j) { clean(j.p, j.p.first - 5, j.p.last + 5); for (size_t k = 0; k < j.fr.size(); k++) { int n = j.p.first + k; if (j.whole[k] != 1) put(strf("%s.%d", CN, n), j.whole[k] == 2 ? rt_text(j.fr[k]).substr(0, 20) : rt_text(j.fr[k])); for (int c = 0; c < j.p.cams; c++) put(tname(c, n), t_text(j.fr[k].t[c])); } }
static void forward(tracking_run* t, const Par& p) { track_forward_start(t); for (int s = p.first; s < p.last; s++) trackcorr_c_loop(t, s); trackcorr_c_finish(t, p.last); mc::step(p.last - p.first + 1); }
static void run(const Job& j, bool back) { vector<Calibration*> cp; tracking_run* t = mk_run(j.p, cp); forward(t, j.p); if (back) trackback_c(t); tr_free(t); free(t); }
static Job other(int cams, int n) { Job j; j.p.cams = cams; j.p.first = 50; j.p.last = 53; j.p.add = 1; j.p.cap = 60; j.p.dv = 0.7; j.p.dvlo = -1.1; j.p.dacc = 0.35; j.p.dangle = 60; j.p.sc = V(1, 0.8, 1.2); for (int t = 0; t < 4; t++) { Frame f; for (int i = 0; i < n; i++) f.push_back({V(-5 + i, 2 - 0.4 * i, 0.2 * i) + (double)t * V(0.2, 0.1, 0), ALL, (i + t) % 3 != 0}); j.fr.push_back(build(j.p, f)); j.whole.push_back(0); } return j; }
static const char* VAR[] = {"memory 0", "memory 55555555", "memory -1", "memory 1 and 80808080 in turn", "after another job", "after an aborted job", "after a job without files", "started again on one object, also after other settings", "started again after an abort on one object", "another job between the steps"};
static void variants(const Job& j, bool back) {
    fill(0xaaaaaaaa); inputs(j); run(j, back); Files ref = files(j.p);
    for (int n = j.p.first; n <= j.p.last; n++) for (auto s : {CN, LN, AN}) MC_CHECK(ref.count(strf("%s.%d", s, n)), "written", "frame %d is not written", n);
    for (int n = j.p.first - 4; n <= j.p.last + 4; n++) if (n < j.p.first || n > j.p.last) for (auto s : {CN, LN, AN}) MC_CHECK(!ref.count(strf("%s.%d", s, n)), "written", "frame %d is written", n);
    auto same = [&](int k) { string e = diff(ref, files(j.p)); MC_CHECK(e.empty(), "same", "%s: %s", VAR[k], e.substr(0, 500).c_str()); };
    unsigned byte[] = {0, 0x55555555, 0xffffffff}; for (int k = 0; k < 3; k++) { inputs(j); fill(byte[k]); run(j, back); same(k); }
    { inputs(j); vector<Calibration*> cp; fill(1); tracking_run* t = mk_run(j.p, cp); track_forward_start(t); for (int s = j.p.first; s < j.p.last; s++) { fill(s & 1 ? 0x80808080 : 1); trackcorr_c_loop(t, s); } trackcorr_c_finish(t, j.p.last); fill(1); if (back) trackback_c(t); tr_free(t); free(t); same(3); }
    fill(0x33333333); for (int k = 4; k < 7; k++) { /* the other job has other limits and another sensor; the first one uses the very same camera objects with other contents */
        Job o = other(k == 4 ? 4 : 2, 7); if (k == 4) { o.p.cams = j.p.cams; o.p.glass = j.p.glass; } auto& cs = calibs(o.p); vector<Calibration> kept = cs; if (k == 4) { for (auto& c : cs) { c.ext_par.x0 += 20; c.ext_par.phi += 0.1; c.int_par.cc *= 1.3; c.glass_par.vec_z += 2; rotation_matrix(&c.ext_par); } o = other(o.p.cams, 7); o.p.glass = j.p.glass; }
        inputs(o); if (k == 6) clean(o.p, 45, 60); vector<Calibration*> cp; tracking_run* t = mk_run(o.p, cp); t->cpar->imx = 1100; t->cpar->pix_x = 0.011; t->cpar->mm->n3 += 0.05; if (k == 5) { track_forward_start(t); trackcorr_c_loop(t, 50); } else { forward(t, o.p); trackback_c(t); } tr_free(t); free(t); if (k == 4) for (size_t c = 0; c < cs.size(); c++) cs[c] = kept[c]; inputs(j); run(j, back); same(k); }
    { vector<Calibration*> cp; inputs(j);
      /* at addresses no job has used before */ void* held[24]; for (int i = 0; i < 24; i++) held[i] = __libc_malloc(i % 3 == 0 ? sizeof(track_par) : i % 3 == 1 ? sizeof(volume_par) : sizeof(control_par)); tracking_run* t = mk_run(j.p, cp); for (auto h : held) free(h);
      /* first under other settings, in the same objects */ mm_np mm = *t->cpar->mm; track_par tp = *t->tpar; volume_par vp = *t->vpar; auto &k = *t->tpar; k.dvxmin *= 0.6; k.dvymax *= 0.5; k.dvzmax *= 0.7; k.dvxmax *= 0.8; k.dacc *= 0.5; k.dangle *= 0.6; t->vpar->Zmax_lay[0] -= 3; t->cpar->imx -= 90; t->cpar->mm->n3 += 0.04; inputs(j); forward(t, j.p); if (back) trackback_c(t); *t->tpar = tp; *t->vpar = vp; t->cpar->imx += 90; *t->cpar->mm = mm;
      inputs(j); forward(t, j.p); if (back) trackback_c(t); same(7); int np = t->npart, nl = t->nlinks; inputs(j); forward(t, j.p); if (back) trackback_c(t); same(7); MC_CHECK(t->npart == np && t->nlinks == nl, "totals", "the second run counts %d particles and %d links, the first %d and %d", t->npart, t->nlinks, np, nl); tr_free(t); free(t); }
    for (int stop = j.p.first; stop < j.p.last; stop++) { vector<Calibration*> cp; inputs(j); tracking_run* t = mk_run(j.p, cp); track_forward_start(t); for (int s = j.p.first; s <= stop; s++) trackcorr_c_loop(t, s); inputs(j); forward(t, j.p); if (back) trackback_c(t); tr_free(t); free(t); same(8); }
    { Job o = other(3, 5); inputs(o); inputs(j); vector<Calibration*> c1, c2; tracking_run* a = mk_run(j.p, c1); tracking_run* b = mk_run(o.p, c2); track_forward_start(a); track_forward_start(b); for (int s = 0; s < 3; s++) { if (j.p.first + s < j.p.last) trackcorr_c_loop(a, j.p.first + s); trackcorr_c_loop(b, 50 + s); } for (int s = j.p.first + 3; s < j.p.last; s++) trackcorr_c_loop(a, s); trackcorr_c_finish(b, 53); trackcorr_c_finish(a, j.p.last); if (back) { trackback_c(b); trackback_c(a); } tr_free(b); free(b); tr_free(a); free(a); same(9); }
    uint64_t h = 3; for (auto& e : ref) h = hash_s(e.second, h); state(h);
}
SCENARIO_N(places, 64, 60) { /* three places that are known, only detected, or empty, in every frame */
    Job j; int T = thorough ? 4 : 3, n = thorough ? 2 : 3; j.p.first = 7; j.p.last = j.p.first + T; j.p.add = choose(2); string d; Frame f0 = {{PLACE[0] - V(0.4, 0.1, -0.15), ALL, true}, {PLACE[2] - V(0.4, 0.1, -0.15), ALL, true}}; j.fr.push_back(build(j.p, f0)); j.whole.push_back(0);
    for (int t = 0; t < T; t++) { Frame f; for (int i = 0; i < n; i++) { int s = choose(i == 2 && !thorough ? 2 : 3); if (s) f.push_back({PLACE[i] + (double)t * V(0.41, 0.04, -0.05), s == 1 ? ALL : seen(i, t), s == 1}); if (noting()) d += "-kd"[s]; } if (noting()) d += " "; j.fr.push_back(build(j.p, f)); j.whole.push_back(0); }
    note("places %sadd %d", d.c_str(), j.p.add); variants(j, false);
}
SCENARIO_N(damaged, 64, 60) { /* frames that are whole, missing or cut */
    Job j; int T = thorough ? 6 : 5; j.p.first = 7; j.p.last = j.p.first + T - 1; j.p.add = choose(2); j.p.cams = 2 + choose(3); string d; for (int t = 0; t < T; t++) { int w = choose(3); d += strf(" %d", w); Frame f; for (int i = 0; i < 3; i++) f.push_back({V(0.6 * i, 0.5 * i * i, 0.1 * i) + (double)t * V(0.35, 0.05 * i, -0.1), j.p.cams == 4 ? seen(i, t) : ALL, (i + t) % 4 != 1}); j.fr.push_back(build(j.p, f)); j.whole.push_back(w); }
    note("frames%s (0 whole, 1 missing, 2 cut), %d cameras, add %d", d.c_str(), j.p.cams, j.p.add); variants(j, choose(2));
}
SCENARIO_N(lengths, 32, 60) { /* short and long sequences, forward and backward */
    Job j; int T = 1 + choose(thorough ? 9 : 7), n = 1 + choose(4), kind = choose(4); j.p.first = pick({4, 1000}); j.p.last = j.p.first + T - 1; j.p.add = choose(2); j.p.cams = 2 + choose(3); j.p.glass = j.p.cams == 3 && choose(2);
    for (int t = 0; t < T; t++) { Frame f; for (int i = 0; i < n; i++) { if (kind == 1 && (i + t) % 3 == 2) continue; f.push_back({V(0.5 * i, 0.4 * i, -0.3 * i) + (double)t * (kind == 2 ? V(i % 2 ? 0.3 : -0.3, 0.1, 0) : V(0.4, 0.1, -0.1)), j.p.cams > 2 && kind != 1 ? seen(i, t) : ALL, !(kind == 3 && (i + 2 * t) % 3 == 1)}); } j.fr.push_back(build(j.p, f)); j.whole.push_back(0); }
    note("%d frames of %d particles, kind %d, %d cameras%s, add %d", T, n, kind, j.p.cams, j.p.glass ? " behind glass" : "", j.p.add); variants(j, choose(2));
}
