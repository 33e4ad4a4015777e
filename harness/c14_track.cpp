/* C14: forward tracking of every small scene, step by step against the model of scene.h. */
#include "scene.h"
using namespace mc; using namespace trk;

static RF none() { RF r; r.count = 0; return r; }
static RF unreadable(const RF& f) { RF r = f; r.count = -1; r.parts.clear(); return r; }
static string where(int s) { return strf("after step %d: ", s); }
/* the written text of a frame: same records, positions to the last printed digit */
static string text_diff(const string& got, const string& want, const char* what) {
    auto a = tokens(got), b = tokens(want); if (a.size() != b.size()) return strf("%s: %zu values instead of %zu", what, a.size(), b.size());
    for (size_t i = 0; i < a.size(); i++) if (a[i].s != b[i].s && !(a[i].s.find('.') != string::npos && fabs(atof(a[i].s.c_str()) - atof(b[i].s.c_str())) < 0.00101)) return strf("%s: value %zu is %s instead of %s", what, i, a[i].s.c_str(), b[i].s.c_str()); return "";
}
static int ambiguous = 0;
struct Res { bool amb; int links; };
/* kind: 0 from memory, 1 from files.  frames[k] is frame first+k; missing files are described by count -1 */
static Res track(const Par& p, const vector<RF>& fr, bool disk, bool ideal = false) {
    if (disk) { clean(p, p.first - 2, p.last + 4); for (size_t k = 0; k < fr.size(); k++) { int n = p.first + k; if (fr[k].count != -1) put(strf("%s.%d", CN, n), rt_text(fr[k])); for (int c = 0; c < p.cams; c++) put(tname(c, n), t_text(fr[k].t[c])); } }
    Mem m; for (size_t k = 0; k < fr.size(); k++) m.in[p.first + k] = fr[k];
    vector<Calibration*> cp; tracking_run* tr = mk_run(p, cp); if (!disk) in_memory(tr, &m); Model mo(p, tr); auto F = [&](int n) { return n >= p.first && n <= p.last ? fr[n - p.first] : none(); };
    track_forward_start(tr); mc::step(); mo.b[0] = none(); for (int k = 1; k < 4; k++) mo.b[k] = F(p.first + k - 1); framebuf_base* fb = tr->fb; uint64_t h = 7; std::map<int, RF> written; int links = 0;
    for (int s = p.first; s < p.last; s++) {
        size_t w0 = m.out.size(); bool stale = s == p.last - 1 && s - 2 >= p.first && mo.b[3].count != 0; Model fresh = mo; if (stale) fresh.b[3] = none();
        trackcorr_c_loop(tr, s); mc::step(); mo.step();
        if (stale) { fresh.step(); if (!fresh.amb && !mo.amb) { bool same = fresh.b[1].count == mo.b[1].count; for (int i = 0; same && i < mo.b[1].count; i++) same = fresh.b[1].parts[i].next == mo.b[1].parts[i].next; if (!same) finding("last-step-stale", "in the last step the frame three before takes the place of the frame after the last one and decides the links"); } }
        mo.rotate(); if (s < p.last - 2) mo.b[3] = F(s + 3); written[s] = mo.b[0];
        string e = link_errors(fb->buf[0], fb->buf[1]); MC_CHECK(e.empty(), "mutual", "%s%s", where(s).c_str(), e.c_str());
        for (int k = 0; k < 3; k++) { e = particle_errors(p, fb->buf[k]); MC_CHECK(e.empty(), "record", "%sframe %d: %s", where(s).c_str(), s + k, e.c_str()); }
        if (mo.amb) { /* only what holds whatever is chosen */
            for (int q = s + 1; q < p.last; q++) { trackcorr_c_loop(tr, q); mc::step(); e = link_errors(fb->buf[0], fb->buf[1]); MC_CHECK(e.empty(), "mutual", "%s%s", where(q).c_str(), e.c_str()); for (int k = 0; k < 3; k++) { e = particle_errors(p, fb->buf[k]); MC_CHECK(e.empty(), "record", "%sframe %d: %s", where(q).c_str(), q + k, e.c_str()); } }
            trackcorr_c_finish(tr, p.last); tr_free(tr); ambiguous++; return {true, links}; }
        for (int k = 0; k < 3; k++) { if (s + k > p.last) break; e = frame_diff(p, fb->buf[k], mo.b[k], k < 2); MC_CHECK(e.empty(), "step", "%sframe %d: %s", where(s).c_str(), s + k, e.c_str()); }
        if (!disk) { MC_CHECK(m.out.size() == w0 + 1 && m.out.back().frame == s, "written", "%s%zu frames written, the last is %d", where(s).c_str(), m.out.size() - w0, m.out.empty() ? 0 : m.out.back().frame); }
        for (auto& q : mo.b[0].parts) { h = hash_v(q.next, hash_v(q.prev, h)); if (q.next != -2) links++; }
        if (ideal) for (int i = 0; i < fb->buf[0]->num_parts; i++) MC_CHECK(fb->buf[0]->path_info[i].next == i, "ideal", "%sparticle %d of a steady, well separated flow is linked to %d", where(s).c_str(), i, fb->buf[0]->path_info[i].next);
    }
    trackcorr_c_finish(tr, p.last); mc::step(); mo.rotate(); written[p.last] = mo.b[0];
    if (disk) for (auto& w : written) { string e = text_diff(get(strf("%s.%d", CN, w.first)), rt_text(w.second), "rt"); if (e.empty()) e = text_diff(get(strf("%s.%d", LN, w.first)), ptv_text(w.second), "ptv"); if (e.empty()) e = text_diff(get(strf("%s.%d", AN, w.first)), prio_text(w.second), "prio"); for (int c = 0; e.empty() && c < p.cams; c++) e = text_diff(get(tname(c, w.first)), t_text(w.second.t[c]), "targets"); MC_CHECK(e.empty(), "files", "frame %d: %s", w.first, e.c_str()); }
    else { vector<int> w; for (auto& o : m.out) w.push_back(o.frame); bool ok = (int)w.size() == p.last - p.first + 1; for (size_t i = 0; ok && i < w.size(); i++) ok = w[i] == p.first + (int)i; MC_CHECK(ok, "written", "%zu frames were written, not each of %d..%d once in order", w.size(), p.first, p.last);
        for (auto& o : m.out) { const RF& a = o.f; const RF& b2 = written[o.frame]; bool same = a.count == b2.count; for (int i = 0; same && i < a.count; i++) same = a.parts[i].prev == b2.parts[i].prev && a.parts[i].next == b2.parts[i].next && ref::len(a.parts[i].x - b2.parts[i].x) < 1e-6; MC_CHECK(same, "files", "frame %d is written with other particles or links than the step gave it", o.frame); } }
    state(h); tr_free(tr); return {false, links};
}

/* ---- scenes ---- */
static const unsigned ALL = 15;
static Par par(int set) { Par p; p.last = 4; switch (set) { case 1: p.dacc = 0.35; p.dangle = 25; break; case 2: p.dvlo = -0.45; p.dv = 1.6; break; case 3: p.dacc = 2.5; p.dangle = 12; break; case 4: p.dv = 0.9; p.dacc = 5; p.dangle = 250; break; case 5: p.glass = true; break; case 6: p.sc = V(0.45, 1, 1.7); p.dacc = 2; break; case 7: p.box = true; break; case 8: p.sc = V(1.3, 0.2, 0.6); p.dvlo = -0.9; break; } return p; }
static vector<RF> make(const Par& p, const vector<Frame>& f) { vector<RF> r; for (auto& x : f) r.push_back(build(p, x)); return r; }
/* the next item of a particle at x moving with v; 11 ways to go on */
static const char* WAY[] = {"steady", "slightly off", "turns", "stops", "reverses", "jumps", "is not there", "is not known", "is not known and seen by two", "is seen by one", "drifts"};
static bool go(int way, V& x, V& v, Item& it) {
    V o = x; it.cams = ALL; it.known = true;
    switch (way) { case 0: case 6: case 7: case 8: case 9: break; case 1: v = v + V(0.05, 0.2, -0.1); break; case 2: v = V(-v.y, v.x, v.z); break; case 3: v = V(0, 0, 0); break; case 4: v = -1.0 * v; break; case 5: v = 2.3 * v; break; case 10: v = v + V(-0.3, 0.1, 0.35); break; }
    x = x + v; it.x = x; if (way == 6) return false; if (way == 7) it.known = false; if (way == 8) it.known = false, it.cams = 3; if (way == 9) it.cams = 1; return true;
}
static void one(bool disk, int T, const vector<int>& ways, const vector<Par>& ps) {
    Par p = pick(ps); p.add = choose(2); p.last = p.first + T - 1; V x(0.3, -0.7, 0.4), v = pick(vector<V>{{0.8, 0.1, -0.3}, {0.35, -0.3, 0.2}, {0, 0, 0}}); vector<Frame> f(T); f[0].push_back({x, ALL, true}); string d;
    for (int t = 1; t < T; t++) { int w = pick(ways); if (noting()) d += strf(" %s,", WAY[w]); Item it; if (go(w, x, v, it)) f[t].push_back(it); }
    note("one particle over %d frames:%s add %d, %d cameras, limits %g..%g, %g, %g", T, d.c_str(), p.add, p.cams, p.lo().x, p.hi().x, p.dacc, p.dangle); track(p, make(p, f), disk);
}
SCENARIO_N(one_particle, 64, 60) { vector<Par> ps; for (int s = 0; s < 9; s++) for (int c = 2; c <= 4; c++) { if ((s && c == 4) || (s > 5 && c == 2)) continue; Par p = par(s); p.cams = c; ps.push_back(p); } one(false, thorough ? 5 : 4, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10}, ps); }
SCENARIO_N(one_particle_files, 64, 60) { vector<Par> ps; for (int c = 2; c <= 4; c++) { Par p; p.cams = c; ps.push_back(p); } one(true, thorough ? 5 : 4, {0, 1, 6, 7}, ps); }
SCENARIO_N(one_particle_long, 64, 60) { Par p; one(false, thorough ? 8 : 6, {0, 1, 6, 7}, {p}); }
SCENARIO_N(two_particles, 64, 60) {
    Par p = par(pick({0, 1, 4})); p.add = choose(2); int T = thorough ? 5 : 4; p.last = p.first + T - 1; V x(0.3, -0.7, 0.4), v(0.7, 0.1, -0.3), x2 = x + pick(vector<V>{{0.35, 0.4, 0.1}, {1.4, 0.2, -0.6}, {0, 2.5, 0}}), v2 = pick(vector<V>{{0.7, 0.1, -0.3}, {-0.7, 0, 0.3}}); vector<Frame> f(T); f[0] = {{x, ALL, true}, {x2, ALL, true}}; string d;
    for (int t = 1; t < T; t++) { int w = pick({0, 1, 2, 6, 7}), w2 = pick({0, 1, 3, 6, 7}); if (noting()) d += strf(" %s/%s,", WAY[w], WAY[w2]); Item it; if (go(w, x, v, it)) f[t].push_back(it); if (go(w2, x2, v2, it)) f[t].push_back(it); if (f[t].size() == 2 && (t & 1)) std::swap(f[t][0], f[t][1]); }
    note("two particles:%s add %d", d.c_str(), p.add); track(p, make(p, f), false);
}
/* every subset of a few irregular places in every frame */
static const V PLACE[6] = {{0, 0, 0}, {0.93, 0.11, -0.17}, {0.21, 0.87, 0.31}, {-0.72, 0.35, 0.44}, {0.55, -0.81, 0.63}, {1.31, 1.07, 0.12}};
SCENARIO_N(places, 128, 60) {
    int set = choose(thorough ? 5 : 2), n = 4, T = 4; Par p = par(set); p.last = p.first + T - 1; p.add = choose(2); vector<Frame> f(T); string d; if (!thorough && set) p.add = 0;
    for (int t = 0; t < T; t++) { int s = choose(1 << n); for (int i = 0; i < n; i++) if (s >> i & 1) f[t].push_back({PLACE[i] + V(0.013 * t, 0.007 * t * t, -0.011 * t), ALL, true}); if (noting()) d += strf(" %x", s); }
    note("subsets of %d places:%s, parameter set %d add %d", n, d.c_str(), set, p.add); track(p, make(p, f), false);
}
SCENARIO_N(places_five, 128, 60) { /* five places, few frames: up to five competitors for one particle */
    int n = 5, T = 3; Par p = par(0); p.dv = 2.2; p.dacc = 3; p.dangle = 200; p.last = p.first + T - 1; vector<Frame> f(T); string d;
    for (int t = 0; t < T; t++) { int s = choose(1 << n); for (int i = 0; i < n; i++) if (s >> i & 1) f[t].push_back({PLACE[i] + V(0.013 * t, 0.007 * t * t, -0.011 * t), ALL, true}); if (noting()) d += strf(" %x", s); }
    note("subsets of %d places:%s", n, d.c_str()); track(p, make(p, f), false);
}
/* places that hold a particle, only detections, or nothing */
SCENARIO_N(places_unknown, 128, 60) {
    int n = 3, T = thorough ? 4 : 3; Par p = par(pick({0, 1, 6, 7})); p.last = p.first + T; p.add = 1; vector<Frame> f(T + 1); string d; f[0] = {{PLACE[0] - V(0.9, 0.1, -0.15), ALL, true}, {PLACE[2] - V(0.9, 0.1, -0.15), ALL, true}};
    for (int t = 1; t <= T; t++) for (int i = 0; i < n; i++) { int s = choose(3); if (s) f[t].push_back({PLACE[i] + V(0.05, 0.02, 0) + (t - 1.0) * V(0.31, 0.04, -0.05), ALL, s == 1}); if (noting()) d += strf("%s%c", i ? "" : " ", "-kd"[s]); }
    note("two particles, then places known/detected/empty:%s", d.c_str()); track(p, make(p, f), false);
}
/* a particle that is only detected, at every place relative to the limits of the volume (which differ between its ends) */
SCENARIO_N(limits, 16, 60) {
    int site = choose(2), a = choose(8), b = choose(8); if (b < a) return; int off = choose(3); Par p; p.add = 1; p.cams = 2 + choose(2); p.last = p.first + 4; V x(0.3, -0.7, 0.4), v(0.6, 0.1, -0.3); vector<Frame> f(5); V at3; 
    for (int t = 0; t < 5; t++) { V w = t == 3 ? x + (off == 2 ? -1.0 : (double)off) * V(0.1, 0.1, 0.1) /* off the prediction, less than what the cameras resolve */ : x; f[t].push_back({w, ALL, t != 3}); if (t == 3) at3 = w; if (t == 1 && site) v = v + V(0.35, 0.2, 0.1); /* the first prediction misses, the next one is right */ x = x + v; }
    if (site) f[3].push_back({at3 + V(1.25, 0.1, 0.1), ALL, true}); /* a known particle that only opens the search */
    double at[8] = {at3.x, at3.x, at3.y, at3.y, at3.z, at3.z, at3.z, at3.z}, wide[8] = {-40, 40, -40, 40, -25, -25, 25, 25}; 
    int sa = choose(4), sb = a == b ? 0 : choose(2); static const double D[] = {0.05, -0.05, 1.1, -1.1}; p.vol.assign(wide, wide + 8); p.vol[b] = at[b] + D[sb]; p.vol[a] = at[a] + D[sa];
    note("fourth only detected%s, %s, limit %d at %g and %d at %g from it, %d cameras", off ? " near its prediction" : "", site ? "after a turn" : "in a straight line", a, D[sa], b, p.vol[b] - at[b], p.cams); track(p, make(p, f), false);
}
/* several particles that are only detected at once, each with what it needs to be added at the second place in the step or without */
SCENARIO_N(several_added, 27, 60) {
    Par p; p.add = 1; p.cams = 2 + choose(3); p.last = p.first + 4; vector<Frame> f(5); string d;
    for (int i = 0; i < 3; i++) { int w = choose(thorough ? 6 : 3); V x(-9 + 9.0 * i, 4 - 5.0 * i, 0.4 + i), v(0.6, 0.1 - 0.2 * i, -0.3); bool turn = w != 2 && w != 5; d += "tasTAS"[w];
        for (int t = 0; t < 5; t++) { f[t].push_back({x, ALL, w == 3 || t != 3}); if (t == 3 && w != 1 && w != 4) f[3].push_back({x + V(1.25, 0.1, 0.1 * (i - 1)), ALL, true}); if (w == 4 && t == 2) f[3].push_back({x + V(2.4, 0.4, 0), ALL, false}); if (t == 1 && turn) v = v + V(0.35, 0.2, 0.1 - 0.2 * i); x = x + v; } }
    note("three particles %s, %d cameras", d.c_str(), p.cams); track(p, make(p, f), choose(2));
}
/* two candidates, each seen by some of the cameras, followed by two that are known or only detected: the costs, of which the number of cameras is a part, decide */
SCENARIO_N(visibility, 64, 60) {
    Par p = par(pick({0, 3})); p.cams = 3; p.add = choose(2); int shape = choose(thorough ? 40 : 14); static const unsigned S[] = {7, 3, 6, 5}; V x(0.3, -0.7, 0.4), v(0.7, 0.1, -0.3); double r = thorough ? 0.05 + 0.008 * shape : 0.07 + 0.02 * shape; V o[2] = {{0.02, -0.14, 0.05}, {-0.2 * r, 0.9 * r, 0.3 * r}}; vector<Frame> f(4); string d; bool first = choose(2); if (first) f[0].push_back({x - v, ALL, true}); f[1].push_back({x, ALL, true});
    for (int t = 2; t < 4; t++) for (int i = 0; i < 2; i++) { unsigned m = S[choose(t == 2 ? 3 : 2)]; bool k = t == 2 || choose(2); f[t].push_back({x + (t - 1.0) * v + (t == 3 ? 1.7 : 1.0) * o[i], m, k}); if (noting()) d += strf(" %u%s", m, k ? "" : "?"); } if (!first) { f.erase(f.begin()); p.last = p.first + 2; }
    note("two candidates, %g off, cameras:%s, %s, add %d", r, d.c_str(), first ? "with a frame before" : "from the start", p.add); track(p, make(p, f), false);
}
/* frames whose files are missing or cut */
SCENARIO_N(missing_frames, 64, 60) {
    Par p; p.add = choose(2); int T = thorough ? 6 : 5; p.last = p.first + T - 1; vector<Frame> f(T); for (int t = 0; t < T; t++) { f[t].push_back({V(0.3, -0.7, 0.4) + t * V(0.8, 0.1, -0.3), ALL, true}); f[t].push_back({V(-6, 4, 1) + t * V(-0.3, 0.2, 0.3), ALL, t % 3 != 2}); }
    vector<RF> r = make(p, f); string d; for (int t = 0; t < T; t++) { int k = choose(5); if (noting()) d += strf(" %s", (const char*[]){"complete", "no particles file", "no targets of camera 1", "nothing", "empty"}[k]); if (k == 1 || k == 3) r[t] = unreadable(r[t]); if (k == 3) for (int c = 0; c < 3; c++) r[t].t[c].clear(); if (k == 2) { r[t].t[0].clear(); for (auto& q : r[t].parts) q.p[0] = -1; } if (k == 4) { r[t] = build(p, {}); } }
    note("frames:%s add %d", d.c_str(), p.add); track(p, r, choose(2));
}
SCENARIO_N(lengths, 16, 60) { /* sequences of 1 to 7 frames, from several first frames */
    Par p; p.add = choose(2); int T = 1 + choose(7); p.first = pick({1, 2, 0, 99, 9998, 123456}); p.cams = 1 + choose(4); p.last = p.first + T - 1; vector<Frame> f(T); for (int t = 0; t < T; t++) for (int i = 0; i < 3; i++) if (i != 1 || t != 3) f[t].push_back({V(-6 + 6 * i, 4 - 3 * i, 1 + i) + (double)t * V(0.3 * i, -0.2, 0.3), ALL, !(i == 2 && t == 2)});
    note("%d frames from %d, %d cameras, add %d", T, p.first, p.cams, p.add); track(p, make(p, f), choose(2));
}
/* a steady flow of well separated particles is linked completely */
SCENARIO_N(ideal, 64, 60) {
    Par p = par(pick({0, 2, 5, 6, 8})); p.cams = 2 + choose(3); int T = 4, n = pick({1, 3, 6}); p.last = p.first + T - 1; auto co = [&](double lo, double hi) { int k = choose(thorough ? 7 : 4); return lo * 0.9 + (hi - lo) * 0.9 * k / (thorough ? 6 : 3); }; V v, lo = p.lo(), hi = p.hi(); v.x = co(lo.x, hi.x); v.y = co(lo.y, hi.y); v.z = co(lo.z, hi.z);
    vector<Frame> f(T); for (int t = 0; t < T; t++) for (int i = 0; i < n; i++) f[t].push_back({V(-9 + 9 * (i % 3), -7 + 14 * (i / 3), 2 - i) + (double)t * v, ALL, true});
    note("%d particles moving by (%g,%g,%g), %d cameras", n, v.x, v.y, v.z, p.cams); Res r = track(p, make(p, f), false, true); if (!r.amb) MC_CHECK(r.links == n * (T - 1), "ideal", "%d of %d links", r.links, n * (T - 1));
}
/* frames full to their capacity, dense candidates; under the sanitizer */
SCENARIO_N(capacity, 32, 60) {
    Par p; p.add = 1; int T = 4; p.last = p.first + T - 1; int known = 1 + choose(3), extra = choose(4), room = choose(3); p.cap = known + extra + (room == 2 ? 4 : room); int shape = choose(3);
    vector<Frame> f(T); for (int t = 0; t < T; t++) { for (int i = 0; i < known; i++) f[t].push_back({V(-5 + 4 * i, 1, 0) + (double)t * V(0.7, 0.05, 0.1), ALL, !(shape == 1 && t == 2 && i == 0)}); for (int i = 0; i < extra; i++) f[t].push_back({(shape == 2 ? V(-5 + 4 * (i % known), 1, 0) + (double)t * V(0.7, 0.05, 0.1) + V(0.02, 0.03 + 0.02 * i, 0) : V(-5 + 4 * i, -6, 2) + (double)t * V(0.6, 0, 0.2)), ALL, false}); }
    note("%d particles, %d detections, capacity %d", known, extra, p.cap); track(p, make(p, f), choose(2));
}
SCENARIO_N(crowd, 32, 60) { /* more candidates than a camera may offer */
    Par p = par(pick({0, 4})); p.cams = 2 + choose(3); p.cap = 40; p.add = choose(2); int n = 3 + choose(thorough ? 10 : 7), T = 4, grow = choose(3); p.last = p.first + T - 1; vector<Frame> f(T); for (int t = 0; t < T; t++) for (int i = 0; i < n; i++) { double a = 2.4 * i, r = 0.09 * (i + 1) * (1 + 0.3 * grow); f[t].push_back({V(r * cos(a), r * sin(a), 0.17 * i - 0.5) + (double)t * V(0.21, 0.13, -0.08), ALL, (i + t) % 5 != 4 || !p.add}); }
    note("%d particles in a spiral, %d cameras, add %d", n, p.cams, p.add); track(p, make(p, f), false);
}
/* particles in exactly the same place, or mirror images: exactly equal costs */
SCENARIO_N(twins, 32, 60) {
    Par p = par(pick({0, 3, 4})); p.cams = 2 + choose(2); p.add = choose(2); int T = thorough ? 5 : 4; p.last = p.first + T - 1; double gap = pick({0.0, 0.25}); V v = pick(vector<V>{{0, 0, 0}, {0.5, 0, 0}, {0.3, 0.2, -0.1}}); vector<Frame> f(T); string d;
    for (int t = 0; t < T; t++) { int n = choose(4); if (noting()) d += strf(" %d", n); for (int i = 0; i < n; i++) f[t].push_back({V(0, gap * (i - (n - 1) / 2.0), 0) + (double)t * v, ALL, true}); }
    note("coincident particles (%g apart):%s add %d, %d cameras", gap, d.c_str(), p.add, p.cams); track(p, make(p, f), false);
}
/* turn and acceleration of every triple of places */
SCENARIO_N(motion, 16, 60) {
    int n = thorough ? 4 : 3; auto g = [&]() { return V(choose(n), choose(n), choose(n)); }; V pr = g(), ca = g(); double sc = pick({1.0, 1e-3, 37.7}), off = pick({0.0, 50.0, -0.1}); V st = V(1, 1, 1); vec3d a = {sc * st.x + off, sc * st.y - off, sc * st.z + off}, b = {sc * pr.x + off, sc * pr.y - off, sc * pr.z + off}, c = {sc * ca.x + off, sc * ca.y - off, sc * ca.z + off}; double ang = 7, acc = 7; angle_acc(a, b, c, &ang, &acc); step();
    V v0(V(b) - V(a)), v1(V(c) - V(a)); double wacc = ref::len(v0 - v1), wang = ref::len(v0) < 1e-9 || ref::len(v1) < 1e-9 ? ang : 200 / M_PI * atan2(ref::len(ref::cross(v0, v1)), ref::dot(v0, v1)); note("from %g,%g,%g", a[0], a[1], a[2]);
    MC_CHECK(fabs(acc - wacc) < 1e-9 * std::max(1.0, sc), "motion", "acceleration %.15g instead of %.15g", acc, wacc); MC_CHECK(fabs(ang - wang) < 2e-5 && ang >= 0 && ang <= 200, "motion", "turn %.15g gon instead of %.15g", ang, wang); state(hash_v(lrint(ang * 1e3)));
}
