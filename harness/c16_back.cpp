/* C16: backward tracking over every partial forward result, against the model of scene.h. */
#include "scene.h"
using namespace mc; using namespace trk;
static const unsigned ALL = 15;
static RF none() { RF r; r.count = 0; return r; }

/* frames: number -> content with links; tracked backward by the library and by the model */
static void back(const Par& p, const std::map<int, RF>& in, bool disk, bool consistent = true) {
    Mem m; m.in = in; int lo = p.first - 5, hi = p.last + 5;
    if (disk) { clean(p, lo, hi); for (auto& e : in) { put(strf("%s.%d", CN, e.first), rt_text(e.second)); put(strf("%s.%d", LN, e.first), ptv_text(e.second)); put(strf("%s.%d", AN, e.first), prio_text(e.second)); for (int c = 0; c < p.cams; c++) put(tname(c, e.first), t_text(e.second.t[c])); } }
    vector<Calibration*> cp; tracking_run* tr = mk_run(p, cp); if (!disk) in_memory(tr, &m); double got = trackback_c(tr); mc::step(p.last - p.first + 1);
    auto F = [&](int n) { auto it = in.find(n); return n >= p.first && n <= p.last && it != in.end() ? it->second : none(); };
    Model mo(p, tr); std::map<int, RF> want; for (int k = 0; k < 4; k++) mo.b[k] = F(p.last - k);
    for (int s = p.last - 1; s > p.first; s--) { mo.back(); std::rotate(mo.b, mo.b + 1, mo.b + 4); want[s] = mo.b[0]; mo.b[3] = F(s - 3); }
    if (p.last > p.first) want[p.first] = mo.b[1];
    MC_CHECK(std::isfinite(got), "result", "the number of links per step is %g", got);
    /* what was written */
    std::map<int, RF> out; 
    if (!disk) { vector<int> order; for (auto& o : m.out) { MC_CHECK(o.frame >= p.first && o.frame <= p.last, "range", "frame %d is written, the range is %d..%d", o.frame, p.first, p.last); MC_CHECK(!out.count(o.frame), "once", "frame %d is written twice", o.frame); out[o.frame] = o.f; } for (int r : m.reads) MC_CHECK(r >= p.first && r <= p.last, "range", "frame %d is read, the range is %d..%d", r, p.first, p.last); }
    if (!disk) { for (int n = p.first; n <= p.last; n++) if (!out.count(n)) out[n] = F(n);
        for (int n = p.first; n <= p.last; n++) {
            const RF& a = out[n]; RF was = F(n); if (was.count < 0) was.count = 0; int ac = std::max(0, a.count); MC_CHECK(ac >= was.count, "kept", "frame %d: %d of %d particles are left", n, ac, was.count);
            for (int i = 0; i < was.count; i++) { auto& q = a.parts[i]; auto& w = was.parts[i]; MC_CHECK(ref::len(q.x - w.x) < 1e-9, "kept", "frame %d: particle %d was moved", n, i); for (int c = 0; c < 4; c++) MC_CHECK(q.p[c] == w.p[c], "kept", "frame %d: particle %d lost its targets", n, i); MC_CHECK(w.next == -2 || q.next == w.next, "kept", "frame %d: the link of particle %d to %d of the next frame became %d", n, i, w.next, q.next); MC_CHECK(w.prev == -1 || q.prev == w.prev, "kept", "frame %d: the link of particle %d to %d of the frame before became %d", n, i, w.prev, q.prev); }
            if (n > p.first) { const RF& b = out[n - 1]; int bc = std::max(0, b.count); RF bw = F(n - 1);
                if (consistent) { vector<int> cl(bc, -1); for (int i = 0; i < ac; i++) { int q = a.parts[i].prev; if (q == -1) continue; MC_CHECK(q >= 0 && q < bc, "range", "frame %d: particle %d is linked back to %d of %d", n, i, q, bc); MC_CHECK(cl[q] < 0, "exclusive", "frame %d: particles %d and %d are linked back to %d", n, cl[q], i, q); cl[q] = i; MC_CHECK(b.parts[q].next == i, "mutual", "frame %d: particle %d is linked back to %d, which is linked to %d", n, i, q, b.parts[q].next); }
                    for (int j = 0; j < bc; j++) { int q = b.parts[j].next; if (q == -2) continue; MC_CHECK(q >= 0 && q < ac && a.parts[q].prev == j, "mutual", "frame %d: particle %d is linked to %d, which is linked back to %d", n - 1, j, q, q >= 0 && q < ac ? a.parts[q].prev : -99); } }
                for (int i = 0; i < ac; i++) { int q = a.parts[i].prev; if (q < 0 || q >= bc || (i < was.count && was.parts[i].prev != -1)) continue; V d = a.parts[i].x - b.parts[q].x; double e = 1e-9; V l = p.lo(), u = p.hi(); MC_CHECK(d.x > l.x - e && d.y > l.y - e && d.z > l.z - e && d.x < u.x + e && d.y < u.y + e && d.z < u.z + e, "limits", "frame %d: the new link of particle %d spans (%g,%g,%g)", n, i, d.x, d.y, d.z); } }
        }
    }
    if (mo.amb) { tr_free(tr); return; }
    uint64_t h = 5; int nl = 0;
    for (auto& w : want) {
        int n = w.first; const RF& r = w.second;
        if (disk) { if (!in.count(n)) continue; auto a = tokens(get(strf("%s.%d", LN, n))), b = tokens(ptv_text(r)); MC_CHECK(a.size() == b.size(), "files", "frame %d: %zu values instead of %zu", n, a.size(), b.size()); for (size_t i = 0; i < a.size(); i++) MC_CHECK(a[i].s == b[i].s || fabs(atof(a[i].s.c_str()) - atof(b[i].s.c_str())) < 0.00101 && a[i].s.find('.') != string::npos, "files", "frame %d: value %zu is %s instead of %s", n, i, a[i].s.c_str(), b[i].s.c_str()); auto c = tokens(get(strf("%s.%d", CN, n))), d = tokens(rt_text(r)); MC_CHECK(c.size() == d.size(), "files", "frame %d: %zu values in the particles file instead of %zu", n, c.size(), d.size()); }
        else { const RF& a = out[n]; MC_CHECK(std::max(0, a.count) == std::max(0, r.count), "step", "frame %d: %d particles, the model has %d", n, a.count, r.count); for (int i = 0; i < r.count; i++) MC_CHECK(a.parts[i].prev == r.parts[i].prev && a.parts[i].next == r.parts[i].next, "step", "frame %d: particle %d has links (%d,%d) instead of (%d,%d)", n, i, a.parts[i].prev, a.parts[i].next, r.parts[i].prev, r.parts[i].next); }
        for (auto& q : r.parts) h = hash_v(q.next, hash_v(q.prev, h)); nl++;
    }
    if (disk) for (int n = lo; n <= hi; n++) if (!in.count(n)) { bool inr = n >= p.first && n <= p.last; for (auto s : {CN, LN, AN}) if (!inr) MC_CHECK(!exists(strf("%s.%d", s, n)), "range", "a file for frame %d was written, the range is %d..%d", n, p.first, p.last); } else if (n < p.first || n > p.last) MC_CHECK(get(strf("%s.%d", LN, n)) == ptv_text(in.at(n)), "range", "frame %d was changed, the range is %d..%d", n, p.first, p.last);
    state(hash_v((int)mo.counted, h)); tr_free(tr);
}
/* every partial one-to-one relation between n particles and m particles */
static void match(RF& a, RF& b, string* d) {
    int n = a.parts.size(), m = b.parts.size(); for (auto& q : a.parts) q.next = -2; for (auto& q : b.parts) q.prev = -1;
    vector<int> free_; for (int k = 0; k < m; k++) free_.push_back(k); for (int i = 0; i < n; i++) { int c = choose(free_.size() + 1); if (c) { int k = free_[c - 1]; free_.erase(free_.begin() + c - 1); a.parts[i].next = k; b.parts[k].prev = i; } if (d && noting()) *d += a.parts[i].next < 0 ? string("-") : std::to_string(a.parts[i].next); } if (d && noting()) *d += " ";
}
static Par par(int set) { Par p; p.last = 4; switch (set) { case 1: p.dacc = 0.25; p.dangle = 15; break; case 2: p.dvlo = -0.3; p.dv = 1.3; break; case 3: p.dv = 1; p.dacc = 5; p.dangle = 250; break; case 4: p.glass = true; break; case 5: p.sc = V(0.8, 0.3, 1.4); p.dvlo = -1.2; p.dv = 1.1; p.dacc = 1.5; break; } return p; }
/* how the particles of a scene move */
static vector<Frame> scene(int T, int n, int kind) {
    vector<Frame> f(T); for (int t = 0; t < T; t++) for (int i = 0; i < n; i++) { V x; double s = t;
        switch (kind) { case 0: x = V(-4 + 3.1 * i, 1 - 0.7 * i, 0.4 * i) + s * V(0.7, 0.1, -0.2); break;                      /* steady, apart */
            case 1: x = V(0.31 * i, 0.42 * i, 0.1 * i) + s * V(0.35, 0.05, -0.1); break;                                       /* steady, close together */
            case 2: x = V(0.8 * (i - 1), 0.3 * i, 0) + s * V(i % 2 ? -0.5 : 0.5, 0.11 * i, 0.05); break;                       /* crossing */
            case 3: x = V(0.5 * i, 0.6 * i, -0.3 * i) + (s * s * 0.17) * V(1, i ? -0.6 : 0.4, 0.2); break;                     /* speeding up */
            case 4: x = V(0.4 * i, -0.5 * i, 0.2) + V((t & 1) ? 0.45 : 0, (t & 2) ? 0.37 : 0, 0.08 * t); break; }              /* zigzag */
        f[t].push_back({x, ALL, true}); } return f;
}
static std::map<int, RF> numbered(const Par& p, const vector<Frame>& f) { std::map<int, RF> r; for (size_t k = 0; k < f.size(); k++) r[p.first + k] = build(p, f[k]); return r; }

SCENARIO_N(links, 64, 60) { /* two particles over four frames (thorough five): every forward result */
    Par p = par(pick({0, 1, 2, 3, 5})); int T = thorough ? 5 : 4, kind = choose(5); p.first = 3; p.last = p.first + T - 1; p.cams = 2 + choose(2); p.add = choose(2); auto in = numbered(p, scene(T, 2, kind)); string d;
    for (int n = p.first; n < p.last; n++) match(in[n], in[n + 1], &d); note("two particles, motion %d, links %s, limits %g %g %g, %d cameras, add %d", kind, d.c_str(), p.dv, p.dacc, p.dangle, p.cams, p.add); back(p, in, false);
}
SCENARIO_N(links_three, 64, 60) { /* three particles over four frames */
    Par p = par(thorough ? choose(4) : 0); int T = 4, kind = thorough ? choose(5) : pick({1, 2}); p.first = 3; p.last = p.first + T - 1; auto in = numbered(p, scene(T, 3, kind)); string d;
    for (int n = p.first; n < p.last; n++) match(in[n], in[n + 1], &d); note("three particles, motion %d, links %s, limits %g %g %g", kind, d.c_str(), p.dv, p.dacc, p.dangle); back(p, in, false);
}
SCENARIO_N(links_glass, 64, 60) { Par p = par(4); p.first = 3; p.last = 6; int kind = choose(5); auto in = numbered(p, scene(4, 2, kind)); string d; for (int n = p.first; n < p.last; n++) match(in[n], in[n + 1], &d); note("behind glass, motion %d, links %s", kind, d.c_str()); back(p, in, false); }
/* ranges shorter than the window, inside a longer sequence whose links continue outside */
SCENARIO_N(ranges, 64, 60) {
    Par p = par(0); int T = thorough ? 6 : 5, kind = thorough ? pick({0, 1, 4}) : pick({0, 4}), first = choose(T), last = first + choose(T - first); p.first = 10; auto in = numbered(p, scene(T, 2, kind)); string d; p.first = 10 + first; p.last = 10 + last;
    int base = choose(3); for (int n = 10; n < 10 + T - 1; n++) { int c = base == 2 ? 3 : choose(4); for (int i = 0; i < 2; i++) if (c >> i & 1) { in[n].parts[i].next = i; in[n + 1].parts[i].prev = i; } if (noting()) d += strf(" %d", c); } if (base == 1) for (auto& q : in[p.last].parts) q.next = -2;
    note("frames %d..%d of 10..%d, motion %d, links%s", p.first, p.last, 10 + T - 1, kind, d.c_str()); back(p, in, choose(2));
}
/* frames that are missing although others are linked to them; links to particles that do not exist */
SCENARIO_N(holes, 64, 60) {
    Par p = par(0); int T = thorough ? 6 : 5, kind = pick({0, 1}); p.first = 3; p.last = p.first + T - 1; p.add = choose(2); auto in = numbered(p, scene(T, 2, kind)); string d; int lp = choose(3);
    for (int n = p.first; n < p.last; n++) for (int i = 0; i < 2; i++) if (lp == 0 || (lp == 1 && (i + n) % 2) || (lp == 2 && n >= p.last - 1)) { in[n].parts[i].next = i; in[n + 1].parts[i].prev = i; }
    for (int n = p.first; n <= p.last; n++) { int k = choose(4); if (noting()) d += strf(" %s", (const char*[]){"whole", "missing", "links too far", "one particle less"}[k]); if (k == 1) { in[n].count = -1; in[n].parts.clear(); if (choose(2)) in.erase(n); } if (k == 2) for (auto& q : in[n].parts) { if (q.next >= 0) q.next += 7; if (q.prev >= 0) q.prev += 9; } if (k == 3) { in[n].parts.pop_back(); in[n].count--; for (int c = 0; c < p.cams; c++) for (auto& t : in[n].t[c]) if (t.tnr >= in[n].count) t.tnr = -1; } }
    note("frames%s, links %d", d.c_str(), lp); back(p, in, false, false);
}
/* forward, then backward, in files: the second run finds what the first left */
SCENARIO_N(after_forward, 64, 60) {
    Par p = par(pick({0, 3})); int T = 5; p.first = pick({1, 99}); p.last = p.first + T - 1; p.add = choose(2); int kind = choose(5), gap = choose(8), who = choose(2); auto f = scene(T, 2, kind); if (gap & 1) f[1].erase(f[1].begin() + who); if (gap & 2) f[3][who % f[3].size()].known = false; if (gap & 4) f[0].erase(f[0].begin() + who);
    note("motion %d, gaps %d of particle %d, add %d", kind, gap, who, p.add); clean(p, p.first - 5, p.last + 5); for (int t = 0; t < T; t++) write_frame_files(p, build(p, f[t]), p.first + t);
    vector<Calibration*> cp; tracking_run* tr = mk_run(p, cp); track_forward_start(tr); for (int s = p.first; s < p.last; s++) trackcorr_c_loop(tr, s); trackcorr_c_finish(tr, p.last); mc::step(T);
    /* read back what is there */
    std::map<int, RF> in; frame fr; frame_init(&fr, p.cams, p.cap); char* tb[4]; for (int c = 0; c < p.cams; c++) tb[c] = tr->seq_par->img_base_name[c]; bool ok = true; for (int n = p.first; n <= p.last; n++) { if (!read_frame(&fr, (char*)CN, (char*)LN, (char*)AN, tb, n)) ok = false; in[n] = store(&fr); } free_frame(&fr); tr_free(tr); if (!ok) return;
    back(p, in, true);
}
/* several candidates for one particle: the cheapest is taken */
SCENARIO_N(choices, 64, 60) {
    Par p = par(pick({0, 3})); p.first = 3; p.last = 6; int n = 2 + choose(thorough ? 4 : 3), s1 = choose(4), s2 = choose(4); p.cams = 2 + choose(3); vector<Frame> f(4); string d; static const V off[4] = {{0, 0, 0}, {0.09, 0.02, 0.13}, {-0.17, 0.11, 0.06}, {0.05, -0.21, -0.16}}; static const V more[5] = {{0, 0, 0}, {0.23, 0.31, -0.11}, {-0.33, 0.12, 0.27}, {0.14, -0.29, 0.38}, {0.41, 0.05, 0.19}};
    for (int t = 0; t < 4; t++) for (int i = 0; i < n; i++) f[t].push_back({V(0.6 * t, 0.1 * t, -0.2 * t) + more[i] + off[t == 1 ? s1 : t == 2 ? s2 : 0], t != 1 || choose(2) ? ALL : 3u, true}); auto in = numbered(p, f);
    int k = choose(n), l = choose(n + 1); in[5].parts[k].next = 0; in[6].parts[0].prev = k; if (l < n) { in[4].parts[l].prev = 0; in[3].parts[0].next = l; } if (n > 2) { int k2 = choose(n); if (k2 != k) { in[5].parts[k2].next = 1; in[6].parts[1].prev = k2; } }
    note("%d particles, offsets %d %d, linked particle %d", n, s1, s2, k); back(p, in, false);
}
/* frames with different numbers of particles: some of three tracks are there, every partial one-to-one relation between what is there */
SCENARIO_N(counts, 64, 60) {
    Par p = par(0); int T = 4, kind = thorough ? choose(3) : 1; p.first = 3; p.last = p.first + T - 1; auto f = scene(T, 3, kind); string d; static const int few[4] = {1, 4, 3, 7};
    for (int t = 0; t < T; t++) { int m = thorough ? 1 + choose(7) : few[choose(4)]; Frame g; for (int i = 0; i < 3; i++) if (m >> i & 1) g.push_back(f[t][i]); if (t & 1) std::reverse(g.begin(), g.end()); f[t] = g; if (noting()) d += strf("%d:", m); }
    auto in = numbered(p, f); for (int n = p.first; n < p.last; n++) match(in[n], in[n + 1], &d); note("particles and links %s, motion %d", d.c_str(), kind); back(p, in, false);
}
