/* C10: multi-camera correspondences. */
#include "ref.h"
#include "io.h"
#include <functional>
#include <map>
#include <set>
using namespace mc; using ref::V;
static bool near_rel(double a, double b) { return fabs(a - b) <= 1e-9 * std::max(fabs(a), fabs(b)); }

/* ---- clique finders on every small graph ---- */
struct Graph { int n, cnt[4]; correspond* l[4][4]; bool e[4][4][4][4]; };   /* e[c1][a][c2][b], c1 < c2 */
static double gcorr(int c1, int a, int c2, int b) { return 100 + ((c1 * 53 + a * 31 + c2 * 17 + b * 7) * 37) % 101; }
static double gdist(int c1, int a, int c2, int b) { return 1 + 0.125 * (((c1 * 13 + a * 29 + c2 * 5 + b * 3) * 11) % 23); }
static void make_graph(Graph& g, std::vector<int> cnt, uint32_t bits) {
    g.n = cnt.size(); memset(g.e, 0, sizeof g.e); for (int i = 0; i < g.n; i++) g.cnt[i] = cnt[i]; int k = 0;
    for (int c = 0; c < g.n; c++) for (int d = c + 1; d < g.n; d++) for (int a = 0; a < cnt[c]; a++) { correspond& q = g.l[c][d][a]; q.p1 = a; q.n = 0; for (int b = 0; b < cnt[d]; b++) if (bits >> k++ & 1) { g.e[c][a][d][b] = true; q.p2[q.n] = b; q.corr[q.n] = gcorr(c, a, d, b); q.dist[q.n] = gdist(c, a, d, b); q.n++; } if (q.n == 0 && a % 2) q.n = -1; }
}
typedef std::map<std::vector<int>, double> Set;
static Set collect(const Graph& g, n_tupel* s, int m, const char* what) { Set r; for (int i = 0; i < m; i++) { std::vector<int> k; for (int c = 0; c < g.n; c++) k.push_back(s[i].p[c] < 0 ? -1 : s[i].p[c]); MC_CHECK(!r.count(k), "twice", "%s: group found twice", what); r[k] = s[i].corr; } return r; }
static void same(const Set& got, const Set& want, const char* what, uint32_t bits) {
    auto show = [](const std::vector<int>& v) { std::string s; for (int x : v) s += " " + std::to_string(x); return s; };
    for (auto& w : want) { auto it = got.find(w.first); MC_CHECK(it != got.end(), "group-missed", "%s, graph %x: group (%s ) of quality %g was not found", what, bits, show(w.first).c_str(), w.second); MC_CHECK(near_rel(it->second, w.second), "group-quality", "%s, graph %x: group (%s ) has quality %g, expected %g", what, bits, show(w.first).c_str(), it->second, w.second); }
    for (auto& q : got) MC_CHECK(want.count(q.first), "group-extra", "%s, graph %x: group (%s ) is not acceptable", what, bits, show(q.first).c_str());
}
static Set cliques(const Graph& g, int size, double min, const int used[4], bool unique) {
    Set r; for (int cams = 0; cams < 1 << g.n; cams++) { if (__builtin_popcount(cams) != size) continue; std::vector<int> p(g.n, -1);
        std::function<void(int)> rec = [&](int c) { if (c == g.n) { double s = 0, d = 0; for (int i = 0; i < g.n; i++) for (int j = i + 1; j < g.n; j++) if (p[i] >= 0 && p[j] >= 0) { if (!g.e[i][p[i]][j][p[j]]) return; s += gcorr(i, p[i], j, p[j]); d += gdist(i, p[i], j, p[j]); if (unique) for (int b = 0; b < g.cnt[j]; b++) if (b != p[j] && g.e[i][p[i]][j][b]) return; } if (s / d > min) r[p] = s / d; return; }
            if (!(cams >> c & 1)) { rec(c + 1); return; } for (int a = 0; a < g.cnt[c]; a++) { if (used[c] >> a & 1) continue; p[c] = a; rec(c + 1); } p[c] = -1; };
        rec(0); } return r;
}
static correspond* arena() { static correspond* a = (correspond*)calloc(6 * 4, sizeof(correspond)); return a; }
static void link(Graph& g) { int k = 0; for (int c = 0; c < 4; c++) for (int d = 0; d < 4; d++) g.l[c][d] = c < d ? arena() + 4 * k++ : NULL; }
static int** marks(const Graph& g, const int used[4]) { static int m[4][8]; static int* p[4] = {m[0], m[1], m[2], m[3]}; for (int c = 0; c < 4; c++) for (int i = 0; i < 8; i++) m[c][i] = used[c] >> i & 1; return p; }
static void finders(std::vector<int> cnt, uint32_t bits, const std::vector<double>& mins) {
    static Graph g; link(g); make_graph(g, cnt, bits); static n_tupel s[4096]; int none[4] = {0, 0, 0, 0};
    for (double min : mins) {
        if (g.n == 4) { for (auto& x : s) for (auto& y : x.p) y = -1; int m = four_camera_matching(g.l, g.cnt[0], min, s, 4096); step(); same(collect(g, s, m, "four cameras"), cliques(g, 4, min, none, false), "four cameras", bits); }
        for (int u = 0; u < (bits % 7 == 0 ? 4 : 1); u++) { int used[4] = {u & 1, u & 2, u >> 1 & 1, u & 1}; 
            if (g.n >= 3) { int m = three_camera_matching(g.l, g.n, g.cnt, min, s, 4096, marks(g, used)); step(); same(collect(g, s, m, "three cameras"), cliques(g, 3, min, used, false), "three cameras", bits); }
            int m = consistent_pair_matching(g.l, g.n, g.cnt, min, s, 4096, marks(g, used)); step(); same(collect(g, s, m, "pairs"), cliques(g, 2, min, used, true), "pairs", bits); }
    }
}
/* the quality of the group of the first targets of the first cameras: a group exactly as good as the minimum is not accepted */
static double first_quality(int n, int size) { double c = 0, d = 0; for (int i = 0; i < size; i++) for (int j = i + 1; j < size; j++) { c += gcorr(i, 0, j, 0); d += gdist(i, 0, j, 0); } return c / d; }
static void graph_scenario(std::vector<int> cnt, int high) { int bitsn = 0; for (size_t c = 0; c < cnt.size(); c++) for (size_t d = c + 1; d < cnt.size(); d++) bitsn += cnt[c] * cnt[d]; int h = std::min(high, bitsn); uint32_t top = choose(1 << h) << (bitsn - h); for (uint32_t low = 0; low < 1u << (bitsn - h); low++) finders(cnt, top | low, {0, low & 2 ? 55 : first_quality(cnt.size(), 2 + low / 4 % (cnt.size() - 1))}); state(hash_v(top, cnt.size() * 100 + bitsn)); }
SCENARIO(graphs_4cam) { graph_scenario(thorough ? std::vector<int>{2, 2, 2, 2} : choose(2) ? std::vector<int>{2, 2, 2, 1} : std::vector<int>{1, 3, 2, 1}, 10); }
SCENARIO(graphs_3cam) { graph_scenario(choose(2) ? std::vector<int>{3, 2, 2} : std::vector<int>{2, 3, 2}, 8); }
SCENARIO(graphs_2cam) { graph_scenario(choose(2) ? std::vector<int>{3, 4} : std::vector<int>{4, 3}, 6); }
/* scratch space used up: terminated there, nothing behind it touched */
SCENARIO(scratch_full) { static Graph g; link(g); int n = 2 + choose(3), size = 1 + choose(9), which = choose(3); std::vector<int> cnt(n, 3); make_graph(g, cnt, 0xffffffff); if (which == 2) for (int c = 0; c < n; c++) for (int d = c + 1; d < n; d++) for (int a = 0; a < 3; a++) g.l[c][d][a].n = 1; if (which == 0 && n < 4 || which == 1 && n < 3) return; int none[4] = {0, 0, 0, 0};
    std::vector<n_tupel> s(size); int m = which == 0 ? four_camera_matching(g.l, 3, 0, s.data(), size) : which == 1 ? three_camera_matching(g.l, n, g.cnt, 0, s.data(), size, marks(g, none)) : consistent_pair_matching(g.l, n, g.cnt, 0, s.data(), size, marks(g, none)); step(); int total = which == 0 ? 81 : which == 1 ? (n == 3 ? 27 : 108) : 3 * n * (n - 1) / 2; MC_CHECK(m == std::min(size, total), "scratch", "scratch space of %d groups: %d returned of %d", size, m, total); state(m * 10 + which); }

/* ---- the whole process on real geometry ---- */
struct Scene { int n; std::vector<Calibration> cal; mm_np m; volume_par v; control_par c; };
static void scene(Scene& s, int n, int geo) { s.n = n; s.m = geo == 1 ? ref::media(1, 1.46, 1.33, 6) : ref::media(1, 1, 1, 1); double A[4][3] = {{0.3, 0.25, 0}, {-0.3, 0.3, 0.4}, {-0.28, -0.3, -1.9}, {0.31, -0.26, 3.0}}; for (int i = 0; i < n; i++) s.cal.push_back(ref::camera(A[i][0], A[i][1], A[i][2], V(0, 0, -5), 250, 80, V(0, 0, 40)));
    memset(&s.v, 0, sizeof s.v); s.v.X_lay[0] = -40; s.v.X_lay[1] = 40; s.v.Zmin_lay[0] = s.v.Zmin_lay[1] = -25; s.v.Zmax_lay[0] = s.v.Zmax_lay[1] = 15; s.v.cn = s.v.cnx = s.v.cny = 0.1; s.v.csumg = 0.05; memset(&s.c, 0, sizeof s.c); s.c.num_cams = n; s.c.imx = 1280; s.c.imy = 1024; s.c.pix_x = s.c.pix_y = 0.04; s.c.mm = &s.m; }
struct Obs { double x, y; int n, nx, ny, sumg; };
static double ratio(double a, double b) { return a < b ? a / b : b / a; }
#include <malloc.h>
static void check_scene(Scene& s, const std::vector<std::vector<Obs>>& obs, int unused, const std::string& what) {
    static int once = (mallopt(M_MMAP_THRESHOLD, 1 << 30), mallopt(M_TRIM_THRESHOLD, 1 << 30), mallopt(M_TOP_PAD, 64 << 20)); (void)once;   /* the scratch space is 20 MB: do not give it back to the system each time */
    int n = s.n; frame f; memset(&f, 0, sizeof f); std::vector<std::vector<target>> t(n); std::vector<target*> tp(n); std::vector<int> nt(n); std::vector<std::vector<coord_2d>> crd(n); std::vector<coord_2d*> cp(n); std::vector<Calibration*> calp(n);
    for (int c = 0; c < n; c++) { nt[c] = obs[c].size(); for (int i = 0; i < nt[c]; i++) { auto& o = obs[c][i]; target q; memset(&q, 0, sizeof q); q.pnr = i; q.x = o.x; q.y = o.y; q.n = o.n; q.nx = o.nx; q.ny = o.ny; q.sumg = o.sumg; q.tnr = -1; t[c].push_back(q); bool un = unused && i == 0 && c == unused - 1; crd[c].push_back({i, un ? PT_UNUSED : o.x, un ? PT_UNUSED : o.y}); }
        std::sort(crd[c].begin(), crd[c].end(), [](const coord_2d& a, const coord_2d& b) { return a.x < b.x; }); crd[c].shrink_to_fit(); t[c].shrink_to_fit(); tp[c] = t[c].data(); cp[c] = crd[c].data(); calp[c] = &s.cal[c]; }
    f.targets = tp.data(); f.num_targets = nt.data(); f.num_cams = n; auto crd0 = crd; auto t0 = t; int counts[4] = {77, 77, 77, 77};
    n_tupel* con = correspondences(&f, cp.data(), &s.v, &s.c, calp.data(), counts); step(); MC_CHECK(con, "null", "%s: no result", what.c_str()); std::vector<n_tupel> r(con, con + std::max(0, std::min(counts[3], 64))); free(con);
    /* adjacency: the band of every target of an earlier camera, every target of a later camera */
    struct Edge { double corr, dist; }; std::map<std::vector<int>, Edge> E; std::map<std::vector<int>, int> deg; bool edgy = false;
    for (int a = 0; a < n; a++) for (int b = a + 1; b < n; b++) for (int i = 0; i < nt[a]; i++) { if (crd[a][i].x == PT_UNUSED) continue; double x0, y0, x1, y1; epi_mm(crd[a][i].x, crd[a][i].y, calp[a], calp[b], &s.m, &s.v, &x0, &y0, &x1, &y1); double L = hypot(x1 - x0, y1 - y0), ux = (x1 - x0) / L, uy = (y1 - y0) / L; const target& ta = t[a][crd[a][i].pnr];
        double W = s.c.imx * s.c.pix_x / 2, H = s.c.imy * s.c.pix_y / 2; if (std::max(x0, x1) <= -W || std::min(x0, x1) >= W || std::max(y0, y1) <= -H || std::min(y0, y1) >= H) continue;
        for (int j = 0; j < nt[b]; j++) { double x = crd[b][j].x, y = crd[b][j].y, d = fabs((x - x0) * uy - (y - y0) * ux), e = s.v.eps0, m = std::min({e - d, x - std::min(x0, x1) + e, std::max(x0, x1) + e - x, y - std::min(y0, y1) + e, std::max(y0, y1) + e - y}); const target& tb = t[b][crd[b][j].pnr]; double qn = ratio(ta.n, tb.n), qx = ratio(ta.nx, tb.nx), qy = ratio(ta.ny, tb.ny), qs = ratio(ta.sumg, tb.sumg); if (fabs(m) < 1e-6) edgy = true; if (m <= 0 || qn < s.v.cn || qx < s.v.cnx || qy < s.v.cny || qs <= s.v.csumg) continue; E[{a, i, b, j}] = {(4 * qs + 2 * qn + qx + qy) * (ta.sumg + tb.sumg), d}; deg[{a, i, b}]++; } }
    if (edgy) return;
    auto quality = [&](const std::vector<int>& p, bool& ok) { double c = 0, d = 0; ok = true; for (int a = 0; a < n; a++) for (int b = a + 1; b < n; b++) if (p[a] >= 0 && p[b] >= 0) { auto it = E.find({a, p[a], b, p[b]}); if (it == E.end()) { ok = false; return 0.; } c += it->second.corr; d += it->second.dist; } return c / d; };
    auto samequality = [&](const std::vector<int>& p, double got) { double c = 0, d = 0; for (int a = 0; a < n; a++) for (int b = a + 1; b < n; b++) if (p[a] >= 0 && p[b] >= 0) { auto& e = E[{a, p[a], b, p[b]}]; c += e.corr; d += e.dist; } return std::isinf(got) ? d < 1e-7 : fabs(c / got - d) < 1e-7; };
    auto show = [&](const std::vector<int>& p) { std::string q = "("; for (int x : p) q += " " + std::to_string(x); return q + " )"; };
    MC_CHECK(counts[0] >= 0 && counts[1] >= 0 && counts[2] >= 0 && counts[0] + counts[1] + counts[2] == counts[3] && counts[3] <= 60, "counts", "%s: counts %d %d %d, total %d", what.c_str(), counts[0], counts[1], counts[2], counts[3]);
    std::vector<std::set<int>> used(n); std::map<std::vector<int>, int> chosen; std::vector<std::vector<int>> useidx(n); for (int c = 0; c < n; c++) useidx[c].assign(nt[c], -1); double last = 0; std::vector<double> Q; std::vector<int> Sz;
    for (int i = 0; i < counts[3]; i++) { int size = i < counts[0] ? 4 : i < counts[0] + counts[1] ? 3 : 2; std::vector<int> p(n); int k = 0; for (int c = 0; c < n; c++) { p[c] = r[i].p[c] < 0 ? -1 : r[i].p[c]; if (p[c] >= 0) { k++; MC_CHECK(p[c] < nt[c] && crd[c][p[c]].x != PT_UNUSED, "index", "%s: entry %d names target %d of camera %d", what.c_str(), i, p[c], c); MC_CHECK(useidx[c][p[c]] < 0, "reuse", "%s: target %d of camera %d is in entries %d and %d", what.c_str(), p[c], c, useidx[c][p[c]], i); useidx[c][p[c]] = i; } }
        MC_CHECK(k == size, "size", "%s: entry %d joins %d cameras, listed among those of %d", what.c_str(), i, k, size); MC_CHECK(!s.c.allCam_flag || k == n, "all-cameras", "%s: entry %d joins %d of %d cameras", what.c_str(), i, k, n); bool ok; double q = quality(p, ok); MC_CHECK(ok, "band", "%s: entry %d %s joins targets that are not on each other's epipolar bands", what.c_str(), i, show(p).c_str()); MC_CHECK(samequality(p, r[i].corr), "quality", "%s: entry %d has quality %g, expected %g", what.c_str(), i, r[i].corr, q); MC_CHECK(r[i].corr > s.v.corrmin, "minimum", "%s: entry %d has quality %g", what.c_str(), i, r[i].corr);
        if (i && Sz.back() == size) MC_CHECK(r[i].corr <= last, "order", "%s: entry %d is better than the one before", what.c_str(), i); last = r[i].corr; Q.push_back(r[i].corr); Sz.push_back(size); chosen[p] = i;
        if (size == 2) for (int a = 0; a < n; a++) for (int b = a + 1; b < n; b++) if (p[a] >= 0 && p[b] >= 0) MC_CHECK((deg[{a, p[a], b}] == 1), "ambiguous", "%s: pair %s is one of %d possible", what.c_str(), show(p).c_str(), deg[{a, p[a], b}]); }
    /* nothing acceptable was left out without a better or larger group in its way */
    for (int size = n; size >= 2; size--) { if (s.c.allCam_flag && size < n) break; for (int cams = 0; cams < 1 << n; cams++) { if (__builtin_popcount(cams) != size) continue; std::vector<int> p(n, -1);
        std::function<void(int)> rec = [&](int c) { if (c == n) { bool ok; double q = quality(p, ok); if (!ok || !(q > s.v.corrmin * (1 + 1e-12)) || chosen.count(p)) return; if (size == 2) for (int a = 0; a < n; a++) for (int b = a + 1; b < n; b++) if (p[a] >= 0 && p[b] >= 0 && deg[{a, p[a], b}] != 1) return; bool excused = false; for (int c = 0; c < n; c++) if (p[c] >= 0 && useidx[c][p[c]] >= 0) { int u = useidx[c][p[c]]; if (Sz[u] > size || (Sz[u] == size && (Q[u] >= q || near_rel(Q[u], q) || (Q[u] > 1e9 && q > 1e9)))) excused = true; } MC_CHECK(excused, "left-out", "%s: group %s of quality %g was left out though no better group uses its targets", what.c_str(), show(p).c_str(), q); return; }
            if (!(cams >> c & 1)) { rec(c + 1); return; } for (int a = 0; a < nt[c]; a++) { p[c] = a; rec(c + 1); } p[c] = -1; }; rec(0); } }
    uint64_t h = hash(counts, sizeof counts);
    for (int c = 0; c < n; c++) { MC_CHECK(!nt[c] || !memcmp(crd[c].data(), crd0[c].data(), nt[c] * sizeof(coord_2d)), "inputs", "%s: the coordinates were changed", what.c_str()); for (int i = 0; i < nt[c]; i++) { int tn = t[c][crd[c][i].pnr].tnr; MC_CHECK(tn == useidx[c][i], "marks", "%s: target %d of camera %d is marked %d, entry %d uses it", what.c_str(), i, c, tn, useidx[c][i]); target a = t[c][crd[c][i].pnr]; a.tnr = -1; MC_CHECK(!memcmp(&a, &t0[c][crd[c][i].pnr], sizeof a), "targets", "%s: a target was changed", what.c_str()); h = hash_v(tn, h); } }
    state(h);
}
/* 3D points seen by any subset of the cameras, narrow to wide bands, with and without extra false targets */
SCENARIO(scenes) {
    int n = 1 + choose(4), geo = choose(2); Scene s; scene(s, n, geo); int np = choose(n < 3 || (n == 3 && thorough) ? 5 : 4), bright = choose(2); s.c.allCam_flag = choose(2); s.v.eps0 = pick({0.02, 0.6, 6.0}); s.v.corrmin = pick({0., 700.});
    static V P[] = {V(-6, 4, -10), V(5, 6, 3), V(5.4, 5.7, 2), V(0, -9, -20)}; std::vector<std::vector<Obs>> obs(n); std::string what = strf("%d cameras, %s, band %g, minimum %g%s, points", n, geo ? "water" : "air", s.v.eps0, s.v.corrmin, s.c.allCam_flag ? ", all cameras only" : "");
    static std::vector<int> M3 = {15, 14, 13, 11, 7, 3, 5, 12, 10, 1, 8}; 
    for (int k = 0; k < np; k++) { int mask = n == 4 && !thorough ? M3[choose(np >= 3 ? 7 : 11)] : 1 + choose((1 << n) - 1); what += strf(" %x", mask); for (int c = 0; c < n; c++) if (mask >> c & 1) { double x, y; vec3d p = {P[k].x, P[k].y, P[k].z}; flat_image_coord(p, &s.cal[c], &s.m, &x, &y); int b = bright ? 10 + 7 * k + 3 * c : 10; obs[c].push_back({x + 0.003 * (c - 1) * (k + 1), y - 0.004 * c, b, 3 + (bright ? k : 0), 3, 100 + (bright ? 45 * k + 20 * c : 0)}); } }
    check_scene(s, obs, 0, what);
}
/* every sub-pattern of a dense group of targets: many ambiguous candidates, ties in quality */
SCENARIO(dense) {
    int n = 2 + choose(3), tie = choose(2); Scene s; scene(s, n, 0); s.v.eps0 = pick({0.3, 1.2, 30.}); s.v.corrmin = pick({0., 300.}); s.c.allCam_flag = choose(2); int unused = thorough ? choose(n + 1) : 2 * choose(2); std::vector<std::vector<Obs>> obs(n); std::string what = strf("%d cameras dense%s, band %g, unusable %d, masks", n, tie ? " equal" : "", s.v.eps0, unused);
    for (int c = 0; c < n; c++) { int mask = choose(n == 4 && !thorough ? (c < 2 ? 5 : 3) : 8); if (n == 4 && !thorough) mask = std::vector<int>{7, 3, 5, 0, 1}[mask]; what += strf(" %x", mask); for (int k = 0; k < 3; k++) if (mask >> k & 1) { vec3d p = {0.7 * k, 0.5 * k * k, -5.0 + k}; double x, y; flat_image_coord(p, &s.cal[c], &s.m, &x, &y); obs[c].push_back({x, y, tie ? 10 : 10 + k + c, 4, 4, tie ? 100 : 100 + 17 * k + 11 * c}); } }
    check_scene(s, obs, unused, what);
}
/* the candidates of every target for every later camera are those of the epipolar search in that camera (its own sensor), in number up to what the lists hold */
SCENARIO(pairs) {
    int n = 2 + choose(3), many = choose(4); Scene s; scene(s, n, choose(2)); s.v.eps0 = many ? 60 : pick({0.3, 1.2, 8.}); s.v.cn = s.v.cnx = s.v.cny = pick({0., 0.5}); s.v.csumg = 0; int small = choose(3); if (small) { s.c.imx = 300; s.c.imy = 200; } for (int c = 0; c < n; c++) { s.cal[c].int_par.xh = small == 2 ? (c % 2 ? 7 : -6) + c : 0.3 * c; s.cal[c].int_par.yh = small == 2 ? (c % 2 ? -4 : 5) - c : -0.2 * c; }
    int crowded = n - 1 - choose(n); if (many && (crowded == 0 || !thorough) && n > 2 && crowded != n - 1) return; int N = std::vector<int>{0, 199, 200, 201}[many]; std::vector<std::vector<target>> t(n); std::vector<std::vector<coord_2d>> crd(n);
    for (int c = 0; c < n; c++) { int K = many && c == crowded ? N : 7; for (int k = 0; k < K; k++) { double x, y; if (K > 7) { vec3d p = {0.01 * k - 1, 0.005 * k, -5}; flat_image_coord(p, &s.cal[c], &s.m, &x, &y); } else { vec3d p = {1.9 * k - 6, 0.7 * k * k - 9, -9.0 + 2 * k}; flat_image_coord(p, &s.cal[c], &s.m, &x, &y); } target q; memset(&q, 0, sizeof q); q.pnr = k; q.x = x; q.y = y; q.n = 10 + 3 * (k % 4) + c; q.nx = 3 + k % 3; q.ny = 3 + (k + c) % 3; q.sumg = 100 + 17 * (k % 7) + 11 * c; q.tnr = -1; t[c].push_back(q); bool un = k == 3 && c % 2; crd[c].push_back({k, un ? (double)PT_UNUSED : x, un ? (double)PT_UNUSED : y}); } std::sort(crd[c].begin(), crd[c].end(), [](const coord_2d& a, const coord_2d& b) { return a.x < b.x; }); crd[c].shrink_to_fit(); t[c].shrink_to_fit(); }
    correspond* l[4][4]; int nt[4] = {0, 0, 0, 0}; target* tp[4]; coord_2d* cp[4]; Calibration* cal[4]; for (int c = 0; c < n; c++) { nt[c] = t[c].size(); tp[c] = t[c].data(); cp[c] = crd[c].data(); cal[c] = &s.cal[c]; }
    frame f; memset(&f, 0, sizeof f); f.targets = tp; f.num_targets = nt; f.num_cams = n; MC_CHECK(safely_allocate_adjacency_lists(l, n, nt), "alloc", "allocation failed"); match_pairs(l, cp, &f, &s.v, &s.c, cal); step(); uint64_t h = n;
    for (int a = 0; a < n; a++) for (int b = a + 1; b < n; b++) for (int i = 0; i < nt[a]; i++) { auto& q = l[a][b][i]; if (crd[a][i].x == PT_UNUSED) { MC_CHECK(q.n == 0, "pairs-unused", "an unusable target of camera %d has %d candidates in camera %d", a, q.n, b); continue; }
        double x0, y0, x1, y1; epi_mm(crd[a][i].x, crd[a][i].y, cal[a], cal[b], &s.m, &s.v, &x0, &y0, &x1, &y1); static candidate c[MAXCAND + 1]; const target& ta = t[a][crd[a][i].pnr]; int m = find_candidate(cp[b], tp[b], nt[b], x0, y0, x1, y1, ta.n, ta.nx, ta.ny, ta.sumg, c, &s.v, &s.c, cal[b]); m = std::max(0, m);
        MC_CHECK(std::max(0, q.n) == m && (q.p1 == i || !m), "pairs-count", "camera %d target %d, camera %d (of %d targets, %s sensor): %d candidates recorded for target %d, the search finds %d", a, i, b, nt[b], small ? "small" : "large", q.n, q.p1, m); for (int k = 0; k < m; k++) MC_CHECK(q.p2[k] == c[k].pnr && q.corr[k] == c[k].corr && q.dist[k] == c[k].tol, "pairs-entry", "camera %d target %d, camera %d: candidate %d recorded as target %d (%g, %g), the search finds target %d (%g, %g)", a, i, b, k, q.p2[k], q.corr[k], q.dist[k], c[k].pnr, c[k].corr, c[k].tol); h = hash_v(m, h); }
    deallocate_adjacency_lists(l, n); state(h);
}
/* allocation helpers */
SCENARIO(allocation) { int n = 1 + choose(4); int cnt[4]; for (int i = 0; i < 4; i++) cnt[i] = pick({0, 1, 7}); correspond* l[4][4]; int ok = safely_allocate_adjacency_lists(l, n, cnt); MC_CHECK(ok == 1, "alloc", "allocation failed"); for (int c = 0; c < n - 1; c++) for (int d = c + 1; d < n; d++) for (int i = 0; i < cnt[c]; i++) MC_CHECK(l[c][d][i].n == 0 && l[c][d][i].p1 == 0, "alloc-init", "a fresh list is not empty"); deallocate_adjacency_lists(l, n);
    int** u = safely_allocate_target_usage_marks(n); MC_CHECK(u, "alloc", "allocation failed"); for (int c = 0; c < n; c++) for (int i = 0; i < nmax_; i += 1009) MC_CHECK(u[c][i] == 0, "alloc-init", "a fresh mark is set"); deallocate_target_usage_marks(u, n); step(); state(n); }
/* more acceptable groups than the scratch list (cameras x 202400) can hold: nothing may be written outside it, what is returned is still exclusive */
SCENARIO_N(overfull, 8, 60) {
    int n = 3 + choose(2), N = n == 4 ? pick({29, 30, 31}) : pick({84, 85, 94}); Scene s; scene(s, n, 0); s.v.eps0 = 300; s.v.corrmin = 0; s.v.cn = s.v.cnx = s.v.cny = 0; s.v.csumg = 0; int all = s.c.allCam_flag = choose(2), shape = choose(2); std::vector<target> t[4]; std::vector<coord_2d> cr[4]; target* tp[4]; coord_2d* cp[4]; Calibration* cal[4]; int nt[4], counts[4];
    for (int c = 0; c < n; c++) { for (int k = 0; k < N; k++) { vec3d p = {0.4 * k - 0.2 * N, shape ? 0.1 * k : 0.3 * ((k * 7) % N), -5}; double x, y; flat_image_coord(p, &s.cal[c], &s.m, &x, &y); target q; memset(&q, 0, sizeof q); q.pnr = k; q.n = 10; q.nx = q.ny = 4; q.sumg = 100; q.tnr = -1; t[c].push_back(q); cr[c].push_back({k, x, y}); } std::sort(cr[c].begin(), cr[c].end(), [](const coord_2d& a, const coord_2d& b) { return a.x < b.x; }); t[c].shrink_to_fit(); cr[c].shrink_to_fit(); tp[c] = t[c].data(); cp[c] = cr[c].data(); cal[c] = &s.cal[c]; nt[c] = N; }
    frame f; memset(&f, 0, sizeof f); f.targets = tp; f.num_targets = nt; f.num_cams = n; note("%d cameras, %d targets each, all fitting, all-cameras %d, shape %d", n, N, all, shape);
    n_tupel* con = correspondences(&f, cp, &s.v, &s.c, cal, counts); step(); MC_CHECK(con && counts[3] == counts[0] + counts[1] + counts[2] && counts[3] >= 1 && counts[3] <= N * n / 2, "counts", "counts %d %d %d total %d", counts[0], counts[1], counts[2], counts[3]);
    std::set<std::pair<int, int>> u; for (int i = 0; i < counts[3]; i++) for (int c = 0; c < n; c++) if (con[i].p[c] >= 0) { MC_CHECK(con[i].p[c] < N, "index", "entry %d names target %d", i, con[i].p[c]); MC_CHECK(u.insert({c, con[i].p[c]}).second, "reuse", "target %d of camera %d is used twice", con[i].p[c], c); MC_CHECK(t[c][cr[c][con[i].p[c]].pnr].tnr == i, "marks", "target %d of camera %d is marked %d", con[i].p[c], c, t[c][cr[c][con[i].p[c]].pnr].tnr); }
    MC_CHECK(counts[n == 4 ? 0 : 1] > 0, "none", "no group was found"); free(con); state(hash(counts, sizeof counts));
}
