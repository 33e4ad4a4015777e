/* C21: matching known points to detections; calibration point files. */
#include "ref.h"
#include "io.h"
using namespace mc; using ref::V;
struct Cam { Calibration cal; control_par* cp; };
static Cam cam(int k, int field = 0) {
    static Cam c; if (c.cp) free_control_par(c.cp); c.cp = new_control_par(1); c.cp->imx = 640; c.cp->imy = 480; c.cp->pix_x = 0.01; c.cp->pix_y = 0.012; c.cp->chfield = field; *c.cp->mm = k == 2 ? ref::media(1, 1.46, 1.33, 6) : ref::media(1, 1, 1, 1);
    double a[4][3] = {{0, 0, 0}, {0.1, -0.2, 1.4}, {-0.15, 0.1, 0.2}, {0.05, 0.1, -0.3}}; c.cal = ref::camera(a[k][0], a[k][1], a[k][2], V(0, 0, 0), 120, 5, V(0, 0, 30));
    if (k == 3) { c.cal.int_par.xh = 0.11; c.cal.int_par.yh = -0.07; c.cal.added_par.k1 = 1e-3; c.cal.added_par.p1 = 2e-4; c.cal.added_par.scx = 1.01; c.cal.added_par.she = 0.02; } return c;
}
static void pixel(const Cam& c, V X, double& px, double& py) {
    double x, y; if (!ref::project(c.cal, *c.cp->mm, X, x, y)) { px = py = NAN; return; } const ap_52& a = c.cal.added_par; x += c.cal.int_par.xh; y += c.cal.int_par.yh; double r2 = x * x + y * y, rad = a.k1 * r2 + a.k2 * r2 * r2 + a.k3 * r2 * r2 * r2, xd = x + x * rad + a.p1 * (r2 + 2 * x * x) + 2 * a.p2 * x * y, yd = y + y * rad + a.p2 * (r2 + 2 * y * y) + 2 * a.p1 * x * y; x = a.scx * xd - sin(a.she) * yd; y = cos(a.she) * yd;
    px = x / c.cp->pix_x + c.cp->imx / 2.0; py = c.cp->imy / 2.0 - y / c.cp->pix_y; if (c.cp->chfield == 1) py = (py - 1) / 2; if (c.cp->chfield == 2) py /= 2;
}
static target tg(double x, double y, int s) { target t; memset(&t, 0, sizeof t); t.pnr = 500 + s; t.x = x; t.y = y; t.n = 10 + s; t.nx = 3 + s; t.ny = 4 + s; t.sumg = 100 + s; t.tnr = s % 3 - 1; return t; }
static bool same(const target& a, const target& b) { return a.x == b.x && a.y == b.y && a.n == b.n && a.nx == b.nx && a.ny == b.ny && a.sumg == b.sumg && a.tnr == b.tnr; }
/* compares the result with the definition; decisions within tol of a limit may go either way */
static void check(const Cam& c, std::vector<V> pts, std::vector<target> pix, int eps, double tol, uint64_t& acc) {
    std::vector<target> keep = pix; vec3d* fix = (vec3d*)malloc(pts.size() * sizeof(vec3d)); for (size_t i = 0; i < pts.size(); i++) { fix[i][0] = pts[i].x; fix[i][1] = pts[i].y; fix[i][2] = pts[i].z; } target* tp = (target*)malloc(pix.size() * sizeof(target)); memcpy(tp, pix.data(), pix.size() * sizeof(target)); Calibration cal = c.cal;
    target* r = sortgrid(&cal, c.cp, pts.size(), fix, pix.size(), eps, tp); step(); MC_CHECK(r, "sortgrid-null", "no result"); MC_CHECK(!memcmp(tp, keep.data(), pix.size() * sizeof(target)), "sortgrid-input", "the detections were changed"); for (size_t i = 0; i < pts.size(); i++) MC_CHECK(fix[i][0] == pts[i].x && fix[i][1] == pts[i].y && fix[i][2] == pts[i].z, "sortgrid-input", "the calibration points were changed");
    for (size_t i = 0; i < pts.size(); i++) { double x, y; pixel(c, pts[i], x, y); double e = eps; auto in = [&](double px, double py, double s) { return fabs(px - x) < e + s && fabs(py - y) < e + s; }; auto near = [&](double s) { return x > -e - s && y > -e - s && x < c.cp->imx + e + s && y < c.cp->imy + e + s; };
        double best = 1e9; bool sure = false; for (auto& t : pix) { if (in(t.x, t.y, -tol)) sure = true; if (in(t.x, t.y, -tol)) best = std::min(best, hypot(t.x - x, t.y - y)); } sure = sure && near(-tol);
        if (r[i].pnr == -999) { MC_CHECK(!sure, "sortgrid-missed", "calibration point %zu of %zu projects to (%.4f,%.4f) and has a detection %.4f away, half-width %d, but is unmatched", i, pts.size(), x, y, best, eps); acc = hash_v(-1, acc); continue; }
        MC_CHECK(r[i].pnr == (int)i, "sortgrid-number", "calibration point %zu carries number %d", i, r[i].pnr); int which = -1; for (size_t j = 0; j < pix.size(); j++) if (same(r[i], pix[j])) which = j; MC_CHECK(which >= 0, "sortgrid-copy", "calibration point %zu is matched with something that is not one of the detections", i);
        MC_CHECK(near(tol), "sortgrid-outside", "calibration point %zu projects to (%.4f,%.4f), outside the image by more than %d, and was matched", i, x, y, eps); MC_CHECK(in(pix[which].x, pix[which].y, tol), "sortgrid-far", "calibration point %zu projects to (%.4f,%.4f) and was matched with (%.4f,%.4f), half-width %d", i, x, y, pix[which].x, pix[which].y, eps);
        MC_CHECK(hypot(pix[which].x - x, pix[which].y - y) <= best + 2 * tol, "sortgrid-nearest", "calibration point %zu projects to (%.4f,%.4f) and was matched with (%.4f,%.4f) though a detection is %.4f away", i, x, y, pix[which].x, pix[which].y, best); acc = hash_v(which, acc); }
    free(r); free(fix); free(tp);
}
static double tolof(int k) { return k == 2 ? 0.03 : 1e-6; }
/* up to three calibration points, each with one of several arrangements of detections around its image */
SCENARIO(arrangements) {
    int k = choose(4), n = 1 + choose(deepest ? 5 : thorough ? 4 : 3), eps = pick({0, 1, 5, 25}), ord = choose(3); Cam c = cam(k); std::vector<V> pts; std::vector<target> pix; double P[5][3] = {{0, 0, 0}, {30, -20, 8}, {-35, 22, -10}, {22, 24, 5}, {-24, -25, -6}}; int s = 0; uint64_t acc = 1;
    for (int i = 0; i < n; i++) { V X(P[i]); pts.push_back(X); double x, y; pixel(c, X, x, y); double e = eps; switch (choose(9)) { case 0: break; case 1: pix.push_back(tg(x, y, s++)); break; case 2: pix.push_back(tg(x + e - 0.1, y, s++)); break; case 3: pix.push_back(tg(x, y - e - 0.1, s++)); break; case 4: pix.push_back(tg(x - 0.9 * e, y + 0.9 * e, s++)); break; case 5: pix.push_back(tg(x + 0.5 * e, y, s++)); pix.push_back(tg(x, y - 0.3 * e - 0.1, s++)); break; case 6: pix.push_back(tg(x + 0.2 * e, y, s++)); pix.push_back(tg(x - 0.6 * e, y, s++)); pix.push_back(tg(x, y + 0.7 * e, s++)); break; case 7: pix.push_back(tg(x + 1.2 * e + 0.1, y, s++)); pix.push_back(tg(x - 0.8 * e, y - 0.8 * e, s++)); break; case 8: pix.push_back(tg(x - e - 0.1, y, s++)); pix.push_back(tg(x, y + e + 0.1, s++)); pix.push_back(tg(x + e + 0.1, y - e - 0.1, s++)); break; } }
    if (ord == 1) std::reverse(pix.begin(), pix.end()); if (ord == 2) { if (pix.size() < 3) return; std::rotate(pix.begin(), pix.begin() + 1, pix.end()); std::reverse(pts.begin(), pts.end()); } check(c, pts, pix, eps, tolof(k), acc); state(acc);
}
/* two points so close that they compete for the same detections */
SCENARIO(shared) { int k = pick({0, 1, 3}), eps = pick({3, 10}); Cam c = cam(k); double gap = pick({0., 0.05, 0.3, 0.8}); std::vector<V> pts = {V(0, 0, 0), V(gap, 0.02, 0), V(-gap, gap, 0)}; std::vector<target> pix; double x, y; pixel(c, pts[0], x, y); int n = choose(4); static const double O[5][2] = {{0.2, 0.1}, {-1.5, 0}, {2.5, 2.5}, {-2.5, 1.7}, {4, -9}}; for (int i = 0; i < n; i++) { auto* o = O[choose(5)]; pix.push_back(tg(x + o[0] + 0.01 * i, y + o[1], i)); } uint64_t acc = 1; check(c, pts, pix, eps, tolof(k), acc); state(acc); }
/* calibration points all over and beyond the image, a detection at each of them or beside it; many points, many detections */
SCENARIO(borders) {
    int k = choose(4), field = choose(3), eps = pick({0, 2, 25, 60}), off = choose(3), shift = choose(4); Cam c = cam(k, field); int n = deepest ? 60 : thorough ? 40 : 17; std::vector<V> pts; std::vector<target> pix; int s = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) pts.push_back(V(-110 + 220.0 * i / (n - 1) + shift, -110 + 220.0 * j / (n - 1) + 0.7 * shift, 3 * ((i + j) % 4))); for (auto& X : pts) { double x, y; pixel(c, X, x, y); if (!std::isfinite(x)) continue; double d = off == 0 ? 0.1 : off == 1 ? 0.8 * eps : 1.3 * eps + 0.2; pix.push_back(tg(x + d, y - d, s++)); } uint64_t acc = 1; check(c, pts, pix, eps, tolof(k), acc); state(acc); }
SCENARIO1(empty) { Cam c = cam(choose(4)); int np = choose(3), nt = choose(3), eps = pick({0, 5, 10000}); std::vector<V> p; std::vector<target> t; for (int i = 0; i < np; i++) p.push_back(V(i, i, 0)); for (int i = 0; i < nt; i++) t.push_back(tg(320 + i, 240, i)); uint64_t a = 1; check(c, p, t, eps, 0.03, a); state(a); }
/* the nearest neighbour search itself: every list of up to 3 detections on a lattice */
SCENARIO(nearest) { static std::vector<double> L = {0, 1, 1.5, 3, 3.5}; int n = choose(deepest ? 6 : thorough ? 5 : 4); std::vector<target> pix; for (int i = 0; i < n; i++) { pix.push_back(tg(pick({0., 1., 2.5, 3.}), pick({0., 1.25, 3.}), i)); } uint64_t acc = 1; target* tp = (target*)malloc(n * sizeof(target)); memcpy(tp, pix.data(), n * sizeof(target));
    for (double x : {-0.3, 0.7, 1.9, 3.2}) for (double y : {-0.2, 1.1, 2.6}) for (double e : {0., 0.35, 1., 1.45, 2.45, 10.}) { int r = nearest_neighbour_pix(tp, n, x, y, e); step(); double best = 1e9; for (auto& t : pix) if (fabs(t.x - x) < e && fabs(t.y - y) < e) best = std::min(best, hypot(t.x - x, t.y - y)); if (best > 1e8) MC_CHECK(r == -999, "nearest-none", "window around (%g,%g) of half-width %g: %d instead of none", x, y, e, r); else MC_CHECK(r >= 0 && r < n && fabs(pix[r].x - x) < e && fabs(pix[r].y - y) < e && hypot(pix[r].x - x, pix[r].y - y) <= best + 1e-9, "nearest", "window around (%g,%g) of half-width %g among %d: returned %d, nearest is %g away", x, y, e, n, r, best); acc = hash_v(r, acc); } free(tp); state(acc); }

/* the calibration point file */
static V pt(int i) { return V(i * 1.5 - 20, (i % 7) * 2.25 - 100.125, i % 2 ? -1e-3 * i : 3e2 + i); }
static std::string block(int n, int style) { std::string s; for (int i = 0; i < n; i++) { V p = pt(i); static const char* F[] = {"%d %.6f %.6f %.6f\n", "%8d\t%12.6f\t%12.6f\t%12.6f\r\n", "%d\n%.9e\n%.9e\n%.9e\n\n", " %d   %.6f %.6f %.6f"}; s += strf(F[style], style == 1 ? 100 - i : i + 1, p.x, p.y, p.z); } return s; }
static void read(const std::string& text, int expect, bool either, const char* what, uint64_t& acc) {
    std::string fn = scratch + "/block"; del(fn); if (text != "<missing>") put(fn, text); Z z(fn); int n = -77; size_t l0 = live_bytes(); int o0 = open_files(); vec3d* r = read_calblock(&n, z); step(); MC_CHECK(open_files() == o0, "block-open", "%s: the file stays open", what);
    if (!r) MC_CHECK((expect <= 0 || either) && live_bytes() == l0 && n == 0, "block-fail", "%s: reading failed (count %d)%s", what, n, live_bytes() == l0 ? "" : " and kept memory"); else { MC_CHECK(expect > 0 && n == expect, "block-count", "%s: %d points were returned, expected %d", what, n, expect); for (int i = 0; i < n; i++) { V p = pt(i); bool last = either && i == n - 1; MC_CHECK(last || (fabs(r[i][0] - p.x) < 1e-5 && fabs(r[i][1] - p.y) < 1e-5 && fabs(r[i][2] - p.z) < 1e-5), "block-value", "%s: point %d is (%g,%g,%g), expected (%g,%g,%g)", what, i, r[i][0], r[i][1], r[i][2], p.x, p.y, p.z); } free(r); MC_CHECK(live_bytes() == l0, "block-leak", "%s: memory was kept", what); } acc = hash_v(r ? n : -1, acc); del(fn); }
SCENARIO(block_sizes) { int n = pick({0, 1, 2, 3, 4, 5, 13, 100, 1000, 5000}), style = choose(4); uint64_t a = 1; read(block(n, style), n, false, strf("%d points, style %d", n, style).c_str(), a); state(a); }
SCENARIO1(block_missing) { uint64_t a = 1; switch (choose(4)) { case 0: read("<missing>", 0, false, "missing file", a); break; case 1: read("", 0, false, "empty file", a); break; case 2: read("\n\n  \n", 0, false, "blank file", a); break; case 3: read("text", 0, false, "text file", a); break; } state(a); }
SCENARIO(block_cut) { int n = 1 + choose(4), style = choose(4); std::string t = block(n, style); int cut = choose((int)t.size()); std::string c = t.substr(0, cut); auto tk = tokens(c); int full = tokens(t).size() == 4 * (size_t)n ? (int)tk.size() / 4 : 0; bool part = tk.size() % 4 != 0; /* the last number may have been cut inside */ bool either = !part && full && !isspace((unsigned char)t[cut]) && !isspace((unsigned char)c.back()); uint64_t a = 1; read(c, part ? 0 : full, either, strf("%d points, style %d, cut after %d bytes", n, style, cut).c_str(), a); state(a); }
SCENARIO(block_corrupt) { int n = 1 + choose(3), style = choose(4); std::string t = block(n, style); auto tk = tokens(t); int k = choose((int)tk.size()); std::string bad = pick({std::string("x"), std::string("#1"), std::string("-"), std::string("one"), std::string(".")}); t.replace(tk[k].at, tk[k].len, bad); uint64_t a = 1; read(t, 0, false, strf("%d points, style %d, number %d replaced by %s", n, style, k, bad.c_str()).c_str(), a); state(a); }
SCENARIO1(radius_file) { static std::vector<std::pair<std::string, int>> C = {{"25\n", 25}, {"  7", 7}, {"0\n", 0}, {"10 more", 10}, {"\n\n12\n", 12}, {"", 0}, {"abc\n", 0}, {"<missing>", 0}, {"\n", 0}, {"-", 0}, {"100000\r\n", 100000}}; auto& c = C[choose(C.size())]; std::string fn = scratch + "/sg"; del(fn); if (c.first != "<missing>") put(fn, c.first); Z z(fn); dirty_stack(0x11); size_t l0 = live_bytes(); int o0 = open_files(); int r = read_sortgrid_par(z); step(); MC_CHECK(r == c.second, "radius", "search radius file \"%s\" gives %d, expected %d", c.first.c_str(), r, c.second); MC_CHECK(open_files() == o0 && live_bytes() == l0, "radius-open", "the file or memory was kept"); state(hash_v(r)); del(fn); }
