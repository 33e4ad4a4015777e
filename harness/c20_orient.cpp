/* C20: camera orientation from known points, rough and fine; manual points; dumbbell precision. */
#include "ref.h"
#include "io.h"
using namespace mc; using ref::V;
struct Cam { Calibration cal; control_par* cp; };
/* 0 straight, 1 oblique, 2 behind glass, 3 distorted, 4 oblique and distorted behind glass */
static Cam cam(int k) {
    static Cam c; if (c.cp) free_control_par(c.cp); c.cp = new_control_par(1); c.cp->imx = 640; c.cp->imy = 480; c.cp->pix_x = 0.01; c.cp->pix_y = 0.012; c.cp->chfield = 0;
    *c.cp->mm = k == 2 || k == 4 ? ref::media(1, 1.46, 1.33, 6) : ref::media(1, 1, 1, 1);
    double a[5][3] = {{0.03, -0.02, 0.01}, {0.3, -0.4, 1.4}, {-0.15, 0.25, 0.2}, {0.05, 0.3, -0.3}, {0.2, 0.15, 0.6}}; c.cal = ref::camera(a[k][0], a[k][1], a[k][2], V(1, -1, 0), 120, 5, V(0, 0, 40));
    if (k == 3 || k == 4) { c.cal.int_par.xh = 0.11; c.cal.int_par.yh = -0.07; c.cal.added_par.k1 = 1e-3; c.cal.added_par.k2 = -2e-5; c.cal.added_par.p1 = 2e-4; c.cal.added_par.p2 = -1e-4; c.cal.added_par.scx = 1.01; c.cal.added_par.she = 0.02; }
    return c;
}
/* metric image position, independent of the library for cameras in air */
static void image(const Calibration& cal, control_par* cp, V X, double& mx, double& my) {
    if (cp->mm->n3 != 1) { vec3d p = {X.x, X.y, X.z}; Calibration t = cal; img_coord(p, &t, cp->mm, &mx, &my); return; }
    double x, y; if (!ref::project(cal, *cp->mm, X, x, y)) { mx = my = NAN; return; }
    const ap_52& a = cal.added_par; x += cal.int_par.xh; y += cal.int_par.yh; double r2 = x * x + y * y, f = 1 + a.k1 * r2 + a.k2 * r2 * r2 + a.k3 * r2 * r2 * r2;
    double u = x * f + a.p1 * (r2 + 2 * x * x) + 2 * a.p2 * x * y, v = y * f + a.p2 * (r2 + 2 * y * y) + 2 * a.p1 * x * y; mx = a.scx * u - sin(a.she) * v; my = cos(a.she) * v;
}
static void pixel(const Calibration& cal, control_par* cp, V X, double& px, double& py) { double x, y; image(cal, cp, X, x, y); px = x / cp->pix_x + cp->imx / 2.0; py = cp->imy / 2.0 - y / cp->pix_y; }
static std::vector<V> grid(int n = 27) { std::vector<V> p; for (int i = 0; i < n; i++) p.push_back(V(28. * (i % 3 - 1) + 0.37 * i, 22. * (i / 3 % 3 - 1) - 0.21 * i, 18. * (i / 9 % 3 - 1) + 0.11 * i)); return p; }
struct Set { std::vector<V> P; std::vector<target> px; vec3d* fix; target* pix; Set() : fix(0), pix(0) {} ~Set() { free(fix); free(pix); }
    void fill(const Cam& c, std::vector<V> pts) { P = pts; px.clear(); for (size_t i = 0; i < P.size(); i++) { target t; memset(&t, 0, sizeof t); t.pnr = i; t.tnr = -1; pixel(c.cal, c.cp, P[i], t.x, t.y); px.push_back(t); } arm(); }
    void arm() { free(fix); free(pix); fix = (vec3d*)malloc(P.size() * sizeof(vec3d)); pix = (target*)malloc(px.size() * sizeof(target)); for (size_t i = 0; i < P.size(); i++) { fix[i][0] = P[i].x; fix[i][1] = P[i].y; fix[i][2] = P[i].z; pix[i] = px[i]; } }
    bool kept() { for (size_t i = 0; i < P.size(); i++) if (fix[i][0] != P[i].x || fix[i][1] != P[i].y || fix[i][2] != P[i].z) return false; return !memcmp(pix, px.data(), px.size() * sizeof(target)); } };
static void turn(Calibration& c) { ref::rotation(c.ext_par.omega, c.ext_par.phi, c.ext_par.kappa, c.ext_par.dm); }
static double* ext(Calibration& c, int i) { double* v[6] = {&c.ext_par.x0, &c.ext_par.y0, &c.ext_par.z0, &c.ext_par.omega, &c.ext_par.phi, &c.ext_par.kappa}; return v[i]; }
static double* inn(Calibration& c, int i) { double* v[13] = {&c.int_par.cc, &c.int_par.xh, &c.int_par.yh, &c.added_par.k1, &c.added_par.k2, &c.added_par.k3, &c.added_par.p1, &c.added_par.p2, &c.added_par.scx, &c.added_par.she, &c.glass_par.vec_x, &c.glass_par.vec_y, &c.glass_par.vec_z}; return v[i]; }
static orient_par flags(int mask, int use = 0, int iface = 0) { orient_par f; memset(&f, 0, sizeof f); f.useflag = use; int* v[10] = {&f.ccflag, &f.xhflag, &f.yhflag, &f.k1flag, &f.k2flag, &f.k3flag, &f.p1flag, &f.p2flag, &f.scxflag, &f.sheflag}; for (int i = 0; i < 10; i++) *v[i] = mask >> i & 1; f.interfflag = iface; return f; }
static bool used(int i, int use) { return use == 0 || (use == 1 && i % 2) || (use == 2 && i % 2 == 0) || (use == 3 && i % 3); }
/* worst difference of the images of points in the whole volume, in pixels */
static double differs(const Calibration& a, const Calibration& b, control_par* cp) {
    double w = 0; for (int i = 0; i < 27; i++) { V X(33. * (i % 3 - 1) + 2, 27. * (i / 3 % 3 - 1) + 1, 21. * (i / 9 - 1) - 1); double x, y, u, v; pixel(a, cp, X, x, y); pixel(b, cp, X, u, v); double d = hypot(x - u, y - v); if (!(d <= w)) w = d; if (d != d) return INFINITY; } return w;
}
static bool allfinite(Calibration& c) { for (int i = 0; i < 6; i++) if (!std::isfinite(*ext(c, i))) return false; for (int i = 0; i < 13; i++) if (!std::isfinite(*inn(c, i))) return false; for (int i = 0; i < 9; i++) if (!std::isfinite(c.ext_par.dm[i / 3][i % 3])) return false; return true; }
static double resid(Calibration& c, control_par* cp, Set& s, int use, int* n = 0) { double w = 0; int m = 0; for (size_t i = 0; i < s.P.size(); i++) { if (s.px[i].pnr != (int)i || !used(i, use)) continue; m++; double x, y; pixel(c, cp, s.P[i], x, y); double d = hypot(x - s.px[i].x, y - s.px[i].y); if (!(d <= w)) w = d; } if (n) *n = m; return w; }

/* what holds for every call: 1 success, 0 reported failure */
static double last_sig[20];
static int run(Cam& c, Calibration start, Set& s, orient_par f, int mask, Calibration& out, uint64_t& acc) {
    double sig[20]; for (double& v : sig) v = -7; orient_par keep = f; out = start; s.arm(); double* r = orient(&out, c.cp, s.P.size(), s.fix, s.pix, &f, sig); step();
    MC_CHECK(s.kept() && !memcmp(&keep, &f, sizeof f), "orient-input", "fine orientation changed its input"); int n; double left = resid(out, c.cp, s, f.useflag, &n); (void)left;
    if (!r) { MC_CHECK(!memcmp(&out, &start, sizeof out), "orient-failed-changed", "fine orientation reported failure and changed the calibration"); acc = hash_v(0, acc); return 0; }
    MC_CHECK(allfinite(out), "orient-nan", "fine orientation reported success with a calibration that is not finite (%d points used)", n);
    for (int i = 0; i < 2 * n; i++) MC_CHECK(std::isfinite(r[i]), "orient-nan", "fine orientation reported success with a residual that is not finite (%d points used)", n);
    /* the residuals are those of the solution it gives, in the order of the points used */
    int q = 0; for (size_t i = 0; i < s.P.size(); i++) { if (s.px[i].pnr != (int)i || !used(i, f.useflag)) continue; double x, y; pixel(out, c.cp, s.P[i], x, y); double ex = (x - s.px[i].x) * c.cp->pix_x, ey = -(y - s.px[i].y) * c.cp->pix_y;
        if (std::isfinite(ex) && std::isfinite(ey)) if (std::isfinite(ex) && std::isfinite(ey)) MC_CHECK(fabs(r[q] - ex) < 1e-4 + 1e-3 * fabs(ex) && fabs(r[q + 1] - ey) < 1e-4 + 1e-3 * fabs(ey), "orient-residual", "residual of point %zu is (%g,%g), the solution differs from the image there by (%g,%g)", i, r[q], r[q + 1], ex, ey); q += 2; }
    /* the error estimate: what is left over, per observation that is not needed */
    int unknown = f.interfflag ? 18 : 16, spare = 2 * n + 10 - unknown; double sum = 0, drift = f.ccflag ? 0 : fabs(*inn(out, 0) - *inn(start, 0)); for (int i = 0; i < 2 * n; i++) sum += r[i] * r[i]; for (int i = 0; i < 10; i++) if (mask >> i & 1) sum += pow(*inn(out, i) - *inn(start, i), 2);
    if (spare > 0) { double e = sqrt(sum / spare); MC_CHECK(fabs(sig[NPAR] - e) <= 1e-3 * e + 1e-6 + 2e10 * drift, "orient-estimate", "the estimated error is %g, the residuals of %d points give %g", sig[NPAR], n, e); }
    free(r); memcpy(last_sig, sig, sizeof sig);
    for (int i = 0; i < 10; i++) if (!(mask >> i & 1)) MC_CHECK(fabs(*inn(out, i) - *inn(start, i)) <= (i == 0 ? 1e-9 : 0), "orient-disabled", "interior parameter %d was not enabled and changed from %.12g to %.12g", i, *inn(start, i), *inn(out, i));
    if (!f.interfflag) for (int i = 10; i < 13; i++) MC_CHECK(*inn(out, i) == *inn(start, i), "orient-disabled", "the interface vector was not enabled and changed");
    double m[3][3]; ref::rotation(out.ext_par.omega, out.ext_par.phi, out.ext_par.kappa, m); for (int i = 0; i < 9; i++) MC_CHECK(fabs(m[i / 3][i % 3] - out.ext_par.dm[i / 3][i % 3]) < 1e-9, "orient-rotation", "the rotation matrix after orientation is not that of its angles");
    double h[6]; for (int i = 0; i < 6; i++) h[i] = floor(*ext(out, i) * 1e4); acc = hash(h, sizeof h, acc); return 1;
}
static void recovered(Cam& c, Calibration& out, double tol, const char* what) { double d = differs(out, c.cal, c.cp); MC_CHECK(d <= tol, "orient-wrong", "%s: fine orientation succeeded but the solution's images of points differ from the true camera's by up to %g pixel (camera at %.4f %.4f %.4f turned %.5f %.5f %.5f, true %.4f %.4f %.4f turned %.5f %.5f %.5f)", what, d, *ext(out, 0), *ext(out, 1), *ext(out, 2), *ext(out, 3), *ext(out, 4), *ext(out, 5), *ext(c.cal, 0), *ext(c.cal, 1), *ext(c.cal, 2), *ext(c.cal, 3), *ext(c.cal, 4), *ext(c.cal, 5)); }
static void must(int ok, const char* what) { MC_CHECK(ok, "orient-failed", "%s: fine orientation reported failure for exact data from a nearby start", what); }
static Calibration moved(Calibration c, const int* d, double len, double ang) { for (int i = 0; i < 6; i++) *ext(c, i) += d[i] * (i < 3 ? len * (i == 2 ? 1.3 : 1) : ang * (1 + 0.2 * (i - 3))); turn(c); return c; }

/* every displacement of the pose on a lattice */
SCENARIO(poses) {
    int k = choose(5), size = choose(3), d[6]; for (int& v : d) v = choose(thorough ? 5 : 3) - (thorough ? 2 : 1); note("camera %d, pose displaced by (%d %d %d %d %d %d), size %d", k, d[0], d[1], d[2], d[3], d[4], d[5], size);
    Cam c = cam(k); Set s; s.fill(c, grid()); Calibration out; uint64_t acc = 1; double u = thorough ? 0.5 : 1; int ok = run(c, moved(c.cal, d, u * (size == 2 ? 15 : size ? 5 : 0.4), u * (size == 2 ? 0.15 : size ? 0.05 : 0.004)), s, flags(0), 0, out, acc); must(ok, "pose"); recovered(c, out, 1e-3, "pose"); state(acc);
}
/* every subset of the flags, interior starting at its true values */
SCENARIO(subsets) {
    int k = choose(5), mask = choose(1024), e = choose(thorough ? 8 : 3); note("camera %d, flags %03x, start %d", k, mask, e); Cam c = cam(k); Set s; s.fill(c, grid()); int D[8][6] = {{1, -1, 1, -1, 1, 1}, {0, 0, 0, 0, 0, 0}, {-1, -1, 0, 1, 0, -1}, {1, 0, 0, 0, 0, 0}, {0, 0, -1, 0, 0, 0}, {0, 0, 0, 1, 1, 0}, {0, 0, 0, 0, 0, -1}, {1, 1, -1, 0, -1, 1}};
    Calibration out; uint64_t acc = 2; int ok = run(c, moved(c.cal, D[e], 2, 0.02), s, flags(mask), mask, out, acc); must(ok, "flags"); recovered(c, out, 2e-3, "flags"); state(acc);
}

/* interior parameters off their true values: the solution is a minimum of the adjusted sum (image residuals and, of enabled parameters, the change) */
static double objective(Calibration& c, Calibration& start, control_par* cp, Set& s) { double f = 0; for (size_t i = 0; i < s.P.size(); i++) { double x, y; pixel(c, cp, s.P[i], x, y); f += pow((x - s.px[i].x) * cp->pix_x, 2) + pow((y - s.px[i].y) * cp->pix_y, 2); } for (int i = 0; i < 10; i++) f += pow(*inn(c, i) - *inn(start, i), 2); return f; }
SCENARIO(interior) {
    int k = choose(5), j1 = choose(10), j2 = choose(10), s1 = choose(2), s2 = choose(2), all = choose(3); if (j2 < j1 || (j1 == j2 && s2)) return; double amp[10] = {0.05, 0.05, 0.05, 1e-3, 1e-4, 1e-5, 5e-4, 5e-4, 0.01, 0.01};
    note("camera %d, interior parameters %d and %d off by %d %d, enabled: %s", k, j1, j2, s1, s2, all == 2 ? "all" : all ? "those" : "none"); Cam c = cam(k); Set s; s.fill(c, grid()); Calibration st = c.cal, out; *inn(st, j1) += s1 ? amp[j1] : -amp[j1]; if (j2 != j1) *inn(st, j2) += s2 ? amp[j2] : -amp[j2];
    int mask = all == 2 ? 1023 : all ? 1 << j1 | 1 << j2 : 0; uint64_t acc = 3; int ok = run(c, st, s, flags(mask), mask, out, acc); 
    if (all < 2) must(ok, "interior");
    if (ok) { double fo = objective(out, st, c.cp, s), ft = objective(c.cal, st, c.cp, s); if (all) MC_CHECK(fo <= ft + 1e-9 + 1e-4 * ft, "orient-not-minimum", "the solution is worse (%g) than the true camera (%g) by the measure the adjustment minimises", fo, ft);
        for (int i = 0; i < 16; i++) for (int g = -1; g < 2; g += 2) { if (i >= 6 && !(mask >> (i - 6) & 1)) continue; Calibration t = out; (i < 6 ? *ext(t, i) : *inn(t, i - 6)) += g * (i < 3 ? 0.01 : i < 6 ? 1e-4 : amp[i - 6] * 0.02); turn(t); double d = objective(t, st, c.cp, s) - fo; evals(1); MC_CHECK(d > -1e-7 - 1e-3 * fo, "orient-not-minimum", "changing parameter %d of the solution a little improves the measure the adjustment minimises from %g by %g", i, fo, -d); } }
    state(acc);
}
/* every choice of points, by number (unmatched points carry other numbers) and by the flag; points not in use are misplaced */
SCENARIO(points) {
    int n = thorough ? 12 : 10, k = choose(5), use = choose(4), bits = choose(1 << n), mark = choose(2); int skip = pick({-999, 100}); Cam c = cam(k); std::vector<V> all = grid(), P; for (int i = 0; i < n; i++) P.push_back(all[(i * 11 + 5) % 27]);
    note("camera %d, %d points of which %x are matched, use flag %d", k, n, bits, use); Set s; s.fill(c, P); int m = 0; for (int i = 0; i < n; i++) { bool in = bits >> i & 1; if (!in) s.px[i].pnr = mark ? (i + 1) % n : skip; else if (used(i, use)) { m++; continue; } s.px[i].x += 40 + i; s.px[i].y -= 25 * i; }
    int d[6] = {1, -1, 1, 1, -1, 1}; Calibration out; uint64_t acc = hash_v(m, 4); int ok = run(c, moved(c.cal, d, 1, 0.01), s, flags(0, use), 0, out, acc); char w[60]; snprintf(w, sizeof w, "%d points", m);
    if (m < 3) MC_CHECK(!ok, "orient-underdetermined", "fine orientation reported success with %d points", m);
    std::vector<V> on; for (int i = 0; i < n; i++) if ((bits >> i & 1) && used(i, use)) on.push_back(P[i]); bool line = true; for (size_t i = 2; i < on.size(); i++) { V a = on[1] - on[0], b = on[i] - on[0], q(a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x); line = line && fabs(q.x) + fabs(q.y) + fabs(q.z) < 1e-6; }
    if (m >= 3 && !line) { must(ok, w); MC_CHECK(resid(out, c.cp, s, use) < 1e-4, "orient-wrong", "%s: the solution misses the images by %g pixel", w, resid(out, c.cp, s, use)); } if (m >= 4) recovered(c, out, 1e-3, w); state(acc);
}
/* error estimates: each parameter's is the overall one times the square root of its diagonal element of the inverted normal equations of the solution */
SCENARIO(estimates) {
    int k = choose(5), mask = pick({0, 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 7, 0x38, 0xc0, 0x300, 1023, 0x307}), n = pick({4, 6, 10, 27}), use = choose(4), bad = choose(3), iface = k == 2 || k == 4 ? choose(2) : 0; note("camera %d, flags %03x, %d points, use flag %d, errors %d, interface %d", k, mask, n, use, bad, iface); Cam c = cam(k); std::vector<V> all = grid(), P; for (int i = 0; i < n; i++) P.push_back(all[n == 27 ? i : (i * 11 + 5) % 27]);
    Set s; s.fill(c, P); for (int i = 0; i < n; i++) { s.px[i].x += 0.2 * bad * ((i * 5) % 3 - 1); s.px[i].y += 0.2 * bad * ((i * 7) % 5 - 2); } int m = 0; for (int i = 0; i < n; i++) m += used(i, use); int d[6] = {1, -1, 1, 1, -1, 1}; Calibration out; uint64_t acc = 6;
    int ok = run(c, moved(c.cal, d, 1, 0.01), s, flags(mask, use, iface), mask, out, acc); if (!ok || m < 4 || iface) { state(acc); return; }
    double J[64][16], A[16][32]; int row = 0; double h[16] = {1e-3, 1e-3, 1e-3, 1e-6, 1e-6, 1e-6, 1e-4, 1e-4, 1e-4, 1e-6, 1e-7, 1e-9, 1e-6, 1e-6, 1e-5, 1e-5};
    for (int i = 0; i < n; i++) { if (!used(i, use)) continue; for (int j = 0; j < 16; j++) { Calibration a = out, b = out; double ax, ay, bx, by; *(j < 6 ? ext(a, j) : inn(a, j - 6)) -= h[j]; *(j < 6 ? ext(b, j) : inn(b, j - 6)) += h[j]; turn(a); turn(b); image(a, c.cp, P[i], ax, ay); image(b, c.cp, P[i], bx, by); J[row][j] = (bx - ax) / (2 * h[j]); J[row + 1][j] = (by - ay) / (2 * h[j]); } row += 2; }
    int id[16], q = 0; for (int j = 0; j < 16; j++) if (j < 6 || (mask >> (j - 6) & 1)) id[q++] = j;
    for (int a = 0; a < q; a++) for (int b = 0; b < 2 * q; b++) { if (b >= q) { A[a][b] = b - q == a; continue; } double v = a == b && id[a] >= 6; for (int r = 0; r < row; r++) v += J[r][id[a]] * J[r][id[b]]; A[a][b] = v; }
    double big = 0; for (int a = 0; a < q; a++) { int p = a; for (int b = a; b < q; b++) if (fabs(A[b][a]) > fabs(A[p][a])) p = b; for (int b = 0; b < 2 * q; b++) std::swap(A[a][b], A[p][b]); double v = A[a][a]; for (int b = 0; b < 2 * q; b++) A[a][b] /= v; for (int r = 0; r < q; r++) if (r != a) { double w = A[r][a]; for (int b = 0; b < 2 * q; b++) A[r][b] -= w * A[a][b]; } }
    for (int a = 0; a < q; a++) { double e = last_sig[NPAR] * sqrt(A[a][q + a]); MC_CHECK(fabs(last_sig[id[a]] - e) <= (mask ? 0.3 : 0.02) * e + 1e-9, "orient-estimate", "the estimated error of parameter %d is %g, the normal equations of the solution give %g", id[a], last_sig[id[a]], e); (void)big; }
    for (int j = 6; j < 16; j++) if (!(mask >> (j - 6) & 1)) MC_CHECK(fabs(last_sig[j]) <= 1e-6 * last_sig[NPAR] + 1e-12, "orient-estimate", "the estimated error of parameter %d, which was not adjusted, is %g", j, last_sig[j]); state(acc);
}
/* input that cannot determine a camera */
SCENARIO(unusable) {
    int k = choose(5), kind = choose(9), n = pick({0, 1, 2, 3, 4, 8, 27}), e = choose(4), iface = choose(2), mask = pick({0, 1, 8, 1023}); Cam c = cam(k); std::vector<V> P = grid(); P.resize(n); double nan = NAN, inf = INFINITY; note("camera %d, %d points, degeneracy %d, start %d, flags %x interface %d", k, n, kind, e, mask, iface);
    for (int i = 0; i < n; i++) { if (kind == 0) P[i] = V(5, 7, 3); if (kind == 1) P[i] = V(3. * i - 20, 2. * i, 1. * i - 10); if (kind == 2) P[i] = V(0, 0, 2. * i - 20); if (kind == 3) P[i] = ref::centre(c.cal) + V(0, 0, 10. + i); }
    Set s; s.fill(c, P); for (int i = 0; i < n; i++) { if (kind == 3) { s.px[i].x = 100 + 17 * i; s.px[i].y = 200 - 13 * i; } if (kind == 4) s.px[i].x = s.px[i].y = 0; if (kind == 5) { s.px[i].x = 320 + 300 * sin(i * 5.1); s.px[i].y = 240 + 200 * sin(i * i * 3.3); } if (kind == 6 && i == n / 2) s.px[i].x = nan; if (kind == 7 && i == n / 2) s.px[i].y = inf; if (kind == 8 && i == n / 2) s.P[i].z = nan; }
    int D[4][6] = {{0, 0, 0, 0, 0, 0}, {1, -1, 1, 1, -1, 1}, {-1, 0, 0, 0, 1, 0}, {0, 0, 9, 0, 0, 0}}; Calibration out; uint64_t acc = 5; if (kind == 8) for (int i = 0; i < n; i++) if (s.P[i].z != s.P[i].z) s.P[i].z = inf;
    int ok = run(c, moved(c.cal, D[e], 2, 0.02), s, flags(mask, 0, iface), mask, out, acc); if (n < 3) MC_CHECK(!ok, "orient-underdetermined", "fine orientation reported success with %d points", n); if (kind >= 6 && n) MC_CHECK(!ok, "orient-nan", "fine orientation reported success for a measurement that is not finite");
    if (ok && kind < 3 && mask == 0) MC_CHECK(resid(out, c.cp, s, 0) < 0.5, "orient-wrong", "fine orientation succeeded on degenerate points, with image errors up to %g pixel though the data is exact", resid(out, c.cp, s, 0)); state(acc);
}
/* the interface vector is recovered together with the pose, or left alone */
SCENARIO(interfaces) {
    int k = pick({2, 4}), a = choose(5), b = choose(5), on = choose(2), e = choose(thorough ? 27 : 9), far = pick({0, 1}); Cam c = cam(k); note("camera %d, interface turned by %d %d, %s, start %d", k, a - 2, b - 2, on ? "enabled" : "not enabled", e); double z = far ? 55 : 40;
    Calibration st = c.cal; st.glass_par.vec_z = z; c.cal.glass_par.vec_z = z; c.cal.glass_par.vec_x = 0.02 * z * (a - 2); c.cal.glass_par.vec_y = 0.02 * z * (b - 2); Set s; s.fill(c, grid()); Calibration s0 = c.cal; *inn(s0, 10) = 0; *inn(s0, 11) = 0; int d[6] = {e % 3 - 1, e / 3 % 3 - 1, e / 9 - 1, (e + 1) % 3 - 1, 1 - e % 3, 0}; Calibration out; uint64_t acc = 6;
    int ok = run(c, moved(s0, d, 1, 0.01), s, flags(0, 0, on), 0, out, acc); must(ok, "interface"); if (on || (a == 2 && b == 2)) recovered(c, out, 1e-3, "interface"); state(acc);
}

/* rough orientation: any number of points, a wide lattice of starts */
SCENARIO(rough) {
    int k = pick({0, 1, 2}), d[6]; for (int& v : d) v = choose(3) - 1; int n = pick({4, 5, 6, 10, 27}), size = choose(2); note("camera %d, rough orientation from %d points, pose displaced by (%d %d %d %d %d %d)", k, n, d[0], d[1], d[2], d[3], d[4], d[5]); Cam c = cam(k); std::vector<V> all = grid(), P; for (int i = 0; i < n; i++) P.push_back(all[(i * 11 + 5) % 27]); Set s; s.fill(c, P);
    for (int i = 0; i < n; i++) s.px[i].pnr = i == 0 ? -999 : 7 * i; s.arm(); Calibration out = moved(c.cal, d, size ? 25 : 4, size ? 0.3 : 0.04); Calibration st = out; out.added_par.k1 = 0.01; out.added_par.k2 = 0.02; out.added_par.k3 = 0.03; out.added_par.p1 = 0.04; out.added_par.p2 = 0.05; out.added_par.scx = 1.1; out.added_par.she = 0.1;
    int ok = raw_orient(&out, c.cp, n, s.fix, s.pix); step(); MC_CHECK(s.kept(), "raw-input", "rough orientation changed its input"); MC_CHECK(ok == 1, "raw-failed", "rough orientation from %d exact points reported failure (%d)", n, ok);
    for (int i = 0; i < 13; i++) MC_CHECK(*inn(out, i) == *inn(c.cal, i), "raw-interior", "interior parameter %d is %g after rough orientation", i, *inn(out, i)); double m[3][3]; ref::rotation(out.ext_par.omega, out.ext_par.phi, out.ext_par.kappa, m); for (int i = 0; i < 9; i++) MC_CHECK(fabs(m[i / 3][i % 3] - out.ext_par.dm[i / 3][i % 3]) < 1e-9, "raw-rotation", "the rotation matrix after rough orientation is not that of its angles");
    double df = differs(out, c.cal, c.cp); MC_CHECK(df < 5, "raw-wrong", "rough orientation from %d exact points left images of points off by up to %g pixel (at the start %g)", n, df, differs(st, c.cal, c.cp));
    double h[6]; for (int i = 0; i < 6; i++) h[i] = floor(*ext(out, i) * 1e2); state(hash(h, sizeof h, 7));
}
SCENARIO(rough_counts) {
    int k = choose(5), n = choose(thorough ? 65 : 41), kind = choose(6), e = choose(3); Cam c = cam(k); std::vector<V> all = grid(65), P; for (int i = 0; i < n; i++) P.push_back(kind == 1 ? V(5, 7, 3) : kind == 2 ? V(3. * (i % 20) - 20, 2. * (i % 20), 1.) : all[(i * 11 + 5) % 65]); note("camera %d, rough orientation from %d points, degeneracy %d, start %d", k, n, kind, e); Set s; s.fill(c, P);
    for (int i = 0; i < n; i++) { if (kind == 3) { s.px[i].x = 320 + 300 * sin(i * 5.1); s.px[i].y = 240 + 200 * sin(i * i * 3.3); } if (kind == 4 && i == n / 2) s.px[i].x = NAN; if (kind == 5) s.px[i].x = s.px[i].y = 0; } s.arm(); int D[3][6] = {{0, 0, 0, 0, 0, 0}, {1, -1, 1, 1, -1, 1}, {-1, 0, 0, 0, 1, 0}};
    Calibration out = moved(c.cal, D[e], 4, 0.04); for (int i = 3; i < 10; i++) *inn(c.cal, i) = i == 8; int ok = raw_orient(&out, c.cp, n, s.fix, s.pix); step(); MC_CHECK(s.kept(), "raw-input", "rough orientation changed its input"); MC_CHECK(ok == 0 || ok == 1, "raw-return", "rough orientation returned %d", ok);
    if (n == 0 || (kind == 4 && n)) MC_CHECK(!ok, "raw-nan", "rough orientation reported success without usable points"); if (ok) MC_CHECK(allfinite(out), "raw-nan", "rough orientation reported success with a calibration that is not finite (%d points)", n);
    if (kind == 0 && n >= 3) { MC_CHECK(ok, "raw-failed", "rough orientation from %d exact points reported failure", n); MC_CHECK(n == 3 || k > 2 || differs(out, c.cal, c.cp) < 5, "raw-wrong", "rough orientation from %d exact points left images of points off by up to %g pixel", n, differs(out, c.cal, c.cp)); }
    state(hash_v(ok, hash_v(n, 8)));
}
/* numerical derivatives of the image over the pose */
SCENARIO(derivatives) {
    int k = choose(5), i = choose(27), far = choose(3); Cam c = cam(k); int d[6] = {1, -1, 1, 1, -1, 1}; c.cal = moved(c.cal, d, 5 * far, 0.05 * far); V X = grid()[i]; Calibration t = c.cal; double dx[6], dy[6]; vec3d p = {X.x, X.y, X.z}; note("camera %d point %d", k, i); num_deriv_exterior(&t, c.cp, 1e-5, 1e-7, p, dx, dy); step();
    for (int j = 0; j < 6; j++) { Calibration a = c.cal, b = c.cal; double h = j < 3 ? 1e-3 : 1e-5, ax, ay, bx, by; *ext(a, j) += h; *ext(b, j) -= h; turn(a); turn(b); image(a, c.cp, X, ax, ay); image(b, c.cp, X, bx, by); double ex = (ax - bx) / (2 * h), ey = (ay - by) / (2 * h), tol = (k == 2 || k == 4 ? 1e-3 : 1e-4) * (1 + fabs(ex) + fabs(ey));
        MC_CHECK(fabs(dx[j] - ex) < tol && fabs(dy[j] - ey) < tol, "derivative", "derivative of the image of point %d over exterior parameter %d is (%g,%g), not (%g,%g)", i, j, dx[j], dy[j], ex, ey); MC_CHECK(fabs(*ext(t, j) - *ext(c.cal, j)) < 1e-9, "derivative-moved", "computing derivatives changed exterior parameter %d", j); }
    for (int j = 0; j < 9; j++) MC_CHECK(fabs(t.ext_par.dm[j / 3][j % 3] - c.cal.ext_par.dm[j / 3][j % 3]) < 1e-9, "derivative-moved", "computing derivatives changed the rotation matrix"); state(hash_v(i, k));
}
/* manually selected points: every choice of numbers for every camera */
static int ask(const std::vector<V>& P, const std::vector<std::vector<int>>& nr, int cam, vec3d fix4[4], int cutb = -1) {
    std::string b, m; char l[200]; for (size_t i = 0; i < P.size(); i++) { snprintf(l, sizeof l, "%d %.6f %.6f %.6f\n", (int)i + 1, P[i].x, P[i].y, P[i].z); b += l; } for (auto& r : nr) for (int v : r) m += std::to_string(v) + "\n"; if (cutb >= 0) m = m.substr(0, cutb);
    put(scratch + "/cb", b); put(scratch + "/man", m); for (int i = 0; i < 4; i++) for (int j = 0; j < 3; j++) fix4[i][j] = -77; std::string x = scratch + "/cb", y = scratch + "/man"; int r = read_man_ori_fix(fix4, (char*)x.c_str(), (char*)y.c_str(), cam); step(); return r;
}
SCENARIO(manual) {
    int cams = 1 + choose(4), cam = choose(cams), n = 4 + choose(3); std::vector<int> q(4); for (int& v : q) v = choose(n + 2); std::vector<V> P = grid(n); std::vector<std::vector<int>> nr; for (int i = 0; i < cams; i++) nr.push_back(i == cam ? q : std::vector<int>{1 + i % n, 2, n, 1}); vec3d f[4]; int r = ask(P, nr, cam, f);
    int want = 0; bool dup = false; for (int i = 0; i < 4; i++) { bool d = false; for (int j = 0; j < i; j++) if (q[i] == q[j]) d = true; if (q[i] >= 1 && q[i] <= n) { if (d) dup = true; else want++; } bool is = q[i] >= 1 && q[i] <= n && !d; if (is) MC_CHECK(fabs(f[i][0] - P[q[i] - 1].x) < 1e-5 && fabs(f[i][1] - P[q[i] - 1].y) < 1e-5 && fabs(f[i][2] - P[q[i] - 1].z) < 1e-5, "manual-point", "point %d of camera %d (number %d) was read as %g %g %g", i, cam, q[i], f[i][0], f[i][1], f[i][2]); }
    if (!dup) MC_CHECK(r == want, "manual-count", "%d of the numbers %d %d %d %d exist among %d points, %d reported", want, q[0], q[1], q[2], q[3], n, r); else MC_CHECK(r < 4, "manual-count", "a repeated number and %d points reported", r); state(hash_v(r, hash_v(q[0])));
}
SCENARIO(manual_damaged) {
    int cams = 1 + choose(4), cam = choose(cams), n = choose(8), cut = choose(80); std::vector<std::vector<int>> nr; for (int i = 0; i < cams; i++) nr.push_back({1, 3, 2, 4}); vec3d f[4]; int full = cams * 8; if (cut >= full) cut = -1; note("%d cameras, asked for %d, %d calibration points, cut at %d", cams, cam, n, cut); int r = ask(grid(n), nr, cam, f, cut);
    bool whole = cut < 0 || cut >= (cam + 1) * 8 - 1; MC_CHECK((r == 4) == (whole && n >= 4), "manual-damaged", "%d points reported reading camera %d of %d from a file cut at %d with %d calibration points", r, cam, cams, cut, n); if (r == 4) for (int i = 0; i < 4; i++) { int w[4] = {0, 2, 1, 3}; MC_CHECK(fabs(f[i][0] - grid(n)[w[i]].x) < 1e-5, "manual-point", "wrong point %d", i); } state(hash_v(r, cut));
}
/* the dumbbell measure against its definition */
SCENARIO(dumbbells) {
    int cams = 2 + choose(3), n = 1 + choose(thorough ? 7 : 5), glass = choose(2), len = pick({1, 10, 25, 1000}), drop = choose(4); double w = pick({0., 1., 2.5}); double noise = pick({0., 0.01, -0.05}); int hid = choose(3); control_par* cp = new_control_par(cams); *cp->mm = glass ? ref::media(1, 1.46, 1.33, 6) : ref::media(1, 1, 1, 1); note("%d cameras, %d dumbbell ends, length %d, weight %g", cams, n, len, w);
    double a[4][2] = {{0.2, 0.3}, {-0.2, 0.3}, {0.2, -0.3}, {-0.2, -0.3}}; std::vector<Calibration> cal; std::vector<Calibration*> pc; for (int i = 0; i < cams; i++) cal.push_back(ref::camera(a[i][0], a[i][1], 0.1 * i, V(0, 0, 0), 150, 5, V(0, 0, 30))); for (auto& c : cal) pc.push_back(&c);
    vec2d** t = (vec2d**)malloc(n * sizeof(vec2d*)); double conv = 0, err = 0; V last; 
    for (int p = 0; p < n; p++) { t[p] = (vec2d*)malloc(cams * sizeof(vec2d)); V X(p % 2 ? 8 + p : -9 + p, 3 * p - 4, p % 3 - 5); V sum(0, 0, 0); double d = 0; int pairs = 0; std::vector<V> o, u;
        for (int i = 0; i < cams; i++) { double x, y; ref::project(cal[i], *cp->mm, X, x, y); t[p][i][0] = x + noise * (i + p % 2); t[p][i][1] = y - noise * i * (1 + p); if (cams > 2 && hid && (p + hid) % cams == i) { t[p][i][0] = t[p][i][1] = COORD_UNUSED; continue; } V A, D; ref::trace(cal[i], *cp->mm, t[p][i][0], t[p][i][1], A, D); o.push_back(A); u.push_back(D); }
        for (size_t i = 0; i < o.size(); i++) for (size_t j = i + 1; j < o.size(); j++) { V c = ref::cross(u[i], u[j]), s = o[j] - o[i]; double q = ref::dot(c, c); V p1 = o[i] + (ref::dot(ref::cross(s, u[j]), c) / q) * u[i], p2 = o[j] + (ref::dot(ref::cross(s, u[i]), c) / q) * u[j]; d += ref::len(p1 - p2); sum = sum + 0.5 * (p1 + p2); pairs++; }
        conv += d / pairs; V here = (1. / pairs) * sum; if (p % 2) { double l = ref::len(here - last); err += 1 - std::min(l, (double)len) / std::max(l, (double)len); } last = here; }
    double want = conv / n + w * err / (0.5 * n), got = weighted_dumbbell_precision(t, n, cams, cp->mm, pc.data(), len, w); step(); MC_CHECK(fabs(want - got) < 1e-5 * (1 + fabs(want)), "dumbbell", "dumbbell measure of %d targets seen by %d cameras is %.8g, by definition %.8g", n, cams, got, want);
    for (int p = 0; p < n; p++) free(t[p]); free(t); free_control_par(cp); state(hash_v(floor(want * 1e6)));
}
