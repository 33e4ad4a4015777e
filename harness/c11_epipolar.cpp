/* C11: epipolar search. */
#include "ref.h"
using namespace mc;
static uint64_t acc;
static const double EDGE = 1e-7;   /* nothing is asserted this close to a limit */
struct Q { double xa, ya, xb, yb; int n, nx, ny, sumg; };
static double ratio(double a, double b) { return a < b ? a / b : b / a; }

static void check_find(const std::vector<coord_2d>& crd, const std::vector<target>& pix, const Q& q, volume_par* v, control_par* c, Calibration* cal) {
    int num = crd.size(); static coord_2d dc; static target dt; 
    std::vector<candidate> out(MAXCAND + 1); out[MAXCAND].pnr = -4711;   /* the table the callers provide, with a guard behind it */
    for (auto& o : out) { if (&o != &out[MAXCAND]) o.pnr = -5; }
    step();
    int cnt = find_candidate(num ? (coord_2d*)crd.data() : &dc, num ? (target*)pix.data() : &dt, num, q.xa, q.ya, q.xb, q.yb, q.n, q.nx, q.ny, q.sumg, out.data(), v, c, cal);
    /* reference: every target, no order used */
    double W = c->pix_x * c->imx / 2, H = c->pix_y * c->imy / 2, xl = -W - cal->int_par.xh, xr = W - cal->int_par.xh, yl = -H - cal->int_par.yh, yr = H - cal->int_par.yh, doubt = 0;
    if (cal->added_par.k1 != 0) { double u[4]; correct_brown_affin(xl, yl, cal->added_par, &u[0], &u[1]); correct_brown_affin(xr, yr, cal->added_par, &u[2], &u[3]); xl = u[0]; yl = u[1]; xr = u[2]; yr = u[3]; doubt = 0.02; }   /* the flat coordinates of the corners */
    double x0 = std::min(q.xa, q.xb), x1 = std::max(q.xa, q.xb), y0 = std::min(q.ya, q.yb), y1 = std::max(q.ya, q.yb), tol = v->eps0;
    auto describe = [&]() { char b[400]; snprintf(b, 400, "%d targets, segment (%g,%g)-(%g,%g), tolerance %g, sensor %g..%g x %g..%g, shape %d %d %d %d", num, q.xa, q.ya, q.xb, q.yb, tol, xl, xr, yl, yr, q.n, q.nx, q.ny, q.sumg); return std::string(b); };
    MC_CHECK(out[MAXCAND].pnr == -4711, "overflow", "%s: wrote behind the candidate table", describe().c_str());
    bool off = x1 <= xl || x0 >= xr || y1 <= yl || y0 >= yr;
    if (doubt && std::min({fabs(x1 - xl), fabs(x0 - xr), fabs(y1 - yl), fabs(y0 - yr)}) < doubt) return;
    if (off) { MC_CHECK(cnt < 0, "off-sensor", "%s: segment outside the sensor gave %d", describe().c_str(), cnt); acc = acc * 31 + 7; return; }
    MC_CHECK(cnt >= 0, "on-sensor", "%s: segment on the sensor was refused (%d)", describe().c_str(), cnt);
    double L = hypot(q.xb - q.xa, q.yb - q.ya), ux = L > 0 ? (q.xb - q.xa) / L : 1, uy = L > 0 ? (q.yb - q.ya) / L : 0;
    int k = 0, sure = 0, maybe = 0;
    for (int i = 0; i < num; i++) {
        double x = crd[i].x, y = crd[i].y, d = fabs((x - q.xa) * uy - (y - q.ya) * ux);
        double m = std::min({x - (x0 - tol), x1 + tol - x, y - (y0 - tol), y1 + tol - y, tol - d});      /* > 0: in the band */
        const target& t = pix[crd[i].pnr];
        double qn = ratio(q.n, t.n), qx = ratio(q.nx, t.nx), qy = ratio(q.ny, t.ny), qs = ratio(q.sumg, t.sumg);
        bool shape = qn >= v->cn && qx >= v->cnx && qy >= v->cny && qs > v->csumg;
        bool in = m > EDGE && shape, unsure = shape && fabs(m) <= EDGE;
        int hit = -1; for (int j = k; j < std::min(cnt, (int)MAXCAND); j++) if (out[j].pnr == i) { hit = j; break; }
        if (in && sure + maybe < MAXCAND && hit < 0) fail("missed", "%s: target %d at (%.9g,%.9g), %g from the segment, is not among the %d candidates", describe().c_str(), i, x, y, d, cnt);
        if (!in && !unsure && hit >= 0) fail("extra", "%s: target %d at (%.9g,%.9g), %g from the segment, shape %s, is a candidate", describe().c_str(), i, x, y, d, shape ? "ok" : "not similar");
        if (in) sure++; else if (unsure) maybe++;
        if (hit < 0) continue;
        MC_CHECK(hit == k, "order", "%s: target %d is candidate %d, expected place %d", describe().c_str(), i, hit, k); k++;
        MC_CHECK(nearr(out[hit].tol, d, 1e-6), "distance", "%s: target %d is %g from the segment, reported %g", describe().c_str(), i, d, out[hit].tol);
        double corr = (4 * qs + 2 * qn + qx + qy) * ((double)q.sumg + t.sumg);
        MC_CHECK(nearr(out[hit].corr, corr, 1e-9), "score", "%s: target %d has score %g, expected %g", describe().c_str(), i, out[hit].corr, corr);
    }
    MC_CHECK(cnt == k, "count", "%s: %d candidates returned, %d of them targets in the band", describe().c_str(), cnt, k);
    acc = hash(&cnt, sizeof cnt, acc); if (cnt) acc = hash(out.data(), cnt * sizeof(candidate), acc);
}
static void setup(volume_par& v, control_par& c, Calibration& cal) { memset(&v, 0, sizeof v); memset(&c, 0, sizeof c); memset(&cal, 0, sizeof cal); c.imx = 20; c.imy = 16; c.pix_x = c.pix_y = 0.5; cal.added_par.scx = 1; v.eps0 = 0.3; }
static target shape(int n, int nx, int ny, int sumg) { target t; memset(&t, 0, sizeof t); t.n = n; t.nx = nx; t.ny = ny; t.sumg = sumg; return t; }

/* few targets anywhere on a small lattice, segments of every orientation, degenerate ones included */
SCENARIO(small_sets) {
    int n = choose(thorough ? 5 : 4); static double X[] = {-1.53, 0.03, 0.21, 2.07}, Y[] = {-1.07, 0.02, 1.51};
    std::vector<coord_2d> crd; std::vector<target> pix(n); int lx = 0;
    for (int i = 0; i < n; i++) { int x = lx + choose(4 - lx); lx = x; crd.push_back({n - 1 - i, X[x], Y[choose(3)]}); pix[n - 1 - i] = shape(9 + i, 3, 3, 100 + 10 * i); }
    volume_par v; control_par c; Calibration cal; setup(v, c, cal); crd.shrink_to_fit(); acc = 1;
    static double P[] = {-1.5, 0, 0.001, 0.25, 2}, R[] = {-1.1, 0, 1.5};
    for (double eps : {0.05, 0.3, 4.0}) { v.eps0 = eps; for (double xa : P) for (double xb : P) for (double ya : R) for (double yb : R) check_find(crd, pix, {xa, ya, xb, yb, 10, 3, 3, 120}, &v, &c, &cal); }
    state(acc);
}
static std::vector<coord_2d> layout(int num, int kind) {
    std::vector<coord_2d> a(num); for (int i = 0; i < num; i++) { double x = 0, y = 0;
        switch (kind) { case 0: x = -9 + 18.0 * (i + 0.5) / num; y = ((i * 7) % 31) * 0.2 - 3; break; case 1: x = i < num / 2 ? -3.0 : 3.0; y = -3.5 + 7.0 * ((i * 5) % std::max(num, 1)) / num; break;
                        case 2: x = 0.5; y = -3.5 + 7.0 * i / num; break; case 3: x = -9 + 18.0 * pow((i + 0.5) / num, 4); y = (i % 3) - 1; break; default: x = 9 - 18.0 * pow((num - i - 0.5) / num, 4); y = (i % 5) * 0.5 - 1; }
        a[i] = {(int)(((long)i * 7919) % num), x, y}; }
    if (num && num % 7919 == 0) for (int i = 0; i < num; i++) a[i].pnr = i;
    return a;
}
/* every list length; windows at every part of the list */
SCENARIO(list_lengths) {
    int step_ = thorough ? 1 : 2, num = 1 + step_ * choose((thorough ? 1500 : 1100) / step_) , kind = choose(5); auto crd = layout(num, kind); std::vector<target> pix(num); for (int i = 0; i < num; i++) pix[i] = shape(9, 3, 3, 100);
    volume_par v; control_par c; Calibration cal; setup(v, c, cal); c.imx = 40; c.imy = 20; acc = 1; 
    int parts = num < 60 ? num : 24;
    for (int k = 0; k <= parts; k++) { double x = k == parts ? 9.99 : crd[(long)k * num / parts].x + 0.01; v.eps0 = num < 300 ? 0.15 : 0.04;
        check_find(crd, pix, {x - 0.2, -3.6, x + 0.15, 3.7, 9, 3, 3, 100}, &v, &c, &cal); check_find(crd, pix, {x, -0.9, x, 1.2, 9, 3, 3, 100}, &v, &c, &cal); check_find(crd, pix, {x + 0.1, 0.1, x - 0.1, 0.1, 9, 3, 3, 100}, &v, &c, &cal); v.eps0 = 0.4; check_find(crd, pix, {x, -0.3, x, 0.3, 9, 3, 3, 100}, &v, &c, &cal); }
    state(acc);
}
SCENARIO(long_lists) {
    static std::vector<int> L = {1501, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5001, 8191, 8192, 8193, 10007, 16383, 16384, 19999, 20000}; int num = pick(L), kind = choose(5); auto crd = layout(num, kind); std::vector<target> pix(num); for (int i = 0; i < num; i++) pix[i] = shape(9, 3, 3, 100);
    volume_par v; control_par c; Calibration cal; setup(v, c, cal); c.imx = 40; c.imy = 20; acc = 1; int parts = thorough ? 300 : 60;
    for (int k = 0; k <= parts; k++) { double x = k == parts ? 9.99 : crd[(long)k * num / parts].x + 0.01; v.eps0 = 0.003; check_find(crd, pix, {x - 0.02, -3.6, x + 0.015, 3.7, 9, 3, 3, 100}, &v, &c, &cal); check_find(crd, pix, {x + 0.01, 0.1, x - 0.01, 0.1, 9, 3, 3, 100}, &v, &c, &cal); v.eps0 = 0.03; check_find(crd, pix, {x, -0.3, x, 0.3, 9, 3, 3, 100}, &v, &c, &cal); }
    state(acc);
}
/* the table of candidates is full at MAXCAND */
SCENARIO(capacity) {
    int num = pick({198, 199, 200, 201, 202, 250, 400}), kind = choose(5); auto crd = layout(num, kind); std::vector<target> pix(num); for (int i = 0; i < num; i++) pix[i] = shape(9, 3, 3, 100); volume_par v; control_par c; Calibration cal; setup(v, c, cal); c.imx = 40; c.imy = 20; v.eps0 = 30; acc = 1;
    check_find(crd, pix, {-9, -3, 9, 3, 9, 3, 3, 100}, &v, &c, &cal); check_find(crd, pix, {9, -3, -9, 3, 9, 3, 3, 100}, &v, &c, &cal); state(acc);
}
/* one measurement bears a number that the target list does not have: refused if it is on the line, ignored if not, never used */
SCENARIO(bad_number) {
    int n = 1 + choose(4), bad = choose(n), nr = n + pick({0, 1, 7, 1000, 20480, 1 << 30}), where = choose(4); volume_par v; control_par c; Calibration cal; setup(v, c, cal); v.eps0 = 0.3; std::vector<coord_2d> crd(n); std::vector<target> pix; for (int i = 0; i < n; i++) pix.push_back(shape(9, 3, 3, 100));
    pix.shrink_to_fit(); for (int i = 0; i < n; i++) crd[i] = {i, -1 + 0.5 * i, 0.1}; crd[bad].pnr = nr; if (where == 1) crd[bad].y = 0.5; if (where == 2) crd[bad].y = -2; if (where == 3 && bad == n - 1) crd[bad].x = 2.5; bool on = where == 0 || (where == 3 && bad < n - 1);
    std::vector<candidate> out(MAXCAND); for (auto& o : out) o.pnr = -5; step();
    int cnt = find_candidate(crd.data(), pix.data(), n, -1.5, 0, 2, 0, 9, 3, 3, 100, out.data(), &v, &c, &cal); state(cnt + 10 * n);
    if (on) { MC_CHECK(cnt < 0, "bad-number", "measurement %d of %d, on the line, bears the target number %d: the search gave %d", bad, n, nr, cnt); return; }
    MC_CHECK(cnt == n - 1, "bad-number", "measurement %d of %d, off the line, bears the target number %d: the search gave %d", bad, n, nr, cnt); for (int i = 0; i < cnt; i++) MC_CHECK(out[i].pnr == i + (i >= bad), "bad-number", "candidate %d of the search is measurement %d", i, out[i].pnr);
}
/* similarity: each measure against each limit */
SCENARIO(similarity) {
    volume_par v; control_par c; Calibration cal; setup(v, c, cal); static std::vector<int> S = {1, 2, 9, 10, 11, 40, 1000}; static std::vector<double> T = {0, 0.25, 0.31, 0.9, 0.905, 0.95};
    int which = choose(4), a = pick(S); v.cn = pick(T); v.cnx = pick(T); v.cny = pick(T); v.csumg = pick(T); std::vector<coord_2d> crd; std::vector<target> pix; acc = 1;
    for (int b : S) for (int o : {0, 1, 3}) { int f[4] = {10, 10, 10, 10}; f[which] = b; if (o) f[(which + o) % 4] = b; crd.push_back({20 - (int)pix.size(), -1 + 0.01 * pix.size(), 0.01}); pix.push_back(shape(f[0], f[1], f[2], f[3])); }
    std::reverse(pix.begin(), pix.end());
    int g[4] = {10, 10, 10, 10}; g[which] = a; check_find(crd, pix, {-2, 0, 2, 0, g[0], g[1], g[2], g[3]}, &v, &c, &cal); g[(which + 1) % 4] = a; check_find(crd, pix, {-2, 0, 2, 0, g[0], g[1], g[2], g[3]}, &v, &c, &cal); state(acc);
}
/* the sensor: segments inside, across, beside */
SCENARIO(sensor) {
    volume_par v; control_par c; Calibration cal; setup(v, c, cal); c.imx = pick({8, 20, 21}); c.imy = pick({6, 16, 17}); c.pix_x = pick({0.5, 0.25}); c.pix_y = pick({0.5, 0.125}); cal.int_par.xh = pick({0., 1.5, -1.5}); cal.int_par.yh = pick({0., 0.75, -0.75}); cal.added_par.k1 = pick({0., 0.0015, -0.0008}); acc = 1;
    std::vector<coord_2d> crd; std::vector<target> pix; for (int i = 0; i < 81; i++) { crd.push_back({i, -8.03 + 2 * (i / 9), -8.01 + 2 * (i % 9)}); pix.push_back(shape(9, 3, 3, 100)); }
    static double P[] = {-9.1, -3.3, -0.7, 0.9, 3.7, 8.8}; v.eps0 = 0.6;
    for (double xa : P) for (double xb : P) for (double ya : P) for (double yb : P) check_find(crd, pix, {xa, ya, xb, yb, 9, 3, 3, 100}, &v, &c, &cal);
    /* segments that begin or end near the limits, within what the distortion moves them */
    double hx = c.imx * c.pix_x / 2, hy = c.imy * c.pix_y / 2;
    for (int s = 0; s < 4; s++) for (double f : {0.93, 0.965, 1.02, 1.05}) { double lim = s < 2 ? (s ? hx : -hx) : (s == 3 ? hy : -hy), in = lim * f - (s < 2 ? cal.int_par.xh : cal.int_par.yh), out = in + (s & 1 ? 4 : -4);
        for (double o : {-0.7, 0.9}) if (s < 2) check_find(crd, pix, {in, o, out, o + 0.3, 9, 3, 3, 100}, &v, &c, &cal); else check_find(crd, pix, {o, in, o + 0.3, out, 9, 3, 3, 100}, &v, &c, &cal); }
    state(acc);
}

/* epipolar segments: cameras, media and volumes against an independent ray tracer */
using ref::V;
static std::vector<Calibration> cams(V gl) {
    std::vector<Calibration> r; double A[][3] = {{0, 0, 0}, {0.3, 0, 0}, {0, 0.35, 0.1}, {-0.25, -0.3, 1.2}, {0.4, 0.3, -2.9}}; int n = thorough ? 5 : 5;
    for (int i = 0; i < n; i++) r.push_back(ref::camera(A[i][0], A[i][1], A[i][2], V(1, -2, -5), 220 + 30 * i, 80 + 10 * (i % 2), gl)); return r;
}
SCENARIO(epipolar_segment) {
    static std::vector<V> G = {V(0, 0, 40), V(6, 0, 60), V(-4, 9, 55), V(0, -0.3, 25)}; V gl = pick(G); int mm = choose(5);
    mm_np m = mm == 0 ? ref::media(1, 1, 1, 1) : mm == 1 ? ref::media(1, 1.46, 1.33, 6) : mm == 2 ? ref::media(1, 1.33, 1.33, 3) : mm == 3 ? ref::media(1, 1.5, 1.0, 8) : ref::media(1, 1, 1.33, 1);
    auto c = cams(gl); int i = choose(c.size()), j = choose(c.size()); if (i == j) return;
    volume_par v; memset(&v, 0, sizeof v); v.X_lay[0] = -40; v.X_lay[1] = 40; int vol = choose(3); v.Zmin_lay[0] = -22; v.Zmin_lay[1] = vol == 1 ? -10 : -22; v.Zmax_lay[0] = 8; v.Zmax_lay[1] = vol == 2 ? 15 : 8; acc = 1;
    for (double x = -12; x <= 12; x += thorough ? 1.5 : 3) for (double y = -11; y <= 12; y += thorough ? 1.5 : 3) {
        V at, d; if (!ref::trace(c[i], m, x, y, at, d)) continue;
        double zl[2]; for (int k = 0; k < 2; k++) { double* z = k ? v.Zmax_lay : v.Zmin_lay; zl[k] = z[0] + (at.x - v.X_lay[0]) * (z[1] - z[0]) / (v.X_lay[1] - v.X_lay[0]); }
        double e[4] = {0, 0, 0, 0}; epi_mm(x, y, &c[i], &c[j], &m, &v, &e[0], &e[1], &e[2], &e[3]); step();
        double tol = mm == 0 ? 1e-6 : 2e-3, px, py; bool ok = true;
        for (int k = 0; k < 2; k++) { V p = at + ((zl[k] - at.z) / d.z) * d; if (!ref::project(c[j], m, p, px, py)) { ok = false; break; } MC_CHECK(hypot(px - e[2 * k], py - e[2 * k + 1]) < tol, "segment-end", "camera %d to %d, media %d, glass (%g,%g,%g), volume %d, image point (%g,%g): the %s end of the epipolar segment is (%.6f,%.6f), the point at that depth is seen at (%.6f,%.6f)", i, j, mm, gl.x, gl.y, gl.z, vol, x, y, k ? "upper" : "lower", e[2 * k], e[2 * k + 1], px, py); }
        if (!ok) continue;
        /* every point of the ray inside the volume is seen on the segment; refraction may bend the image of the ray slightly */
        for (int s = 0; s <= 10; s++) { double z = zl[0] + (zl[1] - zl[0]) * s / 10; V p = at + ((z - at.z) / d.z) * d; vec3d P3 = {p.x, p.y, p.z}; flat_image_coord(P3, &c[j], &m, &px, &py); step();
            double ux = e[2] - e[0], uy = e[3] - e[1], L2 = ux * ux + uy * uy, t = L2 > 0 ? ((px - e[0]) * ux + (py - e[1]) * uy) / L2 : 0; t = std::min(1.0, std::max(0.0, t));
            double dist = hypot(px - e[0] - t * ux, py - e[1] - t * uy), lim = tol * 2 + (mm == 0 ? 0 : 0.004 * sqrt(L2));
            MC_CHECK(dist < lim, "on-segment", "camera %d to %d, media %d, glass (%g,%g,%g), image point (%g,%g): the point at depth %g is seen %g away from the epipolar segment", i, j, mm, gl.x, gl.y, gl.z, x, y, z, dist); acc = hash_v((long)(1e3 * px), acc); }
    }
    state(acc);
}
/* the single-camera form: the point of the ray half-way between the limits */
SCENARIO(epipolar_single) {
    static std::vector<V> G = {V(0, 0, 40), V(6, 0, 60), V(-4, 9, 55)}; V gl = pick(G); int mm = choose(3); mm_np m = mm == 0 ? ref::media(1, 1, 1, 1) : mm == 1 ? ref::media(1, 1.46, 1.33, 6) : ref::media(1, 1.33, 1.33, 3); auto c = cams(gl); int i = choose(c.size());
    volume_par v; memset(&v, 0, sizeof v); v.X_lay[0] = pick({-40., -10.}); v.X_lay[1] = 40; v.Zmin_lay[0] = -22; v.Zmin_lay[1] = pick({-22., -10.}); v.Zmax_lay[0] = pick({8., -2.}); v.Zmax_lay[1] = pick({8., 15.}); acc = 1;
    for (double x = -12; x <= 12; x += 1) for (double y = -11; y <= 12; y += 1) {
        V at, d; if (!ref::trace(c[i], m, x, y, at, d)) continue; double zl[2]; for (int k = 0; k < 2; k++) { double* z = k ? v.Zmax_lay : v.Zmin_lay; zl[k] = z[0] + (at.x - v.X_lay[0]) * (z[1] - z[0]) / (v.X_lay[1] - v.X_lay[0]); }
        double z = (zl[0] + zl[1]) / 2; V p = at + ((z - at.z) / d.z) * d; vec3d o; epi_mm_2D(x, y, &c[i], &m, &v, o); step();
        MC_CHECK(ref::len(p - V(o)) < 1e-6, "single", "camera %d, media %d, glass (%g,%g,%g), image point (%g,%g): point (%g,%g,%g), expected (%g,%g,%g)", i, mm, gl.x, gl.y, gl.z, x, y, o[0], o[1], o[2], p.x, p.y, p.z); acc = hash_v((long)(1e3 * o[0]), acc);
    }
    state(acc);
}
