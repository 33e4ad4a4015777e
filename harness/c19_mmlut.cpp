/* C19: refraction look-up table. */
#include "ref.h"
using namespace mc; using ref::V;
static volume_par volume(int k) { volume_par v; memset(&v, 0, sizeof v); v.X_lay[0] = -40; v.X_lay[1] = 40; double Z[][4] = {{-22, -22, 8, 8}, {-20, -20, -4, -4}, {-21.5, -30.25, 5.75, 1}, {-7, -7, -5.5, -5.5}, {-61, -60, 10, 11.9}, {-1.9, -1.9, 1.9, 1.9}, {-71, -21.5, 6.2, -65}, {-12, -29.5, -7.5, 9.3}}; auto* z = Z[k]; v.Zmin_lay[0] = z[0]; v.Zmin_lay[1] = z[1]; v.Zmax_lay[0] = z[2]; v.Zmax_lay[1] = z[3]; return v; }
static mm_np media(int k) { switch (k) { case 0: return ref::media(1, 1.46, 1.33, 6); case 1: return ref::media(1, 1.33, 1.33, 1); case 2: return ref::media(1, 1.5, 1.0, 8); default: { mm_np m = ref::media(1, 1.5, 1.4, 3); return m; } } }
static control_par control(mm_np* m, int sensor) { control_par c; memset(&c, 0, sizeof c); c.num_cams = 1; c.imx = sensor ? 321 : 1280; c.imy = sensor ? 200 : 1024; c.pix_x = sensor ? 0.05 : 0.012; c.pix_y = sensor ? 0.06 : 0.012; c.mm = m; return c; }
static Calibration pick_cam(V& gl) { static std::vector<V> G = {V(0, 0, 40), V(8, 0, 60), V(-5, 12, 50)}; gl = pick(G); static double A[][3] = {{0, 0, 0}, {0.3, -0.1, 1.3}, {-0.2, 0.4, -2.9}, {0.1, 0.25, 0.4}}; auto* a = A[choose(4)]; int far = choose(2); double d = far ? 350 : 180; Calibration c = ref::camera(a[0], a[1], a[2], V(2, -3, -7), d, thorough ? pick({60., 105.}) : far ? 105 : 60, gl); int dist = choose(2); if (dist) { c.int_par.xh = 0.4; c.int_par.yh = -0.25; c.added_par.k1 = 3e-5; c.added_par.p1 = 2e-5; c.added_par.scx = 1.002; c.added_par.she = 0.001; } return c; }
static bool same_cal(const Calibration& a, const Calibration& b) { return !memcmp(&a.ext_par, &b.ext_par, sizeof a.ext_par) && !memcmp(&a.int_par, &b.int_par, sizeof a.int_par) && !memcmp(&a.glass_par, &b.glass_par, sizeof a.glass_par) && !memcmp(&a.added_par, &b.added_par, sizeof a.added_par); }
static std::string str(const Calibration& c, const mm_np& m) { char b[300]; snprintf(b, 300, "camera angles (%g,%g,%g) at (%g,%g,%g) glass (%g,%g,%g), media %g %g %g", c.ext_par.omega, c.ext_par.phi, c.ext_par.kappa, c.ext_par.x0, c.ext_par.y0, c.ext_par.z0, c.glass_par.vec_x, c.glass_par.vec_y, c.glass_par.vec_z, m.n1, m.n2[0], m.n3); return b; }
/* corner rays with the library's own pixel conversion (decided by C17), traced by the reference */
static std::vector<V> corners(const Calibration& c, const control_par& p, double Z) { std::vector<V> r; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { double x, y; pixel_to_metric(&x, &y, i * p.imx, j * p.imy, (control_par*)&p); x -= c.int_par.xh; y -= c.int_par.yh; correct_brown_affin(x, y, c.added_par, &x, &y); V a, d; if (!ref::trace(c, *p.mm, x, y, a, d)) continue; r.push_back(a + ((Z - a.z) / d.z) * d); } return r; }

static uint64_t check_table(Calibration& cal, mm_np& m, int depth_) {
    mmlut& L = cal.mmlut; double h = ref::camdist(cal, m) + m.d[0]; uint64_t acc = 1;
    Calibration ct; memset(&ct, 0, sizeof ct); ct.ext_par.z0 = h; ct.mmlut = L; Calibration cd = ct; cd.mmlut.data = NULL;
    static std::vector<double> F = {0, 1e-9, 0.25, 0.5, 0.999999}; 
    int sr_ = std::max(1, L.nr / depth_), sz_ = std::max(1, L.nz / depth_);
    for (int ir = 0; ir <= L.nr + 3; ir += (ir < 3 || ir >= L.nr - 4) ? 1 : std::min(sr_, L.nr - 4 - ir)) for (double fr : F) for (int iz = -3; iz <= L.nz + 3; iz += (iz < 3 || iz >= L.nz - 4) ? 1 : std::min(sz_, L.nz - 4 - iz)) for (double fz : F) {
        double r = (ir + fr) * L.rw, z = L.origin[2] + (iz + fz) * L.rw; if (z > h - m.d[0] - 5) continue;
        double ang = ir % 4 * 1.7; vec3d p = {L.origin[0] + r * cos(ang), L.origin[1] + r * sin(ang), z}; r = hypot(p[0] - L.origin[0], p[1] - L.origin[1]);
        double f = get_mmf_from_mmlut(&ct, p), g = multimed_r_nlay(&ct, &m, p), d = multimed_r_nlay(&cd, &m, p); step();
        bool inside = iz >= 0 && iz + fz <= L.nz - 1 && ir + fr <= L.nr - 1, border = iz + fz > L.nz - 1 - 1e-6 || ir + fr > L.nr - 1 - 1e-6 || (iz == 0 && fz < 1e-6) ;
        MC_CHECK(std::isfinite(f) && std::isfinite(g), "finite", "%s: table gives %g at radius %g, depth %g", str(cal, m).c_str(), f, r, z);
        if (!inside && !border) MC_CHECK(f == 0, "outside", "%s: table of %d x %d nodes gives %g for a point outside of it (cell %d+%g, %d+%g), expected none", str(cal, m).c_str(), L.nr, L.nz, f, ir, fr, iz, fz);
        if (inside && !border) MC_CHECK(f > 0, "inside", "%s: table of %d x %d nodes gives none inside (cell %d+%g, %d+%g)", str(cal, m).c_str(), L.nr, L.nz, ir, fr, iz, fz);
        if (f == 0) { MC_CHECK(g == d, "direct", "%s: outside the table the shift is %g, direct computation gives %g", str(cal, m).c_str(), g, d); continue; }
        MC_CHECK(g == f, "used", "%s: the shift in the table (%g) is not used (%g)", str(cal, m).c_str(), f, g);
        double err = fabs(f - d) * r, tol = 4e-3;
        if (err > tol) { /* must be the curvature of the shift: then it is the interpolation of the directly computed nodes */
            double zn = L.origin[2] + iz * L.rw, rn = ir * (double)L.rw, s = (r - rn) / L.rw, q = (z - zn) / L.rw; auto at = [&](int i, int j) { vec3d n = {rn + i * L.rw, 0, zn + j * L.rw}; return multimed_r_nlay(&cd, &m, n); };
            double want = (1 - s) * ((1 - q) * at(0, 0) + q * at(0, 1)) + s * ((1 - q) * at(1, 0) + q * at(1, 1));
            MC_CHECK(fabs(f - want) * r < 1e-6 && (ir == 0 || err < 0.02), "interpolate", "%s: table of %d x %d nodes, cell %d+%g, %d+%g: shift %.8f, direct computation %.8f: %g length units off", str(cal, m).c_str(), L.nr, L.nz, ir, fr, iz, fz, f, d, err);
            if (ir == 0) finding("axis-cell", "within %d units of the camera's foot point the table interpolates towards 1: off by %g units at radius %g", L.rw, err, r);
        }
        acc = hash_v((long)(1e6 * f), acc);
    }
    return acc;
}
static void check_projection(Calibration& cal, mm_np& m, const volume_par& v, control_par& cp) {
    Calibration direct = cal; direct.mmlut.data = NULL; double zlo = std::min(v.Zmin_lay[0], v.Zmin_lay[1]), zhi = std::max(v.Zmax_lay[0], v.Zmax_lay[1]), W = cp.imx * cp.pix_x / 2, H = cp.imy * cp.pix_y / 2;
    double xr[2] = {1e300, -1e300}, yr[2] = {1e300, -1e300}; for (double Z : {zlo, zhi}) for (V p : corners(cal, cp, Z)) { xr[0] = std::min(xr[0], p.x); xr[1] = std::max(xr[1], p.x); yr[0] = std::min(yr[0], p.y); yr[1] = std::max(yr[1], p.y); }
    for (int i = -1; i <= 9; i++) for (int j = -1; j <= 9; j++) for (int k = -1; k <= 5; k++) { vec3d p = {xr[0] + (xr[1] - xr[0]) * i / 8., yr[0] + (yr[1] - yr[0]) * j / 8., zlo + (zhi - zlo) * k / 4.}; if (ref::depth(cal, V(p)) < 0.5) continue; double x, y, a, b; flat_image_coord(p, &cal, &m, &x, &y); flat_image_coord(p, &direct, &m, &a, &b); step();
        V g = ref::unit(ref::glass(cal)), C = ref::centre(cal); double r = ref::len((V(p) - C) - ref::dot(V(p) - C, g) * g), lim = 6e-3 * cal.int_par.cc / ref::camdist(cal, m); 
        if (r < cal.mmlut.rw) continue;  /* around the axis: see check_table */
        bool covered = r <= (cal.mmlut.nr - 1) * cal.mmlut.rw && -ref::depth(cal, V(p)) >= cal.mmlut.origin[2] && -ref::depth(cal, V(p)) <= cal.mmlut.origin[2] + (cal.mmlut.nz - 1) * cal.mmlut.rw;
        MC_CHECK(hypot(x - a, y - b) <= lim, "project", "%s: point (%g,%g,%g), %s the table, projects to (%g,%g) with the table and (%g,%g) without", str(cal, m).c_str(), p[0], p[1], p[2], covered ? "inside" : "outside", x, y, a, b); }
}
SCENARIO(table) {
    V gl; Calibration cal = pick_cam(gl); mm_np m = media(choose(4)); int vk = choose(8), sensor = choose(2); volume_par v = volume(vk); control_par cp = control(&m, sensor); if (ref::camdist(cal, m) < 30) return;
    for (double Z : {-70., 12.}) for (V p : corners(cal, cp, Z)) if (!ref::fin(p)) return;
    double ztop = std::max(v.Zmax_lay[0], v.Zmax_lay[1]) + 2; if (ref::len(gl) < ztop + 3) return;
    Calibration c0 = cal; volume_par v0 = v; control_par p0 = cp; mm_np m0 = m; init_mmlut(&v, &cp, &cal); step();
    MC_CHECK(cal.mmlut.data, "built", "no table was built"); MC_CHECK(same_cal(cal, c0) && !memcmp(&v, &v0, sizeof v) && !memcmp(&cp, &p0, sizeof cp) && !memcmp(&m, &m0, sizeof m), "side", "%s: building the table changed the calibration or the settings", str(c0, m).c_str());
    /* it covers what the camera sees between the limits, up to two cells (beyond it, the direct computation answers) */
    double zlo = std::min(v.Zmin_lay[0], v.Zmin_lay[1]), zhi = std::max(v.Zmax_lay[0], v.Zmax_lay[1]); V g = ref::unit(gl), C = ref::centre(cal);
    for (double Z : {zlo, zhi}) for (V p : corners(cal, cp, Z)) { double r = ref::len((p - C) - ref::dot(p - C, g) * g), z = -ref::depth(cal, p); MC_CHECK(r <= (cal.mmlut.nr + 1) * cal.mmlut.rw && z >= cal.mmlut.origin[2] - 2 * cal.mmlut.rw && z <= cal.mmlut.origin[2] + (cal.mmlut.nz + 1) * cal.mmlut.rw, "cover", "%s: the corner ray at depth %g (radius %g, depth %g) is outside the table: %d x %d nodes from %g", str(cal, m).c_str(), Z, r, z, cal.mmlut.nr, cal.mmlut.nz, cal.mmlut.origin[2]); }
    check_projection(cal, m, v, cp);
    state(check_table(cal, m, thorough ? 40 : 5)); free(cal.mmlut.data);
}
/* a table that exists already: building again with other settings leaves a usable table */
SCENARIO(rebuild) {
    V gl(0, 0, 40); static double A[][3] = {{0, 0, 0}, {0.3, -0.1, 1.3}, {-0.2, 0.4, -2.9}}; auto* a = A[choose(3)]; Calibration cal = ref::camera(a[0], a[1], a[2], V(2, -3, -7), 250, 80, gl); mm_np m = media(choose(2)); int n = 2 + choose(2); uint64_t acc = 1; 
    for (int i = 0; i < n; i++) { volume_par v = volume(2 + choose(6)); control_par cp = control(&m, choose(2)); double* d = cal.mmlut.data; init_mmlut(&v, &cp, &cal); step(); if (d && d != cal.mmlut.data) d = NULL; acc = hash_v(check_table(cal, m, 2), acc); }
    state(acc); free(cal.mmlut.data);
}
/* the visible volume */
SCENARIO(visible_volume) {
    int n = 1 + choose(4), mk = choose(4), vk = choose(8), sensor = choose(2), start = choose(3), rot = choose(8); mm_np m = media(mk); volume_par v = volume(vk); control_par cp = control(&m, sensor); cp.num_cams = n; double A[8][3] = {{0, 0, 0}, {0.3, -0.1, 1.3}, {-0.2, 0.4, -2.9}, {0.1, 0.25, 0.4}, {0, 0.5, 0}, {0, -0.5, 0.1}, {0.5, 0, 0}, {-0.5, 0, -0.1}}; bool steep = rot >= 4; /* the last four look in from the four sides, with a narrow field: each limit comes from another camera */
    std::vector<Calibration> c; std::vector<Calibration*> pc; for (int i = 0; i < n; i++) { auto* a = A[(i + rot) % 4 + 4 * steep]; c.push_back(ref::camera(a[0], a[1], a[2], V(2 + 5 * i, -3 * i, -7), 180 + 30 * i, steep ? 300 : 60 + 5 * i, i % 2 ? V(8, 0, 60) : V(0, 0, 40))); if (i == 1) { c[i].int_par.xh = 0.4; c[i].int_par.yh = -0.3; c[i].added_par.k1 = 3e-5; c[i].added_par.she = 0.002; } } for (auto& x : c) pc.push_back(&x);
    double lo[2], hi[2], z0 = 77, z1 = 77, s = start == 0 ? 1e6 : start == 1 ? 5 : -15; lo[0] = lo[1] = start == 0 ? 1e6 : 0; hi[0] = hi[1] = start == 0 ? -1e6 : s * s; double wlo[2] = {lo[0], lo[1]}, whi[2] = {hi[0], hi[1]};
    double zlo = std::min(v.Zmin_lay[0], v.Zmin_lay[1]), zhi = std::max(v.Zmax_lay[0], v.Zmax_lay[1]); for (auto& x : c) for (double Z : {zlo, zhi}) for (V p : corners(x, cp, Z)) { wlo[0] = std::min(wlo[0], p.x); whi[0] = std::max(whi[0], p.x); wlo[1] = std::min(wlo[1], p.y); whi[1] = std::max(whi[1], p.y); }
    volumedimension(&hi[0], &lo[0], &hi[1], &lo[1], &z1, &z0, &v, &cp, pc.data()); step(); MC_CHECK(z0 == zlo && z1 == zhi, "z-limits", "depth limits %g..%g, expected %g..%g", z0, z1, zlo, zhi);
    for (int k = 0; k < 2; k++) MC_CHECK(nearr(lo[k], wlo[k], 1e-7) && nearr(hi[k], whi[k], 1e-7), "xy-limits", "%d cameras, media %d, volume %d: %s limits %.9g..%.9g, the corner rays need %.9g..%.9g", n, mk, vk, k ? "y" : "x", lo[k], hi[k], wlo[k], whi[k]); state(hash(lo, sizeof lo, hash(hi, sizeof hi)));
}
