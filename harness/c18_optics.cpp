/* C18: projection, ray tracing and 3D reconstruction. */
#include "ref.h"
using namespace mc; using ref::V;
static std::vector<double> lat(std::initializer_list<double> q, std::initializer_list<double> t) { return thorough ? std::vector<double>(t) : std::vector<double>(q); }
/* attitudes, glass vectors and media; every combination that can see the volume is explored */
static Calibration pick_camera(V gl) { double om = pick(lat({0, 0.17, 0.35, -0.35, 0.6}, {0, 0.05, 0.17, 0.35, -0.35, 0.5, 0.6, -0.7})), ph = pick(lat({0, 0.15, 0.3, -0.4, -0.6}, {0, -0.07, 0.15, 0.3, -0.4, 0.5, -0.6, 0.7})), ka = pick(lat({0, 0.01, 1.3, -2.9, M_PI / 2}, {0, 0.01, 0.8, 1.3, -2.9, M_PI / 2, M_PI, -2}));
    double dist = pick(lat({150., 400.}, {110., 150., 260., 400., 1200.})), cc = pick(lat({60., 105.}, {20., 60., 105.})); return ref::camera(om, ph, ka, V(2, -3, -10), dist, cc, gl); }
static V pick_glass() { static std::vector<V> G = {V(0, 0, 40), V(0, 0, 5), V(8, 0, 60), V(-5, 12, 50), V(0.01, -0.02, 30)}; return pick(G); }
enum { MEDIA = 8 };
static mm_np pick_media(int& k, int more = 0) { k = choose(MEDIA + more); switch (k) { case 0: return ref::media(1, 1, 1, 1); case 1: return ref::media(1, 1, 1, 12); case 2: return ref::media(1, 1.46, 1.33, 6); case 3: return ref::media(1, 1.33, 1.33, 0.5); case 4: return ref::media(1, 1.5, 1.0, 8); case 5: return ref::media(1, 1, 1.33, 1); case 6: return ref::media(1.1, 1.6, 1.4, 5); case 8: return ref::media(1.33, 1, 1, 3); /* only near the axis: the iteration need not converge into a thinner medium at steep angles */ default: return ref::media(1.33, 1.33, 1.33, 5); } }
static std::string str(const Calibration& c, const mm_np& m) { char b[500]; snprintf(b, 500, "camera angles (%g,%g,%g) at (%g,%g,%g) cc %g glass (%g,%g,%g), indices %g %g %g, thickness %g", c.ext_par.omega, c.ext_par.phi, c.ext_par.kappa, c.ext_par.x0, c.ext_par.y0, c.ext_par.z0, c.int_par.cc, c.glass_par.vec_x, c.glass_par.vec_y, c.glass_par.vec_z, m.n1, m.n2[0], m.n3, m.d[0]); return b; }
static std::vector<V> lattice() { std::vector<V> r; for (double x : {-25., 0., 2., 18.}) for (double y : {-21., -3., 0., 24.}) for (double z : {-30., -10., 0., 4.}) r.push_back(V(x, y, z)); return r; }
static bool unit_index(const mm_np& m) { return m.nlay == 1 && m.n1 == 1 && m.n2[0] == 1 && m.n3 == 1; }
/* the iteration of the projection stops at 1e-3 length units on the plane of the point */
static double ptol(const Calibration& c, const mm_np& m) { return unit_index(m) ? 1e-8 : 2.5e-3 * c.int_par.cc / (ref::camdist(c, m)); }

SCENARIO(rotation) {
    Exterior e; memset(&e, 0x5a, sizeof e); static std::vector<double> A = {0, 0.01, -0.3, 1, -1.5, M_PI / 2, -M_PI / 2, 3, M_PI, -M_PI, 4.5, 6.2, 7, 100, 1e-9}; e.omega = pick(A); e.phi = pick(A); e.kappa = pick(A); double o = e.omega, p = e.phi, k = e.kappa; e.x0 = 1; e.y0 = 2; e.z0 = 3; rotation_matrix(&e); step(); double m[3][3]; ref::rotation(o, p, k, m);
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) MC_CHECK(fabs(m[i][j] - e.dm[i][j]) < 1e-12, "rotation", "angles (%g,%g,%g): element %d,%d is %g, expected %g", o, p, k, i, j, e.dm[i][j], m[i][j]);
    MC_CHECK(e.omega == o && e.phi == p && e.kappa == k && e.x0 == 1 && e.y0 == 2 && e.z0 == 3, "rotation-side", "the matrix update changed other parameters"); state(hash(e.dm, sizeof e.dm));
}
SCENARIO(project_trace) {
    V gl = pick_glass(); int mk; mm_np m = pick_media(mk); Calibration c = pick_camera(gl); if (ref::camdist(c, m) < 5) return; uint64_t acc = 1; int seen = 0;
    mm_np m0 = m; Calibration c0 = c;
    for (V X : lattice()) {
        double rx, ry; if (ref::depth(c, X) < 0.5 || !ref::project(c, m, X, rx, ry)) continue; if (hypot(rx, ry) > 0.8 * c.int_par.cc) continue; seen++;
        double x = 1e300, y = 1e300; vec3d p = {X.x, X.y, X.z}; flat_image_coord(p, &c, &m, &x, &y); step();
        MC_CHECK(hypot(x - rx, y - ry) < ptol(c, m), "project", "%s: point (%g,%g,%g) projects to (%.7f,%.7f), expected (%.7f,%.7f)", str(c, m).c_str(), X.x, X.y, X.z, x, y, rx, ry);
        MC_CHECK(p[0] == X.x && p[1] == X.y && p[2] == X.z && !memcmp(&m, &m0, sizeof m) && !memcmp(&c, &c0, sizeof c), "project-side", "%s: projecting changed its inputs", str(c, m).c_str());
        /* distorted projection = flat projection + distortion */
        double dx, dy; img_coord(p, &c, &m, &dx, &dy); MC_CHECK(hypot(dx - x, dy - y) < 1e-9, "img-coord", "%s: neutral distortion changes the projection", str(c, m).c_str());
        /* the ray of the exact image */
        V ra, rd; if (!ref::trace(c, m, rx, ry, ra, rd)) continue; vec3d a, d; ray_tracing(rx, ry, &c, m, a, d); step();
        MC_CHECK(ref::fin(a) && ref::fin(d) && fabs(ref::len(d) - 1) < 1e-9 && ref::line_dist(a, ra, rd) < 1e-7 && fabs(ref::depth(c, a)) < 1e-7 && ref::dot(d, rd) > 1 - 1e-12, "ray", "%s: image point (%g,%g) is traced to (%.9g,%.9g,%.9g) direction (%.9g,%.9g,%.9g), expected (%.9g,%.9g,%.9g) direction (%.9g,%.9g,%.9g)", str(c, m).c_str(), rx, ry, a[0], a[1], a[2], d[0], d[1], d[2], ra.x, ra.y, ra.z, rd.x, rd.y, rd.z);
        MC_CHECK(ref::line_dist(X, a, d) < 1e-6 * (1 + ref::len(X - V(a))), "ray-through", "%s: the ray of the exact image of (%g,%g,%g) passes %g away", str(c, m).c_str(), X.x, X.y, X.z, ref::line_dist(X, a, d));
        /* the ray of the library's own image passes through the point */
        ray_tracing(x, y, &c, m, a, d); step(); double off = ref::line_dist(X, a, d); MC_CHECK(off < (unit_index(m) ? 1e-7 : 5e-3 * (1 + m.n1 * 0)), "through", "%s: the ray traced from the projection of (%g,%g,%g) passes %g away from it", str(c, m).c_str(), X.x, X.y, X.z, off);
        /* stepping along the ray to the depth of the point */
        vec3d o; if (fabs(d[2]) > 0.2) { move_along_ray(X.z, a, d, o); MC_CHECK(fabs(o[2] - X.z) < 1e-9 && ref::line_dist(o, a, d) < 1e-7, "along", "%s: (%g,%g,%g) is not on the ray at depth %g", str(c, m).c_str(), o[0], o[1], o[2], X.z); }
        acc = hash_v((long)(1e4 * x), acc); acc = hash_v((long)(1e4 * y), acc);
    }
    if (seen) { state(acc); evals(seen); }
}
/* Snell's law on the traced ray itself, no reference tracer: coplanar, correct ratio of sines at both faces */
SCENARIO(snell) {
    V gl = pick_glass(); int mk; mm_np m = pick_media(mk); double om = pick({0., 0.35}), ph = pick({0., -0.4}); Calibration c = ref::camera(om, ph, 0.7, V(0, 0, -10), 250, 80, gl); if (ref::camdist(c, m) < 5) return; uint64_t acc = 1;
    for (double x = -30; x <= 30; x += deepest ? 0.5 : thorough ? 1.5 : 3) for (double y = -30; y <= 30; y += deepest ? 0.5 : thorough ? 1.5 : 3) {
        V in = ref::unit(x * ref::col(c, 0) + y * ref::col(c, 1) + (-c.int_par.cc) * ref::col(c, 2)), g = ref::unit(gl); double s1 = ref::len(ref::cross(in, g)); if (s1 * m.n1 / m.n3 > 0.98 || s1 * m.n1 / m.n2[0] > 0.98 || ref::dot(in, g) > -0.05) continue; vec3d a, d; ray_tracing(x, y, &c, m, a, d); step();
        double s3 = ref::len(ref::cross(V(d), g)); MC_CHECK(fabs(s1 * m.n1 - s3 * m.n3) < 1e-9, "snell", "%s: image point (%g,%g): n1 sin = %.12f, n3 sin = %.12f", str(c, m).c_str(), x, y, s1 * m.n1, s3 * m.n3);
        MC_CHECK(fabs(ref::dot(ref::cross(in, g), V(d))) < 1e-9 && ref::dot(V(d), g) < 0, "coplanar", "%s: image point (%g,%g): the refracted ray leaves the plane of incidence", str(c, m).c_str(), x, y);
        /* inside the glass: from the outer to the inner face the ray is displaced along the plane of incidence by d tan(b2) */
        V outer = ref::centre(c) + ((ref::len(gl) + m.d[0] - ref::dot(ref::centre(c), g)) / ref::dot(in, g)) * in, disp = V(a) - outer; double s2 = s1 * m.n1 / m.n2[0], side = ref::len(disp - ref::dot(disp, g) * g);
        MC_CHECK(fabs(side - m.d[0] * s2 / sqrt(1 - s2 * s2)) < 1e-8 && fabs(ref::dot(disp, g) + m.d[0]) < 1e-8, "glass", "%s: image point (%g,%g): the ray is displaced by %g in the glass, expected %g", str(c, m).c_str(), x, y, side, m.d[0] * s2 / sqrt(1 - s2 * s2)); acc = hash_v((long)(1e5 * s3), acc);
    }
    state(acc);
}
/* several glass layers: the projection against the reference (the ray tracer knows one layer only) */
SCENARIO(layers) {
    V gl = pick_glass(); int n = 1 + choose(3); mm_np m = ref::media(1, pick({1.0, 1.46, 1.6}), pick({1.0, 1.33, 1.4}), pick({1., 6.})); m.nlay = n; for (int i = 1; i < n; i++) { m.n2[i] = i == 1 ? 1.5 : 1.1; m.d[i] = 2.5 * i; } Calibration c = ref::camera(pick({0., 0.35}), pick({0., -0.4}), pick({0., 1.3}), V(2, -3, -10), pick({150., 400.}), 80, gl); if (ref::camdist(c, m) < 5) return; uint64_t acc = 1;
    for (V X : lattice()) { double rx, ry, x, y; double extra = 0; for (int i = 1; i < n; i++) extra += m.d[i]; if (ref::depth(c, X) < extra + 0.5 || !ref::project(c, m, X, rx, ry) || hypot(rx, ry) > 0.8 * c.int_par.cc) continue; vec3d p = {X.x, X.y, X.z}; flat_image_coord(p, &c, &m, &x, &y); step(); MC_CHECK(hypot(x - rx, y - ry) < ptol(c, m) + 1e-9, "layers", "%s, %d layers: point (%g,%g,%g) projects to (%.7f,%.7f), expected (%.7f,%.7f)", str(c, m).c_str(), n, X.x, X.y, X.z, x, y, rx, ry); acc = hash_v((long)(1e4 * x), acc); }
    state(acc);
}
/* the radial shift itself, for a camera anywhere above a level glass */
SCENARIO(radial) {
    int n = 1 + choose(3); mm_np m = ref::media(pick({1.0, 1.1}), pick({1.0, 1.46, 1.6}), pick({1.1, 1.33, 1.4}), pick({1., 6.})); m.nlay = n; for (int i = 1; i < n; i++) { m.n2[i] = i == 1 ? 1.5 : 1.2; m.d[i] = 2.5 * i; }
    Calibration c = ref::camera(pick({0., 0.35}), 0.1, 0, V(0, 0, 0), 100, 80, V(0, 0, 1)); c.ext_par.x0 = pick({0., 17.5, -300.}); c.ext_par.y0 = pick({0., -42., 88.}); c.ext_par.z0 = pick({40., 150., 400.}) + m.d[0]; c.mmlut.data = nullptr; double ex = 0; for (int i = 1; i < n; i++) ex += m.d[i]; uint64_t acc = 1;
    for (double Z : {-0.5, -3., -20., -75.}) for (double r : {0., 0.3, 4., 21., 60., 130.}) for (double az : {0., 1.1, 2.5, 3.14, 4.4}) { if (r > 1.2 * c.ext_par.z0) continue; vec3d p = {c.ext_par.x0 + r * cos(az), c.ext_par.y0 + r * sin(az), Z - ex}; double h = c.ext_par.z0 - p[2], lo = 0, hi = r + 400; double top = m.n1 > m.n3 ? m.n3 / m.n1 : 1; 
        for (int i = 0; i < 200; i++) { double q = (lo + hi) / 2, s = sin(atan(q / h)); if (s >= top * 0.999999) { hi = q; continue; } double w = (c.ext_par.z0 - m.d[0]) * tan(asin(s)) - Z * tan(asin(s * m.n1 / m.n3)); for (int k = 0; k < n; k++) w += m.d[k] * tan(asin(s * m.n1 / m.n2[k])); (w < r ? lo : hi) = q; }
        double f = multimed_r_nlay(&c, &m, p), x, y; multimed_nlay(&c, &m, p, &x, &y); step(2);
        MC_CHECK(fabs(f * r - lo) < 4e-3 && (r || f == 1), "radial", "%d layers, indices %g %g %g, camera at (%g,%g,%g), point %g off its axis, %g deep: shift factor %.9g, expected %.9g", n, m.n1, m.n2[0], m.n3, c.ext_par.x0, c.ext_par.y0, c.ext_par.z0, r, -p[2], f, r ? lo / r : 1.);
        MC_CHECK(fabs(x - c.ext_par.x0 - f * (p[0] - c.ext_par.x0)) < 1e-9 && fabs(y - c.ext_par.y0 - f * (p[1] - c.ext_par.y0)) < 1e-9, "radial-point", "camera at (%g,%g), point (%g,%g), factor %g: the shifted point is (%g,%g)", c.ext_par.x0, c.ext_par.y0, p[0], p[1], f, x, y); acc = hash_v((long)(1e4 * f), acc); }
    state(acc);
}
/* moving to the coordinate system of the glass and back */
SCENARIO(glass_transform) {
    V gl = pick_glass(); int mk; mm_np m = pick_media(mk); Calibration c = pick_camera(gl); if (ref::camdist(c, m) < 5) return; uint64_t acc = 1;
    for (V X : lattice()) { if (ref::depth(c, X) < 0.5) continue; Exterior et; vec3d pt, p = {X.x, X.y, X.z}, back; double cp[3], cc[3]; memset(&et, 0x5a, sizeof et); trans_Cam_Point(c.ext_par, m, c.glass_par, p, &et, pt, cp, cc); step();
        V g = ref::unit(gl), C = ref::centre(c); double r = ref::len((X - C) - ref::dot(X - C, g) * g);
        MC_CHECK(et.x0 == 0 && et.y0 == 0 && fabs(et.z0 - ref::camdist(c, m) - m.d[0]) < 1e-9 && fabs(pt[0] - r) < 1e-8 && pt[1] == 0 && fabs(pt[2] + ref::depth(c, X)) < 1e-9, "to-glass", "%s: point (%g,%g,%g) becomes (%g,%g,%g), camera at height %g; expected radius %g depth %g height %g", str(c, m).c_str(), X.x, X.y, X.z, pt[0], pt[1], pt[2], et.z0, r, -ref::depth(c, X), ref::camdist(c, m) + m.d[0]);
        back_trans_Point(pt, m, c.glass_par, cp, cc, back); MC_CHECK(ref::fin(back) && ref::len(V(back) - X) < 1e-8, "from-glass", "%s: point (%g,%g,%g) comes back as (%g,%g,%g)", str(c, m).c_str(), X.x, X.y, X.z, back[0], back[1], back[2]); acc = hash_v((long)(1e4 * pt[0]), acc); }
    state(acc);
}
/* points on and next to the perpendicular from the camera to the glass, and cameras that look straight along it: the plane of refraction is all but undefined */
SCENARIO(near_axis) {
    int mk; mm_np m = pick_media(mk, 1); double th = 0.11 * choose(7), az = 0.7 * choose(9), lg = pick({5., 40., 57.3}); V g(sin(th) * cos(az), sin(th) * sin(az), cos(th)), gl = lg * g; int straight = choose(2); double ph = asin(g.x), om = atan2(-g.y, g.z); Calibration c = ref::camera(straight ? om : 0.2, straight ? ph : -0.1, pick({0., 1.3}), V(2, -3, -10), pick({150., 400.}), 80, gl); if (ref::camdist(c, m) < 5) return; uint64_t acc = 1; V C = ref::centre(c), e1 = ref::unit(ref::cross(g, V(0.3, 1, 0.2))), e2 = ref::cross(g, e1);
    if (straight) MC_CHECK(ref::len(ref::col(c, 2) - g) < 1e-9, "own", "the harness points the camera wrongly");
    for (double dep : {0.6, 7., 30.}) for (double off : {0., 1e-12, 1e-9, 1e-6, 1e-4, 1e-3, 5e-3, 0.02}) for (int q = 0; q < (off ? 4 : 1); q++) { V X = C + (lg - dep - ref::dot(C, g)) * g + (q < 2 ? off : -off) * (q % 2 ? e2 : e1); vec3d p = {X.x, X.y, X.z}, pt, back; Exterior et; double cpp[3], ccc[3]; trans_Cam_Point(c.ext_par, m, c.glass_par, p, &et, pt, cpp, ccc); back_trans_Point(pt, m, c.glass_par, cpp, ccc, back); step();
        MC_CHECK(ref::fin(back) && ref::len(V(back) - X) < 1e-8, "from-glass", "%s: point (%.9g,%.9g,%.9g), %g off the perpendicular from the camera, comes back as (%.9g,%.9g,%.9g)", str(c, m).c_str(), X.x, X.y, X.z, off, back[0], back[1], back[2]);
        double x, y, rx, ry; if (!ref::project(c, m, X, rx, ry) || hypot(rx, ry) > c.int_par.cc) continue; flat_image_coord(p, &c, &m, &x, &y); step(); MC_CHECK(hypot(x - rx, y - ry) < ptol(c, m), "project", "%s: point (%g,%g,%g), %g off the perpendicular, projects to (%.7f,%.7f), expected (%.7f,%.7f)", str(c, m).c_str(), X.x, X.y, X.z, off, x, y, rx, ry);
        vec3d a, d; ray_tracing(rx, ry, &c, m, a, d); step(); MC_CHECK(ref::fin(a) && ref::fin(d) && fabs(ref::len(d) - 1) < 1e-3 && ref::line_dist(X, a, d) < 3e-4 * (1 + dep) /* the sine is computed as sqrt(1 - cos^2), twice */, "ray-through", "%s: the ray of the image (%g,%g) of a point %g off the perpendicular, %g deep, passes %g away", str(c, m).c_str(), rx, ry, off, dep, ref::line_dist(X, a, d)); acc = hash_v((long)(1e4 * x), acc); }
    /* the very centre of the image of a camera that looks along the perpendicular */
    if (straight) { vec3d a, d; ray_tracing(0, 0, &c, m, a, d); step(); MC_CHECK(ref::fin(a) && ref::fin(d) && ref::dot(V(d), g) < -1 + 1e-3, "centre-ray", "%s: the central ray becomes (%.17g,%.17g,%.17g) direction (%.17g,%.17g,%.17g)", str(c, m).c_str(), a[0], a[1], a[2], d[0], d[1], d[2]); }
    state(acc);
}
/* 3D reconstruction from every subset of cameras, with and without unusable cameras */
SCENARIO(reconstruct) {
    V gl = pick_glass(); int mk; mm_np m = pick_media(mk); int set = choose(3); double A[6][3] = {{0.3, 0.25, 0}, {-0.3, 0.3, 0.4}, {-0.28, -0.3, -1.9}, {0.31, -0.26, 3.0}, {0.1, 0.5, 0.2}, {0, 0, 0}}; int rot = set * 2;
    std::vector<Calibration> cal; std::vector<Calibration*> cp; int n = 2 + choose(3); for (int i = 0; i < n; i++) { auto* a = A[(i + rot) % 6]; cal.push_back(ref::camera(a[0], a[1], a[2], V(2, -3, -10), 220 + 35 * i, 70 + 9 * i, gl)); } for (auto& c : cal) { if (ref::camdist(c, m) < 5) return; cp.push_back(&c); } uint64_t acc = 1;
    for (V X : lattice()) { double ix[4][2]; bool ok = true; for (int i = 0; i < n; i++) { vec3d p = {X.x, X.y, X.z}; double rx, ry; if (ref::depth(cal[i], X) < 0.5 || !ref::project(cal[i], m, X, rx, ry) || !std::isfinite(rx) || hypot(rx, ry) > 0.8 * cal[i].int_par.cc) { ok = false; break; } flat_image_coord(p, cp[i], &m, &ix[i][0], &ix[i][1]); }
        if (!ok) continue; double tol = unit_index(m) ? 1e-6 : 8e-3;
        for (int used = 0; used < 1 << n; used++) { if (__builtin_popcount(used) < 2) continue; std::vector<vec2d*> dummy; double t[4][2], u[4][2]; for (int i = 0; i < n; i++) for (int k = 0; k < 2; k++) { t[i][k] = used >> i & 1 ? ix[i][k] : COORD_UNUSED; u[i][k] = used >> i & 1 ? ix[i][k] : k ? 123.25 : COORD_UNUSED; }
            vec3d r = {1e9, 1e9, 1e9}, s; double e = point_position(t, n, &m, cp.data(), r); step(); MC_CHECK(ref::fin(r) && ref::len(V(r) - X) < tol, "reconstruct", "glass (%g,%g,%g), media %d, cameras %x of %d: point (%g,%g,%g) is reconstructed as (%g,%g,%g)", gl.x, gl.y, gl.z, mk, used, n, X.x, X.y, X.z, r[0], r[1], r[2]);
            MC_CHECK(e >= 0 && e < tol, "convergence", "glass (%g,%g,%g), media %d, cameras %x of %d: point (%g,%g,%g): rays of one point converge to %g", gl.x, gl.y, gl.z, mk, used, n, X.x, X.y, X.z, e);
            /* unusable cameras: whatever else is known about them does not matter */
            Calibration* other[4]; Calibration junk; memset(&junk, 0, sizeof junk); for (int i = 0; i < n; i++) other[i] = used >> i & 1 ? cp[i] : &junk; double e2 = point_position(u, n, &m, other, s); step(); MC_CHECK(e2 == e && !memcmp(r, s, sizeof r), "unused", "glass (%g,%g,%g), media %d, cameras %x of %d: unusable cameras change the result", gl.x, gl.y, gl.z, mk, used, n);
            /* the same cameras alone */
            double v[4][2]; Calibration* only[4]; int q = 0; for (int i = 0; i < n; i++) if (used >> i & 1) { v[q][0] = ix[i][0]; v[q][1] = ix[i][1]; only[q++] = cp[i]; } double e3 = point_position(v, q, &m, only, s); step(); MC_CHECK(fabs(e3 - e) < 1e-12 && ref::len(V(r) - V(s)) < 1e-9, "subset", "cameras %x of %d: leaving out unusable cameras changes the result", used, n);
        }
        /* one camera displaced: the convergence measure is the mean distance of the ray pairs, the position their mean midpoint */
        { double t[4][2]; for (int i = 0; i < n; i++) { t[i][0] = ix[i][0] + 0.03 * (i == 0) - 0.02 * (i == 2); t[i][1] = ix[i][1] - 0.05 * (i == 1); } vec3d r; double e = point_position(t, n, &m, cp.data(), r), tot = 0; V mid; int pairs = 0; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { V a, b, da, db; ref::trace(cal[i], m, t[i][0], t[i][1], a, da); ref::trace(cal[j], m, t[j][0], t[j][1], b, db); double k = ref::dot(da, db), w1 = ref::dot(b - a, da), w2 = ref::dot(b - a, db), s = (w1 - k * w2) / (1 - k * k), q = (k * w1 - w2) / (1 - k * k); V pa = a + s * da, pb = b + q * db; tot += ref::len(pa - pb); mid = mid + 0.5 * (pa + pb); pairs++; }
          MC_CHECK(fabs(e - tot / pairs) < 1e-6 && ref::len(V(r) - (1.0 / pairs) * mid) < 1e-5, "pairs", "glass (%g,%g,%g), media %d, %d cameras: displaced rays give (%g,%g,%g) convergence %g, expected (%g,%g,%g) and %g", gl.x, gl.y, gl.z, mk, n, r[0], r[1], r[2], e, mid.x / pairs, mid.y / pairs, mid.z / pairs, tot / pairs); acc = hash_v((long)(1e6 * e), acc); }
    }
    state(acc);
}
/* midpoint of two skew lines */
SCENARIO(skew) {
    static std::vector<V> D = {V(1, 0, 0), V(0, 1, 0), V(0, 0, 1), V(1, 1, 0), V(1, -2, 3), V(-0.1, 0.2, -1), V(0.6, 0, -0.8)}, O = {V(0, 0, 0), V(1, 2, 3), V(-5, 0.25, 10), V(100, -200, 50)}; V o1 = pick(O), o2 = pick(O), d1 = ref::unit(pick(D)), d2 = ref::unit(pick(D)); if (ref::len(ref::cross(d1, d2)) < 0.05) return;
    vec3d a = {o1.x, o1.y, o1.z}, b = {o2.x, o2.y, o2.z}, da = {d1.x, d1.y, d1.z}, db = {d2.x, d2.y, d2.z}, r; double e = skew_midpoint(a, da, b, db, r); step(); V n = ref::unit(ref::cross(d1, d2)); double want = fabs(ref::dot(o2 - o1, n));
    MC_CHECK(fabs(e - want) < 1e-9 * (1 + ref::len(o2 - o1)), "skew-distance", "distance %g, expected %g", e, want); MC_CHECK(fabs(ref::line_dist(r, o1, d1) - want / 2) < 1e-7 && fabs(ref::line_dist(r, o2, d2) - want / 2) < 1e-7, "skew-mid", "the midpoint is %g and %g away from the lines, expected %g", ref::line_dist(r, o1, d1), ref::line_dist(r, o2, d2), want / 2); state(hash_v((long)(1e6 * e), hash_v((long)(1e6 * r[0]))));
}
