/* an independent model of a camera looking through plane glass, used as oracle.
 * Nothing here is taken from the library except the meaning of its records:
 * dm turns camera axes into world axes, the camera looks along its -z axis, the
 * glass vector goes from the origin to the inner face of the glass, d is the
 * glass thickness on the camera side of that face. */
#pragma once
#include "optv.h"
namespace ref {
struct V { double x, y, z; V(double a = 0, double b = 0, double c = 0) : x(a), y(b), z(c) {} V(const double* p) : x(p[0]), y(p[1]), z(p[2]) {} };
static V operator+(V a, V b) { return V(a.x + b.x, a.y + b.y, a.z + b.z); }
static V operator-(V a, V b) { return V(a.x - b.x, a.y - b.y, a.z - b.z); }
static V operator*(double s, V a) { return V(s * a.x, s * a.y, s * a.z); }
static double dot(V a, V b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static V cross(V a, V b) { return V(a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x); }
static double len(V a) { return sqrt(dot(a, a)); }
static V unit(V a) { return (1 / len(a)) * a; }
static bool fin(V a) { return std::isfinite(a.x) && std::isfinite(a.y) && std::isfinite(a.z); }
static double line_dist(V p, V o, V d) { return len(cross(p - o, unit(d))); }

/* rotation about x, then y, then z axes as documented for omega, phi, kappa */
static void rotation(double om, double ph, double ka, double m[3][3]) {
    double X[3][3] = {{1, 0, 0}, {0, cos(om), -sin(om)}, {0, sin(om), cos(om)}}, Y[3][3] = {{cos(ph), 0, sin(ph)}, {0, 1, 0}, {-sin(ph), 0, cos(ph)}}, Z[3][3] = {{cos(ka), -sin(ka), 0}, {sin(ka), cos(ka), 0}, {0, 0, 1}}, t[3][3];
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { t[i][j] = 0; for (int k = 0; k < 3; k++) t[i][j] += X[i][k] * Y[k][j]; }
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { m[i][j] = 0; for (int k = 0; k < 3; k++) m[i][j] += t[i][k] * Z[k][j]; }
}
static V col(const Calibration& c, int k) { return V(c.ext_par.dm[0][k], c.ext_par.dm[1][k], c.ext_par.dm[2][k]); }
static V centre(const Calibration& c) { return V(c.ext_par.x0, c.ext_par.y0, c.ext_par.z0); }
static V glass(const Calibration& c) { return V(c.glass_par.vec_x, c.glass_par.vec_y, c.glass_par.vec_z); }

/* a camera that looks at `at` from distance dist with the given attitude */
static Calibration camera(double om, double ph, double ka, V at, double dist, double cc, V gl) {
    Calibration c; memset(&c, 0, sizeof c); c.ext_par.omega = om; c.ext_par.phi = ph; c.ext_par.kappa = ka; rotation(om, ph, ka, c.ext_par.dm);
    V p = at + dist * V(c.ext_par.dm[0][2], c.ext_par.dm[1][2], c.ext_par.dm[2][2]); c.ext_par.x0 = p.x; c.ext_par.y0 = p.y; c.ext_par.z0 = p.z;
    c.int_par.cc = cc; c.glass_par.vec_x = gl.x; c.glass_par.vec_y = gl.y; c.glass_par.vec_z = gl.z; c.added_par.scx = 1; c.mmlut.data = NULL; return c;
}
static mm_np media(double n1, double n2, double n3, double d) { mm_np m; memset(&m, 0, sizeof m); m.nlay = 1; m.n1 = n1; m.n2[0] = n2; m.d[0] = d; m.n3 = n3; return m; }
static double camdist(const Calibration& c, const mm_np& m) { V g = glass(c); return dot(centre(c), unit(g)) - len(g) - m.d[0]; }   /* camera to outer face */
static double depth(const Calibration& c, V X) { V g = glass(c); return len(g) - dot(X, unit(g)); }                               /* point below inner face */

/* vector form of the law of refraction at a plane with unit normal n, against the ray; false: total reflection */
static bool refract(V d, V n, double eta, V& out) { double ci = -dot(d, n), k = 1 - eta * eta * (1 - ci * ci); if (k < 0) return false; out = eta * d + (eta * ci - sqrt(k)) * n; return true; }
/* the ray of a metric (flat) image point: crossing of the inner face and direction behind it */
static bool trace(const Calibration& c, const mm_np& m, double x, double y, V& at, V& dir) {
    V g = unit(glass(c)), d = unit(x * col(c, 0) + y * col(c, 1) + (-c.int_par.cc) * col(c, 2)), p = centre(c), d2;
    double outer = len(glass(c)) + m.d[0], t = (outer - dot(p, g)) / dot(d, g); p = p + t * d;
    if (!refract(d, g, m.n1 / m.n2[0], d2)) return false;
    t = (len(glass(c)) - dot(p, g)) / dot(d2, g); at = p + t * d2;
    return refract(d2, g, m.n2[0] / m.n3, dir);
}
/* the image of a point: the one angle whose refracted path reaches it, by bisection; all layers */
static bool project(const Calibration& c, const mm_np& m, V X, double& x, double& y) {
    V g = unit(glass(c)), C = centre(c); double h = camdist(c, m), w = depth(c, X); 
    V par = (X - C) - dot(X - C, g) * g; double r = len(par); V e = r > 0 ? (1 / r) * par : V(0, 0, 0);
    /* further layers lie on the liquid side */
    double extra = 0; for (int i = 1; i < m.nlay; i++) extra += m.d[i];
    if (h <= 0 || w - extra <= 0) return false;
    double lo = 0, hi = 1, nmin = m.n3; for (int i = 0; i < m.nlay; i++) nmin = std::min(nmin, m.n2[i]); hi = std::min(1.0, nmin / m.n1) ;
    auto reach = [&](double s) { auto tn = [](double q) { return q >= 1 ? 1e300 : q / sqrt(1 - q * q); }; double t = h * tn(s) + (w - extra) * tn(s * m.n1 / m.n3); for (int i = 0; i < m.nlay; i++) t += m.d[i] * tn(s * m.n1 / m.n2[i]); return t; };
    for (int k = 0; k < 200; k++) { double mid = 0.5 * (lo + hi); if (mid == lo || mid == hi) break; (reach(mid) < r ? lo : hi) = mid; }
    double s = 0.5 * (lo + hi); V d = s * e + (-sqrt(1 - s * s)) * g; 
    double dz = dot(d, col(c, 2)); if (dz >= 0) return false;
    x = -c.int_par.cc * dot(d, col(c, 0)) / dz; y = -c.int_par.cc * dot(d, col(c, 1)) / dz; return true;
}
}
