/* C17: image coordinate conversions are exact inverses. */
#include "optv.h"
using namespace mc;

/* independent definitions */
static void ref_p2m(double xp, double yp, int imx, int imy, double px, double py, int field, double& xm, double& ym) {
    if (field == 1) yp = 2 * yp + 1; else if (field == 2) yp = 2 * yp;
    xm = (xp - imx / 2.0) * px; ym = (imy / 2.0 - yp) * py;
}
static void ref_distort(double x, double y, const ap_52& a, double& X, double& Y) {
    double r2 = x * x + y * y, rad = a.k1 * r2 + a.k2 * r2 * r2 + a.k3 * r2 * r2 * r2;
    double xd = x + x * rad + a.p1 * (r2 + 2 * x * x) + 2 * a.p2 * x * y;
    double yd = y + y * rad + a.p2 * (r2 + 2 * y * y) + 2 * a.p1 * x * y;
    X = a.scx * xd - sin(a.she) * yd; Y = cos(a.she) * yd;
}

SCENARIO(pixel_metric) {
    std::vector<int> sx = {1, 2, 3, 64, 641, 1280, 2560}, sy = {1, 2, 5, 48, 480, 1025};
    int imx = pick(sx), imy = pick(sy);
    double px = pick({0.001, 0.0123, 0.02, 1.0}), py = pick({0.0017, 0.012, 0.02, 3.0});
    int field = choose(3), cams = 1 + choose(4);
    control_par* c = new_control_par(cams);
    c->imx = imx; c->imy = imy; c->pix_x = px; c->pix_y = py; c->chfield = field;
    note("imx %d imy %d pix %g x %g field %d", imx, imy, px, py, field);
    std::vector<double> fx = {-5.25, 0, 0.5, 1.0 / 3, imx / 2.0, imx - 1.0, imx + 0.0, imx * 1.7}, fy = {-3.125, 0, 0.25, imy / 2.0, imy - 1.0, imy + 0.0, imy * 0.71, 2.0 * imy};
    std::string bad;
    for (double x : fx) for (double y : fy) for (int viaold = 0; viaold < 2; viaold++) {
        double xm = 1e9, ym = 1e9, xp = 1e9, yp = 1e9, rx, ry;
        if (viaold) old_pixel_to_metric(&xm, &ym, x, y, imx, imy, px, py, field); else pixel_to_metric(&xm, &ym, x, y, c);
        ref_p2m(x, y, imx, imy, px, py, field, rx, ry);
        if (viaold) old_metric_to_pixel(&xp, &yp, xm, ym, imx, imy, px, py, field); else metric_to_pixel(&xp, &yp, xm, ym, c);
        step(2); evals(2);
        char b[300];
        if (!nearr(xm, rx, 1e-9) || !nearr(ym, ry, 1e-9)) { snprintf(b, 300, "pixel (%g,%g) -> metric (%g,%g), expected (%g,%g)", x, y, xm, ym, rx, ry); bad = b; }
        else if (!nearr(xp, x, 1e-9) || !nearr(yp, y, 1e-9)) { snprintf(b, 300, "pixel (%g,%g) -> metric -> pixel (%g,%g)", x, y, xp, yp); bad = b; }
        /* the other direction, from a metric grid point */
        double mx = (x - imx / 3.0) * px, my = (y - imy / 3.0) * py, xm2 = 1e9, ym2 = 1e9;
        if (viaold) old_metric_to_pixel(&xp, &yp, mx, my, imx, imy, px, py, field); else metric_to_pixel(&xp, &yp, mx, my, c);
        if (viaold) old_pixel_to_metric(&xm2, &ym2, xp, yp, imx, imy, px, py, field); else pixel_to_metric(&xm2, &ym2, xp, yp, c);
        step(2);
        if (!nearr(xm2, mx, 1e-9) || !nearr(ym2, my, 1e-9)) { snprintf(b, 300, "metric (%g,%g) -> pixel -> metric (%g,%g)", mx, my, xm2, ym2); bad = b; }
        state(hash_v(xm, hash_v(ym)));
        if (!bad.empty()) break;
    }
    bool kept = c->imx == imx && c->imy == imy && c->pix_x == px && c->pix_y == py && c->chfield == field && c->num_cams == cams;
    free_control_par(c);
    MC_CHECK(bad.empty(), "pixel-metric", "imx %d imy %d pix %g x %g field mode %d: %s", imx, imy, px, py, field, bad.c_str());
    MC_CHECK(kept, "pixel-metric-settings", "conversion changed the settings");
}

/* distortion: a lattice of parameter sets x a lattice of sensor positions */
SCENARIO(distortion) {
    ap_52 a; 
    a.k1 = pick({0.0, 4e-4, -4e-4}); a.k2 = pick({0.0, 8e-7, -8e-7}); a.k3 = pick({0.0, 4e-9, -4e-9});
    a.p1 = pick({0.0, 8e-5, -5e-5}); a.p2 = pick({0.0, 6e-5, -8e-5});
    a.scx = pick({1.0, 0.97, 1.02}); a.she = pick({0.0, 0.02, -0.015});
    Calibration cal; memset(&cal, 0, sizeof cal);
    cal.added_par = a;
    int hs = choose(thorough ? 5 : 4);
    double hx[] = {0, 0.25, -1.0, -0.2, 0.01}, hy[] = {0, -0.125, 0.5, -0.3, 0.02};
    cal.int_par.xh = hx[hs]; cal.int_par.yh = hy[hs]; cal.int_par.cc = 50;
    note("k %g %g %g p %g %g scx %g she %g shift %g %g", a.k1, a.k2, a.k3, a.p1, a.p2, a.scx, a.she, cal.int_par.xh, cal.int_par.yh);
    bool neutral = !a.k1 && !a.k2 && !a.k3 && !a.p1 && !a.p2 && a.scx == 1 && a.she == 0;
    std::vector<double> gx = {-6, -3.3, -1e-3, 0, 0.7, 2, 5.9}, gy = {-5, -2.1, 0, 1e-5, 0.9, 4.9};
    gx.push_back(-cal.int_par.xh); gy.push_back(-cal.int_par.yh);   /* lands exactly on the distortion centre */
    dirty_stack(0x5a);
    for (double x : gx) for (double y : gy) {
        double X = 777, Y = 777, rX, rY, bx = 777, by = 777, dx = 777, dy = 777;
        /* forward against the definition */
        distort_brown_affin(x, y, a, &X, &Y); ref_distort(x, y, a, rX, rY);
        MC_CHECK(near_(X, rX, 1e-9) && near_(Y, rY, 1e-9), "distort", "distorting (%g,%g) gave (%.12g,%.12g), the model gives (%.12g,%.12g)", x, y, X, Y, rX, rY);
        flat_to_dist(x, y, &cal, &dx, &dy); ref_distort(x + cal.int_par.xh, y + cal.int_par.yh, a, rX, rY);
        MC_CHECK(near_(dx, rX, 1e-9) && near_(dy, rY, 1e-9), "flat_to_dist", "flat (%g,%g) gave distorted (%.12g,%.12g), expected (%.12g,%.12g)", x, y, dx, dy, rX, rY);
        for (double tol : {1e-12, 1e-9, 1e-6, 1e-4}) {
            bx = by = 777;
            dist_to_flat(dx, dy, &cal, &bx, &by, tol);
            double lim = 1e-10 + 8 * tol * (1 + fabs(dx) + fabs(dy));
            MC_CHECK(near_(bx, x, lim) && near_(by, y, lim), "flat-dist-flat", "flat (%.9g,%.9g) -> distorted -> flat gives (%.9g,%.9g) at tolerance %g", x, y, bx, by, tol);
            /* distorted -> flat -> distorted */
            double fx = 777, fy = 777, ex = 777, ey = 777;
            dist_to_flat(x, y, &cal, &fx, &fy, tol); flat_to_dist(fx, fy, &cal, &ex, &ey);
            lim = 1e-10 + 8 * tol * (1 + fabs(x) + fabs(y));
            MC_CHECK(near_(ex, x, lim) && near_(ey, y, lim), "dist-flat-dist", "distorted (%.9g,%.9g) -> flat -> distorted gives (%.9g,%.9g) at tolerance %g", x, y, ex, ey, tol);
            double cx = 777, cy = 777, ux = 777, uy = 777;
            correct_brown_affine_exact(x, y, a, &cx, &cy, tol); distort_brown_affin(cx, cy, a, &ux, &uy);
            MC_CHECK(near_(ux, x, lim) && near_(uy, y, lim), "correct-distort", "corrected then distorted (%.9g,%.9g) gives (%.9g,%.9g) at tolerance %g", x, y, ux, uy, tol);
            step(6); evals(3);
        }
        /* one-iteration variant: error of second order in the distortion */
        double cx = 777, cy = 777, ux = 777, uy = 777;
        correct_brown_affin(x, y, a, &cx, &cy); ref_distort(cx, cy, a, ux, uy);
        double d1 = hypot(rX - (x + cal.int_par.xh), rY - (y + cal.int_par.yh)); (void)d1;
        MC_CHECK(hypot(ux - x, uy - y) <= 2e-3 * (1 + hypot(x, y)), "correct-single", "single-step correction of (%g,%g) is off by %g", x, y, hypot(ux - x, uy - y));
        if (neutral) {
            MC_CHECK(near_(dx, x + cal.int_par.xh, 1e-12) && near_(dy, y + cal.int_par.yh, 1e-12), "neutral", "neutral distortion moved (%g,%g) to (%g,%g)", x, y, dx, dy);
            MC_CHECK(near_(bx, x, 1e-12) && near_(by, y, 1e-12), "neutral", "neutral distortion removal moved (%g,%g) to (%g,%g)", x, y, bx, by);
        }
        state(hash_v(dx, hash_v(dy))); step(4);
    }
}

/* strong radial distortion, at image points where the model is still one to one with room to spare:
   the iteration needs many steps here */
SCENARIO(strong) {
    ap_52 a; memset(&a, 0, sizeof a); a.scx = pick({1.0, 0.97}); a.she = pick({0.0, 0.02});
    a.k1 = pick({2e-3, -2e-3, 3.5e-3, -3.5e-3}); a.k2 = pick({0.0, 4e-6, -4e-6}); a.p1 = pick({0.0, 1e-4, -1e-4}); a.p2 = pick({0.0, -1e-4});
    Calibration cal; memset(&cal, 0, sizeof cal); cal.added_par = a; cal.int_par.cc = 50; cal.int_par.xh = pick({0.0, 0.3, -0.3}); cal.int_par.yh = pick({0.0, -0.2, 0.2});
    int dirs = deepest ? 480 : thorough ? 48 : 16;
    note("k1 %g k2 %g p %g %g scx %g she %g shift %g %g", a.k1, a.k2, a.p1, a.p2, a.scx, a.she, cal.int_par.xh, cal.int_par.yh);
    for (double r : {0.5, 2.0, 4.0, 5.5, 7.0}) for (int k = 0; k < dirs; k++) {
        if (3 * fabs(a.k1) * r * r + 5 * fabs(a.k2) * r * r * r * r > 0.4) continue; /* distorted by at most an eighth or so */
        double fx = r * cos(2 * M_PI * k / dirs + 0.1) - cal.int_par.xh, fy = r * sin(2 * M_PI * k / dirs + 0.1) - cal.int_par.yh, dx, dy, rx, ry;
        flat_to_dist(fx, fy, &cal, &dx, &dy); ref_distort(fx + cal.int_par.xh, fy + cal.int_par.yh, a, rx, ry);
        MC_CHECK(near_(dx, rx, 1e-9) && near_(dy, ry, 1e-9), "flat_to_dist", "flat (%g,%g) gave distorted (%.12g,%.12g), expected (%.12g,%.12g)", fx, fy, dx, dy, rx, ry);
        for (double tol : {1e-12, 1e-8, 1e-5}) {
            double bx = 777, by = 777, ex = 777, ey = 777, lim = 1e-9 + 20 * tol * (1 + r);
            dist_to_flat(dx, dy, &cal, &bx, &by, tol); flat_to_dist(bx, by, &cal, &ex, &ey); step(2); evals(2);
            MC_CHECK(near_(bx, fx, lim) && near_(by, fy, lim), "flat-dist-flat", "flat (%.9g,%.9g) -> distorted -> flat gives (%.9g,%.9g) at tolerance %g", fx, fy, bx, by, tol);
            MC_CHECK(near_(ex, dx, lim) && near_(ey, dy, lim), "dist-flat-dist", "distorted (%.9g,%.9g) -> flat -> distorted gives (%.9g,%.9g) at tolerance %g", dx, dy, ex, ey, tol);
        }
        state(hash_v(dx, hash_v(dy)));
    }
}
