/* Plain-C calls of liboptv with flat arguments: the reference that the Python bindings are compared against. */
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include "calibration.h"
#include "parameters.h"
#include "trafo.h"
#include "imgcoord.h"
#include "correspondences.h"
#include "orientation.h"
#include "sortgrid.h"
#include "epi.h"
#include "image_processing.h"
#include "segmentation.h"
#include "track.h"
#include "tracking_run.h"
#include "tracking_frame_buf.h"
#include "ray_tracing.h"
#include "multimed.h"

static void cal_in(Calibration *c, const double *d) {
    memset(c, 0, sizeof *c);
    c->ext_par.x0 = d[0]; c->ext_par.y0 = d[1]; c->ext_par.z0 = d[2];
    c->ext_par.omega = d[3]; c->ext_par.phi = d[4]; c->ext_par.kappa = d[5]; rotation_matrix(&c->ext_par);
    c->int_par.xh = d[6]; c->int_par.yh = d[7]; c->int_par.cc = d[8];
    c->glass_par.vec_x = d[9]; c->glass_par.vec_y = d[10]; c->glass_par.vec_z = d[11];
    c->added_par.k1 = d[12]; c->added_par.k2 = d[13]; c->added_par.k3 = d[14];
    c->added_par.p1 = d[15]; c->added_par.p2 = d[16]; c->added_par.scx = d[17]; c->added_par.she = d[18];
}
static void cal_out(const Calibration *c, double *d) {
    double v[28] = {c->ext_par.x0, c->ext_par.y0, c->ext_par.z0, c->ext_par.omega, c->ext_par.phi, c->ext_par.kappa,
        c->int_par.xh, c->int_par.yh, c->int_par.cc, c->glass_par.vec_x, c->glass_par.vec_y, c->glass_par.vec_z,
        c->added_par.k1, c->added_par.k2, c->added_par.k3, c->added_par.p1, c->added_par.p2, c->added_par.scx, c->added_par.she};
    memcpy(v + 19, c->ext_par.dm, 9 * sizeof(double)); memcpy(d, v, sizeof v);
}
/* p: num_cams imx imy pix_x pix_y chfield allCam hp tiff | nlay n1 n2[3] d[3] n3 */
static void mm_in(mm_np *m, const double *p) {
    memset(m, 0, sizeof *m); m->nlay = p[9]; m->n1 = p[10]; memcpy(m->n2, p + 11, 24); memcpy(m->d, p + 14, 24); m->n3 = p[17];
}
static void cpar_in(control_par *c, mm_np *m, const double *p) {
    memset(c, 0, sizeof *c); c->num_cams = p[0]; c->imx = p[1]; c->imy = p[2]; c->pix_x = p[3]; c->pix_y = p[4];
    c->chfield = p[5]; c->allCam_flag = p[6]; c->hp_flag = p[7]; c->tiff_flag = p[8]; mm_in(m, p); c->mm = m;
}
static void vpar_in(volume_par *v, const double *p) {
    memset(v, 0, sizeof *v); memcpy(v->X_lay, p, 16); memcpy(v->Zmin_lay, p + 2, 16); memcpy(v->Zmax_lay, p + 4, 16);
    v->cn = p[6]; v->cnx = p[7]; v->cny = p[8]; v->csumg = p[9]; v->eps0 = p[10]; v->corrmin = p[11];
}
static void targ_in(target *t, const double *d, int n) {
    for (int i = 0; i < n; i++, d += 8) { t[i].pnr = d[0]; t[i].x = d[1]; t[i].y = d[2]; t[i].n = d[3]; t[i].nx = d[4]; t[i].ny = d[5]; t[i].sumg = d[6]; t[i].tnr = d[7]; }
}
static void targ_out(const target *t, double *d, int n) {
    for (int i = 0; i < n; i++, d += 8) { d[0] = t[i].pnr; d[1] = t[i].x; d[2] = t[i].y; d[3] = t[i].n; d[4] = t[i].nx; d[5] = t[i].ny; d[6] = t[i].sumg; d[7] = t[i].tnr; }
}

int sh_cal_get(const double *cal, double *out) { Calibration c; cal_in(&c, cal); cal_out(&c, out); return 0; }
int sh_cal_read(const char *ori, const char *add, const char *fall, double *out) {
    Calibration *c = read_calibration((char *)ori, (char *)add, (char *)fall); if (!c) return 0;
    cal_out(c, out); free(c); return 1;
}
/* kind: 0 pixel->metric, 1 metric->pixel, 2 correct, 3 distort, 4 distorted->flat, 5 flat image, 6 image */
int sh_conv(int kind, const double *cal, const double *p, double tol, const double *in, double *out, int n) {
    Calibration c; control_par cp; mm_np mm; cal_in(&c, cal); cpar_in(&cp, &mm, p);
    for (int i = 0; i < n; i++, out += 2) {
        if (kind >= 5) { vec3d v; memcpy(v, in + 3 * i, 24); if (kind == 5) flat_image_coord(v, &c, &mm, out, out + 1); else img_coord(v, &c, &mm, out, out + 1); continue; }
        double x = in[2 * i], y = in[2 * i + 1];
        switch (kind) {
        case 0: pixel_to_metric(out, out + 1, x, y, &cp); break;
        case 1: metric_to_pixel(out, out + 1, x, y, &cp); break;
        case 2: correct_brown_affin(x, y, c.added_par, out, out + 1); break;
        case 3: distort_brown_affin(x, y, c.added_par, out, out + 1); break;
        case 4: dist_to_flat(x, y, &c, out, out + 1, tol); break;
        }
    }
    return 0;
}
static int conv_targets(target *t, coord_2d *g, int n, Calibration *c, control_par *cp, double tol) {
    for (int i = 0; i < n; i++) {
        pixel_to_metric(&g[i].x, &g[i].y, t[i].x, t[i].y, cp);
        dist_to_flat(g[i].x, g[i].y, c, &g[i].x, &g[i].y, tol);
        g[i].pnr = t[i].pnr;
    }
    quicksort_coord2d_x(g, n);
    return 0;
}
int sh_matched(const double *targs, int n, const double *cal, const double *p, double tol, int reset, double *out) {
    Calibration c; control_par cp; mm_np mm; cal_in(&c, cal); cpar_in(&cp, &mm, p);
    target *t = calloc(n + 1, sizeof *t); coord_2d *g = calloc(n + 1, sizeof *g); targ_in(t, targs, n);
    if (reset) for (int i = 0; i < n; i++) t[i].pnr = i;
    conv_targets(t, g, n, &c, &cp, tol);
    for (int i = 0; i < n; i++) { out[3 * i] = g[i].x; out[3 * i + 1] = g[i].y; out[3 * i + 2] = g[i].pnr; }
    free(t); free(g); return 0;
}
/* out: per clique 4 target numbers (-1 for none); counts[4]; tnr: the target marks left behind, camera after camera */
int sh_corresp(const double *targs, const int *n, const double *cals, const double *p, const double *v, double tol, int *out, int cap, int *counts, int *tnr) {
    Calibration c[4], *cc[4]; control_par cp; mm_np mm; volume_par vp; frame f; target *t[4]; coord_2d *g[4]; int nt[4], k, i, tot;
    cpar_in(&cp, &mm, p); vpar_in(&vp, v); memset(&f, 0, sizeof f); f.num_cams = cp.num_cams; f.targets = t; f.num_targets = nt;
    for (k = 0; k < cp.num_cams; k++) {
        cal_in(&c[k], cals + 19 * k); cc[k] = &c[k]; nt[k] = n[k];
        t[k] = calloc(n[k] + 1, sizeof(target)); g[k] = calloc(n[k] + 1, sizeof(coord_2d)); targ_in(t[k], targs, n[k]); targs += 8 * n[k];
        for (i = 0; i < n[k]; i++) t[k][i].pnr = i;
        conv_targets(t[k], g[k], n[k], cc[k], &cp, tol);
    }
    n_tupel *r = correspondences(&f, g, &vp, &cp, cc, counts); tot = counts[3];
    for (i = 0; i < tot && i < cap; i++) for (k = 0; k < 4; k++) out[4 * i + k] = k < cp.num_cams && r[i].p[k] >= 0 ? g[k][r[i].p[k]].pnr : -1;
    for (k = 0; k < cp.num_cams; k++) { for (i = 0; i < n[k]; i++) *tnr++ = t[k][i].tnr; free(t[k]); free(g[k]); }
    free(r); return tot;
}
int sh_point(const double *targs, int n, int cams, const double *cals, const double *p, double *res, double *rcm) {
    Calibration c[8], *cc[8]; mm_np mm; mm_in(&mm, p);
    for (int k = 0; k < cams; k++) { cal_in(&c[k], cals + 19 * k); cc[k] = &c[k]; }
    for (int i = 0; i < n; i++) {
        vec2d t[8]; memcpy(t, targs + 2 * cams * i, 16 * cams); rcm[i] = point_position(t, cams, &mm, cc, res + 3 * i);
    }
    return 0;
}
int sh_epi(const double *targs, int n, const double *cal, const double *p, const double *v, double *res) {
    Calibration c; mm_np mm; volume_par vp; cal_in(&c, cal); mm_in(&mm, p); vpar_in(&vp, v);
    for (int i = 0; i < n; i++) epi_mm_2D(targs[2 * i], targs[2 * i + 1], &c, &mm, &vp, res + 3 * i);
    return 0;
}
int sh_raw(double *cal, const double *p, int n, const double *fix, const double *pix) {
    Calibration c; control_par cp; mm_np mm; double o[28]; cal_in(&c, cal); cpar_in(&cp, &mm, p);
    target *t = calloc(n + 1, sizeof *t); for (int i = 0; i < n; i++) { t[i].x = pix[2 * i]; t[i].y = pix[2 * i + 1]; t[i].pnr = i; }
    vec3d *f = malloc((n + 1) * sizeof *f); memcpy(f, fix, n * sizeof *f);
    int ok = raw_orient(&c, &cp, n, f, t); cal_out(&c, o); memcpy(cal, o, sizeof o); free(t); free(f); return ok;
}
int sh_orient(double *cal, const double *p, int n, const double *fix, const double *targs, const int *flags, double *sigma, double *resid) {
    Calibration c; control_par cp; mm_np mm; double o[28], *r; orient_par fl; cal_in(&c, cal); cpar_in(&cp, &mm, p); memset(&fl, 0, sizeof fl);
    fl.ccflag = flags[0]; fl.xhflag = flags[1]; fl.yhflag = flags[2]; fl.k1flag = flags[3]; fl.k2flag = flags[4]; fl.k3flag = flags[5];
    fl.p1flag = flags[6]; fl.p2flag = flags[7]; fl.scxflag = flags[8]; fl.sheflag = flags[9];
    target *t = calloc(n + 1, sizeof *t); targ_in(t, targs, n); vec3d *f = malloc((n + 1) * sizeof *f); memcpy(f, fix, n * sizeof *f);
    r = orient(&c, &cp, n, f, t, &fl, sigma); cal_out(&c, o); memcpy(cal, o, sizeof o);
    int m = 0; for (int i = 0; r && i < n; i++) if (t[i].pnr == i) { resid[2 * m] = r[2 * m]; resid[2 * m + 1] = r[2 * m + 1]; m++; }
    int ok = r != NULL; free(r); free(t); free(f); return ok;
}
int sh_sortgrid(const double *cal, const double *p, int nfix, const double *fix, int num, int eps, const double *targs, double *out) {
    Calibration c; control_par cp; mm_np mm; cal_in(&c, cal); cpar_in(&cp, &mm, p);
    target *t = calloc(num + 1, sizeof *t), *r; targ_in(t, targs, num); vec3d *f = malloc((nfix + 1) * sizeof *f); memcpy(f, fix, nfix * sizeof *f);
    r = sortgrid(&c, &cp, nfix, f, num, eps, t); targ_out(r, out, nfix); free(r); free(t); free(f); return 0;
}
double sh_dumbbell(const double *targs, int n, int cams, const double *cals, const double *p, int len, double w) {
    Calibration c[8], *cc[8]; mm_np mm; mm_in(&mm, p);
    for (int k = 0; k < cams; k++) { cal_in(&c[k], cals + 19 * k); cc[k] = &c[k]; }
    vec2d **t = malloc((n + 1) * sizeof *t); double *b = malloc((2 * n * cams + 1) * 8); memcpy(b, targs, 2 * n * cams * 8);
    for (int i = 0; i < n; i++) t[i] = (vec2d *)(b + 2 * cams * i);
    double r = weighted_dumbbell_precision(t, n, cams, &mm, cc, len, w); free(t); free(b); return r;
}
int sh_curve(double x, double y, const double *cal1, const double *cal2, const double *p, const double *Z, int n, double *out) {
    Calibration a, b; control_par cp; mm_np mm; vec3d v, d, pos; double u, w; cal_in(&a, cal1); cal_in(&b, cal2); cpar_in(&cp, &mm, p);
    pixel_to_metric(&u, &w, x, y, &cp); dist_to_flat(u, w, &a, &u, &w, 0.00001); ray_tracing(u, w, &a, mm, v, d);
    for (int i = 0; i < n; i++, out += 2) { move_along_ray(Z[i], v, d, pos); img_coord(pos, &b, &mm, &u, &w); metric_to_pixel(out, out + 1, u, w, &cp); }
    return 0;
}
int sh_prepare(const unsigned char *img, unsigned char *out, int lp, int hp, const char *file, const double *p) {
    control_par cp; mm_np mm; cpar_in(&cp, &mm, p); int n = cp.imx * cp.imy; unsigned char *a = malloc(n), *b = calloc(n, 1);
    memcpy(a, img, n); int r = prepare_image(a, b, lp, hp, (char *)file, &cp); memcpy(out, b, n); free(a); free(b); return r;
}
int sh_targ_rec(const unsigned char *img, const int *tp, int xmin, int xmax, int ymin, int ymax, const double *p, int cam, double *out) {
    control_par cp; mm_np mm; target_par t; cpar_in(&cp, &mm, p); memset(&t, 0, sizeof t); int n = cp.imx * cp.imy;
    t.discont = tp[0]; memcpy(t.gvthres, tp + 1, 16); t.nnmin = tp[5]; t.nnmax = tp[6]; t.nxmin = tp[7]; t.nxmax = tp[8]; t.nymin = tp[9]; t.nymax = tp[10]; t.sumg_min = tp[11]; t.cr_sz = tp[12];
    unsigned char *a = malloc(n); memcpy(a, img, n); target *r = calloc(n + 1, sizeof *r);
    int m = targ_rec(a, &t, xmin, xmax, ymin, ymax, &cp, cam, r); targ_out(r, out, m); free(a); free(r); return m;
}
int sh_read_targets(const char *base, int frame, double *out, int cap) {
    target *t = calloc(20001, sizeof *t); int n = read_targets(t, (char *)base, frame); if (n > 0 && n <= cap) targ_out(t, out, n); free(t); return n;
}
/* t: dacc dangle vx vX vy vY vz vZ add; a whole forward run, then optionally a backward one */
int sh_track(const double *p, const double *v, const double *t, const double *cals, const char **names, int first, int last,
        const char *cor, const char *lnk, const char *pri, double tol, int back, int stop) {
    control_par *cp = new_control_par((int)p[0]); control_par tmp; mm_np *mm = cp->mm, m2; Calibration *cc[4]; volume_par *vp = malloc(sizeof *vp); track_par *tp = calloc(1, sizeof *tp); int k, nc = p[0];
    cpar_in(&tmp, &m2, p); *mm = m2; tmp.mm = mm; tmp.img_base_name = cp->img_base_name; tmp.cal_img_base_name = cp->cal_img_base_name; *cp = tmp;
    vpar_in(vp, v); sequence_par *sp = new_sequence_par(nc); for (k = 0; k < nc; k++) strcpy(sp->img_base_name[k], names[k]);
    sp->first = first; sp->last = last; Calibration *store = malloc(nc * sizeof *store);
    for (k = 0; k < nc; k++) { cal_in(&store[k], cals + 19 * k); cc[k] = &store[k]; }
    tp->dacc = t[0]; tp->dangle = t[1]; tp->dvxmin = t[2]; tp->dvxmax = t[3]; tp->dvymin = t[4]; tp->dvymax = t[5]; tp->dvzmin = t[6]; tp->dvzmax = t[7]; tp->add = t[8];
    tracking_run *run = tr_new(sp, tp, vp, cp, TR_BUFSPACE, MAX_TARGETS, (char *)cor, (char *)lnk, (char *)pri, cc, tol);
    track_forward_start(run); for (k = first; k < stop; k++) trackcorr_c_loop(run, k); trackcorr_c_finish(run, stop);
    if (back) trackback_c(run);
    fb_free(run->fb); free(run->fb); free(run); free(store); free(vp); free(tp); free_sequence_par(sp); free_control_par(cp); return 0;
}
