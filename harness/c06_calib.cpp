/* C06: camera calibration files. */
#include "io.h"
using namespace mc;

static Calibration base_cal(int s) {
    Calibration c; memset(&c, 0, sizeof c);
    c.ext_par.x0 = 105.25 + s; c.ext_par.y0 = -102.5; c.ext_par.z0 = 389.125 * (s + 1); c.ext_par.omega = -0.25; c.ext_par.phi = 0.125 * s; c.ext_par.kappa = 0.0625;
    c.int_par.xh = -2.5; c.int_par.yh = 0.75 + s; c.int_par.cc = 5.5; c.glass_par.vec_x = 0.0001; c.glass_par.vec_y = 0.00001; c.glass_par.vec_z = 150 + s;
    c.added_par.k1 = 1e-4; c.added_par.k2 = -2e-5; c.added_par.k3 = 3e-6; c.added_par.p1 = -4e-4; c.added_par.p2 = 5e-5; c.added_par.scx = 0.995; c.added_par.she = -0.01;
    rotation_matrix(&c.ext_par); return c;
}
static double* field(Calibration& c, int i) {
    double* f[] = {&c.ext_par.x0, &c.ext_par.y0, &c.ext_par.z0, &c.ext_par.omega, &c.ext_par.phi, &c.ext_par.kappa, &c.int_par.xh, &c.int_par.yh, &c.int_par.cc, &c.glass_par.vec_x, &c.glass_par.vec_y, &c.glass_par.vec_z,
        &c.added_par.k1, &c.added_par.k2, &c.added_par.k3, &c.added_par.p1, &c.added_par.p2, &c.added_par.scx, &c.added_par.she};
    return f[i];
}
enum { NF = 19 };
static const double PREC[NF] = {1e-8, 1e-8, 1e-8, 1e-8, 1e-8, 1e-8, 1e-4, 1e-4, 1e-4, 1e-15, 1e-15, 1e-15, 1e-8, 1e-8, 1e-8, 1e-8, 1e-8, 1e-8, 1e-8};
static const char* NAME[NF] = {"x0", "y0", "z0", "omega", "phi", "kappa", "xh", "yh", "cc", "glass x", "glass y", "glass z", "k1", "k2", "k3", "p1", "p2", "scx", "she"};
/* the documented rotation: dm = R(omega) R(phi) R(kappa) */
static void ref_dm(const Exterior& e, double r[3][3]) {
    double o = e.omega, p = e.phi, k = e.kappa, A[3][3] = {{1, 0, 0}, {0, cos(o), -sin(o)}, {0, sin(o), cos(o)}}, B[3][3] = {{cos(p), 0, sin(p)}, {0, 1, 0}, {-sin(p), 0, cos(p)}}, C[3][3] = {{cos(k), -sin(k), 0}, {sin(k), cos(k), 0}, {0, 0, 1}}, T[3][3];
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { T[i][j] = 0; for (int m = 0; m < 3; m++) T[i][j] += A[i][m] * B[m][j]; }
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { r[i][j] = 0; for (int m = 0; m < 3; m++) r[i][j] += T[i][m] * C[m][j]; }
}
static std::string dm_err(const Exterior& e, double tol) {
    double r[3][3]; ref_dm(e, r);
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { if (!(fabs(r[i][j] - e.dm[i][j]) <= tol)) return strf("rotation matrix [%d][%d] is %.12g, the angles give %.12g", i, j, e.dm[i][j], r[i][j]);
        double dot = 0; for (int m = 0; m < 3; m++) dot += e.dm[i][m] * e.dm[j][m]; if (!(fabs(dot - (i == j)) <= 3 * tol)) return strf("rotation matrix rows %d,%d are not orthonormal", i, j); }
    return "";
}
static std::string fields(Calibration& a, Calibration& b, int from, int to) { for (int i = from; i < to; i++) if (!same_d(*field(a, i), *field(b, i), PREC[i])) return strf("%s is %.17g instead of %.17g", NAME[i], *field(b, i), *field(a, i)); return ""; }
static const std::vector<double> VALS = {0, -0.0, 1, -1, 0.5, 1e-8, -1e-8, 4e-9, 0.1234567891234, -99.99995, 99999.9999, -1234567.25, 3.14159265358979, 1e9};

SCENARIO(trip) {
    Calibration c = base_cal(choose(2)); int a = choose(NF); *field(c, a) = pick(VALS); int b = choose(NF); if (a != b) *field(c, b) = pick(VALS); rotation_matrix(&c.ext_par);
    std::string e = dm_err(c.ext_par, 1e-9); MC_CHECK(e.empty(), "matrix", "%s", e.c_str());
    int w = write_calibration(&c, Z("c.ori"), Z("c.add")); MC_CHECK(w, "write", "writing failed"); Calibration* r = read_calibration(Z("c.ori"), Z("c.add"), nullptr); step(2); MC_CHECK(r, "read", "%s=%g %s=%g: written calibration is refused", NAME[a], *field(c, a), NAME[b], *field(c, b));
    e = fields(c, *r, 0, NF); if (e.empty()) e = dm_err(r->ext_par, 1e-9); bool lut = r->mmlut.data == nullptr; free(r);
    MC_CHECK(e.empty(), "trip", "%s=%.17g %s=%.17g: after reading back %s", NAME[a], *field(c, a), NAME[b], *field(c, b), e.c_str()); MC_CHECK(lut, "lut", "a fresh calibration claims to own a refraction table");
    state(hash_s(get("c.ori") + get("c.add")));
}
SCENARIO(angles) {
    int M = thorough ? 24 : 16; Calibration c = base_cal(0); c.ext_par.omega = (choose(M + 1) - M / 2) * 2 * M_PI / M; c.ext_par.phi = (choose(M + 1) - M / 2) * 2 * M_PI / M; c.ext_par.kappa = (choose(M + 1) - M / 2) * 2 * M_PI / M;
    rotation_matrix(&c.ext_par); step(); std::string e = dm_err(c.ext_par, 1e-12); MC_CHECK(e.empty(), "matrix", "angles %g %g %g: %s", c.ext_par.omega, c.ext_par.phi, c.ext_par.kappa, e.c_str()); state(hash(c.ext_par.dm, sizeof(Dmatrix)));
}
static Calibration junk_cal() { Calibration c; memset(&c, 0x5a, sizeof c); return c; }
/* which distortion file is used; the low-level reader and writer, with the parts in separate variables */
SCENARIO(distortion_source) {
    Calibration c = base_cal(0), d = base_cal(1), g = junk_cal(); for (int i = 12; i < NF; i++) *field(d, i) *= 1.25; int part = choose(2), main_ = choose(4), fb = choose(4), k = choose(7);
    MC_CHECK(write_ori(c.ext_par, c.int_par, c.glass_par, c.added_par, Z("c.ori"), Z("c.add")), "write", "writing failed"); write_ori(d.ext_par, d.int_par, d.glass_par, d.added_par, Z("d.ori"), Z("d.add"));
    auto damage = [&](const char* f, int how) { if (how == 1) del(f); if (how == 2) { auto s = get(f); put(f, s.substr(0, tokens(s)[k].at)); } if (how == 3) { auto s = get(f); auto t = tokens(s); s.replace(t[k].at, t[k].len, "zz"); put(f, s); } };
    damage("c.add", main_); damage("d.add", fb == 3 ? 0 : fb); char* fbn = fb == 3 ? nullptr : (char*)Z("d.add"); Z fbz("d.add"); if (fbn) fbn = fbz;
    int ok; Calibration* r = nullptr;
    if (part) { ok = read_ori(&g.ext_par, &g.int_par, &g.glass_par, Z("c.ori"), &g.added_par, Z("c.add"), fbn); } else { r = read_calibration(Z("c.ori"), Z("c.add"), fbn); ok = r != nullptr; if (r) { g = *r; free(r); } }
    step(); std::string ds = strf("distortion file %s, fallback %s", main_ == 0 ? "present" : main_ == 1 ? "missing" : "damaged", fb == 0 ? "present" : fb == 1 ? "missing" : fb == 2 ? "damaged" : "not given");
    bool expect; Calibration e = c;
    if (main_ == 0) expect = true; else if (main_ >= 2) expect = false; else if (fb == 0) { expect = true; e.added_par = d.added_par; } else if (fb == 2) expect = false; else { expect = true; memset(&e.added_par, 0, sizeof e.added_par); e.added_par.scx = 1; }
    MC_CHECK(!!ok == expect, "source", "%s: %s", ds.c_str(), ok ? "accepted" : "refused");
    if (ok) { std::string x = fields(e, g, 0, NF); MC_CHECK(x.empty(), "source", "%s: %s", ds.c_str(), x.c_str()); }
    state(hash_s(ds, k)); for (auto f : {"c.ori", "c.add", "d.ori", "d.add"}) del(f);
}
/* every crash point and corrupted number of the orientation file */
SCENARIO(cut) {
    Calibration c = base_cal(choose(2)); write_calibration(&c, Z("c.ori"), Z("c.add")); std::string o = get("c.ori"), a = get("c.add"); int which = choose(2); std::string& f = which ? a : o; size_t at = choose(f.size() + 1); 
    auto t0 = tokens(f), t = tokens(f.substr(0, at)); put(which ? "c.add" : "c.ori", f.substr(0, at)); Calibration* r = read_calibration(Z("c.ori"), Z("c.add"), choose(2) ? (char*)Z("none") : nullptr); step();
    bool ok = r; std::string e = r ? fields(c, *r, 0, t.size() == t0.size() && t.back().s != t0.back().s ? (which ? NF - 1 : 11) : NF) : ""; if (r) free(r);
    if (t.size() < t0.size()) MC_CHECK(!ok, "cut", "%s file cut after %zu of %zu bytes: accepted", which ? "distortion" : "orientation", at, f.size());
    else { if (t.back().s == t0.back().s) MC_CHECK(ok, "cut", "%s file cut after %zu of %zu bytes, all values present: refused", which ? "distortion" : "orientation", at, f.size()); MC_CHECK(!ok || e.empty(), "cut", "%s file cut after %zu bytes: %s", which ? "distortion" : "orientation", at, e.c_str()); }
    state(hash_v(at, which)); del("c.ori"); del("c.add");
}
SCENARIO(bad_number) {
    Calibration c = base_cal(0); write_calibration(&c, Z("c.ori"), Z("c.add")); std::string o = get("c.ori"); auto t = tokens(o); int k = choose(t.size()); const char* by = pick({"abc", "*", "--", "#1"}); o.replace(t[k].at, t[k].len, by); put("c.ori", o);
    Calibration* r = read_calibration(Z("c.ori"), Z("c.add"), nullptr); step(); bool ok = r; free(r); MC_CHECK(!ok, "bad", "orientation value %d replaced by \"%s\": accepted", k, by); state(k);
}
SCENARIO1(missing) { int how = choose(3); Calibration c = base_cal(0); write_calibration(&c, Z("c.ori"), Z("c.add")); if (how == 0) del("c.ori"); if (how == 1) put("c.ori", ""); if (how == 2) put("c.ori", "\n"); Calibration* r = read_calibration(Z("c.ori"), Z("c.add"), nullptr); step(); bool ok = r; free(r); MC_CHECK(!ok, "missing", "calibration with missing or empty orientation file accepted"); state(how); }
/* an orientation stored without distortion file leaves an existing one alone */
SCENARIO(without_distortion) {
    Calibration c = base_cal(0), d = base_cal(1); bool ex = choose(2); write_calibration(&c, Z("c.ori"), Z("c.add")); if (!ex) del("c.add"); int ok = write_ori(d.ext_par, d.int_par, d.glass_par, d.added_par, Z("c.ori"), nullptr); MC_CHECK(ok, "write", "orientation without distortion file: failure reported");
    Calibration g = junk_cal(); ok = read_ori(&g.ext_par, &g.int_par, &g.glass_par, Z("c.ori"), &g.added_par, Z("c.add"), nullptr); step(2); MC_CHECK(ok, "read", "refused"); std::string e = fields(d, g, 0, 12); MC_CHECK(e.empty(), "trip", "%s", e.c_str());
    if (ex) { e = fields(c, g, 12, NF); MC_CHECK(e.empty(), "trip", "%s", e.c_str()); } for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) MC_CHECK(fabs(g.ext_par.dm[i][j] - d.ext_par.dm[i][j]) < 1e-7, "trip", "stored rotation matrix [%d][%d] changed", i, j); state(ex);
}
