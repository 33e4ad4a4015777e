/* C23: matrix and vector operations satisfy their definitions. */
#include "optv.h"
using namespace mc;
static const double G = 123456.5;   /* guard value around every block */

struct Buf { std::vector<double> v; int n; Buf(int n) : v(n + 16, G), n(n) {} double* p() { return v.data() + 8; }
    bool guards() { for (int i = 0; i < 8; i++) if (v[i] != G || v[n + 8 + i] != G) return false; return true; } };

static int pat(int kind, int i, int j) {
    switch (kind) { case 0: return ((i * 7 + j * 3) % 11) - 5; case 1: return (i + 1) * (j + 2) % 7 - 3; case 2: return i == j ? 3 : (i - j); default: return ((i * i + 3 * j + i * j) % 13) - 6; }
}

/* products on every small matrix */
static void check_products(int m, int n, int nl, const std::vector<double>& A, const std::vector<double>& L) {
    Buf a(m * nl), r(nl * nl), u(n), l(m);
    for (int i = 0; i < m * nl; i++) a.p()[i] = A[i];
    for (int i = 0; i < m; i++) l.p()[i] = L[i];
    ata(a.p(), r.p(), m, n, nl);
    for (int i = 0; i < nl; i++) for (int j = 0; j < nl; j++) {
        double e = G;
        if (i < n && j < n) { e = 0; for (int k = 0; k < m; k++) e += A[k * nl + i] * A[k * nl + j]; }
        MC_CHECK(near_(r.p()[i * nl + j], e, 1e-9 * (1 + fabs(e))), "ata", "normal matrix of a %dx%d block (row length %d): entry (%d,%d) is %g, expected %g", m, n, nl, i, j, r.p()[i * nl + j], e);
    }
    atl(u.p(), a.p(), l.p(), m, n, nl);
    for (int i = 0; i < n; i++) {
        double e = 0; for (int k = 0; k < m; k++) e += A[k * nl + i] * L[k];
        MC_CHECK(near_(u.p()[i], e, 1e-9 * (1 + fabs(e))), "atl", "normal vector of a %dx%d block (row length %d): entry %d is %g, expected %g", m, n, nl, i, u.p()[i], e);
    }
    MC_CHECK(a.guards() && r.guards() && u.guards() && l.guards(), "guards", "memory around the blocks was changed");
    for (int i = 0; i < m * nl; i++) MC_CHECK(a.p()[i] == A[i], "input", "the input matrix was changed");
    step(2); state(hash(r.p(), nl * nl * 8, hash(u.p(), n * 8)));
}
SCENARIO(normal_equations_small) {
    int m = 1 + choose(3), nl = 1 + choose(3), n = 1 + choose(nl);
    std::vector<double> A(m * nl), L(m);
    for (auto& x : A) x = (m * nl >= 9 && !thorough) ? pick({-1.0, 2.0}) : pick({-1.0, 0.0, 2.0});
    for (auto& x : L) x = pick({1.0, -3.0});
    note("m %d n %d n_large %d", m, n, nl);
    check_products(m, n, nl, A, L);
}
SCENARIO(normal_equations_sizes) {
    int m = 1 + choose(deepest ? 120 : thorough ? 40 : 24), nl = 1 + choose(20), n = 1 + choose(nl), k = choose(4);
    std::vector<double> A(m * nl), L(m);
    for (int i = 0; i < m; i++) { L[i] = pat(k + 1, i, 3); for (int j = 0; j < nl; j++) A[i * nl + j] = pat(k, i, j); }
    check_products(m, n, nl, A, L);
}
static void check_matmul(int m, int n, int k, int ml, int nl, const std::vector<double>& B, const std::vector<double>& C) {
    Buf a(ml * k), b(ml * nl), c(nl * k);
    for (int i = 0; i < ml * k; i++) a.p()[i] = G;
    for (int i = 0; i < ml * nl; i++) b.p()[i] = B[i];
    for (int i = 0; i < nl * k; i++) c.p()[i] = C[i];
    matmul(a.p(), b.p(), c.p(), m, n, k, ml, nl);
    for (int i = 0; i < ml; i++) for (int j = 0; j < k; j++) {
        double e = G; if (i < m) { e = 0; for (int l = 0; l < n; l++) e += B[i * nl + l] * C[l * k + j]; }
        MC_CHECK(near_(a.p()[i * k + j], e, 1e-9 * (1 + fabs(e))), "matmul", "product of the %dx%d block of a %dx%d matrix with a %dx%d: entry (%d,%d) is %g, expected %g", m, n, ml, nl, nl, k, i, j, a.p()[i * k + j], e);
    }
    MC_CHECK(a.guards() && b.guards() && c.guards(), "guards", "memory around the blocks was changed");
    for (int i = 0; i < ml * nl; i++) MC_CHECK(b.p()[i] == B[i], "input", "an input matrix was changed");
    for (int i = 0; i < nl * k; i++) MC_CHECK(c.p()[i] == C[i], "input", "an input matrix was changed");
    step(); state(hash(a.p(), ml * k * 8));
}
SCENARIO(matmul_small) {
    int ml = 1 + choose(2), nl = 1 + choose(2), m = 1 + choose(ml), n = 1 + choose(nl), k = 1 + choose(2);
    std::vector<double> B(ml * nl), C(nl * k);
    for (auto& x : B) x = pick({-1.0, 0.0, 2.0}); for (auto& x : C) x = pick({-1.0, 0.0, 3.0});
    check_matmul(m, n, k, ml, nl, B, C);
}
SCENARIO(matmul_sizes) {
    int ml = 1 + choose(deepest ? 15 : thorough ? 12 : 7), nl = 1 + choose(deepest ? 15 : thorough ? 12 : 7), m = 1 + choose(ml), n = 1 + choose(nl), k = 1 + choose(4), p = choose(4);
    std::vector<double> B(ml * nl), C(nl * k);
    for (int i = 0; i < ml; i++) for (int j = 0; j < nl; j++) B[i * nl + j] = pat(p, i, j);
    for (int i = 0; i < nl; i++) for (int j = 0; j < k; j++) C[i * k + j] = pat(p + 1, j, i);
    check_matmul(m, n, k, ml, nl, B, C);
}
/* inversion */
static bool leading_minors_ok(const std::vector<double>& A, int n, int nl) {
    std::vector<double> M(n * n);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) M[i * n + j] = A[i * nl + j];
    for (int p = 0; p < n; p++) {
        if (fabs(M[p * n + p]) < 0.05) return false;
        for (int i = p + 1; i < n; i++) { double f = M[i * n + p] / M[p * n + p]; for (int j = p; j < n; j++) M[i * n + j] -= f * M[p * n + j]; }
    }
    return true;
}
static void check_inv(int n, int nl, const std::vector<double>& A, double tol) {
    Buf a(nl * nl); for (int i = 0; i < nl * nl; i++) a.p()[i] = A[i];
    matinv(a.p(), n, nl);
    double mx = 1; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) mx = fmax(mx, fabs(a.p()[i * nl + j]));
    for (int i = 0; i < nl; i++) for (int j = 0; j < nl; j++) {
        if (i < n && j < n) {
            double e = 0, f = 0; for (int k = 0; k < n; k++) { e += A[i * nl + k] * a.p()[k * nl + j]; f += a.p()[i * nl + k] * A[k * nl + j]; }
            MC_CHECK(near_(e, i == j, tol * mx) && near_(f, i == j, tol * mx), "matinv", "%dx%d block in rows of %d: matrix times inverse has %g / %g at (%d,%d)", n, n, nl, e, f, i, j);
        } else MC_CHECK(a.p()[i * nl + j] == A[i * nl + j], "matinv-outside", "inverting a %dx%d block changed entry (%d,%d) outside it", n, n, i, j);
    }
    MC_CHECK(a.guards(), "guards", "memory around the block was changed");
    step(); state(hash(a.p(), nl * nl * 8));
}
SCENARIO(inverse_small) {
    int nl = 1 + choose(3), n = 1 + choose(nl);
    std::vector<double> A(nl * nl, 7.25);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) A[i * nl + j] = n == 3 ? (thorough ? pick({-2.0, -1.0, 0.0, 1.0, 3.0}) : pick({-2.0, 0.0, 1.0, 3.0})) : pick({-3.0, -2.0, -1.0, 0.0, 0.5, 1.0, 2.0});
    if (!leading_minors_ok(A, n, nl)) return;
    check_inv(n, nl, A, 1e-9);
}
SCENARIO(inverse_sizes) {
    int nl = 1 + choose(20), n = 1 + choose(nl), k = choose(4), mode = choose(2);
    std::vector<double> A(nl * nl);
    for (int i = 0; i < nl; i++) for (int j = 0; j < nl; j++) A[i * nl + j] = mode ? pat(k, i, j) + pat(k, j, i) + (i == j ? 60 + 40 * nl : 0) : pat(k, i, j) + (i == j ? (i % 2 ? -1 : 1) * (20.0 + 9 * nl) : 0);
    check_inv(n, nl, A, 1e-9);
}
/* vectors */
static double ref_norm(const double* v) { return std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]); }
SCENARIO(vectors) {
    double sc = pick({1.0, 1e-3, 1e4, 1e-9}); vec3d a, b; 
    std::vector<double> al = thorough ? std::vector<double>{-3, -2, -1, 0, 0.5, 1, 2} : std::vector<double>{-2, -1, 0, 0.5, 3};
    for (int i = 0; i < 3; i++) a[i] = sc * pick(al);
    for (int i = 0; i < 3; i++) b[i] = sc * pick(al);
    double s = pick({-1.5, 0.0, 2.0});
    vec3d a0 = {a[0], a[1], a[2]}, b0 = {b[0], b[1], b[2]}, o[3] = {{G, G, G}, {G, G, G}, {G, G, G}}, c;
    double t = 1e-12 * sc * sc * 100, t1 = 1e-12 * sc * 100;
    auto chk = [&](const char* w, double e0, double e1, double e2) {
        MC_CHECK(near_(o[1][0], e0, t1) && near_(o[1][1], e1, t1) && near_(o[1][2], e2, t1), w, "%s of (%g,%g,%g) and (%g,%g,%g) gives (%g,%g,%g)", w, a0[0], a0[1], a0[2], b0[0], b0[1], b0[2], o[1][0], o[1][1], o[1][2]);
        for (int i = 0; i < 3; i++) MC_CHECK(o[0][i] == G && o[2][i] == G && a[i] == a0[i] && b[i] == b0[i], w, "%s wrote outside its result", w);
        step(); };
    vec_add(a, b, o[1]); chk("vec_add", a0[0] + b0[0], a0[1] + b0[1], a0[2] + b0[2]);
    vec_subt(a, b, o[1]); chk("vec_subt", a0[0] - b0[0], a0[1] - b0[1], a0[2] - b0[2]);
    vec_scalar_mul(a, s, o[1]); chk("vec_scalar_mul", s * a0[0], s * a0[1], s * a0[2]);
    vec_copy(o[1], a); chk("vec_copy", a0[0], a0[1], a0[2]);
    vec_set(o[1], b[0], a[1], s); chk("vec_set", b0[0], a0[1], s);
    double na = vec_norm(a), nb = vec_norm(b), nd = vec_diff_norm(a, b), d = vec_dot(a, b); vec3d dd = {a0[0] - b0[0], a0[1] - b0[1], a0[2] - b0[2]};
    MC_CHECK(near_(na, ref_norm(a0), t1) && near_(nb, ref_norm(b0), t1) && near_(nd, ref_norm(dd), t1), "norm", "norm of (%g,%g,%g): %g, difference norm %g", a0[0], a0[1], a0[2], na, nd);
    MC_CHECK(near_(d, a0[0] * b0[0] + a0[1] * b0[1] + a0[2] * b0[2], t), "dot", "dot product is %g", d);
    vec_cross(a, b, o[1]);
    MC_CHECK(near_(o[1][0], a0[1] * b0[2] - a0[2] * b0[1], t) && near_(o[1][1], a0[2] * b0[0] - a0[0] * b0[2], t) && near_(o[1][2], a0[0] * b0[1] - a0[1] * b0[0], t), "cross", "cross product of (%g,%g,%g) and (%g,%g,%g) is (%g,%g,%g)", a0[0], a0[1], a0[2], b0[0], b0[1], b0[2], o[1][0], o[1][1], o[1][2]);
    unit_vector(a, o[1]);
    double nn = ref_norm(a0); double k = nn == 0 ? 1 : nn;
    MC_CHECK(near_(o[1][0], a0[0] / k, 1e-12) && near_(o[1][1], a0[1] / k, 1e-12) && near_(o[1][2], a0[2] / k, 1e-12), "unit", "unit vector of (%g,%g,%g) is (%g,%g,%g)", a0[0], a0[1], a0[2], o[1][0], o[1][1], o[1][2]);
    bool eq = a0[0] == b0[0] && a0[1] == b0[1] && a0[2] == b0[2];
    MC_CHECK(!!vec_cmp(a, b) == eq, "cmp", "comparison of (%g,%g,%g) and (%g,%g,%g) says %d", a0[0], a0[1], a0[2], b0[0], b0[1], b0[2], vec_cmp(a, b));
    for (double eps : {0.75 * sc, 1.25 * sc, 0.1 * sc}) {
        bool ap = fabs(dd[0]) <= eps && fabs(dd[1]) <= eps && fabs(dd[2]) <= eps;
        MC_CHECK(!!vec_approx_cmp(a, b, eps) == ap, "approx", "approximate comparison of (%g,%g,%g) and (%g,%g,%g) within %g says %d", a0[0], a0[1], a0[2], b0[0], b0[1], b0[2], eps, vec_approx_cmp(a, b, eps));
    }
    for (int i = 0; i < 3; i++) MC_CHECK(o[0][i] == G && o[2][i] == G && a[i] == a0[i] && b[i] == b0[i], "outside", "a vector operation wrote outside its result");
    /* in place */
    memcpy(c, a0, sizeof c); vec_add(c, b, c); MC_CHECK(near_(c[0], a0[0] + b0[0], t1) && near_(c[2], a0[2] + b0[2], t1) && near_(c[1], a0[1] + b0[1], t1), "inplace", "in-place addition");
    memcpy(c, b0, sizeof c); vec_subt(a, c, c); MC_CHECK(near_(c[0], dd[0], t1) && near_(c[1], dd[1], t1) && near_(c[2], dd[2], t1), "inplace", "in-place subtraction");
    memcpy(c, a0, sizeof c); vec_scalar_mul(c, s, c); MC_CHECK(near_(c[0], s * a0[0], t1) && near_(c[1], s * a0[1], t1) && near_(c[2], s * a0[2], t1), "inplace", "in-place scaling");
    memcpy(c, a0, sizeof c); unit_vector(c, c); MC_CHECK(near_(c[0], a0[0] / k, 1e-12) && near_(c[1], a0[1] / k, 1e-12) && near_(c[2], a0[2] / k, 1e-12), "inplace", "in-place unit vector");
    vec_init(c); MC_CHECK(isnan(c[0]) && isnan(c[1]) && isnan(c[2]), "init", "an initialised vector is not empty");
    step(16); state(hash(o[1], sizeof o[1], hash_v(d, hash_v(nd))));
}
