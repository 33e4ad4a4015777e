/* C12: proximity search over row-sorted targets. */
#include "optv.h"
using namespace mc;

static uint64_t acc;
static void check_query(const std::vector<target>& t, int n, double cx, double cy, double dl, double dr, double du, double dd, control_par* c, bool rest) {
    int p[4] = {12345, 12345, 12345, 12345}, guard = 0;
    target dummy; 
    target* tp = n ? (target*)t.data() : &dummy;
    int cnt = rest ? candsearch_in_pix_rest(tp, n, cx, cy, dl, dr, du, dd, p, c) : candsearch_in_pix(tp, n, cx, cy, dl, dr, du, dd, p, c);
    step();
    static std::vector<std::pair<double, int>> e; e.clear();
    bool inside = cx >= 0 && cx <= c->imx && cy >= 0 && cy <= c->imy;
    for (int i = 0; inside && i < n; i++) {
        if ((t[i].tnr == -1) != rest) continue;
        if (t[i].x > fmax(0, cx - dl) && t[i].x < fmin(c->imx, cx + dr) && t[i].y > fmax(0, cy - du) && t[i].y < fmin(c->imy, cy + dd))
            e.push_back({hypot(t[i].x - cx, t[i].y - cy), i});
    }
    std::sort(e.begin(), e.end());
    int want = std::min<int>(rest ? 1 : 4, e.size());
    char b[200] = "";
    auto describe = [&]() { snprintf(b, 200, "%s%d targets, centre (%g,%g) window -%g +%g -%g +%g, image %dx%d", rest ? "(unassigned) " : "", n, cx, cy, dl, dr, du, dd, c->imx, c->imy); return b; };
    auto list = [&]() { std::string s; for (int i = 0; i < n && i < 12; i++) { char q[80]; snprintf(q, 80, " %d:(%g,%g)%s", i, t[i].x, t[i].y, t[i].tnr == -1 ? "-" : ""); s += q; } return s; };
    MC_CHECK(cnt == want, rest ? "rest-count" : "count", "%s: found %d, expected %d;%s", describe(), cnt, want, list().c_str());
    double prev = -1;
    for (int k = 0; k < want; k++) {
        bool ok = false; double dist = 0;
        for (auto& x : e) if (x.second == p[k]) { ok = true; dist = x.first; }
        for (int q = 0; q < k; q++) if (p[q] == p[k]) ok = false;
        MC_CHECK(ok, rest ? "rest-index" : "index", "%s: entry %d is %d, not a distinct eligible target;%s", describe(), k, p[k], list().c_str());
        MC_CHECK(dist >= prev - 1e-9, "order", "%s: entry %d (target %d) is nearer than the previous one;%s", describe(), k, p[k], list().c_str());
        MC_CHECK(fabs(dist - e[k].first) < 1e-9, rest ? "rest-nearest" : "nearest", "%s: entry %d is target %d at %g, but a target at %g is nearer;%s", describe(), k, p[k], dist, e[k].first, list().c_str());
        prev = dist;
    }
    for (int k = want; k < (rest ? 1 : 4); k++) MC_CHECK(p[k] == PT_UNUSED, "unused", "%s: entry %d is %d, expected none;%s", describe(), k, p[k], list().c_str());
    if (rest) { for (int k = 1; k < 4; k++) MC_CHECK(p[k] == 12345 || p[k] == PT_UNUSED, "rest-extra", "%s: wrote entry %d", describe(), k); }
    acc = hash(p, sizeof p, acc);
}

/* every arrangement of a few targets: ties, unusable entries, borders */
SCENARIO(small_sets) {
    int n = choose(thorough ? 7 : 6);
    static std::vector<double> X = {3, 5, 6}, Y = {4, 6, 9};
    std::vector<target> t; int ly = 0;
    bool big = n >= 5;
    for (int i = 0; i < n; i++) {
        target q; memset(&q, 0, sizeof q);
        int y = ly + choose(3 - ly); ly = y;
        q.y = Y[y]; q.x = X[choose(3)]; q.tnr = (big ? (i % 2 ? choose(2) : 0) : choose(2)) ? -1 : i; q.pnr = i; q.n = 9;
        t.push_back(q);
    }
    note("%d targets", n);
    control_par c; memset(&c, 0, sizeof c); c.num_cams = 1; 
    std::vector<target> t0 = t; t.reserve(n); acc = 1;
    static double cx[] = {5, 4.6, 0, 9, 12.5, -0.5}, cy[] = {6, 5.7, 4.4, 9, 11.5, -0.25, 0};
    static double w[][4] = {{2.5, 2.5, 2.5, 3.5}, {10, 10, 10, 10}, {0.5, 0.5, 0.5, 0.5}, {2.5, 0.5, 0.25, 5}, {0.5, 3, 4, 0.5}, {0, 0, 0, 0}, {-1, 3, 1, 1}};
    for (int im = 0; im < 2; im++) {
        c.imx = im ? 12 : 6; c.imy = im ? 11 : 9;
        for (double x : cx) for (double y : cy) for (auto& q : w) for (int r = 0; r < 2; r++) {
            /* targets exactly on the right/lower image border are strictly outside */
            check_query(t, n, x, y, q[0], q[1], q[2], q[3], &c, r);
            evals(1);
        }
    }
    state(acc);
    if (n) MC_CHECK(!memcmp(t.data(), t0.data(), n * sizeof(target)), "input", "the target list was changed");
}

/* every list length: one narrow query at every position */
static void lengths(int N, int mode, int stride) {
    static std::vector<target> t;
    t.assign(N, target());
    for (int i = 0; i < N; i++) {
        t[i].y = 5 + (mode == 2 ? 4 * (i / 3) : i); t[i].x = 50 + (mode == 2 ? i % 3 : 0); t[i].pnr = i; t[i].n = 5;
        t[i].tnr = i;
    }
    control_par c; memset(&c, 0, sizeof c); c.imx = 200; c.imy = 4 * N + 50;
    int p[4];
    for (int i = 0; i < N; i += (stride > 1 && i >= 64 && i < N - 64) ? stride : 1) {
        double y = t[i].y, up = 1.25, dn = 1.25;
        if (mode == 1) { up = 0.25; dn = 0.25; } else if (mode == 2) up = dn = 0.5;
        int n = candsearch_in_pix(t.data(), N, 50, y, 10, 10, up, dn, p, &c);
        int lo = i, hi = i;
        if (mode == 0) { lo = std::max(0, i - 1); hi = std::min(N - 1, i + 1); }
        else if (mode == 2) { lo = i / 3 * 3; hi = std::min(N - 1, lo + 2); }
        bool ok = n == hi - lo + 1; for (int k = 0; k < n && ok; k++) ok = p[k] >= lo && p[k] <= hi;
        if (ok && mode != 2) ok = p[0] == i; else if (ok) ok = p[0] == lo;
        MC_CHECK(ok, "length", "%d targets, query at row %g (target %d): found %d [%d %d %d %d], expected targets %d..%d", N, y, i, n, p[0], p[1], p[2], p[3], lo, hi);
        for (int k = lo; k <= hi; k++) t[k].tnr = -1;
        p[0] = 77;
        n = candsearch_in_pix_rest(t.data(), N, 50, y, 10, 10, up, dn, p, &c);
        MC_CHECK(n == 1 && (mode == 2 ? p[0] == lo : p[0] == i), "rest-length", "%d targets, unassigned query at row %g (target %d): found %d, entry %d", N, y, i, n, p[0]);
        for (int k = lo; k <= hi; k++) t[k].tnr = k;
        /* nothing unassigned */
        step(2);
    }
    evals(N); state(hash_v(N, mode));
}
SCENARIO(list_lengths) {
    int mode = choose(3);
    int nmax_ = thorough ? 4000 : 1500, N = 1 + choose(nmax_);
    lengths(N, mode, 1);
}
SCENARIO(long_lists) {      /* up to the program's capacity */
    int mode = choose(3);
    int q = choose(thorough ? 1850 : 185), N;
    if (q < 40) { static int b[] = {2048, 4096, 8192, 16384, 20000}; N = b[q / 8] - 4 + q % 8; if (N > 20000) N = 20000 - (N - 20000); }
    else N = 1500 + (q - 40) * (thorough ? 10 : 127);
    if (N > 20000) N = 20000;
    lengths(N, mode, thorough ? 1 : 3);
}
