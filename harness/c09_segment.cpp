/* C09: target detection. */
#include "optv.h"
#include "io.h"
using namespace mc;
typedef std::vector<unsigned char> Img;
struct Par { int thres, disco; int nn[2], nx[2], ny[2], sumg; int x0, x1, y0, y1; };
struct T { int n, nx, ny, sumg; double x, y; };
/* the definition: seeds in reading order, each a local maximum (8 neighbours) of what is left, grown over 4 neighbours by repeated sweeps until nothing changes */
static std::vector<T> reference(const Img& im, int W, int H, const Par& p) {
    std::vector<T> out; int xa = std::max(1, p.x0), ya = std::max(1, p.y0), xb = std::min(W - 1, p.x1), yb = std::min(H - 1, p.y1); Img left = im; static std::vector<char> in; static const int DX[] = {-1, 1, 0, 0}, DY[] = {0, 0, -1, 1};
    for (int y = ya; y < yb; y++) for (int x = xa; x < xb; x++) {
        int g = left[y * W + x]; if (g <= p.thres) continue; bool peak = true; for (int j = -1; j <= 1; j++) for (int i = -1; i <= 1; i++) if (left[(y + j) * W + x + i] > g) peak = false; if (!peak) continue;
        in.assign(W * H, 0); in[y * W + x] = 1; bool more = true;
        while (more) { more = false; for (int v = ya; v < yb; v++) for (int u = xa; u < xb; u++) { int q = left[v * W + u]; if (in[v * W + u] || q <= p.thres) continue; 
            for (int k = 0; k < 4; k++) { int pu = u + DX[k], pv = v + DY[k]; if (pu < xa || pu >= xb || pv < ya || pv >= yb || !in[pv * W + pu]) continue; int top = im[pv * W + pu] + p.disco; if (q <= top && im[(v - 1) * W + u] <= top && im[(v + 1) * W + u] <= top && im[v * W + u - 1] <= top && im[v * W + u + 1] <= top) { in[v * W + u] = 1; more = true; break; } } } }
        T t = {0, 0, 0, 0, 0, 0}; int x0 = 1 << 30, x1 = -1, y0 = 1 << 30, y1 = -1, w = 0; double sx = 0, sy = 0; for (int v = ya; v < yb; v++) for (int u = xa; u < xb; u++) if (in[v * W + u]) { int q = left[v * W + u]; t.n++; t.sumg += q; w += q - p.thres; sx += (double)u * (q - p.thres); sy += (double)v * (q - p.thres); x0 = std::min(x0, u); x1 = std::max(x1, u); y0 = std::min(y0, v); y1 = std::max(y1, v); left[v * W + u] = 0; }
        t.nx = x1 - x0 + 1; t.ny = y1 - y0 + 1; t.x = sx / w + 0.5; t.y = sy / w + 0.5;
        if (t.n >= p.nn[0] && t.n <= p.nn[1] && t.nx >= p.nx[0] && t.nx <= p.nx[1] && t.ny >= p.ny[0] && t.ny <= p.ny[1] && t.sumg > p.sumg) out.push_back(t);
    }
    return out;
}
static std::string show(const Img& im, int W, int H, const Par& p) { std::string s = strf("%dx%d threshold %d, discontinuity %d, rectangle %d..%d x %d..%d, limits n %d..%d nx %d..%d ny %d..%d brightness %d, image", W, H, p.thres, p.disco, p.x0, p.x1, p.y0, p.y1, p.nn[0], p.nn[1], p.nx[0], p.nx[1], p.ny[0], p.ny[1], p.sumg); for (int i = 0; i < W * H && i < 100; i++) s += (i % W ? " " : " / ") + std::to_string(im[i]); return s; }
static target_par settings(const Par& p, int cam) { target_par t; memset(&t, 0, sizeof t); for (int i = 0; i < 4; i++) t.gvthres[i] = i == cam ? p.thres : (p.thres * 7 + 31 * i + 3) % 256; t.discont = p.disco; t.nnmin = p.nn[0]; t.nnmax = p.nn[1]; t.nxmin = p.nx[0]; t.nxmax = p.nx[1]; t.nymin = p.ny[0]; t.nymax = p.ny[1]; t.sumg_min = p.sumg; t.cr_sz = 2; return t; }
static uint64_t acc;
static void check(const Img& im, int W, int H, const Par& p, int cam, std::vector<target>& buf) {
    auto want = reference(im, W, H, p); static Img copy; copy = im; target_par tp = settings(p, cam), tp0 = tp; control_par c; memset(&c, 0, sizeof c); c.imx = W; c.imy = H; c.num_cams = 4; step();
    for (size_t i = 0; i <= want.size() && i < buf.size(); i++) memset(&buf[i], 0x5a, sizeof(target));
    int n = targ_rec((unsigned char*)im.data(), &tp, p.x0, p.x1, p.y0, p.y1, &c, cam, buf.data());
    MC_CHECK(im == copy, "image-changed", "%s: the image was modified", show(copy, W, H, p).c_str()); MC_CHECK(!memcmp(&tp, &tp0, sizeof tp), "settings-changed", "the settings were modified");
    if (want.empty()) { const target& q = buf[0]; MC_CHECK(n == 1 && q.n == 1 && q.nx == 1 && q.ny == 1 && q.sumg == 1 && q.x == 1 && q.y == 1 && q.tnr == CORRES_NONE && q.pnr == 1, "placeholder", "%s: nothing to find, returned %d: {n %d nx %d ny %d sumg %d x %g y %g tnr %d pnr %d}", show(im, W, H, p).c_str(), n, q.n, q.nx, q.ny, q.sumg, q.x, q.y, q.tnr, q.pnr); acc = acc * 31 + 1; return; }
    MC_CHECK(n == (int)want.size(), "count", "%s: %d targets found, expected %d", show(im, W, H, p).c_str(), n, (int)want.size());
    for (int i = 0; i < n; i++) { const target& q = buf[i]; const T& w = want[i]; MC_CHECK(q.pnr == i && q.tnr == CORRES_NONE, "number", "%s: target %d is numbered %d, mark %d", show(im, W, H, p).c_str(), i, q.pnr, q.tnr); MC_CHECK(q.n == w.n && q.nx == w.nx && q.ny == w.ny && q.sumg == w.sumg, "shape", "%s: target %d has n %d nx %d ny %d brightness %d, expected %d %d %d %d", show(im, W, H, p).c_str(), i, q.n, q.nx, q.ny, q.sumg, w.n, w.nx, w.ny, w.sumg); MC_CHECK(fabs(q.x - w.x) < 1e-9 * W && fabs(q.y - w.y) < 1e-9 * H, "centre", "%s: target %d at (%.12g,%.12g), expected (%.12g,%.12g)", show(im, W, H, p).c_str(), i, q.x, q.y, w.x, w.y); acc = hash_v(w.n * 65536 + w.sumg, acc); }
}
static Par open_(int thres, int disco, int W, int H) { return {thres, disco, {1, 1 << 20}, {1, 1 << 20}, {1, 1 << 20}, 0, 0, W, 0, H}; }

/* every small image: 3x3 free pixels in a frame of dark or bright ones, all of the parameter sets on each */
SCENARIO(small_images) {
    int W = 5, H = 5, frame_ = choose(3), set = choose(3); static int V[3][4] = {{0, 6, 8, 9}, {10, 11, 14, 255}, {3, 128, 200, 201}}; static int B[] = {0, 7, 255}; static Img im(25); for (auto& x : im) x = B[frame_]; int vals = thorough ? 4 : 3; int pre[4]; for (int& x : pre) x = choose(vals); std::vector<target> buf(10); acc = frame_ * 3 + set; int rest = pow(vals, 5) + 0.5;
    for (int r = 0; r < rest; r++) { int q = r; for (int k = 0; k < 9; k++) { int v = k < 4 ? pre[k] : q % vals; if (k >= 4) q /= vals; im[(1 + k / 3) * 5 + 1 + k % 3] = V[set][thorough ? v : (v == 0 ? 0 : v + 1)]; }
        for (int th : {0, 5, V[set][2]}) for (int d : {0, 1, 60, 400}) check(im, W, H, open_(th, d, W, H), r % 4, buf);
        if (frame_ == 0) { Par p = open_(5, 2, W, H); p.nn[0] = 2; p.nn[1] = 4; check(im, W, H, p, 0, buf); p = open_(5, 2, W, H); p.nx[0] = 2; p.nx[1] = 2; check(im, W, H, p, 1, buf); p = open_(5, 2, W, H); p.ny[0] = 2; p.ny[1] = 2; check(im, W, H, p, 2, buf); p = open_(5, 2, W, H); p.sumg = V[set][2] * 2; check(im, W, H, p, 3, buf); }
    }
    state(acc);
}
/* every rectangle inside, across and outside a patterned image */
SCENARIO(rectangles) {
    int W = pick({3, 4, 7}), H = pick({3, 5, 6}), kind = choose(5); Img im(W * H); for (int i = 0; i < W * H; i++) { int x = i % W, y = i / W; im[i] = kind == 0 ? 200 : kind == 1 ? (x * 7 + y * 13) % 5 * 50 : kind == 2 ? 250 - 20 * abs(x - W / 2) - 25 * abs(y - H / 2) : kind == 3 ? ((x + y) % 2 ? 255 : 0) : (x * y * 37 + 11 * x) % 251; }
    im.shrink_to_fit(); std::vector<target> buf(W * H + 1); acc = 1; int ax = choose(W + 3) - 1; 
    for (int bx = -1; bx <= W + 2; bx++) for (int ay = -1; ay <= H + 1; ay++) for (int by = -1; by <= H + 2; by++) for (int d : {0, 3, 100}) { Par p = open_(20, d, W, H); p.x0 = ax; p.x1 = bx; p.y0 = ay; p.y1 = by; check(im, W, H, p, (ax + bx + 2) % 4, buf); }
    state(acc);
}
/* two blobs at every distance and offset: merged, touching, separate */
SCENARIO(two_blobs) {
    int W = 14, H = 11, ax = 3, ay = 3, dx = choose(9), dy = choose(7), p1 = pick({60, 200, 255}), p2 = pick({60, 199, 255}), fall = pick({20, 50, 100}); Img im(W * H); std::vector<target> buf(80); acc = 1; for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) { int a = p1 - fall * (abs(x - ax) + abs(y - ay)), b = p2 - fall * std::max(abs(x - ax - dx), abs(y - ay - dy)); im[y * W + x] = std::max({0, a, b}); }
    for (int th : {0, 30, 59, 150, 254, 255}) for (int d : {0, 1, 20, 50, 51, 255}) { Par p = open_(th, d, W, H); check(im, W, H, p, 0, buf); p.nn[0] = 3; p.nn[1] = 9; check(im, W, H, p, 1, buf); p.sumg = 300; p.nx[0] = 2; p.ny[1] = 3; check(im, W, H, p, 3, buf); }
    state(acc);
}
/* large bright areas: nothing may depend on a limited waiting list */
SCENARIO_N(large_blobs, 8, 300) {
    int which = choose(6); int r = pick({40, 500, 700}); if (r == 700 && which > 1) return; int W = 2 * r + 5, H = 2 * r + 5; if (which == 2) { W = 3000; H = 12; } if (which == 3) { W = 9; H = 5000; } Img im(W * H); long n = 0, sum = 0; 
    for (int y = 1; y < H - 1; y++) for (int x = 1; x < W - 1; x++) { int d = abs(x - W / 2) + abs(y - H / 2), v = 0; switch (which) { case 0: v = d <= r ? 255 - d * 200 / r : 0; break; case 1: v = d <= r ? 200 + (d == 0) : 0; break; case 2: case 3: v = 77; break; case 4: v = (y % 4 == 1 || x == 1) ? 90 : 0; break; default: v = r > 100 ? 0 : 50; } im[y * W + x] = v; if (v > 10) { n++; sum += v; } }
    control_par c; memset(&c, 0, sizeof c); c.imx = W; c.imy = H; Par p = open_(10, 1, W, H); target_par tp = settings(p, 0); tp.nnmax = tp.nxmax = tp.nymax = 1 << 30; std::vector<target> buf(8); int k = targ_rec(im.data(), &tp, 0, W, 0, H, &c, 0, buf.data()); step();
    if (n == 0) MC_CHECK(k == 1 && buf[0].n == 1, "large", "nothing to find: %d targets", k); else MC_CHECK(k == 1 && buf[0].n == n && buf[0].sumg == sum, "large", "one blob of %ld pixels, brightness %ld: %d targets found, the first of %d pixels, brightness %d", n, sum, k, buf[0].n, buf[0].sumg); state(hash_v(n));
}

/* ---- peak_fit: the same limits; touching peaks are united by rules of its own, so the oracle is conservation ---- */
/* the definition of the second detector: a peak is grown around every local maximum (as above, but pixels stay above the threshold for others, and brightness counts in full); a peak is united with the first of its (up to three) neighbours that it is not separated from by a valley deeper than the discontinuity */
static std::vector<T> peak_reference(const Img& im, int W, int H, const Par& p, bool& amb) {
    int xa = std::max(1, p.x0), ya = std::max(1, p.y0), xb = std::min(W - 1, p.x1), yb = std::min(H, p.y1); static std::vector<int> lab; lab.assign(W * H, 0); amb = false; struct Pk { int sx, sy; long n, s; double x, y; int x0, x1, y0, y1; std::vector<int> touch; int to; }; static std::vector<Pk> pk; pk.clear(); static const int DX[] = {-1, 1, 0, 0}, DY[] = {0, 0, -1, 1};
    for (int y = ya; y < yb - 1; y++) for (int x = xa; x < xb; x++) {
        if (im[y * W + x] <= p.thres || lab[y * W + x]) continue; bool top = true; for (int j = -1; j <= 1; j++) for (int i = -1; i <= 1; i++) if (im[(y + j) * W + x + i] > im[y * W + x]) top = false; if (!top) continue;
        pk.push_back({x, y, 0, 0, 0, 0, 1 << 30, -1, 1 << 30, -1, {}, -1}); int me = pk.size(); lab[y * W + x] = me; bool more = true;
        while (more) { more = false; for (int v = ya; v < yb - 1; v++) for (int u = xa; u < xb; u++) { if (lab[v * W + u] || im[v * W + u] <= p.thres) continue; for (int k = 0; k < 4; k++) { int pu = u + DX[k], pv = v + DY[k]; if (lab[pv * W + pu] != me) continue; int lim = im[pv * W + pu] + p.disco; bool ok = im[v * W + u] <= lim; for (int q = 0; q < 4; q++) if (im[(v + DY[q]) * W + u + DX[q]] > lim) ok = false; if (ok) { lab[v * W + u] = me; more = true; break; } } } } }
    for (int y = ya; y < yb; y++) for (int x = xa; x < xb; x++) if (int l = lab[y * W + x]) { Pk& q = pk[l - 1]; int g = im[y * W + x]; q.n++; q.s += g; q.x += (double)x * g; q.y += (double)y * g; q.x0 = std::min(q.x0, x); q.x1 = std::max(q.x1, x); q.y0 = std::min(q.y0, y); q.y1 = std::max(q.y1, y);
        for (int j = -1; j <= 1; j++) for (int i = -1; i <= 1; i++) { int u = x + i, v = y + j; if (u < 0 || u >= W || v < 0 || v >= H || !lab[v * W + u] || lab[v * W + u] == l) continue; int o = lab[v * W + u] - 1; if (q.touch.size() < 3 && std::find(q.touch.begin(), q.touch.end(), o) == q.touch.end()) q.touch.push_back(o); } }
    auto close_ = [](double v) { double r = fabs(v - floor(v + 0.5)); return r > 0 && r < 1e-9; };
    for (size_t i = 0; i < pk.size(); i++) { if (pk[i].to >= 0) continue; for (int o : pk[i].touch) { if (pk[o].to >= 0) continue; double x1 = pk[i].x / pk[i].s, y1 = pk[i].y / pk[i].s, x2 = pk[o].x / pk[o].s, y2 = pk[o].y / pk[o].s, d = hypot(x2 - x1, y2 - y1); int g1 = im[pk[i].sy * W + pk[i].sx], g2 = im[pk[o].sy * W + pk[o].sx]; bool one = true; if (close_(d)) amb = true;
            if (d >= 2) for (int l = 1; l < d; l++) { double u = x1 + l * (x2 - x1) / d, v = y1 + l * (y2 - y1) / d, line = g1 + l * (g2 - g1) / d; if (close_(u) || close_(v)) amb = true; int g = im[(int)v * W + (int)u] + p.disco; if (fabs(g - line) < 1e-9 && g1 != g2) amb = true; if (g < line || g < g1 || g < g2) { one = false; break; } }
            if (!one) continue; pk[i].to = o; Pk &a = pk[i], &b = pk[o]; b.n += a.n; b.s += a.s; b.x += a.x; b.y += a.y; b.x0 = std::min(b.x0, a.x0); b.y0 = std::min(b.y0, a.y0); b.x1 = std::max(b.x1, a.x1); b.y1 = std::max(b.y1, a.y1); break; } }
    std::vector<T> out; for (auto& q : pk) { if (q.to >= 0) continue; if (xb - xa > 32 && (q.x0 == xa || q.y0 == ya || q.x1 == xb - 1 || q.y1 == yb - 1)) continue; T t = {(int)q.n, q.x1 - q.x0 + 1, q.y1 - q.y0 + 1, (int)q.s, q.x / q.s + 0.5, q.y / q.s + 0.5}; if (t.n >= p.nn[0] && t.n <= p.nn[1] && t.nx >= p.nx[0] && t.nx <= p.nx[1] && t.ny >= p.ny[0] && t.ny <= p.ny[1] && t.sumg > p.sumg) out.push_back(t); }
    return out;
}
static void check_peaks(const Img& im, int W, int H, const Par& p, std::vector<target>& buf) {
    static Img copy; copy = im; target_par tp = settings(p, 2); control_par c; memset(&c, 0, sizeof c); c.imx = W; c.imy = H; step(); int n = peak_fit((unsigned char*)im.data(), &tp, p.x0, p.x1, p.y0, p.y1, &c, 2, buf.data()); MC_CHECK(im == copy, "peak-image", "%s: the image was modified", show(copy, W, H, p).c_str());
    int xa = std::max(0, p.x0), xb = std::min(W, p.x1), ya = std::max(0, p.y0), yb = std::min(H, p.y1); long pix = 0, sum = 0, num = 0, s2 = 0; for (int y = ya; y < yb; y++) for (int x = xa; x < xb; x++) if (im[y * W + x] > p.thres) { num++; s2 += im[y * W + x]; }
    bool amb; auto want = peak_reference(im, W, H, p, amb); if (!amb) { MC_CHECK(n == (int)want.size(), "peaks", "%s: %d peak targets found, expected %zu", show(im, W, H, p).c_str(), n, want.size()); for (int i = 0; i < n; i++) { auto& q = buf[i]; auto& w = want[i]; MC_CHECK(q.n == w.n && q.nx == w.nx && q.ny == w.ny && q.sumg == w.sumg && fabs(q.x - w.x) < 1e-9 * W && fabs(q.y - w.y) < 1e-9 * H, "peak-target", "%s: peak target %d has n %d nx %d ny %d brightness %d at (%g,%g), expected %d %d %d %d at (%g,%g)", show(im, W, H, p).c_str(), i, q.n, q.nx, q.ny, q.sumg, q.x, q.y, w.n, w.nx, w.ny, w.sumg, w.x, w.y); } }
    MC_CHECK(n >= 0 && n <= num, "peak-count", "%s: %d targets from %ld bright pixels", show(im, W, H, p).c_str(), n, num);
    for (int i = 0; i < n; i++) { auto& q = buf[i]; pix += q.n; sum += q.sumg; MC_CHECK(q.pnr == i && q.tnr == CORRES_NONE, "peak-number", "%s: peak target %d is numbered %d", show(im, W, H, p).c_str(), i, q.pnr); MC_CHECK(q.n >= p.nn[0] && q.n <= p.nn[1] && q.nx >= p.nx[0] && q.nx <= p.nx[1] && q.ny >= p.ny[0] && q.ny <= p.ny[1] && q.sumg > p.sumg, "peak-limits", "%s: peak target %d (n %d nx %d ny %d brightness %d) is outside the limits", show(im, W, H, p).c_str(), i, q.n, q.nx, q.ny, q.sumg);
        MC_CHECK(q.n <= q.nx * q.ny && q.nx <= xb - xa && q.ny <= yb - ya && q.sumg > (long)q.n * p.thres && q.sumg <= q.n * 255 && q.x - 0.5 >= xa - 1e-9 && q.x - 0.5 <= xb - 1 + 1e-9 && q.y - 0.5 >= ya - 1e-9 && q.y - 0.5 <= yb - 1 + 1e-9, "peak-shape", "%s: peak target %d is impossible: n %d nx %d ny %d brightness %d at (%g,%g)", show(im, W, H, p).c_str(), i, q.n, q.nx, q.ny, q.sumg, q.x, q.y); acc = hash_v(q.n * 1000 + q.sumg, acc); }
    MC_CHECK(pix <= num && sum <= s2, "peak-twice", "%s: the peak targets together have %ld pixels of brightness %ld, the image has %ld of %ld: pixels are counted twice", show(im, W, H, p).c_str(), pix, sum, num, s2);
}
SCENARIO(peak_small) {
    int W = pick({5, 4, 6}), H = 9 - W, set = choose(2), frame_ = choose(2); static int V[2][3] = {{0, 8, 9}, {10, 200, 255}}; Img im(W * H); for (auto& x : im) x = frame_ ? 200 : 0; im.shrink_to_fit(); int fx = W - 2, fy = H - 2, nf = fx * fy; int pre[4]; for (int& x : pre) x = choose(3); std::vector<target> buf(W * H + 1); acc = W; int rest = pow(3, nf - 4) + 0.5; 
    for (int r = 0; r < rest; r++) { int q = r; for (int k = 0; k < nf; k++) { int v = k < 4 ? pre[k] : q % 3; if (k >= 4) q /= 3; im[(1 + k / fx) * W + 1 + k % fx] = V[set][v]; } for (int th : {5, 100}) for (int d : {0, 1, 60}) check_peaks(im, W, H, open_(th, d, W, H), buf); }
    state(acc);
}
/* one row/column and whole images: the border is part of the image, what is beyond is not */
SCENARIO(peak_edges) {
    int W = pick({2, 3, 5, 8}), H = pick({2, 3, 5, 8}), kind = choose(5), ax = choose(3); Img im(W * H); for (int i = 0; i < W * H; i++) { int x = i % W, y = i / W; im[i] = kind == 0 ? 200 : kind == 1 ? (x * 7 + y * 13) % 5 * 50 : kind == 2 ? 250 - 20 * abs(x - W / 2) - 25 * abs(y - H / 2) : kind == 3 ? ((x + y) % 2 ? 255 : 0) : (x * y * 37 + 11 * x) % 251; } im.shrink_to_fit(); std::vector<target> buf(W * H + 1); acc = 1;
    for (int bx = ax; bx <= W; bx++) for (int ay = 0; ay < 2; ay++) for (int by = ay; by <= H; by++) for (int d : {0, 3, 100}) { Par p = open_(20, d, W, H); p.x0 = ax; p.x1 = bx; p.y0 = ay; p.y1 = by; check_peaks(im, W, H, p, buf); } state(acc);
}
/* separate blobs (no touching): exactly these, with the plain grey-weighted centre */
SCENARIO(peak_separate) {
    int W = 40, H = pick({12, 50}), n = 1 + choose(3), step_ = pick({5, 7}); Img im(W * H); struct B { int x, y, w, h; long n, s; double sx, sy; }; std::vector<B> bl; int fall = pick({10, 60}); for (int k = 0; k < n; k++) { B b = {4 + step_ * 2 * k, 3 + (k % 2) * 4, 1 + choose(3), 1 + choose(3), 0, 0, 0, 0}; for (int y = 0; y < b.h; y++) for (int x = 0; x < b.w; x++) { int v = 180 + 10 * k - fall * std::max(abs(x - b.w / 2), abs(y - b.h / 2)); im[(b.y + y) * W + b.x + x] = v; b.n++; b.s += v; b.sx += (double)v * (b.x + x); b.sy += (double)v * (b.y + y); } bl.push_back(b); }
    Par p = open_(20, 5, W, H); target_par tp = settings(p, 1); control_par c; memset(&c, 0, sizeof c); c.imx = W; c.imy = H; std::vector<target> buf(50); int k = peak_fit(im.data(), &tp, 0, W, 0, H, &c, 1, buf.data()); step(); MC_CHECK(k == n, "peak-separate", "%d separate blobs, %d targets", n, k); std::vector<bool> used(n);
    for (int i = 0; i < k; i++) { bool ok = false; for (int j = 0; j < n; j++) { B& b = bl[j]; if (!used[j] && buf[i].n == b.n && buf[i].nx == b.w && buf[i].ny == b.h && buf[i].sumg == b.s && fabs(buf[i].x - 0.5 - b.sx / b.s) < 1e-9 && fabs(buf[i].y - 0.5 - b.sy / b.s) < 1e-9) { ok = used[j] = true; break; } } MC_CHECK(ok, "peak-blob", "target %d (n %d nx %d ny %d brightness %d at (%g,%g)) is none of the %d blobs", i, buf[i].n, buf[i].nx, buf[i].ny, buf[i].sumg, buf[i].x, buf[i].y, n); } state(hash_v(bl[0].s, n));
}
/* two peaks at every offset: united or not by the valley between them; in wide images also at the borders */
SCENARIO(peak_pairs) {
    int wide = choose(2), W = wide ? 36 : 13, H = 11, dx = choose(9), dy = choose(6), p1 = pick({60, 200, 255}), p2 = pick({60, 199, 255}), fall = pick({7, 25, 70}), at = wide ? choose(4) : 0, ax = at == 0 ? 2 : at == 1 ? 0 : at == 2 ? W - 5 : 15, ay = at == 3 ? 0 : 2; Img im(W * H); std::vector<target> buf(W * H); acc = 1; for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) { int a = p1 - fall * (abs(x - ax) + abs(y - ay)), b = p2 - fall * std::max(abs(x - ax - dx), abs(y - ay - dy)); im[y * W + x] = std::max({0, a, b}); }
    for (int th : {0, 30, 59, 150}) for (int d : {0, 1, 20, 51, 200}) { Par p = open_(th, d, W, H); check_peaks(im, W, H, p, buf); p.nn[0] = 3; p.nn[1] = 9; check_peaks(im, W, H, p, buf); p.sumg = 300; p.nx[0] = 2; p.ny[1] = 3; check_peaks(im, W, H, p, buf); p = open_(th, d, W, H); p.nx[1] = 4; p.ny[0] = 3; check_peaks(im, W, H, p, buf); p = open_(th, d, W, H); p.nx[0] = 3; p.nx[1] = 5; p.ny[0] = 2; p.ny[1] = 4; check_peaks(im, W, H, p, buf); }
    state(acc);
}
/* three and four peaks around each other: chains and rings of unions */
SCENARIO(peak_groups) {
    int W = 12, H = 10, n = 3 + choose(2); static const int X[] = {2, 5, 4, 8}, Y[] = {2, 3, 6, 5}; Img im(W * H); int fall = pick({15, 40}); std::vector<target> buf(W * H); acc = n; for (int k = 0; k < n; k++) { int px = X[k] + choose(2), py = Y[k] + choose(2), g = pick({90, 140, 255}); for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) im[y * W + x] = std::max<int>(im[y * W + x], g - fall * (abs(x - px) + abs(y - py))); }
    for (int th : {0, 40}) for (int d : {0, 10, 45, 120}) check_peaks(im, W, H, open_(th, d, W, H), buf);
    state(acc);
}
/* very many peaks, and a very large one */
SCENARIO_N(peak_many, 4, 300) {
    int which = choose(4); int W = which < 2 ? 200 : which == 2 ? 420 : 1300, H = which == 0 ? 100 : which == 1 ? 180 : which == 2 ? 400 : 1300; Img im(W * H); long want = 0, n = 0; for (int y = 2; y < H - 2; y++) for (int x = 2; x < W - 2; x++) if (which == 3 ? abs(x - W / 2) + abs(y - H / 2) < 600 : x % 2 == 0 && y % 2 == 0) { im[y * W + x] = which == 3 ? 200 - (abs(x - W / 2) + abs(y - H / 2)) / 6 : 100 + (x * 3 + y) % 100; n++; want++; } if (which == 3) want = 1;
    Par p = open_(20, 5, W, H); target_par tp = settings(p, 1); tp.nnmax = tp.nxmax = tp.nymax = 1 << 30; control_par c; memset(&c, 0, sizeof c); c.imx = W; c.imy = H; std::vector<target> buf(n + 1); int k = peak_fit(im.data(), &tp, 0, W, 0, H, &c, 1, buf.data()); step(); MC_CHECK(k == want, "peak-many", "%ld peaks, %d targets found", want, k); state(hash_v(want));
}
