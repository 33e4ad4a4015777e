/* C22: image filters. */
#include "optv.h"
#include "io.h"
using namespace mc;
typedef std::vector<unsigned char> Img;
static control_par* cp(int w, int h, int field = 0) { static control_par c; memset(&c, 0, sizeof c); c.imx = w; c.imy = h; c.chfield = field; c.num_cams = 1; return &c; }
static Img image(int kind, int w, int h) {
    Img im(w * h); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { int v = 0; switch (kind) { case 0: v = 0; break; case 1: v = 255; break; case 2: v = (x + y) % 2 ? 255 : 0; break; case 3: v = (13 * x + 37 * y + x * y) % 256; break; case 4: v = x % 2 ? 255 : 3; break; case 5: v = y % 2 ? 250 : 0; break; case 6: v = (x * 255) / std::max(1, w - 1); break; case 7: v = 255 - ((x + y) % 4 == 1); break; case 8: v = (3 * x + y) % 7 < 2; break; default: v = (x == w - 1 || y == h - 1 || !x || !y) ? 255 : 1; } im[y * w + x] = v; } return im;
}
enum { KINDS = 10 };
/* definitions */
static double lin3(const Img& im, int w, int i, const double* f) { double s = 0; for (int a = -1; a <= 1; a++) for (int b = -1; b <= 1; b++) s += f[(a + 1) * 3 + b + 1] * im[i + a * w + b]; return s; }
static void check_filter(const Img& src, const Img& before, const Img& got, int w, int h, const double* f, const char* what) {
    double sum = 0; for (int i = 0; i < 9; i++) sum += f[i];
    for (int i = 0; i < w * h; i++) { if (i < w || i >= w * h - w) { MC_CHECK(got[i] == before[i], "filter-border", "%s: %dx%d: pixel %d of the first/last line changed from %d to %d", what, w, h, i, before[i], got[i]); continue; }
        if (i == w || i == w * h - w - 1) { /* the corner at which the wrap-around would leave the image */ MC_CHECK(got[i] == before[i], "filter-corner", "%s: %dx%d: corner pixel %d changed", what, w, h, i); continue; }
        double v = lin3(src, w, i, f) / sum; auto clip = [](double x) { return x > 255 ? 255 : x < 8 ? 8 : (int)x; }; MC_CHECK(got[i] == clip(v) || got[i] == clip(v + 1e-6) || got[i] == clip(v - 1e-6), "filter", "%s: %dx%d: pixel (%d,%d) is %d, its definition is %.9g", what, w, h, i % w, i / w, got[i], v); }
}
struct F { const char* name; double f[9]; };
static const std::vector<F>& filters() { static std::vector<F> v = {{"identity", {0, 0, 0, 0, 1, 0, 0, 0, 0}}, {"mean", {1, 1, 1, 1, 1, 1, 1, 1, 1}}, {"sharpen", {0, -1, 0, -1, 5, -1, 0, -1, 0}}, {"strong sharpen", {-1, -1, -1, -1, 9, -1, -1, -1, -1}}, {"positions", {1, 2, 3, 4, 5, 6, 7, 8, 9}}, {"negative", {-1, -2, -1, -2, 4, -2, -1, -2, -1}}, {"large", {0, 0, 0, 0, 300, 0, 0, 0, -299}}, {"fraction", {0.25, 0.5, 0.25, 0.5, 1.3, 0.5, 0.25, 0.5, 0.25}}, {"amplify", {0, 0, 0.01, 0, 0, 0, -0.005, 0, 0}}, {"shift", {1, 0, 0, 0, 0, 0, 0, 0, 0}}, {"tiny", {1e-12, 0, 0, 0, 0, 0, 0, 0, 1e-12}}}; return v; }
static const std::vector<F>& zeros() { static std::vector<F> v = {{"zero", {0, 0, 0, 0, 0, 0, 0, 0, 0}}, {"laplace", {0, -1, 0, -1, 4, -1, 0, -1, 0}}, {"gradient", {-1, 0, 1, -2, 0, 2, -1, 0, 1}}}; return v; }

/* all 3x3 .. 5x3, 3x5 images over two or three grey values under every filter */
SCENARIO_N(small_filter, 8, 120) {
    static const int S[][2] = {{3, 3}, {4, 3}, {3, 4}, {5, 3}}; int s = choose(4), w = S[s][0], h = S[s][1]; int base = s == 0 ? 3 : 2; const F& f = filters()[choose(filters().size())]; static const int G[3][3] = {{0, 255, 9}, {7, 200, 64}, {250, 11, 8}}; int g = choose(3); long n = 1; for (int i = 0; i < w * h; i++) n *= base; long blocks = 8, b = choose(blocks); uint64_t acc = 1;
    control_par* c = cp(w, h); filter_t ft; memcpy(ft, f.f, sizeof ft);
    for (long k = b; k < n; k += blocks) { Img im(w * h); long q = k; for (auto& p : im) { p = G[g][q % base]; q /= base; } Img out(w * h, 77), before = out, keep = im; int r = filter_3(im.data(), out.data(), ft, c); step(); MC_CHECK(r == 1 && im == keep, "filter-status", "%s: returned %d or changed its input", f.name, r); check_filter(im, before, out, w, h, f.f, f.name); acc = hash(out.data(), out.size(), acc);
        if (f.f[0] == 1 && f.f[8] == 1) { Img o2(w * h, 78), b2 = o2; lowpass_3(im.data(), o2.data(), c); step(); for (int i = 0; i < w * h; i++) { if (i <= w || i >= w * h - w - 1) MC_CHECK(o2[i] == 78, "lowpass-border", "lowpass: %dx%d: pixel %d outside the range is %d", w, h, i, o2[i]); else { int v = (int)lin3(im, w, i, f.f) / 9; MC_CHECK(o2[i] == v, "lowpass", "lowpass: %dx%d: pixel %d is %d, expected %d", w, h, i, o2[i], v); } } acc = hash(o2.data(), o2.size(), acc); }
        evals(1); }
    state(acc);
}
/* larger and degenerate sizes: patterns and an impulse at every pixel */
SCENARIO(sizes_filter) {
    int w = pick({1, 2, 3, 4, 7, 16, 33}), h = pick({1, 2, 3, 4, 5, 11, 20}); int fi = choose(filters().size() + zeros().size()); control_par* c = cp(w, h); uint64_t acc = 1; filter_t ft; bool zero = fi >= (int)filters().size(); const F& f = zero ? zeros()[fi - filters().size()] : filters()[fi]; memcpy(ft, f.f, sizeof ft);
    int imp = thorough ? w * h : std::min(w * h, 40);
    for (int k = 0; k < KINDS + 2 * imp; k++) { Img im; if (k < KINDS) im = image(k, w, h); else { int at = (k - KINDS) / 2; im = Img(w * h, k % 2 ? 100 : 255); im[thorough ? at : (at * 7919) % (w * h)] = k % 2 ? 255 : 20; }
        Img out(w * h), keep = im; for (size_t i = 0; i < out.size(); i++) out[i] = 100 + i % 50; Img before = out; int r = filter_3(im.data(), out.data(), ft, c); step(); MC_CHECK(im == keep, "filter-input", "%s: the input was changed", f.name);
        if (zero) MC_CHECK(r == 0, "filter-unusable", "%s: a filter with the sum 0 was accepted", f.name); else { MC_CHECK(r == 1, "filter-status", "%s: %dx%d: refused", f.name, w, h); if (h >= 3 && w >= 2) check_filter(im, before, out, w, h, f.f, f.name); else MC_CHECK(out == before || w < 2, "filter-empty", "%s: %dx%d: something was written", f.name, w, h); }
        Img o2(w * h, 78); lowpass_3(im.data(), o2.data(), c); step(); for (int i = 0; i < w * h; i++) { if (i <= w || i >= w * h - w - 1) MC_CHECK(o2[i] == 78, "lowpass-border", "lowpass: %dx%d: pixel %d outside the range is %d", w, h, i, o2[i]); else { static const double one[9] = {1, 1, 1, 1, 1, 1, 1, 1, 1}; int v = (int)lin3(im, w, i, one) / 9; MC_CHECK(o2[i] == v, "lowpass", "lowpass: %dx%d: pixel %d is %d, expected %d", w, h, i, o2[i], v); } }
        acc = hash(out.data(), out.size(), acc); }
    state(acc);
}
static bool blur_ok(int span, int w, int h) { return span >= 0 && 2 * span + 1 <= w && 2 * span + 1 <= h; }
static void check_blur(const Img& im, const Img& out, int w, int h, int span, const char* what) {
    std::vector<long> S((w + 1) * (h + 1), 0); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) S[(y + 1) * (w + 1) + x + 1] = im[y * w + x] + S[y * (w + 1) + x + 1] + S[(y + 1) * (w + 1) + x] - S[y * (w + 1) + x];
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { int rx = std::min({span, x, w - 1 - x}), ry = std::min({span, y, h - 1 - y}); long s = S[(y + ry + 1) * (w + 1) + x + rx + 1] - S[(y - ry) * (w + 1) + x + rx + 1] - S[(y + ry + 1) * (w + 1) + x - rx] + S[(y - ry) * (w + 1) + x - rx]; long m = s / ((2 * rx + 1) * (2 * ry + 1)); int g = out[y * w + x];
        bool inner = rx == span || rx == 0; long k = (2 * rx + 1) * (2 * ry + 1); /* the sum of a narrowed row is rounded down once, at most 1 of 2*span+1 */ MC_CHECK(g == m || (!inner && g == m - 1 && (s - m * k) * (2 * span + 1) < k), "blur", "%s: %dx%d, span %d: pixel (%d,%d) is %d, the mean of its window is %ld", what, w, h, span, x, y, g, m); }
}
SCENARIO_N(blur, 8, 120) {
    int w = pick({1, 2, 3, 4, 5, 7, 8, 12, 25}), h = pick({1, 2, 3, 4, 5, 6, 9, 14, 24}); int span = choose(14); control_par* c = cp(w, h); uint64_t acc = 1; bool ok = blur_ok(span, w, h); size_t live = 0; int imp = !ok ? 2 : thorough ? w * h : std::min(w * h, 60);
    for (int k = 0; k < KINDS + 2 * imp; k++) { Img im; if (k < KINDS) im = image(k, w, h); else { int at = (k - KINDS) / 2; im = Img(w * h, k % 2 ? 0 : 255); im[thorough ? at : (at * 31) % (w * h)] = k % 2 ? 255 : 0; }
        Img out(w * h, 99), keep = im; size_t l0 = live_bytes(); int r = fast_box_blur(span, im.data(), out.data(), c); step(); MC_CHECK(im == keep && live_bytes() == l0, "blur-side", "%dx%d, span %d: the input changed or memory was kept", w, h, span); MC_CHECK(r == ok, "blur-status", "%dx%d, span %d: returned %d", w, h, span, r); if (ok) check_blur(im, out, w, h, span, "box blur"); acc = hash(out.data(), out.size(), acc); }
    state(acc);
}
SCENARIO_N(blur_large, 8, 120) { int w = pick({230, 411}), h = pick({229, 420}), span = pick({100, 101, 102, 107, 114}), k = choose(KINDS); Img im = image(k, w, h), out(w * h, 99); int r = fast_box_blur(span, im.data(), out.data(), cp(w, h)); step(); MC_CHECK(r == blur_ok(span, w, h), "blur-status", "%dx%d, span %d: returned %d", w, h, span, r); if (r) check_blur(im, out, w, h, span, "box blur"); state(hash(out.data(), out.size())); }
/* every small image */
SCENARIO_N(blur_small, 8, 120) { static const int S[][3] = {{3, 3, 1}, {4, 3, 1}, {3, 4, 1}, {5, 3, 1}, {2, 4, 0}}; int s = choose(5), w = S[s][0], h = S[s][1], b = choose(8); uint64_t acc = 1; static const int G[2][3] = {{0, 255, 128}, {1, 2, 254}}; int g = choose(2); long n = pow(s ? 2 : 3, w * h);
    for (long k = b; k < n; k += 8) { Img im(w * h), out(w * h, 9); long q = k; for (auto& p : im) { p = G[g][q % (s ? 2 : 3)]; q /= s ? 2 : 3; } int r = fast_box_blur(S[s][2], im.data(), out.data(), cp(w, h)); step(); MC_CHECK(r == 1, "blur-status", "refused"); check_blur(im, out, w, h, S[s][2], "box blur"); evals(1); acc = hash(out.data(), out.size(), acc); } state(acc); }

static Img ref_split(Img im, int w, int h, int sel) { if (!sel) return im; Img src = im; for (int r = 0; r < h / 2; r++) for (int x = 0; x < w; x++) im[r * w + x] = src[(2 * r + sel % 2) * w + x]; for (int i = w * h / 2; i < w * h; i++) im[i] = 2; return im; }
SCENARIO(split_copy) { int w = choose(6) + 1, h = choose(9) + 1, sel = choose(3), k = choose(KINDS); Img im = image(k, w, h), src = im; split(im.data(), sel, cp(w, h)); step(); MC_CHECK(im == ref_split(src, w, h, sel), "split", "%dx%d, half %d, pattern %d: wrong lines or lower half", w, h, sel, k);
    Img o(w * h, 7), keep = src; copy_images(src.data(), o.data(), cp(w, h)); step(); MC_CHECK(o == src && src == keep, "copy", "%dx%d: the copy differs", w, h); state(hash(im.data(), im.size())); }
/* every pair of grey values, separate and in place */
SCENARIO(arithmetic) { int alias = choose(3), op = choose(2), blk = choose(16), w = 256, h = 16; Img a(w * h), b(w * h), o(w * h, 5); for (int i = 0; i < w * h; i++) { a[i] = i % 256; b[i] = blk * 16 + i / 256; } Img A = a, B = b; Img &dst = alias == 0 ? o : alias == 1 ? a : b; if (op) subtract_mask(a.data(), b.data(), dst.data(), cp(w, h)); else subtract_img(a.data(), b.data(), dst.data(), cp(w, h)); step();
    for (int i = 0; i < w * h; i++) { int e = op ? (B[i] ? A[i] : 0) : std::max(0, A[i] - B[i]); MC_CHECK(dst[i] == e, op ? "mask" : "subtract", "%s of %d and %d (result in %s) is %d, expected %d", op ? "mask" : "difference", A[i], B[i], alias == 0 ? "a third image" : alias == 1 ? "the first" : "the second", dst[i], e); } MC_CHECK((alias == 1 || a == A) && (alias == 2 || b == B), "arith-side", "an input was changed"); evals(w * h); state(hash(dst.data(), dst.size())); }

/* preparation: blur, subtraction, interlace, filter; and every kind of bad filter file */
SCENARIO(prepare) {
    static const int S[][2] = {{3, 3}, {4, 6}, {7, 5}, {16, 11}, {33, 21}, {2, 5}}; int s = choose(6), w = S[s][0], h = S[s][1], span = choose(5), hp = choose(3), field = choose(4), k = choose(KINDS); control_par* c = cp(w, h, field); const F* f = hp == 2 ? &filters()[choose(filters().size())] : 0; std::string fn = scratch + "/filt"; if (f) { std::string t; for (int i = 0; i < 9; i++) t += strf("%.17g%s", f->f[i], i % 3 == 2 ? "\n" : " "); put(fn, t); } Z z(fn);
    Img im = image(k, w, h), keep = im, out(w * h, 201); size_t l0 = live_bytes(); int o0 = open_files(); int r = prepare_image(im.data(), out.data(), span, hp, z, c); step(); MC_CHECK(live_bytes() == l0 && open_files() == o0, "prepare-leak", "%dx%d span %d filter %d: memory or a file was kept", w, h, span, hp); MC_CHECK(im == keep, "prepare-input", "%dx%d span %d filter %d field %d: the image itself was changed", w, h, span, hp, field); MC_CHECK(r == blur_ok(span, w, h), "prepare-status", "%dx%d span %d filter %d: returned %d", w, h, span, hp, r); if (!r) { state(1); return; }
    Img bl(w * h, 0); fast_box_blur(span, im.data(), bl.data(), c); check_blur(im, bl, w, h, span, "box blur"); Img e(w * h); for (int i = 0; i < w * h; i++) e[i] = std::max(0, im[i] - bl[i]); if (field == 1 || field == 2) e = ref_split(e, w, h, field);
    static const double one[9] = {1, 1, 1, 1, 1, 1, 1, 1, 1};
    if (hp == 0) MC_CHECK(out == e, "prepare", "%dx%d span %d field %d: wrong difference to the blurred image", w, h, span, field);
    if (hp == 2) { if (h >= 3 && w >= 2) check_filter(e, e, out, w, h, f->f, "prepared image"); }
    if (hp == 1) for (int i = 0; i < w * h; i++) { int v = i <= w || i >= w * h - w - 1 ? e[i] : (int)lin3(e, w, i, one) / 9; MC_CHECK(out[i] == v, "prepare-lowpass", "%dx%d span %d field %d: pixel (%d,%d) is %d, expected %d", w, h, span, field, i % w, i / w, out[i], v); }
    state(hash(out.data(), out.size()));
}
SCENARIO(filter_file) {
    int kind = choose(8); std::string full = "1 2 1\n2 4 2\n1 2 1", t = full; bool ok = true, unspec = false; std::string fn = scratch + "/filt"; del(fn); auto tk = tokens(full);
    switch (kind) { case 0: break; case 1: { int n = choose(tk.size()); t = full.substr(0, tk[n].at); ok = false; break; } case 2: { int n = choose(tk.size()); t.replace(tk[n].at, 1, pick({std::string("x"), std::string("-"), std::string("."), std::string("one"), std::string("#")})); ok = false; break; } case 3: t = "0 0 0 0 0 0 0 0 0"; ok = false; break; case 4: t = "1 1 1 1 -8 1 1 1 1"; ok = false; break; case 5: t = ""; ok = false; break; case 6: t = "1\t2  1 2\r\n\n4 2 1 2   1 more text 17"; break; case 7: ok = false; break; }
    if (kind != 7) put(fn, t); Z z(fn); int w = 9, h = 8; Img im = image(3, w, h), keep = im, out(w * h, 0); size_t l0 = live_bytes(); int o0 = open_files(); dirty_stack(choose(2) ? 0x3f : 0); int r = prepare_image(im.data(), out.data(), 1, 2, z, cp(w, h)); step(); MC_CHECK(im == keep && live_bytes() == l0 && open_files() == o0, "file-leak", "filter file of kind %d: memory or a file was kept, or the image changed", kind); MC_CHECK(r == ok, "filter-file", "filter file \"%s\"%s: returned %d", t.c_str(), kind == 7 ? " (missing)" : "", r);
    if (ok) { Img bl(w * h); fast_box_blur(1, im.data(), bl.data(), cp(w, h)); Img e(w * h); for (int i = 0; i < w * h; i++) e[i] = std::max(0, im[i] - bl[i]); double f[9] = {1, 2, 1, 2, 4, 2, 1, 2, 1}; check_filter(e, e, out, w, h, f, "filter from file"); } state(hash_v(r * 100 + kind)); del(fn);
}
