/* C04: writes that cannot be completed. */
#include "io.h"
#include <functional>
using namespace mc;

struct Job { std::string what; std::vector<std::string> files; std::function<int()> run; };
static Job job(int kind, int n) {
    Job j;
    if (kind == 0) {
        j.what = strf("%d targets", n); j.files = {"cam1.0005_targets"};
        j.run = [=] { std::vector<target> t; for (int i = 0; i < n; i++) t.push_back(mk_target(i)); t.push_back(junk_target(0)); return write_targets(t.data(), n, Z("cam1."), 5); };
    } else if (kind == 1 || kind == 2) {
        j.what = strf("%d particles%s", n, kind == 2 ? " with priorities" : ""); j.files = {"rt_is.5", "ptv_is.5"}; if (kind == 2) j.files.push_back("added.5");
        j.run = [=] { std::vector<P> p; std::vector<corres> c; for (int i = 0; i <= n; i++) { p.push_back(mk_path(i)); c.push_back(mk_cor(i)); } return write_path_frame(c.data(), p.data(), n, Z("rt_is"), Z("ptv_is"), kind == 2 ? (char*)Z("added") : nullptr, 5); };
    } else if (kind == 3 || kind == 4) {
        int cams = kind == 3 ? 1 : 3;
        j.what = strf("frame of %d cameras with %d particles and targets", cams, n); j.files = {"rt_is.5", "ptv_is.5", "added.5"}; for (int c = 0; c < cams; c++) j.files.push_back(strf("cam%d.0005_targets", c + 1));
        j.run = [=] {
            frame f; frame_init(&f, cams, n + 1); f.num_parts = n; for (int i = 0; i < n; i++) { f.path_info[i] = mk_path(i); f.correspond[i] = mk_cor(i); }
            std::vector<Z> z; std::vector<char*> tb; for (int c = 0; c < cams; c++) { z.push_back(Z(strf("cam%d.", c + 1))); f.num_targets[c] = n; for (int i = 0; i < n; i++) f.targets[c][i] = mk_target(i + c); } for (auto& x : z) tb.push_back(x);
            int r = write_frame(&f, Z("rt_is"), Z("ptv_is"), Z("added"), tb.data(), 5); free_frame(&f); return r; };
    } else if (kind == 5) {
        j.what = strf("first frame of a window with %d particles and targets", n); j.files = {"rt_is.5", "ptv_is.5", "added.5", "cam1.0005_targets", "cam2.0005_targets"};
        j.run = [=] {
            Z a("rt_is"), b("ptv_is"), d("added"), c1("cam1."), c2("cam2."); char* tb[] = {c1, c2}; framebuf fb; fb_init(&fb, 3, 2, n + 1, a, b, d, tb); frame* f = fb.base.buf[0];
            f->num_parts = n; for (int i = 0; i < n; i++) { f->path_info[i] = mk_path(i); f->correspond[i] = mk_cor(i); } for (int c = 0; c < 2; c++) { f->num_targets[c] = n; for (int i = 0; i < n; i++) f->targets[c][i] = mk_target(i + c); }
            int r = fb_write_frame_from_start(&fb.base, 5); fb_free(&fb.base); return r; };
    } else {
        bool add = kind != 7; j.what = kind == 8 ? "calibration" : add ? "orientation with distortion file" : "orientation only"; j.files = {"c.ori"}; if (add) j.files.push_back("c.addpar");
        j.run = [=] {
            Calibration c; memset(&c, 0, sizeof c); c.ext_par.x0 = 100.5 * n; c.ext_par.z0 = -20; c.ext_par.omega = 0.25; c.int_par.cc = 100; c.glass_par.vec_z = 50; c.added_par.scx = 1; c.added_par.k1 = 1e-4; rotation_matrix(&c.ext_par);
            return kind == 8 ? write_calibration(&c, Z("c.ori"), Z("c.addpar")) : write_ori(c.ext_par, c.int_par, c.glass_par, c.added_par, Z("c.ori"), add ? (char*)Z("c.addpar") : nullptr); };
    }
    return j;
}
enum { KINDS = 9 };
static std::vector<std::string> good(const Job& j) {
    for (auto& f : j.files) del(f);
    int r = j.run(); step(); MC_CHECK(r, "false-failure", "%s: stored without any fault, but failure reported", j.what.c_str());
    std::vector<std::string> g; for (auto& f : j.files) { MC_CHECK(exists(f), "no-file", "%s: %s was not written though success was reported", j.what.c_str(), f.c_str()); g.push_back(get(f)); del(f); }
    return g;
}
/* the device refuses everything after the first k bytes of each file */
static void full_after(int kind, int n, long k, const std::vector<std::string>* gp = nullptr) {
    Job j = job(kind, n); std::vector<std::string> g = gp ? *gp : good(j); bool fits = true; for (auto& s : g) fits = fits && (long)s.size() <= k;
    int r; { Quota q(k); r = j.run(); } step();
    if (!fits) { MC_CHECK(!r, "lost-data", "%s, device full after %ld bytes: success reported", j.what.c_str(), k); }
    else { MC_CHECK(r, "false-failure", "%s, device takes %ld bytes which is enough: failure reported", j.what.c_str(), k); for (size_t i = 0; i < g.size(); i++) MC_CHECK(get(j.files[i]) == g[i], "lost-data", "%s: %s differs from the undisturbed run", j.what.c_str(), j.files[i].c_str()); }
    std::string h; for (auto& f : j.files) { h += get(f); del(f); } state(hash_s(h, k * 10 + kind));
}
SCENARIO(device_full) {
    int kind = choose(KINDS), n = kind < 6 ? pick({0, 1, 2, 5}) : 1; Job j = job(kind, n); auto g = good(j); size_t mx = 0; for (auto& s : g) mx = std::max(mx, s.size());
    long k = choose(mx + 2); note("%s, device full after %ld bytes", j.what.c_str(), k); full_after(kind, n, k, &g);
}
/* files larger than the stdio buffer: cuts around every buffer boundary */
SCENARIO(device_full_large) {
    int kind = choose(6), n = pick({100, 250}); if (thorough) n *= 3; Job j = job(kind, n); auto g = good(j); std::vector<long> ks; size_t mx = 0; for (auto& s : g) mx = std::max(mx, s.size());
    if (thorough) for (size_t k = 0; k <= mx + 1; k++) ks.push_back(k);
    else { for (size_t b = 0; b <= mx; b += 4096) for (int o = -2; o <= 2; o++) if ((long)b + o >= 0) ks.push_back(b + o); for (auto& s : g) for (int o = -3; o <= 1; o++) ks.push_back(s.size() + o); for (size_t k = 0; k < mx; k += 509) ks.push_back(k); }
    full_after(kind, n, pick(ks), &g);
}
/* each file of the operation independently: stored, cannot be opened, or on a full device */
SCENARIO(each_file) {
    int kind = choose(KINDS), n = kind < 6 ? choose(3) : 1; Job j = job(kind, n); std::string d; bool ok = true; std::vector<int> how;
    for (auto& f : j.files) { int h = choose(3); how.push_back(h); if (h) { ok = false; d += f + (h == 1 ? " cannot be opened; " : " on a full device; "); } }
    for (auto& f : j.files) del(f);
    for (size_t i = 0; i < how.size(); i++) { if (how[i] == 1) mkdir(j.files[i].c_str(), 0777); if (how[i] == 2) symlink("/dev/full", j.files[i].c_str()); }
    int r = j.run(); step();
    for (auto& f : j.files) del(f);
    MC_CHECK(!!r == ok, ok ? "false-failure" : "lost-data", "%s: %s%s reported", j.what.c_str(), d.c_str(), r ? "success" : "failure");
    state(hash_s(d, kind * 4 + n));
}
/* histories: after a failed write, a repetition without fault stores everything and reports success */
SCENARIO(retry) {
    int kind = choose(KINDS), n = kind < 6 ? 1 + choose(2) : 1; Job j = job(kind, n); auto g = good(j); int tries = 1 + choose(2); std::string d;
    for (int t = 0; t < tries; t++) { long k = pick({0L, 1L, 10L, 40L}); Quota q(k); j.run(); step(); }
    int r = j.run(); step(); MC_CHECK(r, "false-failure", "%s: failure reported after the device has room again", j.what.c_str());
    for (size_t i = 0; i < g.size(); i++) { MC_CHECK(get(j.files[i]) == g[i], "lost-data", "%s: %s is incomplete after a retry", j.what.c_str(), j.files[i].c_str()); del(j.files[i]); }
    state(kind * 10 + n);
}
