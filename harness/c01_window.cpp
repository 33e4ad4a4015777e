/* C01: the tracking window as a rotating queue, against a reference queue. */
#include "io.h"
#include <deque>
#include <set>
using namespace mc;

/* what a frame holds, as plain values */
struct Content {
    bool known = true; int parts = 0; std::vector<P> p; std::vector<corres> c; std::vector<std::vector<target>> t;
};
static Content on_disk(int k, int cams, int links) {
    Content r; r.parts = 1 + k % 2; r.t.resize(cams);
    for (int i = 0; i < r.parts; i++) { P p = mk_path(i + 3 * k); if (!links) { p.prev = -1; p.next = -2; p.prio = 4; } r.p.push_back(p); corres c = mk_cor(i + k); c.nr = i + 1; r.c.push_back(c); }
    for (int c = 0; c < cams; c++) for (int i = 0; i < (k + c) % 3; i++) r.t[c].push_back(mk_target(10 * k + 3 * c + i));
    return r;
}
static std::string diff(const Content& e, const frame* f, int cams) {
    if (!e.known) return "";
    if (f->num_parts != e.parts) return strf("%d particles instead of %d", f->num_parts, e.parts);
    for (int i = 0; i < e.parts; i++) {
        const P &a = e.p[i], &b = f->path_info[i]; for (int j = 0; j < 3; j++) if (!same_d(a.x[j], b.x[j], 1e-3)) return strf("particle %d at x[%d]=%g instead of %g", i, j, b.x[j], a.x[j]);
        if (a.prev != b.prev || a.next != b.next || a.prio != b.prio) return strf("particle %d has prev %d next %d prio %d instead of %d %d %d", i, b.prev, b.next, b.prio, a.prev, a.next, a.prio);
        for (int j = 0; j < 4; j++) if (e.c[i].p[j] != f->correspond[i].p[j]) return strf("particle %d correspondence %d", i, j);
    }
    if (f->num_cams != cams) return strf("%d cameras", f->num_cams);
    for (int c = 0; c < cams; c++) { if (f->num_targets[c] != (int)e.t[c].size()) return strf("camera %d: %d targets instead of %d", c, f->num_targets[c], (int)e.t[c].size()); for (int i = 0; i < f->num_targets[c]; i++) if (!same_target(e.t[c][i], f->targets[c][i])) return strf("camera %d target %d", c, i); }
    return "";
}
/* raw bytes of a frame, for "not touched at all" */
static uint64_t raw(const frame* f) { uint64_t h = hash_v(f->num_parts, hash(f->path_info, f->max_targets * sizeof(P), hash(f->correspond, f->max_targets * sizeof(corres)))); for (int c = 0; c < f->num_cams; c++) h = hash(f->targets[c], f->max_targets * sizeof(target), hash_v(f->num_targets[c], h)); return h; }
static std::string mem(const frame* f) { return std::string((char*)f, sizeof *f); }

/* prios: whether the window was given a priority file name */
static void explore_window(int N, int cams, int depth, int prefill, bool prios = true) {
    Z cn("rt_is"), ln("ptv_is"), an("added"); std::vector<Z> z; std::vector<char*> tb; for (int c = 0; c < cams; c++) z.push_back(Z(strf("cam%d.", c + 1))); for (auto& x : z) tb.push_back(x);
    std::string dir = mc::scratch + strf("/c%d", cams); mkdir(dir.c_str(), 0777); if (chdir(dir.c_str())) _exit(32);
    /* frames 1..4 are on disk, 5 lacks its last target file, 6 its links file, 7 everything */
    { frame f; frame_init(&f, cams, 8);
      for (int k = 1; k <= 6; k++) { if (exists(strf("rt_is.%d", k))) continue; Content c = on_disk(k, cams, 1); f.num_parts = c.parts; for (int i = 0; i < c.parts; i++) { f.path_info[i] = c.p[i]; f.correspond[i] = c.c[i]; } for (int m = 0; m < cams; m++) { f.num_targets[m] = c.t[m].size(); std::copy(c.t[m].begin(), c.t[m].end(), f.targets[m]); } write_frame(&f, cn, ln, an, tb.data(), k); if (k == 5) del(strf("cam%d.0005_targets", cams)); if (k == 6) del("ptv_is.6"); }
      free_frame(&f); }
    framebuf fb; fb_init(&fb, N, cams, 8, cn, ln, prios ? (char*)an : nullptr, tb.data()); framebuf_base* b = &fb.base; step();
    std::string d = strf("window of %d frames, %d cameras:", N, cams);
    MC_CHECK(b->buf_len == N && b->num_cams == cams, "init", "%s length %d cameras %d after construction", d.c_str(), b->buf_len, b->num_cams);
    std::deque<frame*> ptr; std::deque<Content> model; std::set<frame*> distinct;
    for (int i = 0; i < N; i++) { frame* f = b->buf[i]; ptr.push_back(f); distinct.insert(f); Content e; e.t.resize(cams); model.push_back(e); MC_CHECK(f->num_cams == cams && f->max_targets == 8, "init", "%s frame %d built for %d cameras, %d targets", d.c_str(), i, f->num_cams, f->max_targets); MC_CHECK(diff(e, f, cams).empty(), "init", "%s frame %d is not empty", d.c_str(), i); }
    MC_CHECK((int)distinct.size() == N, "init", "%s only %d distinct frames", d.c_str(), (int)distinct.size());
    std::set<void*> stores; for (auto f : distinct) { stores.insert(f->path_info); stores.insert(f->correspond); for (int c = 0; c < cams; c++) stores.insert(f->targets[c]); } MC_CHECK((int)stores.size() == N * (2 + cams), "init", "%s frames share storage", d.c_str());
    for (int i = 0; i < prefill; i++) { b->_vptr->read_frame_at_end(b, 1 + i % 4, 1); model.back() = on_disk(1 + i % 4, cams, 1); if (!prios) for (auto& p : model.back().p) p.prio = 4; fb_next(b); ptr.push_back(ptr.front()); ptr.pop_front(); model.push_back(model.front()); model.pop_front(); step(2); }
    uint64_t h = N * 10 + cams; int stamp = 20;
    for (int s = 0; s <= depth; s++) {
        /* every position, after every operation */
        for (int i = 0; i < N; i++) { MC_CHECK(b->buf[i] == ptr[i], "rotation", "%s place %d holds another frame than the queue", d.c_str(), i); std::string e = diff(model[i], b->buf[i], cams); MC_CHECK(e.empty(), "content", "%s place %d: %s", d.c_str(), i, e.c_str()); h = hash_v(ptr[i] - ptr[0], h); }
        state(hash_s(d, h));
        if (s == depth) break;
        int op = choose(9); std::vector<uint64_t> before; for (int i = 0; i < N; i++) before.push_back(raw(b->buf[i])); int may = -1; step();
        if (op == 0) { d += " next"; fb_next(b); ptr.push_back(ptr.front()); ptr.pop_front(); model.push_back(model.front()); model.pop_front(); before.push_back(before[0]); before.erase(before.begin()); }
        else if (op == 1) { d += " prev"; fb_prev(b); ptr.push_front(ptr.back()); ptr.pop_back(); model.push_front(model.back()); model.pop_back(); before.insert(before.begin(), before.back()); before.pop_back(); }
        else if (op <= 7) {
            static const int nums[] = {1, 2, 3, 5, 6, 7}; static const int lk[] = {1, 0, 1, 1, 1, 0}; int k = nums[op - 2], links = lk[op - 2]; if (k == 6) links = s % 2;
            bool good = k <= 4 || (k == 6 && !links); d += strf(" read(%d%s)", k, links ? ",links" : "");
            int r = fb_read_frame_at_end(b, k, links); MC_CHECK(!!r == good, "read-result", "%s reports %s", d.c_str(), r ? "success" : "failure");
            may = N - 1; if (good) { model.back() = on_disk(k, cams, links); if (!prios) for (auto& p : model.back().p) p.prio = 4; } else model.back().known = false;
            if (!good) { /* nothing of the frame that was held there before remains */
                Content c = on_disk(k, cams, links); frame* f = b->buf[N - 1]; MC_CHECK(f->num_parts <= 0 || (k < 7 && f->num_parts == c.parts), "remains", "%s: after the failed read the frame holds %d particles", d.c_str(), f->num_parts);
                for (int m = 0; m < cams; m++) { int there = k == 7 || (k == 5 && m == cams - 1) ? 0 : c.t[m].size(); bool ok = f->num_targets[m] <= 0 || f->num_targets[m] == there; for (int i = 0; ok && i < f->num_targets[m]; i++) ok = same_target(c.t[m][i], f->targets[m][i]); MC_CHECK(ok, "remains", "%s: after the failed read camera %d holds %d targets that are not in its file", d.c_str(), m, f->num_targets[m]); } }
        } else {
            if (!model.front().known) { /* content of a failed read: storing it is the caller's mistake */ d += " -"; continue; }
            int k = ++stamp; d += strf(" write(%d)", k); int r = fb_write_frame_from_start(b, k); MC_CHECK(r, "write-result", "%s reports failure", d.c_str());
            if (!prios) MC_CHECK(!exists(strf("added.%d", k)), "written", "%s: a priority file without a name", d.c_str());
            if (model.front().parts) { frame f; frame_init(&f, cams, 8); int rr = read_frame(&f, cn, ln, prios ? (char*)an : nullptr, tb.data(), k); MC_CHECK(rr, "written", "%s: the file does not read back", d.c_str()); std::string e = diff(model.front(), &f, cams); free_frame(&f); MC_CHECK(e.empty(), "written", "%s: the file differs from the first frame: %s", d.c_str(), e.c_str()); }
            else { std::string z = get(strf("rt_is.%d", k)); auto t = tokens(z); MC_CHECK(t.size() == 1 && t[0].s == "0", "written", "%s: empty frame stored as \"%s\"", d.c_str(), z.c_str()); }
            del(strf("rt_is.%d", k)); del(strf("ptv_is.%d", k)); del(strf("added.%d", k)); for (int c = 0; c < cams; c++) del(strf("cam%d.%04d_targets", c + 1, k));
        }
        for (int i = 0; i < N; i++) if (i != may) MC_CHECK(raw(b->buf[i]) == before[i], "untouched", "%s: the frame at place %d was modified", d.c_str(), i);
    }
    fb_free(b);
    note("%s", d.c_str());
}
SCENARIO(operations) { int N = 1 + choose(4), cams = 1 + choose(2); explore_window(N, cams, thorough ? 6 : 4, 0); }
SCENARIO(operations_full) { int N = 2 + choose(4); explore_window(N, pick({1, 3}), thorough ? 5 : 4, N + choose(N)); }
SCENARIO(operations_no_priorities) { int N = pick({1, 3, 6}); explore_window(N, pick({1, 4}), thorough ? 5 : 3, choose(2) ? N : 0, false); }
/* long rotations: every window length, every pattern of forward/back up to 12 steps */
SCENARIO(rotations) {
    int N = 1 + choose(8), len = 12; framebuf fb; Z a("a"), b("b"), c("c"), t("t"); char* tb[] = {t, t, t, t}; fb_init(&fb, N, choose(4) + 1, 1, a, b, c, tb);
    std::deque<frame*> q; for (int i = 0; i < N; i++) q.push_back(fb.base.buf[i]); std::string d = strf("window of %d frames: ", N);
    for (int s = 0; s < len; s++) { if (choose(2)) { fb_prev(&fb.base); q.push_front(q.back()); q.pop_back(); d += "<"; } else { fb_next(&fb.base); q.push_back(q.front()); q.pop_front(); d += ">"; } step(); for (int i = 0; i < N; i++) MC_CHECK(fb.base.buf[i] == q[i], "rotation", "%s place %d is wrong", d.c_str(), i); state(hash_v(fb.base.buf[0] - q[N - 1], N)); }
    fb_free(&fb.base);
}
/* frames of every size are built to capacity and released */
SCENARIO(frame_sizes) {
    int cams = 1 + choose(4), cap = pick({1, 2, 3, 4, 5, 17}); frame f; frame_init(&f, cams, cap); step();
    MC_CHECK(f.num_cams == cams && f.max_targets == cap && f.num_parts == 0, "init", "frame of %d cameras, %d targets: wrong counts", cams, cap);
    for (int c = 0; c < cams; c++) { MC_CHECK(f.num_targets[c] == 0, "init", "frame of %d cameras, %d targets: camera %d starts with %d targets", cams, cap, c, f.num_targets[c]); for (int i = 0; i < cap; i++) f.targets[c][i] = junk_target(i); f.num_targets[c] = cap; }
    for (int i = 0; i < cap; i++) { f.path_info[i] = junk_path(); f.correspond[i] = mk_cor(i); } state(raw(&f)); free_frame(&f);
}
