/* C13: sorting and candidate ranking. */
#include "optv.h"
#include <map>
#include <set>
/* the sub-range sorts take part where the library has them */
extern "C" { void qs_coord2d_x(coord_2d*, int, int) __attribute__((weak)); void qs_con(n_tupel*, int, int) __attribute__((weak)); }
using namespace mc;

static std::vector<int> keys(int n, int vals) { std::vector<int> v(n); for (auto& x : v) x = choose(vals); return v; }
static std::vector<int> pattern(int n, int kind) {
    std::vector<int> v(n);
    for (int i = 0; i < n; i++) switch (kind) {
        case 0: v[i] = i; break; case 1: v[i] = n - i; break; case 2: v[i] = 3; break; case 3: v[i] = i < n / 2 ? i : n - i; break;
        case 4: v[i] = (i * 7919) % (n + 3); break; case 5: v[i] = i % 2 ? -i : i; break; case 6: v[i] = abs(i - n / 2); break; default: v[i] = (i * i * 31 + 7 * i) % 17; }
    return v;
}
enum { GUARD = 3 };
static std::string str(const std::vector<int>& k) { std::string s; for (size_t i = 0; i < k.size() && i < 20; i++) s += (i ? " " : "") + std::to_string(k[i]); return s; }

/* which: 0 targets, 1 coordinates, 2 correspondences, 3 sort(); sub-range [l,r] for the qs_* forms */
static void check_sort(const std::vector<int>& k, int which, int l, int r) {
    int n = k.size(); if ((which == 1 && !qs_coord2d_x) || (which == 2 && !qs_con)) l = -1; bool sub = l >= 0;
    std::vector<double> key(n); std::vector<int> id(n);
    auto kv = [&](int i) { return 0.5 * k[i] - 1.25; };
    bool outside = true, whole = true;
    if (which == 0) {
        std::vector<target> a(n + 2 * GUARD); 
        for (int i = 0; i < n + 2 * GUARD; i++) { memset(&a[i], 0, sizeof(target)); int j = i - GUARD; a[i] = target(); a[i].pnr = j; a[i].y = j >= 0 && j < n ? kv(j) : -1e6 * (j % 2 ? 1 : -1); a[i].x = 3 * j; a[i].n = j + 1; a[i].nx = j + 2; a[i].ny = j + 3; a[i].sumg = j + 4; a[i].tnr = j + 5; }
        if (sub) qs_target_y(&a[GUARD], l, r); else quicksort_target_y(&a[GUARD], n);
        for (int i = 0; i < n + 2 * GUARD; i++) { int j = a[i].pnr; whole = whole && a[i].x == 3 * j && a[i].n == j + 1 && a[i].nx == j + 2 && a[i].ny == j + 3 && a[i].sumg == j + 4 && a[i].tnr == j + 5;
            if (i < GUARD || i >= GUARD + n) outside = outside && j == i - GUARD; else { id[i - GUARD] = j; key[i - GUARD] = a[i].y; } }
    } else if (which == 1) {
        std::vector<coord_2d> a(n + 2 * GUARD);
        for (int i = 0; i < n + 2 * GUARD; i++) { int j = i - GUARD; a[i].pnr = j; a[i].x = j >= 0 && j < n ? kv(j) : -1e6 * (j % 2 ? 1 : -1); a[i].y = 3 * j; }
        if (sub) qs_coord2d_x(&a[GUARD], l, r); else quicksort_coord2d_x(&a[GUARD], n);
        for (int i = 0; i < n + 2 * GUARD; i++) { int j = a[i].pnr; whole = whole && a[i].y == 3 * j; if (i < GUARD || i >= GUARD + n) outside = outside && j == i - GUARD; else { id[i - GUARD] = j; key[i - GUARD] = a[i].x; } }
    } else if (which == 2) {
        std::vector<n_tupel> a(n + 2 * GUARD);
        for (int i = 0; i < n + 2 * GUARD; i++) { int j = i - GUARD; for (int c = 0; c < 4; c++) a[i].p[c] = j + 10 * c; a[i].corr = j >= 0 && j < n ? -kv(j) : 1e6 * (j % 2 ? 1 : -1); }
        if (sub) qs_con(&a[GUARD], l, r); else quicksort_con(&a[GUARD], n);
        for (int i = 0; i < n + 2 * GUARD; i++) { int j = a[i].p[0]; for (int c = 0; c < 4; c++) whole = whole && a[i].p[c] == j + 10 * c; if (i < GUARD || i >= GUARD + n) outside = outside && j == i - GUARD; else { id[i - GUARD] = j; key[i - GUARD] = -a[i].corr; } }
    } else {
        std::vector<float> a(n + 2 * GUARD); std::vector<int> b(n + 2 * GUARD);
        for (int i = 0; i < n + 2 * GUARD; i++) { int j = i - GUARD; a[i] = j >= 0 && j < n ? kv(j) : -1e6f * (j % 2 ? 1 : -1); b[i] = j; }
        sort(n, &a[GUARD], &b[GUARD]);
        for (int i = 0; i < n + 2 * GUARD; i++) if (i < GUARD || i >= GUARD + n) outside = outside && b[i] == i - GUARD; else { id[i - GUARD] = b[i]; key[i - GUARD] = a[i]; }
    }
    step();
    static const char* nm[] = {"targets by row", "coordinates by column", "correspondences by quality", "distances"};
    std::vector<int> seen(n);
    MC_CHECK(outside, "outside", "sorting %s (keys %s) touched memory outside the range", nm[which], str(k).c_str());
    MC_CHECK(whole, "torn", "sorting %s (keys %s) mixed fields of different items", nm[which], str(k).c_str());
    for (int i = 0; i < n; i++) {
        MC_CHECK(id[i] >= 0 && id[i] < n && !seen[id[i]]++, "permutation", "sorting %s (keys %s): the result is not a permutation", nm[which], str(k).c_str());
        MC_CHECK(fabs(key[i] - kv(id[i])) < 1e-6, "permutation", "sorting %s (keys %s): item %d changed its key", nm[which], str(k).c_str(), id[i]);
        if (sub && (i < l || i > r)) { MC_CHECK(id[i] == i, "range", "sorting %s %d..%d (keys %s) moved item %d outside the range", nm[which], l, r, str(k).c_str(), i); }
        else if (i > (sub ? l : 0)) MC_CHECK(key[i - 1] <= key[i] + 1e-6, "order", "sorting %s (keys %s): out of order at %d", nm[which], str(k).c_str(), i);
    }
    if (n) state(hash(id.data(), n * 4, which));
}
SCENARIO(sort_small) {
    int which = choose(4), n = choose(deepest ? 9 : thorough ? 8 : 7);
    check_sort(keys(n, std::max(1, std::min(n, deepest ? 7 : thorough ? 6 : 5))), which, -1, -1);
}
SCENARIO(sort_ranges) {
    int which = choose(3), n = 1 + choose(5); auto k = keys(n, std::min(n, 4));
    int l = choose(n), r = l + choose(n - l);
    check_sort(k, which, l, r);
}
SCENARIO(sort_patterns) { int which = choose(4), kind = choose(8), n = choose(deepest ? 2000 : thorough ? 600 : 200); check_sort(pattern(n, kind), which, -1, -1); }
/* no items and no array at all */
SCENARIO1(sort_nothing) {
    note("sorting an empty list held in no memory");
    quicksort_con(nullptr, 0); quicksort_target_y(nullptr, 0); quicksort_coord2d_x(nullptr, 0); sort(0, nullptr, nullptr); step(4); state(1);
}

/* candidate ranking */
static void check_freq(int cams, const std::vector<std::vector<int>>& tab) {
    std::vector<foundpix> a(cams * MAX_CANDS + 2);
    memset(a.data(), 0, a.size() * sizeof(foundpix));
    foundpix g; g.ftnr = 424242; g.freq = 99; for (int i = 0; i < 4; i++) g.whichcam[i] = 55;
    a[0] = g; a[cams * MAX_CANDS + 1] = g;
    foundpix* f = &a[1];
    reset_foundpix_array(f, cams * MAX_CANDS, cams);
    std::map<int, std::set<int>> where;
    std::string d;
    for (int c = 0; c < cams; c++) { d += "["; for (int m = 0; m < (int)tab[c].size(); m++) { f[c * MAX_CANDS + m].ftnr = tab[c][m]; f[c * MAX_CANDS + m].whichcam[c] = 1; where[tab[c][m]].insert(c); d += std::to_string(tab[c][m]) + " "; } d += "] "; }
    int n = sort_candidates_by_freq(f, cams); step();
    int best = 0; for (auto& w : where) best = std::max(best, (int)w.second.size());
    int want = 0; for (auto& w : where) if (w.second.size() >= 2) want++;
    if (best == 1) want = 1;
    MC_CHECK(n == want, "freq-count", "candidates per camera %s: %d ranked, expected %d", d.c_str(), n, want);
    std::set<int> seen; int prev = 99;
    for (int i = 0; i < n; i++) {
        MC_CHECK(where.count(f[i].ftnr) && seen.insert(f[i].ftnr).second, "freq-item", "candidates per camera %s: entry %d is particle %d, unknown or repeated", d.c_str(), i, f[i].ftnr);
        auto& w = where[f[i].ftnr];
        MC_CHECK(f[i].freq == (int)w.size() && (w.size() >= 2 || best == 1), "freq-freq", "candidates per camera %s: particle %d has count %d, seen by %d cameras", d.c_str(), f[i].ftnr, f[i].freq, (int)w.size());
        for (int c = 0; c < cams; c++) MC_CHECK(!!f[i].whichcam[c] == (bool)w.count(c), "freq-cam", "candidates per camera %s: particle %d wrong membership of camera %d", d.c_str(), f[i].ftnr, c);
        MC_CHECK(f[i].freq <= prev, "freq-order", "candidates per camera %s: not in decreasing order", d.c_str()); prev = f[i].freq;
    }
    for (int i = n; i < cams * MAX_CANDS; i++) MC_CHECK(f[i].freq == 0 && f[i].ftnr == -1, "freq-tail", "candidates per camera %s: entry %d after the end is not cleared", d.c_str(), i);
    MC_CHECK(!memcmp(&a[0], &g, sizeof g) && !memcmp(&a[cams * MAX_CANDS + 1], &g, sizeof g), "freq-outside", "memory outside the table was changed");
    state(hash_s(d));
}
/* ordered lists of distinct ids from 0..ids-1, up to len long */
static std::vector<int> distinct_list(int ids, int len) {
    std::vector<int> r, left; for (int i = 0; i < ids; i++) left.push_back(i);
    while ((int)r.size() < len && !left.empty()) { int c = choose(left.size() + 1); if (!c) break; r.push_back(left[c - 1]); left.erase(left.begin() + c - 1); }
    return r;
}
SCENARIO(rank_candidates) {
    int cams = 1 + choose(4); std::vector<std::vector<int>> t;
    int ids = cams == 1 ? 5 : cams == 2 ? 4 : cams == 3 ? (thorough ? 4 : 3) : 3, len = cams == 4 && !thorough ? 2 : 4;
    for (int c = 0; c < cams; c++) t.push_back(distinct_list(ids, len));
    check_freq(cams, t);
}
/* full tables: every camera has four candidates drawn from a sliding set */
SCENARIO(rank_full) {
    int cams = 1 + choose(4); std::vector<std::vector<int>> t;
    for (int c = 0; c < cams; c++) { int base = choose(deepest ? 12 : thorough ? 9 : 6), rot = choose(4); std::vector<int> v; for (int m = 0; m < 4; m++) v.push_back(base + (m + rot) % 4); t.push_back(v); }
    check_freq(cams, t);
}
/* bookkeeping helpers of the candidate tables */
SCENARIO(table_helpers) {
    int n = choose(17), cams = 1 + choose(4); std::vector<foundpix> s(18), d(18), d0;
    for (int i = 0; i < 18; i++) { s[i].ftnr = i * 3; s[i].freq = i + 1; d[i].ftnr = -50 - i; d[i].freq = -70 - i; for (int c = 0; c < 4; c++) { s[i].whichcam[c] = 100 + i * 4 + c; d[i].whichcam[c] = 900 + i * 4 + c; } }
    d0 = d;
    copy_foundpix_array(d.data(), s.data(), n, cams); step();
    for (int i = 0; i < 18; i++) { auto& e = i < n ? s[i] : d0[i]; bool ok = d[i].ftnr == e.ftnr && d[i].freq == e.freq; for (int c = 0; c < cams; c++) ok = ok && d[i].whichcam[c] == e.whichcam[c];
        MC_CHECK(ok, "copy", "copying %d of %d candidates with %d cameras: entry %d differs", n, 18, cams, i); }
    d = d0; reset_foundpix_array(d.data(), n, cams); step();
    for (int i = 0; i < 18; i++) { bool ok = i < n ? d[i].ftnr == -1 && d[i].freq == 0 : d[i].ftnr == d0[i].ftnr && d[i].freq == d0[i].freq; for (int c = 0; c < cams; c++) ok = ok && d[i].whichcam[c] == (i < n ? 0 : d0[i].whichcam[c]);
        MC_CHECK(ok, "reset", "resetting %d of %d candidates with %d cameras: entry %d is wrong", n, 18, cams, i); }
    state(n * 10 + cams);
}
