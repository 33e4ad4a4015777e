/* mc.h - a small stateless model-checking core.
 *
 * A scenario is a function that drives the real liboptv code and takes every
 * nondeterministic decision (operation, argument, input shape, fault point)
 * through mc::choose(n).  The explorer runs the scenario again and again,
 * depth first, until every choice sequence has been executed exactly once
 * (no sampling).  The tree is split over forked workers by a hash of its
 * first choices.  The current choice sequence lives in memory shared with
 * the parent, so that a crash, sanitizer abort or hang of the code under
 * test is attributed to the exact execution; every violation is replayed in
 * fresh processes before it is reported.
 */
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <string>
#include <vector>
#include <functional>
#include <initializer_list>

namespace mc {

struct Violation { std::string key, msg; };
struct Skip {};

/* decisions */
int choose(int n);                      /* 0..n-1 */
template <class T> const T& pick(const std::vector<T>& v) { return v[choose((int)v.size())]; }
template <class T> T pick(std::initializer_list<T> v) { return *(v.begin() + choose((int)v.size())); }

/* accounting */
void step(uint64_t n = 1);              /* operations of the real code executed/compared */
void state(uint64_t h);                 /* hash of an observed state / outcome */
void evals(uint64_t n);                 /* extra property evaluations inside one execution */
uint64_t hash(const void* p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t hash_s(const std::string& s, uint64_t h = 1469598103934665603ull) { return hash(s.data(), s.size(), h); }
template <class T> uint64_t hash_v(const T& t, uint64_t h = 1469598103934665603ull) { return hash(&t, sizeof t, h); }

/* verdicts; key identifies the specific input class/call site (known findings) */
[[noreturn]] void fail(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
#define MC_CHECK(c, key, ...) do { if (!(c)) mc::fail(key, __VA_ARGS__); } while (0)
/* a finding that does not abort the execution when it is listed as known */
void finding(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));

/* description of the execution (kept only for samples and replays) */
bool noting();
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

extern bool thorough, deepest;   /* deepest implies thorough */
extern int seed;
extern std::string scratch;             /* private scratch directory of this worker */

struct Reg { Reg(const char* name, void (*fn)(), int shards, int timeout); };
#define SCENARIO_N(name, shards, timeout) static void name(); static mc::Reg reg_##name(#name, name, shards, timeout); static void name()
#define SCENARIO(name) SCENARIO_N(name, 8, 60)
#define SCENARIO1(name) SCENARIO_N(name, 1, 120)

inline bool near_(double a, double b, double tol) { return fabs(a - b) <= tol; }
inline bool nearr(double a, double b, double tol) { double m = fmax(1.0, fmax(fabs(a), fabs(b))); return fabs(a - b) <= tol * m; }

/* fill a good part of the stack below the caller with a byte */
void dirty_stack(int byte);
}
