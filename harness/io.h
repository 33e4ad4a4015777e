/* helpers shared by the file-format checks */
#pragma once
#include "optv.h"
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <limits.h>
#include <stdarg.h>

static std::string strf(const char* f, ...) __attribute__((format(printf, 1, 2)));
static std::string strf(const char* f, ...) { char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
static void put(const std::string& name, const std::string& data) {
    struct stat st; if (lstat(name.c_str(), &st) == 0) { if (S_ISDIR(st.st_mode)) rmdir(name.c_str()); else unlink(name.c_str()); }
    int fd = open(name.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0666);
    if (fd < 0 || write(fd, data.data(), data.size()) != (ssize_t)data.size()) { fprintf(stderr, "harness: cannot write %s\n", name.c_str()); _exit(32); }
    close(fd);
}
static bool exists(const std::string& name) { struct stat st; return stat(name.c_str(), &st) == 0; }
static std::string get(const std::string& name) {
    std::string r; int fd = open(name.c_str(), O_RDONLY); if (fd < 0) return "<none>";
    char b[65536]; ssize_t k; while ((k = read(fd, b, sizeof b)) > 0) r.append(b, k); close(fd); return r;
}
static void del(const std::string& name) { struct stat st; if (lstat(name.c_str(), &st) == 0) { if (S_ISDIR(st.st_mode)) rmdir(name.c_str()); else unlink(name.c_str()); } }
struct Tok { size_t at, len; std::string s; };
static std::vector<Tok> tokens(const std::string& d) {
    std::vector<Tok> r; size_t i = 0;
    while (i < d.size()) { while (i < d.size() && isspace((unsigned char)d[i])) i++; size_t s = i; while (i < d.size() && !isspace((unsigned char)d[i])) i++; if (i > s) r.push_back({s, i - s, d.substr(s, i - s)}); }
    return r;
}
/* non-const char* for the library */
struct Z { std::vector<char> b; Z(const std::string& s) : b(s.begin(), s.end()) { b.push_back(0); } operator char*() { return b.data(); } };

static target mk_target(int s) { target t; memset(&t, 0, sizeof t); t.pnr = s; t.x = 10.25 + 3 * s; t.y = 20.5 + 7 * s; t.n = 11 + s; t.nx = 3 + s; t.ny = 4 + s; t.sumg = 1000 + 13 * s; t.tnr = s - 1; return t; }
static target junk_target(int s) { target t; memset(&t, 0x5a, sizeof t); t.pnr = -7777 - s; t.x = -1234.5; t.y = 9876.5; return t; }
static P mk_path(int s) { P p; memset(&p, 0, sizeof p); p.x[0] = 1.125 + s; p.x[1] = -2.25 - s; p.x[2] = 3.5 + 2 * s; p.prev = s - 1; p.next = s % 2 ? s + 1 : -2; p.prio = 1 + s % 4; p.finaldecis = 1000000.0; for (int i = 0; i < POSI; i++) p.linkdecis[i] = -999; return p; }
static P junk_path() { P p; memset(&p, 0x5a, sizeof p); return p; }
static corres mk_cor(int s) { corres c; c.nr = s + 1; for (int i = 0; i < 4; i++) c.p[i] = (s + i) % 3 - 1; return c; }
static bool same_d(double a, double b, double dec) { return fabs(a - b) <= 0.50000001 * dec + 4e-16 * fabs(a); }
static bool same_target(const target& a, const target& b) { return a.pnr == b.pnr && a.n == b.n && a.nx == b.nx && a.ny == b.ny && a.sumg == b.sumg && a.tnr == b.tnr && same_d(a.x, b.x, 1e-4) && same_d(a.y, b.y, 1e-4); }
static std::string str(const target& t) { return strf("{pnr %d x %.17g y %.17g n %d nx %d ny %d sumg %d tnr %d}", t.pnr, t.x, t.y, t.n, t.nx, t.ny, t.sumg, t.tnr); }

/* live bytes and lowest free descriptor, to detect leaks across repetitions */
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
static size_t live_bytes() { static int warm = printf("\n"); return __sanitizer_get_current_allocated_bytes(); }
#else
#include <malloc.h>
static size_t live_bytes() { static int warm = printf("\n"); return mallinfo2().uordblks; }
#endif
static int open_files() { /* number of the first 64 descriptors that are open */ int n = 0; for (int i = 0; i < 64; i++) if (fcntl(i, F_GETFD) != -1) n++; return n; }

/* the device accepts only the first k bytes of every file written from here on */
struct Quota {
    struct rlimit old;
    Quota(long k) { signal(SIGXFSZ, SIG_IGN); getrlimit(RLIMIT_FSIZE, &old); struct rlimit r = old; r.rlim_cur = k; setrlimit(RLIMIT_FSIZE, &r); }
    ~Quota() { setrlimit(RLIMIT_FSIZE, &old); }
};
