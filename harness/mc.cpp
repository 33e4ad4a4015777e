#include "mc.h"
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <unordered_set>
#include <map>
#include <algorithm>
#include <set>

#if defined(__SANITIZE_ADDRESS__)
extern "C" const char* __asan_default_options() {
    return "exitcode=23:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:"
           "malloc_fill_byte=190:max_malloc_fill_size=1000000000:handle_segv=1:detect_stack_use_after_return=0";
}
extern "C" const char* __ubsan_default_options() { return "halt_on_error=1:exitcode=23:print_stacktrace=1"; }
#endif

namespace mc {

bool thorough = false, deepest = false;
int seed = 1;
std::string scratch;

struct Scn { const char* name; void (*fn)(); int shards, timeout; };
static std::vector<Scn>& scns() { static std::vector<Scn> v; return v; }
Reg::Reg(const char* name, void (*fn)(), int shards, int timeout) { scns().push_back({name, fn, shards, timeout}); }

enum { MAXC = 8192, MSG = 8192, KEY = 200, NOTE = 1 << 16, MAXKNOWN = 64 };
struct Shared {
    volatile uint64_t beat;
    int n, cur[MAXC], ari[MAXC];
    uint64_t execs, steps, evals, maxdepth, states;
    int done, capped, violated, states_capped;
    char key[KEY], msg[MSG];
    int note_n; char notes[NOTE];
    int nknown; char known[MAXKNOWN][KEY]; char knownmsg[MAXKNOWN][400];
};
static Shared* S;

/* explorer state (per worker) */
static std::vector<int> prefix;     /* forced choices */
static int pos;
static bool replaying, checkshard, sampling;
static int nshards = 1, myshard = 0;
static double prod; static bool sharded; static uint64_t shash;
static std::unordered_set<uint64_t>* states;
static std::set<std::string> knownkeys;
static double deadline;

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

uint64_t hash(const void* p, size_t n, uint64_t h) {
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
    return h;
}
static uint64_t mix(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; return x ^ (x >> 33); }

/* the shard of this execution is decided here: leave if it is another one */
static void own() {
    if (!checkshard || sharded) return;
    sharded = true;
    if ((int)(mix(shash) % nshards) != myshard) { S->n = pos; throw Skip(); }
}
int choose(int n) {
    if (n <= 0) { fprintf(stderr, "choose(%d)\n", n); abort(); }
    if (pos >= MAXC) { fprintf(stderr, "choice sequence too long\n"); _exit(31); }
    if (prod >= 12.0 * nshards) own();
    int c;
    if (pos < (int)prefix.size()) {
        c = prefix[pos];
        if (c >= n) { fprintf(stderr, "replay divergence at choice %d: %d of %d\n", pos, c, n); _exit(30); }
        if (pos < S->n && S->ari[pos] != n && !replaying) { fprintf(stderr, "arity divergence at choice %d: %d vs %d\n", pos, S->ari[pos], n); _exit(30); }
    } else c = 0;
    S->cur[pos] = c; S->ari[pos] = n; pos++;
    if (S->n < pos) S->n = pos;
    if (!sharded) { prod *= n; shash = shash * 1000003ull + (uint64_t)c + 17; }
    return c;
}
static uint64_t cur_steps, cur_evals;      /* of the current execution; counted once it is known to be ours */
void step(uint64_t n) { cur_steps += n; }
void evals(uint64_t n) { cur_evals += n; }
void state(uint64_t h) {
    if (!states) return;
    if (states->size() < 400000) states->insert(h); else S->states_capped = 1;
}
bool noting() { return sampling; }
void note(const char* fmt, ...) {
    if (prod >= 1.5 * nshards) own();   /* called when (nearly) all is chosen, before the work */
    if (!sampling) return;
    va_list a; va_start(a, fmt);
    int room = NOTE - S->note_n - 2;
    if (room > 0) {
        int k = vsnprintf(S->notes + S->note_n, room, fmt, a);
        if (k > room - 1) k = room - 1;
        S->note_n += k; S->notes[S->note_n++] = '\n'; S->notes[S->note_n] = 0;
    }
    va_end(a);
}
void fail(const char* key, const char* fmt, ...) {
    char b[MSG]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
    throw Violation{key, b};
}
static void addknown(const std::string& key, const std::string& msg) {
    for (int i = 0; i < S->nknown; i++) if (key == S->known[i]) return;
    if (S->nknown >= MAXKNOWN) return;
    snprintf(S->known[S->nknown], KEY, "%s", key.c_str());
    snprintf(S->knownmsg[S->nknown], 400, "%s", msg.c_str());
    S->nknown++;
}
void finding(const char* key, const char* fmt, ...) {
    char b[MSG]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
    if (knownkeys.count(key)) { addknown(key, b); return; }
    throw Violation{key, b};
}
__attribute__((noinline)) void dirty_stack(int byte) {
    volatile char buf[200000];
    memset((void*)buf, byte, sizeof buf);
    __asm__ volatile("" ::"r"(buf) : "memory");
}

/* one execution; returns 0 ok, 1 skipped, 2 violation (key/msg in S) */
static int run_one(const Scn& s) {
    pos = 0; prod = 1; sharded = false; shash = 7; cur_steps = cur_evals = 0;
    S->beat++;
    try { s.fn(); }
    catch (Skip&) { return 1; }
    catch (Violation& v) {
        if (knownkeys.count(v.key)) { addknown(v.key, v.msg); }
        else {
            snprintf(S->key, KEY, "%s", v.key.c_str()); snprintf(S->msg, MSG, "%s", v.msg.c_str());
            S->violated = 1; return 2;
        }
    }
    if (pos < (int)prefix.size()) { fprintf(stderr, "replay divergence: execution ended after %d of %d choices\n", pos, (int)prefix.size()); _exit(30); }
    return 0;
}

static void rmtree(const std::string& d) {
    DIR* p = opendir(d.c_str()); if (!p) return;
    while (struct dirent* e = readdir(p)) {
        std::string n = e->d_name; if (n == "." || n == "..") continue;
        std::string f = d + "/" + n; struct stat st;
        if (lstat(f.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rmtree(f); else unlink(f.c_str());
    }
    closedir(p); rmdir(d.c_str());
}

static std::string base_scratch;
static void child_setup(const char* errfile, const std::string& dir) {
    mkdir(dir.c_str(), 0777); scratch = dir;
    if (chdir(dir.c_str())) _exit(33);
    int n = open("/dev/null", O_RDWR), e = open(errfile, O_CREAT | O_TRUNC | O_WRONLY, 0666);
    dup2(n, 0); dup2(n, 1); dup2(e, 2);
    if (n > 2) close(n); if (e > 2) close(e);
    signal(SIGPIPE, SIG_IGN);
}

/* explores one shard inside a child */
static void explore(const Scn& s, int shard, int shards, uint64_t upto) {
    replaying = false; checkshard = shards > 1; nshards = shards; myshard = shard;
    states = new std::unordered_set<uint64_t>(); 
    prefix.clear(); S->n = 0;
    bool first = true;
    for (;;) {
        sampling = first && upto == 0; 
        int r = run_one(s);
        sampling = false;
        if (r == 2) { S->execs++; S->steps += cur_steps; S->evals += cur_evals; _exit(10); }
        /* an execution shorter than the shard depth belongs to one shard only */
        bool mine = r == 0 && (sharded || shards == 1 || (int)(mix(shash) % shards) == shard);
        if (r == 0) { S->n = pos; if (mine) { S->execs++; S->steps += cur_steps; S->evals += cur_evals; first = false; if ((uint64_t)pos > S->maxdepth) S->maxdepth = pos; } }
        int i = S->n - 1;
        while (i >= 0 && S->cur[i] + 1 >= S->ari[i]) i--;
        if (i < 0) break;
        prefix.assign(S->cur, S->cur + i + 1); prefix[i]++;
        S->n = i + 1;
        if (now() > deadline) { S->capped = 1; break; }
    }
    S->states = states->size();
}

struct Job { int scn, shard; pid_t pid; Shared* sh; double last; uint64_t beat; bool done; int status; bool hung; std::string err, hfile; };

static Shared* newshared() {
    void* p = mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(3); }
    return (Shared*)p;
}
static std::string slurp(const std::string& f, size_t max = 6000) {
    std::string r; FILE* p = fopen(f.c_str(), "r"); if (!p) return r;
    char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, p)) > 0 && r.size() < max) r.append(b, k);
    fclose(p); if (r.size() > max) r.resize(max); return r;
}
static std::string jesc(const std::string& s) {
    std::string r; for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
    return r;
}

/* replay of one choice sequence in a fresh child; returns kind:key or "" */
static std::string replay_once(int scn, const std::vector<int>& ch, double limit, std::string& msg, std::string& notes) {
    Shared* sh = newshared(); std::string err = base_scratch + "/replay.err";
    pid_t p = fork();
    if (p == 0) {
        S = sh; child_setup(err.c_str(), base_scratch + "/replay");
        replaying = true; checkshard = false; prefix = ch; sampling = true; states = nullptr;
        int r = run_one(scns()[scn]); _exit(r == 2 ? 10 : 0);
    }
    double t0 = now(); int st = 0; bool hung = false;
    for (;;) {
        pid_t w = waitpid(p, &st, WNOHANG); if (w == p) break;
        if (now() - t0 > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); hung = true; break; }
        usleep(2000);
    }
    rmtree(base_scratch + "/replay");
    std::string res; notes.assign(sh->notes, sh->note_n);
    if (hung) { res = "hang"; msg = "the execution does not terminate"; }
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 0) res = "";
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 10) { res = std::string("property:") + sh->key; msg = sh->msg; }
    else if (WIFEXITED(st) && (WEXITSTATUS(st) >= 30 && WEXITSTATUS(st) <= 33)) { res = ""; msg = "replay divergence: " + slurp(err); }
    else { res = "crash"; msg = WIFSIGNALED(st) ? std::string("killed by signal ") + std::to_string(WTERMSIG(st)) : std::string("aborted"); msg += "\n" + slurp(err); }
    munmap(sh, sizeof *sh);
    return res;
}
/* re-runs a whole shard (for failures that depend on earlier executions) */
static std::string replay_shard(int scn, int shard, int shards, double limit, std::string& msg, std::vector<int>& ch) {
    Shared* sh = newshared(); std::string err = base_scratch + "/replay.err";
    pid_t p = fork();
    if (p == 0) {
        S = sh; child_setup(err.c_str(), base_scratch + "/replay");
        deadline = now() + limit; knownkeys = knownkeys; explore(scns()[scn], shard, shards, 1); _exit(0);
    }
    double t0 = now(), last = t0; uint64_t beat = 0; int st = 0; bool hung = false;
    for (;;) {
        pid_t w = waitpid(p, &st, WNOHANG); if (w == p) break;
        if (sh->beat != beat) { beat = sh->beat; last = now(); }
        if (now() - last > scns()[scn].timeout * 2 || now() - t0 > limit + 60) { kill(p, SIGKILL); waitpid(p, &st, 0); hung = true; break; }
        usleep(5000);
    }
    rmtree(base_scratch + "/replay");
    ch.assign(sh->cur, sh->cur + sh->n);
    std::string res;
    if (hung) { res = "hang"; msg = "no progress in one execution"; }
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 0) res = "";
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 10) { res = std::string("property:") + sh->key; msg = sh->msg; }
    else { res = "crash"; msg = (WIFSIGNALED(st) ? "killed by signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st))) + "\n" + slurp(err); }
    munmap(sh, sizeof *sh);
    return res;
}

static int main_(int argc, char** argv) {
    std::string out, replay, known, only, replaydir = ".", prop = "?";
    int nproc = (int)sysconf(_SC_NPROCESSORS_ONLN); double budget = 500;
    if (nproc < 1) nproc = 1; if (nproc > 8) nproc = 8;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--out") out = nx(); else if (a == "--replay") replay = nx();
        else if (a == "--tier") { std::string t = nx(); deepest = t == "deepest"; thorough = deepest || t == "thorough"; }
        else if (a == "--known") known = nx(); else if (a == "--only") only = nx();
        else if (a == "--budget") budget = atof(nx().c_str());
        else if (a == "--seed") seed = atoi(nx().c_str());
        else if (a == "--replaydir") replaydir = nx(); else if (a == "--prop") prop = nx();
        else if (a == "--scratch") base_scratch = nx();
        else if (a == "--jobs") nproc = atoi(nx().c_str());
        else if (a == "--list") { for (auto& s : scns()) printf("%s\n", s.name); return 0; }
    }
    if (!known.empty()) { FILE* f = fopen(known.c_str(), "r"); char b[400];
        while (f && fgets(b, sizeof b, f)) { b[strcspn(b, "\n")] = 0; if (*b) knownkeys.insert(b); } if (f) fclose(f); }
    bool ownscratch = base_scratch.empty();
    if (ownscratch) { char t[] = "/tmp/mcXXXXXX"; if (!mkdtemp(t)) return 3; base_scratch = t; }
    std::sort(scns().begin(), scns().end(), [](const Scn& a, const Scn& b) { return strcmp(a.name, b.name) < 0; });

    if (!replay.empty()) {
        FILE* f = fopen(replay.c_str(), "r"); if (!f) { perror("replay"); return 3; }
        char name[200] = "", mode[50] = ""; int sh = 0, shs = 1, k; std::vector<int> ch; char line[1 << 16];
        while (fgets(line, sizeof line, f)) {
            sscanf(line, "scenario %199s", name); sscanf(line, "mode %49s", mode); sscanf(line, "shard %d %d", &sh, &shs);
            if (!strncmp(line, "tier thorough", 13)) thorough = true;
            if (!strncmp(line, "tier deepest", 12)) thorough = deepest = true;
            if (!strncmp(line, "choices", 7)) { char* p = line + 7; int off; while (sscanf(p, "%d%n", &k, &off) == 1) { ch.push_back(k); p += off; } }
        }
        fclose(f);
        int rc = 3;
        for (int i = 0; i < (int)scns().size(); i++) if (!strcmp(scns()[i].name, name)) {
            std::string msg, notes, r;
            if (!strcmp(mode, "shard")) r = replay_shard(i, sh, shs, 800, msg, ch); else r = replay_once(i, ch, scns()[i].timeout * 2, msg, notes);
            printf("%sresult: %s\n%s\n", notes.c_str(), r.empty() ? "no violation" : r.c_str(), msg.c_str()); rc = r.empty() ? 0 : 1;
        }
        if (ownscratch) rmtree(base_scratch);
        return rc;
    }

    double t0 = now(); deadline = t0 + budget;
    std::vector<Job> jobs;
    /* interleave: big sharded scenarios first */
    for (int i = 0; i < (int)scns().size(); i++) {
        if (!only.empty() && ("," + only + ",").find("," + std::string(scns()[i].name) + ",") == std::string::npos) continue;
        for (int k = 0; k < scns()[i].shards; k++) { Job j{}; j.scn = i; j.shard = k; jobs.push_back(j); }
    }
    size_t next = 0; int running = 0; bool stop = false; int bad = -1;
    while (next < jobs.size() || running) {
        while (!stop && running < nproc && next < jobs.size()) {
            Job& j = jobs[next]; j.sh = newshared();
            j.err = base_scratch + "/job" + std::to_string(next) + ".err"; j.hfile = base_scratch + "/job" + std::to_string(next) + ".h";
            fflush(stdout);
            j.pid = fork();
            if (j.pid == 0) {
                S = j.sh; std::string hf = j.hfile;
                child_setup(j.err.c_str(), base_scratch + "/job" + std::to_string(next));
                explore(scns()[j.scn], j.shard, scns()[j.scn].shards, 0);
                FILE* f = fopen(hf.c_str(), "w"); if (f) { for (uint64_t h : *states) fwrite(&h, 8, 1, f); fclose(f); }
                S->done = 1; _exit(0);
            }
            j.last = now(); running++; next++;
        }
        if (stop && running == 0) break;
        usleep(3000);
        for (size_t i = 0; i < next; i++) {
            Job& j = jobs[i]; if (j.done) continue;
            int st; pid_t w = waitpid(j.pid, &st, WNOHANG);
            if (w == j.pid) {
                j.done = true; j.status = st; running--;
                rmtree(base_scratch + "/job" + std::to_string(i));
                if (!j.sh->done && !j.hung && !stop) { bad = (int)i; stop = true; }
            } else {
                if (j.sh->beat != j.beat) { j.beat = j.sh->beat; j.last = now(); }
                else if (now() - j.last > scns()[j.scn].timeout) { j.hung = true; kill(j.pid, SIGKILL); waitpid(j.pid, &st, 0); j.done = true; running--; j.status = st;
                    rmtree(base_scratch + "/job" + std::to_string(i)); if (!stop) { bad = (int)i; stop = true; } }
            }
        }
        if (stop) for (size_t i = 0; i < next; i++) if (!jobs[i].done) { kill(jobs[i].pid, SIGKILL); int st; waitpid(jobs[i].pid, &st, 0); jobs[i].done = true; running--; rmtree(base_scratch + "/job" + std::to_string(i)); }
    }

    int rc = 0; std::string vjson = "null";
    if (bad >= 0) {
        Job& j = jobs[bad]; const Scn& s = scns()[j.scn];
        std::vector<int> ch(j.sh->cur, j.sh->cur + j.sh->n);
        if (j.sh->violated) ch.resize(std::min<size_t>(ch.size(), j.sh->n));
        std::string m1, m2, n1, n2, mode = "single";
        std::string r1 = replay_once(j.scn, ch, s.timeout * 2, m1, n1), r2;
        if (!r1.empty()) r2 = replay_once(j.scn, ch, s.timeout * 2, m2, n2);
        if (r1.empty() || r1 != r2) {   /* depends on the history of the worker: replay the shard */
            mode = "shard"; r1 = ""; 
            for (int t = 0; t < 2 && r1.empty(); t++) r1 = replay_shard(j.scn, j.shard, s.shards, std::max(60.0, std::min(300.0, deadline + 200 - now())), m1, ch);
        }
        std::string orig = j.hung ? "hang" : j.sh->violated ? std::string("property:") + j.sh->key + " " + j.sh->msg : "crash " + slurp(j.err);
        if (r1.empty()) { fprintf(stderr, "error: scenario %s: a failure did not reproduce on replay: %s\n", s.name, orig.c_str()); rc = 2; }
        else {
            rc = 1; mkdir(replaydir.c_str(), 0777);
            std::string rp = replaydir + "/" + prop + "-" + s.name + ".replay";
            FILE* f = fopen(rp.c_str(), "w");
            if (f) {
                fprintf(f, "property %s\nscenario %s\nmode %s\nshard %d %d\ntier %s\nchoices", prop.c_str(), s.name, mode.c_str(), j.shard, s.shards, deepest ? "deepest" : thorough ? "thorough" : "quick");
                for (int c : ch) fprintf(f, " %d", c);
                fprintf(f, "\nkind %s\n--- message\n%s\n--- execution\n%s\n", r1.c_str(), m1.c_str(), n1.c_str()); fclose(f);
            }
            vjson = "{\"scenario\":\"" + jesc(s.name) + "\",\"kind\":\"" + jesc(r1) + "\",\"message\":\"" + jesc(m1.substr(0, 3000)) + "\",\"replay\":\"" + jesc(rp) + "\"}";
        }
    }
    /* results */
    uint64_t execs = 0, steps = 0, evals = 0, depth = 0; bool capped = false, scap = false; std::unordered_set<uint64_t> all;
    std::map<std::string, std::string> known_seen; std::string per, samples; std::map<std::string, std::array<uint64_t, 2>> ps; int ns = 0;
    std::map<std::string, std::string> smp;
    for (size_t i = 0; i < jobs.size(); i++) {
        Job& j = jobs[i]; if (!j.sh) { capped = true; continue; }
        execs += j.sh->execs; steps += j.sh->steps; evals += j.sh->evals; if (j.sh->maxdepth > depth) depth = j.sh->maxdepth;
        if (j.sh->capped || !j.sh->done) capped = true; if (j.sh->states_capped) scap = true;
        ps[scns()[j.scn].name][0] += j.sh->execs; ps[scns()[j.scn].name][1] += j.sh->steps;
        for (int k = 0; k < j.sh->nknown; k++) known_seen[j.sh->known[k]] = j.sh->knownmsg[k];
        if (j.sh->note_n && !smp.count(scns()[j.scn].name)) smp[scns()[j.scn].name] = std::string(j.sh->notes, std::min(j.sh->note_n, 1500));
        FILE* f = fopen(j.hfile.c_str(), "r"); if (f) { uint64_t h; while (fread(&h, 8, 1, f) == 1) all.insert(mix(h) ^ j.scn); fclose(f); unlink(j.hfile.c_str()); }
        unlink(j.err.c_str());
    }
    for (auto& p : ps) { if (!per.empty()) per += ","; per += "\"" + p.first + "\":{\"executions\":" + std::to_string(p.second[0]) + ",\"steps\":" + std::to_string(p.second[1]) + "}"; }
    for (auto& p : smp) { if (ns++) samples += ","; samples += "\"" + jesc(p.first + ": " + p.second) + "\""; }
    std::string kj; for (auto& p : known_seen) { if (!kj.empty()) kj += ","; kj += "{\"key\":\"" + jesc(p.first) + "\",\"message\":\"" + jesc(p.second) + "\"}"; }
    std::string o = "{\"executions\":" + std::to_string(execs) + ",\"steps\":" + std::to_string(steps) + ",\"evals\":" + std::to_string(evals) +
        ",\"states\":" + std::to_string(all.size()) + ",\"states_capped\":" + (scap ? "true" : "false") + ",\"max_depth\":" + std::to_string(depth) +
        ",\"exhaustive\":" + (capped ? "false" : "true") + ",\"per_scenario\":{" + per + "},\"samples\":[" + samples + "],\"known\":[" + kj +
        "],\"violation\":" + vjson + ",\"wall_s\":" + std::to_string(now() - t0) + "}\n";
    if (!out.empty()) { FILE* f = fopen(out.c_str(), "w"); if (f) { fputs(o.c_str(), f); fclose(f); } } else fputs(o.c_str(), stdout);
    if (ownscratch) rmtree(base_scratch);
    return rc;
}
} // namespace mc

int main(int argc, char** argv) {
    /* same addresses in every run */
    if (!getenv("MC_NOASLR")) {
        int p = personality(0xffffffff);
        if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1) {
            setenv("MC_NOASLR", "1", 1); execv("/proc/self/exe", argv);
        }
    }
    return mc::main_(argc, argv);
}
