"""A small stateless explorer for Python scenarios: the counterpart of harness/mc.cpp.

A scenario takes every decision through choose()/pick(); the explorer runs it again
and again, depth first, until every sequence of choices has been executed once.  Work
is split over forked workers where the scenario calls own() (after its choices).  The
current choices are kept in memory shared with the parent, so that a crash or a hang
of the code under test is attributed to the exact execution; a violation is replayed
in a fresh process before it is reported.
"""
import sys, os, time, json, mmap, hashlib, importlib, traceback, signal, tempfile, shutil

class Violation(Exception):
    def __init__(self, key, msg): Exception.__init__(self, msg); self.key = key
class NotMine(Exception): pass

class MC(object):
    def __init__(self):
        self.prefix, self.pos, self.sizes, self.choices = [], 0, [], []
        self.worker, self.workers, self.shared = 0, 1, None
        self.steps = self.evals = 0; self.states = set(); self.known = {}; self.known_keys = set(); self.note_text = ""
        self.thorough = False; self.seed = 1; self.scratch = None
    def choose(self, n):
        i = self.prefix[self.pos] if self.pos < len(self.prefix) else 0
        if i >= n: i = n - 1
        self.pos += 1; self.choices.append(i); self.sizes.append(n); return i
    def pick(self, seq):
        seq = list(seq); return seq[self.choose(len(seq))]
    def own(self, text=""):
        """this execution is mine; called after the choices, before the work"""
        h = int(hashlib.md5(repr(self.choices).encode()).hexdigest()[:8], 16)
        if h % self.workers != self.worker: raise NotMine()
        self.note_text = text; self.mark()
    def mark(self):
        if self.shared is None: return
        d = json.dumps([self.scenario, self.choices, self.note_text]).encode()[:4000]
        self.shared.seek(0); self.shared.write(len(d).to_bytes(4, "little") + d)
        self.shared.seek(4096); self.shared.write(int(time.time() * 1000).to_bytes(8, "little"))
    def step(self, n=1): self.steps += n
    def state(self, *v): self.states.add(hashlib.md5(repr(v).encode()).digest()[:8])
    def check(self, c, key, msg, *a):
        self.evals += 1
        if not c: raise Violation(key, msg % a if a else msg)
mc = MC()
REG = []
def scenario(f): REG.append(f); return f

def execute(f, prefix):
    """one execution; returns (kind, key, message) or None"""
    mc.prefix, mc.pos, mc.choices, mc.sizes, mc.note_text, mc.scenario = prefix, 0, [], [], "", f.__name__
    try: f(); return None
    except NotMine: raise
    except Violation as e:
        if e.key in mc.known_keys: mc.known[e.key] = str(e); return None
        return ("property", e.key, str(e))
    except Exception as e:
        return ("exception", "exception", "%s: %s\n%s" % (type(e).__name__, e, "".join(traceback.format_exc().splitlines(True)[-4:])))

def explore(f, deadline, result):
    prefix, n, depth, samples = [], 0, 0, []
    while True:
        if time.time() > deadline: return n, depth, False, samples
        try:
            v = execute(f, prefix); n += 1; depth = max(depth, len(mc.choices))
            if len(samples) < 2: samples.append("%s %s %s" % (f.__name__, mc.choices, mc.note_text))
            if v: result["violation"] = dict(kind=v[0], scenario=f.__name__, choices=mc.choices, message=v[2]); return n, depth, True, samples
        except NotMine: pass
        c, s = list(mc.choices), mc.sizes
        while c and c[-1] + 1 >= s[len(c) - 1]: c.pop()
        if not c: return n, depth, True, samples
        c[-1] += 1; prefix = c

def worker(w, W, fs, a, sh, outf, budget):
    mc.worker, mc.workers, mc.shared = w, W, sh; mc.scratch = os.path.join(a["scratch"], "w%d" % w); os.makedirs(mc.scratch, exist_ok=True); os.chdir(mc.scratch)
    dn = os.open(os.path.join(a["scratch"], "log%d" % w), os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644); os.dup2(dn, 1); os.dup2(dn, 2)
    res = dict(violation=None, per={}, samples=[]); t0 = time.time()
    for f in fs:
        s0, e0 = mc.steps, len(mc.states); n, d, full, sm = explore(f, t0 + budget, res); res["per"][f.__name__] = [n, mc.steps - s0, d, full]; res["samples"] += sm
        if res["violation"]: break
    res.update(steps=mc.steps, evals=mc.evals, states=[x.hex() for x in mc.states], known=[dict(key=k, message=m) for k, m in mc.known.items()])
    with open(outf, "w") as g: json.dump(res, g)
    os._exit(0)

def one(a, f, choices, timeout=60, shard=None):
    """replays one execution (or a worker's whole share of the scenario) in a fresh process; returns (kind, message) or None"""
    r, w = os.pipe(); pid = os.fork()
    if pid == 0:
        os.close(r); mc.scratch = os.path.join(a["scratch"], "replay"); shutil.rmtree(mc.scratch, ignore_errors=True); os.makedirs(mc.scratch); os.chdir(mc.scratch)
        lg = os.open(os.path.join(a["scratch"], "replaylog"), os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644); os.dup2(lg, 1); os.dup2(lg, 2); signal.alarm(timeout)
        if shard:
            mc.worker, mc.workers = shard; mc.shared = mmap.mmap(-1, 8192); r = dict(violation=None); explore(f, time.time() + timeout, r); v = r["violation"]; v = v and [v["kind"], "", v["message"]]
        else: v = execute(f, choices)
        os.write(w, json.dumps([v, mc.note_text]).encode()[:60000]); os._exit(0)
    os.close(w); d = b""
    while True:
        b = os.read(r, 65536)
        if not b: break
        d += b
    os.close(r); _, st = os.waitpid(pid, 0)
    if d and os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0:
        v, note = json.loads(d.decode()); return (v[0], "%s [%s]" % (v[2], note)) if v else None
    lg = open(os.path.join(a["scratch"], "replaylog"), errors="replace").read(); i = lg.find("ERROR: AddressSanitizer")
    why = lg[i:i + 600] if i >= 0 else lg[-300:]
    return ("hang" if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGALRM else "crash", "the process died (status %d): %s" % (st, why))

def main():
    mod = sys.argv[1]; a = dict(tier="quick", out=None, known=None, replaydir=".", prop="C24", seed="1", scratch=None, budget="400", only=None, replay=None); i = 2
    while i < len(sys.argv): a[sys.argv[i].lstrip("-")] = sys.argv[i + 1]; i += 2
    if a["known"] and os.path.exists(a["known"]): mc.known_keys = set(open(a["known"]).read().split())
    mc.thorough = a["tier"] == "thorough"; mc.seed = int(a["seed"]); importlib.import_module(mod); by = dict((f.__name__, f) for f in REG)
    a["scratch"] = os.path.abspath(a["scratch"] or tempfile.mkdtemp())
    if a["replay"]:
        L = dict(l.split(" ", 1) for l in open(a["replay"]).read().splitlines() if " " in l)
        if L.get("scenario") not in by: return 3
        if L.get("tier") == "thorough": mc.thorough = True
        v = one(a, by[L["scenario"]], json.loads(L["choices"]), *([300, json.loads(L["shard"])] if "shard" in L else []))
        if v: print("%s: %s" % v); print("VIOLATION property=%s replay=%s" % (L["property"], a["replay"])); return 1
        print("no violation"); return 0
    fs = [f for f in REG if not a["only"] or f.__name__ in a["only"].split(",")]
    W = min(8, os.cpu_count() or 8); t0 = time.time(); budget = float(a["budget"]); kids = {}
    for w in range(W):
        sh = mmap.mmap(-1, 8192); o = os.path.join(a["scratch"], "o%d" % w); pid = os.fork()
        if pid == 0: worker(w, W, fs, a, sh, o, budget)
        kids[pid] = (w, sh, o)
    total = dict(executions=0, steps=0, evals=0, states=0, max_depth=0, exhaustive=True, samples=[], per_scenario={}, known=[], violation=None); states = set(); bad = []
    while kids:
        pid, st = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            time.sleep(0.02); now = time.time() * 1000
            for p, (w, sh, o) in kids.items():
                sh.seek(4096); t = int.from_bytes(sh.read(8), "little")
                if t and now - t > 60000: os.kill(p, signal.SIGKILL)
            continue
        w, sh, o = kids.pop(pid)
        if st != 0 or not os.path.exists(o):
            sh.seek(0); n = int.from_bytes(sh.read(4), "little"); d = sh.read(n)
            if not n: print("error: worker died before its first execution (%d): %s" % (st, open(os.path.join(a["scratch"], "log%d" % w), errors="replace").read()[-500:])); return 2
            s, c, note = json.loads(d.decode()); bad.append(dict(kind="crash", scenario=s, choices=c, message=note, shard=[w, W])); total["exhaustive"] = False; continue
        r = json.load(open(o))
        if r["violation"]: bad.append(dict(r["violation"], shard=[w, W]))
        for k, (n, s, d, full) in r["per"].items():
            e = total["per_scenario"].setdefault(k, dict(executions=0, steps=0, max_depth=0, exhaustive=True)); e["executions"] += n; e["steps"] += s; e["max_depth"] = max(e["max_depth"], d); e["exhaustive"] &= full
            total["executions"] += n; total["max_depth"] = max(total["max_depth"], d); total["exhaustive"] &= full
        total["steps"] += r["steps"]; total["evals"] += r["evals"]; states |= set(r["states"]); total["samples"] += r["samples"][:3]; total["known"] += r["known"]
    total["states"] = len(states)
    for b in bad:
        v = one(a, by[b["scenario"]], b["choices"])
        if not v: v = one(a, by[b["scenario"]], b["choices"])
        sh = None
        if not v: sh = b["shard"]; v = one(a, by[b["scenario"]], [], 300, sh)     # it may need what ran before it
        if not v: print("note: not reproduced: %s" % json.dumps(b)[:300]); total["exhaustive"] = False; continue
        p = os.path.join(a["replaydir"], "%s-%s.replay" % (a["prop"], b["scenario"]))
        with open(p, "w") as g: g.write("property %s\nscenario %s\ntier %s\n%schoices %s\nmessage %s\n" % (a["prop"], b["scenario"], a["tier"], "shard %s\n" % json.dumps(sh) if sh else "", json.dumps(b["choices"]), v[1].replace("\n", " | ")))
        total["violation"] = dict(kind=v[0], scenario=b["scenario"], message=v[1], replay=p); break
    with open(a["out"], "w") as g: json.dump(total, g)
    return 1 if total["violation"] else 0

if __name__ == "__main__":
    sys.modules["explore"] = sys.modules["__main__"]   # scenarios import this same module
    sys.exit(main())
