#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough] [--replay FILE] [--only SCENARIO]

Builds the harness(es) of one property against the *current* working tree of
/repo, explores, writes evidence/<ID>.json and reports.
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.
"""
import sys, os, re, json, time, subprocess, tempfile, shutil, glob, fcntl
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
REPO = os.environ.get("VERIF_REPO", "/repo")
from specs import SPECS, ASAN, FAST, ASSUME

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

class BuildError(Exception): pass

def compile_all(jobs):
    def one(cmd):
        r = run(cmd)
        return (r.returncode, " ".join(cmd), r.stdout)
    with ThreadPoolExecutor(8) as ex:
        for rc, cmd, out in ex.map(one, jobs):
            if rc: raise BuildError(cmd + "\n" + out)

def build(part, bdir):
    """Compiles liboptv from the working tree with the harness; returns the binary."""
    flags = ASAN if part.get("variant", "asan") == "asan" else FAST
    inc = ["-I" + REPO + "/liboptv/include", "-I" + V + "/harness"]
    srcs = sorted(glob.glob(REPO + "/liboptv/src/*.c"))
    if not srcs: raise BuildError("no sources")
    jobs, objs = [], []
    for s in srcs:
        o = os.path.join(bdir, "l_" + os.path.basename(s) + ".o"); objs.append(o)
        jobs.append(["gcc", "-std=gnu11", "-w", "-fcommon"] + flags + inc + part.get("cflags", []) + ["-c", s, "-o", o])
    for s in ["mc.cpp"] + part["src"]:
        o = os.path.join(bdir, "h_" + s + ".o"); objs.append(o)
        hf = ["-O2", "-g"] if s == "mc.cpp" and part.get("variant") == "fast" else flags
        jobs.insert(0, ["g++", "-std=gnu++17", "-w", "-fpermissive"] + hf + inc + part.get("cxxflags", []) + ["-c", V + "/harness/" + s, "-o", o])
    compile_all(jobs)
    exe = os.path.join(bdir, "h")
    r = run(["g++"] + flags + objs + part.get("ldflags", []) + ["-lm", "-o", exe])
    if r.returncode: raise BuildError(r.stdout)
    return exe

def known_entries(pid):
    """the recorded, unrepaired defects of this property (known_findings.txt)"""
    res = []
    p = V + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == pid: res.append(dict(key=m.group(2), what=m.group(3)))
    return res

def main():
    a = sys.argv[1:]
    pid = a[0]; tier = os.environ.get("VERIF_TIER", "quick"); replay = only = None
    i = 1
    while i < len(a):
        if a[i] == "--tier": tier = a[i+1]; i += 2
        elif a[i] == "--replay": replay = a[i+1]; i += 2
        elif a[i] == "--only": only = a[i+1]; i += 2
        else: sys.exit("bad argument " + a[i])
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = SPECS[pid]; t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid, dir=os.environ.get("VERIF_TMP", "/tmp"))
    fast = None
    try:    # many tiny files: in memory where there is room
        st = os.statvfs("/dev/shm")
        if st.f_bavail * st.f_frsize > (1 << 28) and st.f_favail > 10000: fast = tempfile.mkdtemp(prefix="verif-%s-" % pid, dir="/dev/shm")
    except OSError: pass
    try:
        return run_check(pid, spec, tier, seed, replay, only, work, t0, fast)
    finally:
        shutil.rmtree(work, ignore_errors=True)
        if fast: shutil.rmtree(fast, ignore_errors=True)

def run_check(pid, spec, tier, seed, replay, only, work, t0, fast):
    known = known_entries(pid)
    kf = os.path.join(work, "known")
    with open(kf, "w") as f: f.write("".join(e["key"] + "\n" for e in known))
    replaydir = os.path.join(V, "replays"); os.makedirs(replaydir, exist_ok=True)
    total = dict(executions=0, steps=0, evals=0, states=0, max_depth=0); exhaustive = True
    samples, seen, per, violation, rcerr = [], {}, {}, None, None
    budget = float(spec.get("budget", 420 if tier == "quick" else 3000))
    build_s = 0.0
    for n, part in enumerate(spec["parts"]):
        if part.get("tier") and part["tier"] != tier: continue
        bdir = os.path.join(work, "b%d" % n); os.makedirs(bdir)
        tb = time.time()
        if part.get("python"):
            import importlib
            mod = importlib.import_module("pyb.build")
            cmd = mod.prepare(part, bdir, REPO, V)
        else:
            try: cmd = [build(part, bdir)]
            except BuildError as e:
                print("error: build failed: %s" % e); return 2
        build_s += time.time() - tb
        sc = os.path.join(fast or bdir, "s%d" % n); os.makedirs(sc); os.chmod(sc, 0o755)
        out = os.path.join(bdir, "out.json")
        if replay:
            r = subprocess.run(cmd + ["--replay", os.path.abspath(replay), "--scratch", sc, "--known", kf])
            if r.returncode != 3: return r.returncode
            continue
        htier = {"quick": "thorough", "thorough": "deepest"}[tier] if spec.get("deep") else tier   # cheap checks explore the larger bounds on every change
        c = cmd + ["--tier", htier, "--out", out, "--known", kf, "--replaydir", replaydir, "--prop", pid,
                   "--seed", str(seed), "--scratch", sc, "--budget", str(max(30.0, budget - (time.time() - t0)))]
        if only or part.get("only"): c += ["--only", only or ",".join(part["only"])]
        r = subprocess.run(c)
        if r.returncode not in (0, 1) or not os.path.exists(out):
            print("error: harness %s exited with %d" % (part.get("src") or part.get("python"), r.returncode)); rcerr = 2; continue
        o = json.load(open(out))
        for k in ("executions", "steps", "evals", "states"): total[k] += o[k]
        total["max_depth"] = max(total["max_depth"], o["max_depth"])
        exhaustive = exhaustive and o["exhaustive"]
        samples += o["samples"]; per.update(o["per_scenario"])
        for k in o["known"]: seen[k["key"]] = k["message"]
        if o["violation"] and not violation: violation = o["violation"]
        if violation: break
    if replay: return 3
    cov = dict(states=total["states"], transitions=total["steps"], traces_validated_against_impl=total["executions"],
               evaluations=total["executions"] + total["evals"], distinct_nontrivial=total["states"],
               rule=spec["rule"], samples=samples[:20] or ["(none)"], exhaustive=bool(exhaustive and not only),
               max_choice_depth=total["max_depth"], per_scenario=per, build_s=round(build_s, 2),
               bounds=spec.get("bounds", ""), known_findings_observed=sorted(seen))
    ev = dict(property=pid, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed, level=spec["level"], coverage=cov,
              assumptions=ASSUME + spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=1 if violation else 0)
    os.makedirs(V + "/evidence", exist_ok=True)
    if not only:
        with open(V + "/evidence/%s.json" % pid, "w") as f: json.dump(ev, f, indent=1)
    for e in known:
        if e["key"] in seen: print("KNOWN-FINDING: property=%s %s" % (pid, e["what"]))
        elif not violation and not rcerr: print("note: known finding not observed: %s" % e["key"])
    print("%s %s: %d executions, %d transitions, %d distinct states, max depth %d, exhaustive=%s, build %.1fs, total %.1fs" % (
        pid, tier, total["executions"], total["steps"], total["states"], total["max_depth"], cov["exhaustive"], build_s, time.time() - t0))
    if violation:
        print("%s in scenario %s: %s" % (violation["kind"], violation["scenario"], violation["message"]))
        print("VIOLATION property=%s replay=%s" % (pid, violation["replay"]))
        return 1
    if rcerr: return rcerr
    if total["executions"] == 0: print("error: nothing explored"); return 2
    return 0

if __name__ == "__main__": sys.exit(main())
