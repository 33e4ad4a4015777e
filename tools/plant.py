#!/usr/bin/env python3
"""plant.py ID [CHECK ...]: try a planted bug in a scratch copy of /repo.
Reports: applies, builds, stable tests, demo on the clean and the patched tree, and (with CHECK) the quick checks."""
import json, os, shutil, subprocess, sys
R = "/tmp/pl/repo"; V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
head = sh("git -C /repo rev-parse HEAD").stdout.strip()
if not os.path.isdir(R):
    os.makedirs("/tmp/pl", exist_ok=True); sh("cp -a /repo " + R); sh("cd %s/_build && find . -maxdepth 1 -name 'CMake*' -o -maxdepth 1 -name build.ninja | xargs rm -r; cd -; mkdir -p /tmp/pl/vp && cp /opt/vp/*.py /opt/vp/*.json /tmp/pl/vp/" % R)
    for f in ("build.sh", "test.sh"):
        t = open("/opt/vp/" + f).read().replace("R=/repo;", "R=%s;" % R).replace("bash /opt/vp/build.sh", "bash /tmp/pl/vp/build.sh").replace("CK_DEFAULT_TIMEOUT=5", "CK_DEFAULT_TIMEOUT=40"); os.makedirs("/tmp/pl/vp", exist_ok=True); open("/tmp/pl/vp/" + f, "w").write(t)
if sh("git -C %s rev-parse HEAD" % R).stdout.strip() != head: print(sh("git -C %s fetch -q /repo HEAD && git -C %s checkout -qf %s" % (R, R, head)).stdout)
def clean(): sh("git -C %s checkout -f -q -- ." % R)
def tests():
    o = sh("bash /tmp/pl/vp/test.sh /tmp/pl/o.json")
    if not os.path.exists("/tmp/pl/o.json"): return ["no result " + o.stdout[-300:]]
    r = json.load(open("/tmp/pl/o.json")); b = json.load(open("/opt/vp/BASELINE.json")); st = b.get("stable") or b.get("tests") or b["passed"]
    return sorted(set(st) - set(r["passed"]))
def demo(d):
    sh("rm -rf /tmp/pl/demo; cp -r %s /tmp/pl/demo; rm -f /tmp/pl/demo/*.diff /tmp/pl/demo/meta.json" % d); r = sh("timeout 300 bash /tmp/pl/demo/demo.sh", cwd=R); return r.returncode, r.stdout[-200:].strip().replace("\n", " | ")
id_ = sys.argv[1]; d = V + "/seeded/" + id_
clean(); b = sh("bash /tmp/pl/vp/build.sh"); print("clean build", b.returncode, "demo", demo(d))
try:
    a = sh("git -C %s apply %s/patch.diff" % (R, d)); print("apply", a.returncode, a.stdout[:200])
    if a.returncode == 0:
        print("tests missing", tests()[:5]); print("patched demo", demo(d))
        for c in sys.argv[2:]:
            r = sh("VERIF_REPO=%s timeout 900 python3 check.py %s --tier quick" % (R, c), cwd=V); print(c, r.returncode, " ".join(l for l in r.stdout.splitlines() if "VIOLATION" in l)[:200], "|", r.stdout[-250:].replace("\n", " "))
finally: clean()
