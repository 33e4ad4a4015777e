"""Builds the Python bindings and a plain-C reference library from the working tree, under the address sanitizer."""
import os, glob, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
PY = "/opt/optv-venv/bin/python"

def run(cmd, cwd=None, env=None):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=cwd, env=env)
    if r.returncode: raise RuntimeError(" ".join(cmd) + "\n" + r.stdout[-3000:])
    return r.stdout

def prepare(part, bdir, REPO, V):
    M = os.path.join(bdir, "m"); O = os.path.join(M, "optv"); I = os.path.join(M, "inc"); os.makedirs(O); os.makedirs(I)
    shutil.copytree(REPO + "/liboptv/include", I + "/optv")
    for f in glob.glob(REPO + "/py_bind/optv/*"):
        if os.path.splitext(f)[1] in (".pyx", ".pxd", ".py", ".pxi"): shutil.copy(f, O)
    san = ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address"] if part.get("variant", "asan") == "asan" else ["-O2"]
    env = dict(os.environ, PYTHONNOUSERSITE="1", PYTHONDONTWRITEBYTECODE="1"); env.pop("PYTHONPATH", None)
    inc = ["-I" + I, "-I" + I + "/optv", "-I" + M]
    pinc = run([PY, "-c", "import numpy,sysconfig;print('-I'+numpy.get_include());print('-I'+sysconfig.get_paths()['include']);print(sysconfig.get_config_var('EXT_SUFFIX'))"], env=env).split()
    pyx = sorted(os.path.basename(f)[:-4] for f in glob.glob(O + "/*.pyx"))
    lib = M + "/libvopt.so"; src = sorted(glob.glob(REPO + "/liboptv/src/*.c"))
    cflags = ["-fPIC", "-w", "-fcommon"] + san
    vm = ["-D%s=v_%s" % (f, f) for f in ("malloc", "calloc", "realloc", "free")]   # counted: see vmem.c
    def obj(s):
        o = os.path.join(M, os.path.basename(s) + ".o"); run(["gcc", "-std=gnu11"] + cflags + ([] if s.endswith("vmem.c") else vm) + inc + ["-c", s, "-o", o]); return o
    def cy(m):
        run([PY, "-m", "cython", "-2", "optv/%s.pyx" % m], cwd=M, env=env)
        run(["gcc"] + cflags + vm + inc + pinc[:2] + ["-c", "optv/%s.c" % m, "-o", m + ".po"], cwd=M)
    with ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(cy, m) for m in sorted(pyx, key=lambda m: -os.path.getsize(O + "/" + m + ".pyx"))] + [ex.submit(obj, s) for s in src + [V + "/pyb/shim.c", V + "/pyb/vmem.c"]]
        res = [f.result() for f in fs]
    objs = [r for r in res if r]
    run(["gcc", "-shared"] + san + objs + ["-lm", "-o", lib])
    for m in pyx: run(["gcc", "-shared"] + san + [M + "/" + m + ".po", lib, "-Wl,-rpath," + M, "-lm", "-o", O + "/" + m + pinc[2]])
    asan = run(["gcc", "-print-file-name=libasan.so"]).strip()
    pre = ["LD_PRELOAD=" + asan] if part.get("variant", "asan") == "asan" else []
    return ["env"] + pre + ["ASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=2000:handle_abort=1:max_malloc_fill_size=100000", "PYTHONMALLOC=malloc", "PYTHONPATH=%s:%s/pyb" % (M, V),
            "PYTHONNOUSERSITE=1", "PYTHONDONTWRITEBYTECODE=1", "OPENBLAS_NUM_THREADS=1", "OMP_NUM_THREADS=1", "VERIF_SHIM=" + lib, PY, V + "/pyb/explore.py", part["python"]]
