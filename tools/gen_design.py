#!/usr/bin/env python3
"""Writes DESIGN.md: the text below, with the tables taken from specs.py, properties.jsonl, known_findings.txt and seeded/."""
import glob, json, os, re, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."); sys.path.insert(0, V)
from specs import SPECS
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
known = [re.match(r"(known|fixed): property=(\S+) (\S+) (.*)", l) for l in open(V + "/known_findings.txt")]
known = [m.groups() for m in known if m]
# property -> (what decides an execution, why tests cannot)
ORACLE = {
"C01": ("a queue of frame contents in the harness; after every operation every window place is compared with it, and every frame not concerned is compared byte for byte with a snapshot", "tests step one window forward once; aliasing and off-by-one errors appear only in particular histories, window lengths or after failing reads"),
"C02": ("the frame itself, value by value; values are placed in pairs of fields so that formats that run together are seen", "a test samples one record; the failures are in wide indices, negative numbers, empty frames, unusual counts"),
"C03": ("a parser of the file formats in the harness says which cuts and damages leave the announced records incomplete; buffers are exactly as large as needed, under the address sanitizer", "the fault space is every byte of every file"),
"C04": ("what a writer has to leave on the medium when nothing fails; success must mean equal files, any difference must mean failure", "the kernel produces the errors (RLIMIT_FSIZE, /dev/full, directories) at every byte"),
"C05": ("independent readers in the harness (which value goes to which field); every truncation must be refused", "as C03"),
"C06": ("the written record; the documented rule for fallback and neutral distortion", "as C03"),
"C07": ("field tables written from the record definitions: equal exactly when no field was changed", "tests change one or two fields"),
"C08": ("balance of live heap bytes and open descriptors over repeated calls", "leaks do not change results; they are in error paths tests do not take"),
"C09": ("blobs as the fixed point of the growth rule, computed by brute force; for peak_fit an independent implementation of its definition (growth, first three touching peaks, valley between the centres)", "the number of small images is finite and all of them are run"),
"C10": ("brute-force cliques over an independent candidate relation; the list must be a stable greedy choice (every clique left out shares a target with a better one)", "exclusivity and stability fail only for particular conflict graphs"),
"C11": ("linear scan over the list with the definition; independent ray tracer and projector for the segment", "binary search start errors depend on the list length and position"),
"C12": ("linear scan", "as C11"),
"C13": ("permutation and order; ranking by counting", "all small arrays and tables"),
"C14": ("a brute-force model of the documented tracking algorithm (harness/scene.h), stepped beside the library and compared after each step, and structural invariants (mutual, exclusive, in range, limits) that do not depend on the model", "a tracking decision depends on four frames, adding, competition and missing frames; tests count links of three recordings"),
"C15": ("byte comparison of all files of the same job under different histories", "state left in memory or on the stack is invisible to a single run"),
"C16": ("model of backward tracking plus structural invariants, including that nothing existing changes", "as C14"),
"C17": ("the identity, and an independent forward model", "tests use one camera with neutral distortion"),
"C18": ("vector-form ray tracing and bisection on the glass surface, both written independently; the identity for reconstruction", "tests use a few points and straight cameras"),
"C19": ("direct computation by the library with the table taken away (decided by C18), memory watched by the sanitizer", "every border cell is visited"),
"C20": ("points projected by an independent camera; the minimum property of the adjusted sum; failure must leave the camera alone", "convergence and index errors depend on start, flags, chosen points"),
"C21": ("independent projection and the nearest detection in the square window", "all arrangements of detections"),
"C22": ("direct definition of each filter in long arithmetic", "all small images; every size class of boxes"),
"C23": ("definitions, with guard values around every array", "all small shapes and sub-blocks"),
"C24": ("the C library called through ctypes on plain copies of the same data (compared exactly), guard zones around arrays, reference counts and object lifetimes, bytes held, the address sanitizer", "a binding goes wrong for layouts, counts, omitted arguments and object histories that tests do not use"),
"C25": ("the settings files themselves; file set, contents and totals compared step by step", "every cut of every settings file"),
}
out = []
def w(s=""): out.append(s)
w(open(V + "/tools/design_head.md").read().rstrip()); w()
w("## Properties and how they are decided"); w()
for p in props:
    i = p["id"]; s = SPECS[i]; o = ORACLE[i]
    w("### %s %s" % (i, p["title"])); w()
    w("- *Method*: %s (`harness/%s`)." % (s["technique"], ", ".join(dict.fromkeys(x for q in s["parts"] for x in q.get("src", ["../pyb/c24.py"])))))
    w("- *Enumerated, quick bounds*: %s." % s["bounds"])
    w("- *Oracle*: %s." % o[0])
    w("- *Why not tests*: %s." % o[1])
    w("- *Limits*: %s." % s["note"])
    k = [x for x in known if x[1] == i and x[0] == "known"]
    for x in k: w("- *Known finding* `%s`: %s" % (x[2].replace("key=", ""), x[3]))
    f = [x for x in known if x[1] == i and x[0] == "fixed"]
    if f: w("- *Defects it found, repaired*: " + "; ".join("%s (%s)" % (x[3], x[2]) for x in f) + ".")
    w()
w("## Planted bugs"); w()
w("Each was written from the property text and the code, compiles, passes the 164 stable tests, and has a demonstration; `tools/plant.py ID CHECK` tries one in a scratch copy. `Missed at first` says what had to be strengthened.")
w(); w("| id | property | needs | caught by |"); w("|---|---|---|---|")
notes = json.load(open(V + "/tools/seeded_notes.json"))
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); i = d.split("/")[-2]; w("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), notes.get(i, m["property"])))
w(); w(open(V + "/tools/design_tail.md").read().rstrip())
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n"); print(len(out), "lines")
