#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the list of the
properties that have monitors (vmon list)."""
import json, os, subprocess, tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with tempfile.TemporaryDirectory() as d:
    subprocess.check_call(["bash", "-c", ". %s/env.sh; cd %s/harness && go build -o %s/vmon ./cmd/vmon" % (ROOT, ROOT, d)])
    out = subprocess.check_output([d + "/vmon", "list"], text=True)
scen = {}
for l in out.splitlines():
    f = l.split()
    scen.setdefault(f[0], []).append(f[1])

MODEL = "runtime monitoring: generated operation histories on the real code, an online reference-model monitor compares every observable after the operations"
TECH = {
    "C02": "runtime monitoring: instrumented comparators count calls and reconstruct tree shapes online; height checked after every operation",
    "C07": "runtime monitoring: online model of a family of copies, allocation monitor, and the Go race detector on one goroutine per copy",
    "C22": "runtime monitoring: allocation monitor on large ropes, and the Go race detector with result oracles on shared versions",
    "C27": "runtime monitoring: result monitor over exhaustive small types and generated values, types and less functions",
    "C28": "runtime monitoring: collision, agreement and bit-flip (avalanche) monitors over exhaustive small types and sampled large ones",
    "C29": MODEL + "; copies of large containers under the Go race detector",
    "C30": "Go race detector on concurrent workloads of separate containers and shared readers, with sequential-result oracles",
    "C31": "runtime monitoring with injected faults: rejected calls and panics injected into callbacks, state compared with a model before and after",
    "C32": "runtime monitoring: weak pointers to everything put in, checked after forced garbage collections; live-heap monitor on long histories",
    "C33": "runtime monitoring: execution counters compiled into the library (go build -cover), allocation and CPU-time monitors, costs compared between small and large containers",
}
NOTE = ("Held on every execution observed (the evidence file counts cases, operations, oracle decisions and distinct states); "
        "histories that were not generated are not covered. Seeded by VERIF_SEED.")
checks, na = [], []
for l in open(ROOT + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    if i not in scen:
        na.append({"property": i, "reason": "its monitor is not built yet"})
        continue
    checks.append({
        "property": i,
        "quick_cmd": "./check.sh %s quick" % i,
        "thorough_cmd": "./check.sh %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": TECH.get(i, MODEL),
        "level": "exploration",
        "level_note": NOTE,
    })
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)
open(ROOT + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
