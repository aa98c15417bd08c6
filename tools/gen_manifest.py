#!/usr/bin/env python3
"""MANIFEST.json from the checkers present in checks/"""
import importlib, json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
NA = {
 "C90": "the pulled-back class of the sampled map is a homotopy statement about the nerve of a runtime cover; no dataflow, effect or term-normalisation argument over the source bounds it (its structural ingredients are claimed as C05, C06, C08, C10, C12)",
 "C91": "least energy up to tolerance is the convergence of an iterative numerical solver (scipy lsqr) on runtime matrices: outside what a static argument over this source can bound (the system handed to the solver, its options and what is done with the answer are claimed as C26)",
 "C92": "termination and the norm bound need a real-valued potential argument over runtime Gram-Schmidt values in floating point: not a shape-of-the-code fact (the stopping test, the unimodular lockstep and the orthogonalisation are claimed as C17)",
 "C93": "invariance under isometry and relabelling is decided by tie-breaking and digits inside ripser and LAPACK at run time; the library source does not determine it",
}
checks = []
for f in sorted(os.listdir(os.path.join(H, "checks"))):
    if f[0] != "c" or not f[1:3].isdigit(): continue
    pid = f[:3].upper()
    m = importlib.import_module("checks." + f[:-3])
    if getattr(m, "DISABLED", False): continue
    checks.append({"property": pid, "quick_cmd": "python3 check.py %s quick" % pid, "thorough_cmd": "python3 check.py %s thorough" % pid,
                   "technique": getattr(m, "TECHNIQUE", "static analysis: interprocedural value-graph (GVN) dataflow with algebraic normal forms"),
                   "level": "other",
                   "level_note": getattr(m, "LEVEL_NOTE", m.EXPLANATION + " Assumes: " + "; ".join(m.ASSUMPTIONS))})
claimed = {c["property"] for c in checks}
na = []
for l in open(os.path.join(H, "properties.jsonl")):
    d = json.loads(l)
    if d["id"] not in claimed: na.append({"property": d["id"], "reason": NA.get(d["id"], "checker not finished yet")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(na), "not claimed")
