"""In-memory mutants and behaviour-preserving rewrites: how sensitive and how quiet a checker is.

Each entry is (name, file, old text, new text, expectation).  The variant is analysed through an overlay, nothing is written or run.
Entries whose `old` text is not in the current source are skipped.  Results are evidence only and never change the verdict."""
import os
from . import framework

def variant(root, rel, old, new):
    src = open(os.path.join(root, rel), encoding="utf-8").read()
    if isinstance(old, str): old, new = [old], [new]
    for o, n in zip(old, new):
        if src.count(o) < 1: return None
        src = src.replace(o, n, 1)
    try: compile(src, rel, "exec")
    except SyntaxError: return None
    return src

def run_one(mod, pid, ent, root=None):
    name, rel, old, new, expect = ent
    root = root or framework.REPO
    if isinstance(old, str) and old.startswith("@"):       # restrict to the text after a marker line
        pass
    src = variant(root, rel, old, new)
    if src is None: return "skipped", None
    try:
        ck = framework.Check(pid, root=root, overlay={rel: src})
        mod.check(ck)
    except framework.Broken as e: return "broken", [str(e)]
    bad = [o for o in ck.obls if o.status == "bad"]
    return ("bad" if bad else "quiet"), ["%s: %s" % (o.key, o.msg[:160]) for o in bad[:3]] or ["%s ? %s" % (o.key, o.how[:100]) for o in ck.obls if o.status == "unknown"][:12]

def run(ck, mod):
    res = {"detected": 0, "missed": [], "quiet": 0, "alarmed": [], "skipped": 0}
    for ent in mod.SELFTEST:
        try: r, why = run_one(mod, ck.pid, ent, ck.root)
        except Exception as e: r, why = "error", [str(e)]
        if r == "skipped": res["skipped"] += 1
        elif ent[4] == "bad":
            if r == "bad": res["detected"] += 1
            else: res["missed"].append(ent[0])
        else:
            if r == "quiet": res["quiet"] += 1
            else: res["alarmed"].append(ent[0])
    ck.notes.append({"selftest": res})
