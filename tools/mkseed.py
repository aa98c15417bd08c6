#!/usr/bin/env python3
"""python3 tools/mkseed.py SPEC.py [id ...]: confirm planted bugs in scratch copies of /repo and write /verif/seeded/<id>/.

SPEC.py defines SEEDS: list of dicts id, property, file, old, new (strings or lists), needs, breaks, demo (python source)."""
import sys, os, shutil, subprocess, json, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
PY = "/opt/venv/bin/python"

def env(root):
    e = dict(os.environ, PYTHONPATH=root, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", NUMBA_NUM_THREADS="1", PYTHONHASHSEED="0")
    return e

def one(s):
    w = tempfile.mkdtemp(prefix="seed_")
    try:
        root = os.path.join(w, "repo")
        subprocess.run(["cp", "-a", "/repo", root], check=True)
        p = os.path.join(root, s["file"])
        src = open(p).read()
        o, n = s["old"], s["new"]
        if isinstance(o, str): o, n = [o], [n]
        for a, b in zip(o, n):
            if src.count(a) != 1 and not s.get("first"): return s["id"], "old text occurs %d times" % src.count(a)
            src = src.replace(a, b, 1)
        d = os.path.join(w, "seed"); os.makedirs(d)
        open(os.path.join(d, "demo.py"), "w").write(s["demo"])
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexport MPLBACKEND=Agg%s\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n' % s.get("env", ""))
        r0 = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=root, env=env(root), capture_output=True, text=True, timeout=290)
        if r0.returncode != 0: return s["id"], "demo fails on the unchanged tree: " + r0.stderr[-600:] + r0.stdout[-300:]
        open(p, "w").write(src)
        diff = subprocess.run(["git", "diff"], cwd=root, capture_output=True, text=True).stdout
        c = subprocess.run([PY, "-m", "compileall", "-q", "dreimac"], cwd=root, capture_output=True, text=True, env=env(root))
        if c.returncode: return s["id"], "does not compile"
        r1 = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=root, env=env(root), capture_output=True, text=True, timeout=290)
        if r1.returncode == 0: return s["id"], "demo passes with the patch"
        t = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "2", "--timeout=600", "test"], cwd=root, env=env(root), capture_output=True, text=True)
        if " failed" in t.stdout or "error" in t.stdout.lower().split("\n")[-2]: return s["id"], "tests fail: " + t.stdout[-600:]
        if "11 passed" not in t.stdout: return s["id"], "tests: " + t.stdout[-300:]
        out = os.path.join(V, "seeded", s["id"]); os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        for f in ("demo.py", "demo.sh"): shutil.copy(os.path.join(d, f), out)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        return s["id"], "kept (" + (r1.stderr.strip().split("\n")[-1] if r1.stderr.strip() else r1.stdout.strip()[-100:]) + ")"
    finally: shutil.rmtree(w)

def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    ss = [s for s in g["SEEDS"] if len(sys.argv) < 3 or s["id"] in sys.argv[2:]]
    with cf.ThreadPoolExecutor(4) as ex:
        for i, m in ex.map(one, ss): print(i, m, flush=True)
main()
