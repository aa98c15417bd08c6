#!/usr/bin/env python3
"""python3 tools/refall.py [name] [C01,C02]: run every check on every behaviour-preserving edit; list alarms (bad) and newly undecided obligations"""
import sys, importlib, threading, os, concurrent.futures as cf, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
PIDS = ["C%02d" % i for i in range(1, 27)]
def work(a):
    k, pid = a
    sys.setrecursionlimit(20000); threading.stack_size(512 * 1024 * 1024)
    out = []
    def go():
        from sa import framework, vg
        from tools.refactorings import REF
        name, f, old, new = REF[k]
        src = open(os.path.join(framework.REPO, f)).read()
        for o, n in zip(old, new):
            if o not in src: out.append((name, pid, "MISSING " + o[:60])); return
            src = src.replace(o, n, 1)
        try: compile(src, f, "exec")
        except SyntaxError as e: out.append((name, pid, "SYNTAX %s" % e)); return
        try:
            ck = framework.Check(pid, overlay={f: src})
            importlib.import_module("checks." + pid.lower()).check(ck)
        except Exception as e:
            out.append((name, pid, "%s %s" % (type(e).__name__, str(e)[:150]))); return
        bad = [o for o in ck.obls if o.status == "bad"]; unk = [o for o in ck.obls if o.status == "unknown"]
        out.append((name, pid, [(o.key, o.msg[:200]) for o in bad], [(o.key, o.how[:80]) for o in unk]))
    t = threading.Thread(target=go); t.start(); t.join()
    return out[0] if out else ("?", pid, "crash")
if __name__ == "__main__":
    from tools.refactorings import REF
    pat = sys.argv[1] if len(sys.argv) > 1 else ""
    pids = sys.argv[2].split(",") if len(sys.argv) > 2 else PIDS
    jobs = [(k, p) for k, r in enumerate(REF) if (pat in r[0] if not pat.startswith("@") else any(r[0].startswith(x) for x in pat[1:].split("|"))) for p in pids]
    with cf.ProcessPoolExecutor(8) as ex:
        for r in ex.map(work, jobs, chunksize=1):
            if len(r) == 3: print("!!!", *r, flush=True)
            elif r[2]: print("BAD", r[0], r[1], r[2], flush=True)
            elif len(r[3]) > {"C01": 2, "C03": 1}.get(r[1], 0): print("unk", r[0], r[1], len(r[3]), r[3][:2], flush=True)
