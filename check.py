#!/usr/bin/env python3
"""python3 check.py <property id> [quick|thorough]   -- static analysis of /repo's current source for one property"""
import importlib, os, sys, time
sys.setrecursionlimit(20000)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa import framework

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    mod = importlib.import_module("checks." + pid.lower())
    try:
        ck = framework.Check(pid, tier=tier)
        mod.check(ck)
        if tier == "thorough" and hasattr(mod, "SELFTEST"):
            from sa import selftest
            selftest.run(ck, mod)
    except framework.Broken as e:
        print("%s: ANALYSIS BROKEN: %s" % (pid, e)); return 2
    return framework.finish(ck, mod.EXPLANATION, mod.ASSUMPTIONS, t0)

if __name__ == "__main__":
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = []
    t = threading.Thread(target=lambda: rc.append(main()))
    t.start(); t.join()
    sys.exit(rc[0] if rc else 3)
