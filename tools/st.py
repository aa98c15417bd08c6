#!/usr/bin/env python3
"""python3 tools/st.py C01[,C02] [name]: run a checker's in-memory variants and print what it says"""
import sys, importlib, threading, os, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
def work(a):
    pid, k = a
    sys.setrecursionlimit(20000); threading.stack_size(512 * 1024 * 1024)
    out = []
    def go():
        from sa import selftest
        mod = importlib.import_module("checks." + pid.lower()); ent = mod.SELFTEST[k]
        r, why = selftest.run_one(mod, pid, ent)
        out.append("%-4s %-8s %s want=%s got=%s %s" % (pid, "OK" if r == ent[4] else "****", ent[0], ent[4], r, (why or "") if r != ent[4] or len(sys.argv) > 2 else ""))
    t = threading.Thread(target=go); t.start(); t.join()
    return out[0] if out else "%s **** crashed" % pid
if __name__ == "__main__":
    jobs = []
    for pid in sys.argv[1].split(","):
        mod = importlib.import_module("checks." + pid.lower())
        for k, ent in enumerate(getattr(mod, "SELFTEST", [])):
            if len(sys.argv) > 2 and sys.argv[2] not in ent[0]: continue
            jobs.append((pid, k))
    with cf.ProcessPoolExecutor(8) as ex:
        for l in ex.map(work, jobs): print(l, flush=True)
