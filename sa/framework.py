"""Obligation bookkeeping, evidence files, known findings and exit codes shared by all property checkers."""
import json, os, sys, time, traceback
from . import vg, tnf, cert, poly

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DREIMAC_REPO", "/repo")

class Broken(Exception):
    """the analysis has lost a public anchor: no verdict"""

class Obl:
    def __init__(self, key, status, msg, site, how):
        self.key, self.status, self.msg, self.site, self.how = key, status, msg, site, how

class Check:
    def __init__(self, pid, root=None, overlay=None, tier="quick"):
        self.pid, self.tier = pid, tier
        cert.BOOST = 4 if tier == "thorough" else 1
        self.root = root or REPO
        self.prog = vg.Program(self.root, overlay=overlay)
        self.I = self.prog.interp
        self.obls = []
        self.functions = set()
        self.notes = []
        self.cache = {}
    # -- lookup
    def fn(self, qual, must=True):
        try: f = self.prog.lookup(qual)
        except Exception: f = None
        if f is None and must: raise Broken("public anchor %s is gone" % qual)
        return f
    def cls_of(self, qual):
        m, q = qual.split(":")
        if "." not in q: return None
        return self.prog.lookup(m + ":" + q.split(".")[0])
    def run(self, qual, args=None, types=None, selfobj=None, f=None):
        """value graph of a function (cached when called without arguments)"""
        k = (qual, tuple(sorted((a, b) for a, b in (args or {}).items())) if args and all(isinstance(b, vg.Node) for b in args.values()) else None)
        if args is None and types is None and k in self.cache: return self.cache[k]
        f = f or self.fn(qual)
        cls = self.cls_of(qual)
        so = selfobj or (vg.ObjV(cls, "self") if cls is not None and isinstance(cls, vg.ClassV) and not f.static else None)
        r = self.I.run(f, args, selfobj=so, types=types)
        r.site0 = "%s:%d %s" % (f.mod.file, f.node.lineno, qual)
        self.functions.add(qual)
        for e in r.effects:
            for s in (e.stack or ()):
                if isinstance(s, tuple) and len(s) >= 3: self.functions.add(str(s[2]))
        if args is None and types is None: self.cache[k] = r
        return r
    # -- obligations
    def add(self, key, status, msg="", site="", how=""):
        self.obls.append(Obl(key, status, msg, fsite(site), how))
    def ok(self, key, how="", site=""): self.add(key, "ok", "", site, how)
    def unk(self, key, how="", site=""): self.add(key, "unknown", "", site, how)
    def bad(self, key, msg, site=""): self.add(key, "bad", msg, site)
    def verdict(self, key, v, msg, site=""):
        if v.kind == "eq": self.ok(key, v.how, site)
        elif v.kind == "ne": self.bad(key, msg + (" | " + json.dumps(v.witness)[:1500] if v.witness else ""), site)
        else: self.unk(key, v.how, site)
    def guard(self, key, fnc, *a):
        """run one group of obligations; constructs outside the modelled vocabulary leave it undecided"""
        try: return fnc(*a)
        except Broken: raise
        except (tnf.Unk, vg.AnalysisError, cert.NoVal) as e: self.unk(key, "%s: %s" % (type(e).__name__, str(e)[:200]))
        except RecursionError: self.unk(key, "recursion limit")
        except Exception as e:
            if os.environ.get("SA_DEBUG"): traceback.print_exc()
            self.unk(key, "internal: %s %s" % (type(e).__name__, str(e)[:200]))

def fsite(s):
    if isinstance(s, tuple) and len(s) >= 3: return "%s:%s %s" % (os.path.basename(str(s[0])), s[1], s[2])
    return str(s or "")

def known():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known:"):
                d = dict(x.split("=", 1) for x in l[6:].split(" ", 3)[1:3] if "=" in x)
                out.append((d.get("property"), d.get("key"), l.split(" ", 3)[3] if l.count(" ") >= 3 else ""))
    return out

def finish(ck, explanation, assumptions, t0, level="other"):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    bad = [o for o in ck.obls if o.status == "bad"]
    kn = {k: txt for p, k, txt in known() if p == ck.pid}
    new = [o for o in bad if o.key not in kn]
    old = [o for o in bad if o.key in kn]
    st = {s: sum(1 for o in ck.obls if o.status == s) for s in ("ok", "unknown", "bad")}
    byhow = {}
    for o in ck.obls:
        if o.status == "ok": byhow[o.how.split(",")[0] or "rule"] = byhow.get(o.how.split(",")[0] or "rule", 0) + 1
    ev = {
        "property": ck.pid, "tier": ck.tier, "seed": seed, "level": level,
        "coverage": {
            "explanation": explanation,
            "obligations": len(ck.obls), "discharged": st["ok"], "undecided": st["unknown"], "violated": st["bad"],
            "discharged_by": byhow,
            "functions_analysed": sorted(ck.functions)[:200],
            "undecided_obligations": [{"rule": o.key, "why": o.how[:160]} for o in ck.obls if o.status == "unknown"][:40],
            "samples": [{"rule": o.key, "site": o.site, "by": o.how} for o in ck.obls if o.status == "ok"][:40],
        },
        "assumptions": assumptions, "wall_s": round(time.time() - t0, 3), "violations": len(new),
    }
    if ck.notes: ev["coverage"]["notes"] = ck.notes[:40]
    d = os.path.join(VERIF, "evidence"); os.makedirs(d, exist_ok=True)
    json.dump(ev, open(os.path.join(d, ck.pid + ".json"), "w"), indent=1)
    for o in old: print("KNOWN-FINDING: property=%s %s" % (ck.pid, kn[o.key] or o.msg[:200]))
    if new:
        rp = os.path.join(d, ck.pid + ".violation.txt")
        with open(rp, "w") as f:
            for o in new: f.write("property %s\nrule      %s\nconstruct %s\nreason    %s\n\n" % (ck.pid, o.key, o.site, o.msg))
        for o in new: print("%s  rule=%s  at %s: %s" % (ck.pid, o.key, o.site, o.msg[:300]))
        print("VIOLATION property=%s replay=%s" % (ck.pid, rp))
        return 1
    print("%s: %d obligations, %d discharged, %d undecided, %d known findings (%.1fs)" % (ck.pid, len(ck.obls), st["ok"], st["unknown"], len(old), time.time() - t0))
    return 0
