"""C10: the filtration value is (1-perc)*start + perc*end, the radius is half of it, and empty ranges raise."""
from .common import *
from . import c06
from fractions import Fraction

TECHNIQUE = "static analysis: interprocedural value graphs brought to scalar normal forms, compared with reference formulas (identity testing); guard analysis of raise statements"
EXPLANATION = "In every get_coordinates the filtration value and radius handed to the complex, the cocycle check and the cover are expressed through the stored birth and death of the requested classes and compared with (1-perc)*start + perc*end and half of it; the disjunction of the path conditions of all raise statements that depend on births and deaths is compared with emptiness of the range."
ASSUMPTIONS = ["ripser's diagrams have births in column 0 and deaths in column 1", "the boundary case start == end may or may not raise"]

DEG = {"toroidalcoords:ToroidalCoords": 1, "circularcoords:CircularCoords": 1, "complexprojectivecoords:ComplexProjectiveCoords": 2, "lenscoords:LensCoords": 1, "projectivecoords:ProjectiveCoords": 1}

def method(ck):
    q = "emcoords:EMCoords.get_cover_radius"
    f = ck.fn(q)
    ps = [a.arg for a in f.node.args.args if a.arg != "self"]
    if len(ps) != 4: ck.unk("get_cover_radius", "parameters"); return
    spec(ck)
    r = ck.run(q)
    t = {p: ty(":f") for p in ps}; t[ps[3]] = ty(":b")
    c = Ctx(r, types=t)
    ref = ck.run("zz_ref:cover_radius", args=dict(zip(["perc", "birth", "death", "standard_range"], map(vg.sym, ps))))
    c2 = Ctx(ref, types=t)
    n, m = r.node(), ref.node()
    for k, what in ((0, "cover radius"), (1, "filtration value")):
        ck.guard("get_cover_radius.%d" % k, lambda: ck.verdict("get_cover_radius." + what.replace(" ", "_"), decide(c, c.val(item(n, k)), c2.val(item(m, k))), "the %s is not the documented one" % what, r.site0))

    # the exception for an empty range, whatever form the options have
    raised = ZERO; k = 0
    for e in r.effects:
        if e.kind != "raise" or e.loops: continue
        cp = ONE
        for x, pol in e.path: cp = cp * (c.cond(x) if pol else ONE - c.cond(x))
        raised = poly.b_or(raised, c.close(cp)) if k else c.close(cp)
        k += 1
    if not k: return
    m = ref.node()
    empty, tie = c2.bool_at(item(m, 2), ()), c2.bool_at(item(m, 3), ())
    g = {p: (lambda p: lambda e, i: int(5 * e.u(p)) * unit_of_length(e))(p) for p in ps[1:3]}
    ck.verdict("get_cover_radius.raise", decide(c, raised, empty, gen=g, trials=80, where=lambda env: env.num(tie, {}) == 0, need=20), "the exceptions raised do not coincide with an empty filtration range", r.site0)

def reference(ck, q, c):
    spec(ck)
    many = q.startswith("toroidal")
    dg = [f for f, ro in c.rl.items() if ro == "dgms"]
    fld = "_dgms" if "_dgms" in dg else dg[0]
    base = dict(dgms=vg.sym("self." + fld), h=vg.const(DEG[q]), perc=vg.sym("perc"), standard_range=vg.sym("standard_range"))
    if many: ref = ck.run("zz_ref:many_classes", args=dict(base, cocycle_idxs=vg.sym("cocycle_idxs")))
    else: ref = ck.run("zz_ref:one_class", args=dict(base, k=vg.sym("cocycle_idx")))
    c2 = dre.em_ctx(ck, q, ref)
    m = ref.node()
    return [c2.val(item(m, k)) if k < 2 else c2.bool_at(item(m, k), ()) for k in range(4)], c2

def unit_of_length(env):
    """data in any unit: exact powers of two, so that ties stay ties"""
    return (1, 1, Fraction(1, 2 ** 16), Fraction(1, 2 ** 44), 2 ** 20)[int(5 * env.u("unit"))]

def gens(c):
    g = {}
    def cls(env, idx):
        # small integers, so that equal births and deaths occur
        b = int(4 * env.u("b", idx[0]))
        return (b if idx[1] == 0 else b + int(5 * env.u("d", idx[0]))) * unit_of_length(env)
    return cls

def leafmap(ps):
    """generator for the diagram leaf of these terms"""
    g = {}
    for a in atoms_of(tuple(ps), lambda a: a.kind == "el" and isinstance(a.args[0], vg.Node) and a.args[0].op == "index" and len(a.args[1]) == 2 and a.args[0].args[0].op == "sym"):
        g[poly.nodekey(a.args[0])] = gens(None)
    return g

def coordinate(ck, q):
    nm = q.split(":")[1]
    r = ck.run(q + ".get_coordinates")
    c = dre.em_ctx(ck, q, r)
    if q.startswith("circular"):
        # the single-class front end: the class list has the requested class as its only element
        c.types["cocycle_idx"] = Ty((), "i")
    calls = [x for x in r.calls_seen if x[0].split(".")[-1] == "get_cover_radius"]
    parts = [x for x in r.calls_seen if x[0].split(".")[-1] == "get_covering_partition"]
    if not calls: ck.unk(nm + ".radius", "get_cover_radius is not called"); return
    (rr, tt, empty, tie), c2 = reference(ck, q, c)
    last = calls[-1]
    ret = last[2]
    if ret.op != "tuple" or len(ret.args) != 2: ck.unk(nm + ".radius", "result form"); return
    p0, p1 = c.val(ret.args[0]), c.val(ret.args[1])
    g = leafmap([p0, p1, rr, tt])
    site = last[5]
    ck.verdict(nm + ".threshold", decide(c, p1, tt, gen=g), "%s: the filtration value is not (1-perc)*start + perc*end of the requested classes" % nm, site)
    ck.verdict(nm + ".half", decide(c, p0, rr, gen=g), "%s: the cover radius is not half the filtration value" % nm, site)
    # the radius of the cover
    for k, x in enumerate(parts[-1:]):
        a = x[1]
        v = a.get("r_cover") if isinstance(a, dict) else a[0]
        if v is None: ck.unk(nm + ".cover", "argument"); continue
        ck.guard(nm + ".cover", lambda: ck.verdict(nm + ".cover", decide(c, c.val(v), rr, gen=g), "%s: the cover is built with another radius than half the filtration value" % nm, x[5]))
    if not parts: ck.unk(nm + ".cover", "no partition")
    # raises
    raised = ZERO; n = 0
    for e in r.effects:
        if e.kind != "raise": continue
        try:
            cp = ONE
            for x, pol in e.path: cp = cp * (c.cond(x) if pol else ONE - c.cond(x))
            cp = c.close(cp)
        except (Unk, vg.AnalysisError): continue
        leaves = atoms_of(cp, lambda a: a.kind == "el" and isinstance(a.args[0], vg.Node))
        if any(poly.nodekey(a.args[0]) not in g for a in leaves): continue
        if not leaves: continue
        if e.loops: ck.unk(nm + ".raise", "raised inside a loop"); return
        raised = poly.b_or(raised, cp) if n else cp
        n += 1
    def where(env): return env.num(tie, {}) == 0
    if not n:
        ck.bad(nm + ".raise", "%s: no exception depends on the births and deaths of the requested classes" % nm, r.site0); return
    ck.verdict(nm + ".raise", decide(c, raised, empty, gen=g, trials=200, where=where, need=40), "%s: the exceptions raised do not coincide with an empty filtration range" % nm, site)

def circular(ck):
    """the front end passes its class and options on"""
    q = "circularcoords:CircularCoords"
    r = ck.run(q + ".get_coordinates")
    c = dre.em_ctx(ck, q, r)
    calls = [x for x in r.calls_seen if x[0].split(".")[-1] == "get_cover_radius"]
    if not calls: ck.unk("CircularCoords.threshold", "not called"); return
    (rr, tt, empty, tie), c2 = reference(ck, q, c)
    ret = calls[-1][2]
    g = leafmap([c.val(ret.args[1]), tt])
    ck.verdict("CircularCoords.threshold", decide(c, c.val(ret.args[1]), tt, gen=g), "CircularCoords: the filtration value is not (1-perc)*start + perc*end of the requested class", calls[-1][5])

def check(ck):
    ck.guard("get_cover_radius", method, ck)
    for q in DEG:
        if q.startswith("circular"): ck.guard("CircularCoords", circular, ck)
        else: ck.guard(q, coordinate, ck, q)
    for q in ("toroidalcoords:ToroidalCoords", "complexprojectivecoords:ComplexProjectiveCoords"): ck.guard(q, c06.uses, ck, q)

M, T, C, CC, L = ["dreimac/%s.py" % x for x in ("emcoords", "toroidalcoords", "complexprojectivecoords", "circularcoords", "lenscoords")]
SELFTEST = [
    ("raise tolerance", M, "if start > end:", "if start > end + 1e-3:", "bad"),
    ("swap perc", M, "(1 - perc) * start + perc * end", "perc * start + (1 - perc) * end", "bad"),
    ("rewrite", M, "(1 - perc) * start + perc * end", "start + perc * (end - start)", "quiet"),
    ("radius", M, "self._rips_threshold / 2", "self._rips_threshold", "bad"),
    ("double end", M, "end = cohombirth_rips", "end = 2 * cohombirth_rips if standard_range else cohombirth_rips", "bad"),
    ("no double", M, "2*cohomdeath_rips if standard_range else cohomdeath_rips", "cohomdeath_rips", "bad"),
    ("inverted", M, "2*cohomdeath_rips if standard_range else cohomdeath_rips", "cohomdeath_rips if standard_range else 2*cohomdeath_rips", "bad"),
    ("raise gone", M, "if start > end:", "if cohomdeath_rips > end:", "bad"),
    ("raise is True", M, "if start > end:", "if start > end and standard_range is True:", "bad"),
    ("raise only standard", M, "if start > end:", "if start > end and standard_range:", "bad"),
    ("raise eq", M, "if start > end:", "if not start <= end:", "quiet"),
    ("raise strict", M, "if start > end:", "if start >= end:", "quiet"),
    ("min births", T, "cohomdeath_rips = max(cohomdeaths)", "cohomdeath_rips = min(cohomdeaths)", "bad"),
    ("first death", T, "cohombirth_rips = min(cohombirths)", "cohombirth_rips = cohombirths[0]", "bad"),
    ("np.min", T, "cohombirth_rips = min(cohombirths)", "cohombirth_rips = np.min(cohombirths)", "quiet"),
    ("gt", T, "if cohomdeath_rips >= cohombirth_rips:", "if cohomdeath_rips > cohombirth_rips:", "bad"),
    ("cover thr", T, "EMCoords.get_covering_partition(self, r_cover, partunity_fn)", "EMCoords.get_covering_partition(self, rips_threshold, partunity_fn)", "bad"),
    ("delta thr", T, "dist_land_land, rips_threshold, self._cns_lookup_table\n        )\n\n        # go", "dist_land_land, r_cover, self._cns_lookup_table\n        )\n\n        # go", "bad"),
    ("cp sr", C, "self, perc, cohomdeath_rips, cohombirth_rips, standard_range", "self, perc, cohomdeath_rips, cohombirth_rips, True", "bad"),
    ("lens swapped", L, "self, perc, cohomdeath_rips, cohombirth_rips, standard_range", "self, perc, cohombirth_rips, cohomdeath_rips, standard_range", "bad"),
    ("self method", L, "EMCoords.get_cover_radius(\n            self, perc,", "self.get_cover_radius(\n            perc,", "quiet"),
    ("circular sr", CC, "            standard_range,\n            check_cocycle_condition,\n        )[0]", "            True,\n            check_cocycle_condition,\n        )[0]", "bad"),
]
