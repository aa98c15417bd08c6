"""C05: coordinates are computed from least-absolute-value lifts that are verified, or corrected by an integer solution of the coboundary equation."""
from .c06 import *
from .c03 import Sub
from . import c06
from sa import scatter

TECHNIQUE = "static analysis: value-flow from the harmonic step back to every value that can be integrated, with the branch conditions under which it is; guards compared with a reference cocycle test, corrections and the integer program compared with the coboundary equation by algebraic normal forms"
EXPLANATION = "The lift is a closed term: every coefficient column entry must be congruent to the input modulo the prime with twice its absolute value at most the prime, all other entries unchanged.  In get_coordinates of the three integer classes, the cochain entering the harmonic step is resolved under check_cocycle_condition=True into its possible values and the conditions on the way.  A value equal to the unchecked cochain must be guarded by a condition equivalent to the reference cocycle test of that cochain at the filtration value returned by get_cover_radius; any other value must equal cochain - prime * (solution of the mixed integer program rounded), where the program constrains delta x to (delta cochain)/prime from both sides, with every variable integral and unbounded.  The list of checked cochains must have one entry for every requested class, and the option must be on by default."
ASSUMPTIONS = ["scipy.optimize.milp solves the program it is given to its tolerance", "ripser returns cocycles with coefficients 0..prime-1"]
H = "utils:CohomologyUtils.lift_to_integer_cocycle"
CLS = {"toroidalcoords:ToroidalCoords": 1, "circularcoords:CircularCoords": 1, "complexprojectivecoords:ComplexProjectiveCoords": 2}
PRIMES = [2, 3, 5, 7, 13, 41, 47]

def lift(ck):
    f = ck.fn(H); ps = [a.arg for a in f.node.args.args]
    for d in (1, 2):
        key = "lift%d" % d
        t = {ps[0]: Ty((dim("K"), P(d + 2)), "i"), ps[1]: ty(":i")}
        r = ck.run(H, types=oracle(t))
        c = Ctx(r, types=t)
        n = r.node()
        sd = samedims(c.ty(n).shape, t[ps[0]].shape)
        if sd is False: ck.bad(key, "the lift changes the shape of the cocycle", r.site0); continue
        k, = ivars((dim("K"),), c)
        ka = k.single()[1][0][0]
        bad = {}; tot = 0; why = None
        for pr in PRIMES:
            for v in sorted({0, 1, 2, pr // 2 - 1, pr // 2, pr // 2 + 1, pr - 2, pr - 1}):
                if not 0 <= v < pr: continue
                g = {ps[0]: lambda env, ix, v=v: v if ix[1] == d + 1 else int(7 * env.u("vx", *ix)), ps[1]: lambda env, ix, pr=pr: pr}
                e = cert.Env(("lift", pr, v), g, {"K": 3}, ctx=c)
                try:
                    o = e.ev(at(c, n, (k, P(d + 1))), {ka: 1})
                    oth = [(e.ev(at(c, n, (k, P(j))), {ka: 1}), g[ps[0]](e, (1, j))) for j in range(d + 1)]
                except (cert.NoVal, OverflowError, ZeroDivisionError, ValueError) as ex: why = str(ex); continue
                tot += 1
                if o != int(o) or (int(o) - v) % pr: bad["congruent"] = (pr, v, o)
                elif 2 * abs(o) > pr: bad["least"] = (pr, v, o)
                if any(a != b for a, b in oth): bad["vertices"] = (pr, v, oth)
        if tot < 20: ck.unk(key, why or "no value", r.site0); continue
        for nm, m in (("congruent", "the lift is not congruent to the cocycle modulo the prime"), ("least", "the lift does not have coefficients of least absolute value"), ("vertices", "the lift changes vertex labels")):
            if nm in bad: ck.bad("%s.%s" % (key, nm), "%s: prime, coefficient, lift = %s" % (m, bad[nm]), r.site0)
            else: ck.ok("%s.%s" % (key, nm), "term evaluated for every residue class boundary, %d cases" % tot, r.site0)

def memo(n, r):
    """a value computed once and cached in a loop-carried variable that starts as None"""
    if n.op != "phi": return n
    c, a, b = n.args
    for x, y, pol in ((a, b, True), (b, a, False)):
        k = c; pl = pol
        while k.op == "not": k = k.args[0]; pl = not pl
        if y.op == "mu" and k.op in ("is", "eq") and pl and k.args[0] is y and isconst(k.args[1], None):
            L = r.loops.get(y.args[0])
            if L is None or y not in L.mu: continue
            i, nx = L.mu[y]
            if isconst(i, None) and nx is n and not any(z is L.iv or z.op == "mu" and z.args[0] == L.uid for z in walk(x)): return x
    return n

def unmemo(n, r):
    """replace every cached loop-invariant value by the value itself"""
    m = {}
    for x in walk(n):
        if x.op == "phi":
            y = memo(x, r)
            if y is not x: m[x] = y
    return vg.subst(n, m) if m else n

def alts(n, facts, path=()):
    """possible values of a node with the conditions under which each is taken"""
    if n.op == "phi":
        c, a, b = n.args
        tv = facts(c)
        if tv is True: return alts(a, facts, path)
        if tv is False: return alts(b, facts, path)
        for k, pol in path:
            if k is c: return alts(a if pol else b, facts, path)
        return alts(a, facts, path + ((c, True),)) + alts(b, facts, path + ((c, False),))
    if n.op == "index" and len(n.args[1]) == 1:
        out = []
        for v, p in alts(n.args[0], facts, path):
            i = n.args[1][0]
            if v.op == "seq" and isconst(v.args[3], True) and (i.op == "iv" or not vg.has_loop_value(v.args[2])): out += alts(v.args[2] if i.op == "iv" else vg.subst(v.args[2], {v.args[1]: i}), facts, p)
            elif v.op in ("list", "tuple") and isconst(i) and isinstance(i.args[0], int): out += alts(v.args[i.args[0]], facts, p)
            elif v.op in ("list", "tuple") and len(v.args) == 1: out += alts(v.args[0], facts, p)
            else: out.append((vg.mk_index(v, (i,)), p))
        return out
    return [(n, path)]

def known_true(n):
    """is this the option check_cocycle_condition (True), its negation (False), or neither (None)?"""
    if n.op in ("truth",): return known_true(n.args[0])
    if n.op == "not":
        t = known_true(n.args[0])
        return None if t is None else not t
    if n.op == "sym" and n.args[0] == "check_cocycle_condition": return True
    if n.op in ("eq", "is") and isconst(n.args[1]) and n.args[1].args[0] in (True, False) and known_true(n.args[0]) is True: return n.args[1].args[0]
    return None

def fold(n, val):
    """three-valued truth of a condition when the option has the given value"""
    if n.op in ("truth",) and known_true(n) is None: return fold(n.args[0], val)
    if n.op == "not":
        t = fold(n.args[0], val)
        return None if t is None else not t
    if n.op == "phi":
        t = fold(n.args[0], val)
        if t is not None: return fold(n.args[1] if t else n.args[2], val)
        a, b = fold(n.args[1], val), fold(n.args[2], val)
        return a if a == b else None
    if n.op in ("and", "or"):
        ts = [fold(x, val) for x in n.args]
        dom = n.op == "or"
        if dom in ts: return dom
        return (not dom) if all(t is (not dom) for t in ts) else None
    t = known_true(n)
    return None if t is None else t == val

def prune(n):
    """the condition when the option is on"""
    if n.op == "phi" and n.args[0].op in ("truth", "not", "phi", "sym", "and", "or", "eq", "is"):
        t = on_(n.args[0])
        if t is not None: return prune(n.args[1] if t else n.args[2])
    return n

def on_(n): return fold(n, True)
def off(n): return fold(n, False)

def harmonic(r):
    """cochains from which a coboundary of a least-squares solution is subtracted"""
    out = []
    for n in every_node(r):
        h = dre.harmonic_parts(n)
        if h and h[0] not in out: out.append(h[0])
    return out

class Keyed:
    """independent cochains for independent values of the remaining indices"""
    def __init__(self, env, k): self.env, self.k = env, k
    def u(self, *a): return self.env.u(*a, *self.k)

def sparse(env, x, ix):
    """some valuations have cochains with one or two non-zero entries"""
    t = env.seed[-1] % 7 if isinstance(env.seed, tuple) and isinstance(env.seed[-1], int) else 0
    if t < 5: return x
    return [3, -2][int(env.raw("spv", *ix) * 2)] if int(ix[0]) in [int(10 * env.raw("spi", k, *ix[1:])) for k in range(t - 4)] else 0

def klass(ck, q, deg):
    nm = q.split(":")[1]
    f = ck.fn(q + ".get_coordinates")
    dflt = [(a.arg, d) for a, d in zip(reversed(f.node.args.args), reversed(f.node.args.defaults))] + [(a.arg, d) for a, d in zip(f.node.args.kwonlyargs, f.node.args.kw_defaults)]
    dd = dict(dflt).get("check_cocycle_condition")
    import ast
    if dd is None: ck.unk(nm + ".default", "no option check_cocycle_condition")
    elif isinstance(dd, ast.Constant) and dd.value is True: ck.ok(nm + ".default", "on by default")
    elif isinstance(dd, ast.Constant) and not dd.value: ck.bad(nm + ".default", "the cocycle check is off by default", "%s:%d" % (f.mod.file, dd.lineno))
    else: ck.unk(nm + ".default", "default expression")
    old = set(ck.I.watch)
    ck.I.watch |= {"parity"}
    try:
        ck.cache.pop((q + ".get_coordinates", None), None)
        r = ck.run(q + ".get_coordinates")
    finally:
        ck.I.watch = old; ck.cache.pop((q + ".get_coordinates", None), None)
    c = dre.em_ctx(ck, q, r)
    got = dre.abstract_calls(ck, r, c)
    if "radius" not in got: ck.unk(nm + ".threshold", "filtration value not found"); return
    thr = got["radius"][2]
    c.over.setdefault(thr, Ty((), "f"))
    hs = harmonic(r)
    if not hs: ck.unk(nm + ".harmonic", "harmonic step not found", r.site0); return
    dll = ["self." + k for k, ro in c.rl.items() if ro == "dist_land_land"]
    tab = ["self." + k for k, ro in c.rl.items() if ro == "table"]
    if len(dll) != 1 or len(tab) != 1: ck.unk(nm, "stored distances or table"); return
    g0 = {dll[0]: scatter.dist_gen, "self._prime": lambda env, ix: [2, 3, 5, 7, 41][int(5 * env.u("prime"))]}
    for p in c.val(thr).atoms():
        if p.kind in ("el", "opq"): g0[p.args[0] if isinstance(p.args[0], str) else poly.nodekey(p.args[0])] = scatter.thr_gen
    done = {}
    for k, h in enumerate(sorted(hs, key=poly.nodekey)):
        on = alts(h, on_); un = alts(h, off)
        # all the classes requested are represented
        vs = []
        for v, p in un:
            v = unmemo(v, r)
            if v not in vs: vs.append(v)
        if len(vs) != 1: ck.unk("%s.value%d" % (nm, k), "%d unchecked values" % len(vs)); continue
        v = vs[0]
        if v in done and done[v] == [x for x, _ in on]: continue
        done[v] = [x for x, _ in on]
        complete(ck, nm, k, h, r)
        vt = c.ty(v)
        if vt.rank != 1: ck.unk("%s.value%d" % (nm, k), "rank of the cochain"); continue
        cc = dre.em_ctx(ck, q, r); dre.abstract_calls(ck, r, cc); cc.over.setdefault(thr, Ty((), "f"))
        cc.over[v] = Ty((scatter.binom(dim("L"), deg + 1),), "i")
        g = dict(g0); g[poly.nodekey(v)] = lambda env, ix: sparse(env, (cochain1 if deg == 1 else cochain2)(Keyed(env, ix[1:]), ix), ix)
        lifted(ck, nm, k, r, c, v)
        spec(ck)
        args = {"cochain": v, "dist_mat": vg.sym(dll[0]), "threshold": thr, "lookup_table": vg.sym(tab[0])}
        ref = ck.run("zz_ref:is_%s_cocycle" % ("one" if deg == 1 else "two"), args=args)
        ref.loops = {**r.loops, **ref.loops}
        c2 = Ctx(ref, types=cc.types, symmetric=list(cc.symmetric), special=cc.special)
        c2.hooks += cc.hooks; c2.over.update(cc.over)
        good = at(c2, ref.node(), ())
        for a, (z, path) in enumerate(on):
            key = "%s.cochain%d.%d" % (nm, k, a)
            z = unmemo(z, r)
            w = next((x.args[0] for x in walk(z) if x.op in ("libref", "const") and str(x.args[0]).split(".")[-1] in ("int8", "uint8", "int16", "uint16", "i1", "u1", "i2", "u2")), None)
            if w is not None: ck.bad(key + ".width", "coefficients of the integrated cochain pass through the type %s, which wraps around for large coefficients" % w, r.site0)
            if z is v: verified(ck, key, nm, cc, good, path, g, r)
            else: corrected(ck, key, nm, cc, v, z, path, g, r, c, thr)

def complete(ck, nm, k, h, r):
    """the list of checked cochains has one entry per class"""
    b = h
    while b.op == "index": b = b.args[0]
    if b is h: return
    def seqs(n):
        if n.op == "phi": return seqs(n.args[1]) + seqs(n.args[2])
        return [n]
    ss = seqs(b)
    early = [e.site for e in r.effects if e.kind == "libcall" and e.data[0].endswith("optimize.milp") for u in e.loops if u.breaks]
    if early: ck.bad("%s.classes%d" % (nm, k), "the loop that corrects the requested classes is left early, so that the classes after it are neither checked nor corrected", early[0]); return
    if not all(s.op in ("seq", "list", "tuple") for s in ss): ck.unk("%s.classes%d" % (nm, k), "list form"); return
    if any(s.op == "seq" and not isconst(s.args[3], True) for s in ss): ck.bad("%s.classes%d" % (nm, k), "cochains are only kept for some of the requested classes", r.site0); return
    ds = {poly.nodekey(s.args[0]) for s in ss if s.op == "seq"}
    if len(ds) > 1: ck.unk("%s.classes%d" % (nm, k), "domains differ")
    else: ck.ok("%s.classes%d" % (nm, k), "one cochain per class, checked or not", r.site0)

def verified(ck, key, nm, c, good, path, g, r):
    """a cochain used as it is must have passed the test"""
    p = ONE; skip = 0
    conds = []
    for n, pol in path:
        if on_(n) is not None: continue
        try: x = c.cond(prune(n))
        except (Unk, vg.AnalysisError): skip += 1; continue
        p = p * (x if pol else ONE - x); conds.append(n)
    if not path or (not conds and not skip):
        ck.bad(key, "with the cocycle check on, the lifted cochain is integrated without having been tested", r.site0); return
    p = c.close(p)
    # on every other valuation the edges are barely shorter than the filtration value, or of several lengths
    for k in [k for k, f in g.items() if f is scatter.dist_gen]:
        def near(env, ix):
            d = scatter.dist_gen(env, ix)
            return d if d != 1 or env.seed[-1] % 3 == 0 else 1.999 if env.seed[-1] % 3 == 1 else .25 + 1.7 * env.u("len", *sorted(ix))
        g = {**g, k: near}
    vals, why = valuations(c, [p, good], gen=g, n=300, dims={"L": 5, "K": 9}, seed=key)
    b = sum(1 for x, y in vals if x and not y); t = sum(1 for x, y in vals if x); f = sum(1 for x, y in vals if not y)
    if len(vals) < 20 or f < 5: ck.unk(key, why or "no valuations"); return
    if b >= 2 and not skip: ck.bad(key, "with the cocycle check on, a cochain that is not a cocycle at the filtration value is integrated", r.site0)
    elif b >= 2: ck.unk(key, "condition outside the vocabulary")
    else: ck.ok(key, "guard implies the cocycle test, %d valuations" % len(vals), r.site0)

def milps(n): return [x for x in walk(n) if x.op == "call" and x.args[0].endswith("optimize.milp")]

def corrected(ck, key, nm, c, v, z, path, g, r, c0, thr):
    ms = list(dict.fromkeys(milps(z)))
    if not ms:
        # some other value: must be shown to be a cocycle, which no rule here can
        same_ = None
        try:
            e, = ivars(c.ty(z).shape, c)
            d = decide(c, at(c, z, (e,)), at(c, v, (e,)), gen=g, dims={"L": 5})
            same_ = d.kind
        except (Unk, vg.AnalysisError): pass
        conds = [n for n, pol in path if on_(n) is None]
        if same_ is not None and not conds: ck.bad(key, "with the cocycle check on, a cochain is integrated that was neither tested nor corrected", r.site0)
        else: ck.unk(key, "value without an integer program", r.site0)
        return
    if len(ms) > 1: ck.unk(key, "%d integer programs" % len(ms)); return
    m = ms[0]
    a = cargs(m)
    sol = [x for x in walk(z) if (x.op == "index" and x.args[0] is m and isconst(x.args[1][0], "x")) or (x.op == "attr" and x.args[0] is m and x.args[1] == "x")]
    if len(set(sol)) != 1: ck.unk(key, "solution vector"); return
    sol = sol[0]
    # -- the constraints
    con = a.get("constraints")
    if con is not None and con.op in ("list", "tuple") and len(con.args) == 1: con = con.args[0]
    if con is None: ck.bad(key + ".constraints", "the integer program has no constraints", r.site0); return
    if con.op == "call" and con.args[0].endswith("LinearConstraint"): cn = cargs(con); A, lb, ub = cn.get("A"), cn.get("lb"), cn.get("ub")
    elif con.op == "tuple" and len(con.args) == 3: A, lb, ub = con.args
    else: ck.unk(key + ".constraints", "constraint form"); return
    pr = [x for x in walk(z) if x.op == "sym" and x.args[0] == "self._prime"] or [vg.sym(k) for k in c.types if k == "self._prime"]
    if lb is None or ub is None:
        ck.bad(key + ".constraints", "the coboundary equation is only imposed from one side", r.site0); return
    prods = [x for x in walk(vg.mk("tuple", lb, ub)) if x.op == "matmul" or x.op == "mcall" and x.args[0] == "dot" or x.op == "call" and x.args[0] in ("numpy.dot", "numpy.matmul")]
    prods = [x for x in dict.fromkeys(prods) if any(y is v for y in walk(x))]
    if len(prods) != 1: ck.unk(key + ".constraints", "right-hand side"); return
    w = prods[0]
    ops = (w.args[0], w.args[1]) if w.op == "matmul" else (w.args[1], w.args[2][0]) if w.op == "mcall" else tuple(x for _, x in w.args[1])[:2]
    def isv(n):
        while n is not v and (n.op == "call" and n.args[0] == "numpy.transpose" or n.op == "attr" and n.args[1] == "T"): n = cargs(n)["a"] if n.op == "call" else n.args[0]
        return n is v
    if not isv(ops[1]): ck.unk(key + ".constraints", "right-hand side"); return
    if ops[0] is not A: ck.bad(key + ".operator", "the operator of the constraints is not the one applied to the cochain", r.site0)
    else: ck.ok(key + ".operator", "same operator on both sides", r.site0)
    rows = dim("nrows")
    c.over[w] = Ty((rows,), "i")
    PR = {"self._prime": lambda env, ix: [2, 3, 5, 7, 41][int(5 * env.u("prime"))]}
    gg = dict(g); gg.update(PR)
    gg[poly.nodekey(w)] = lambda env, ix: PR["self._prime"](env, ()) * int(9 * env.u("w", *ix) - 4)
    i = c.var("row", P(0), rows); ia = i.single()[1][0][0]
    ref = c.at(w, (i,)) * poly.gpow(c.val(vg.sym("self._prime")), P(-1))
    for nmx, b in (("lower", lb), ("upper", ub)):
        bt = c.ty(b)
        if bt.rank > 1: ck.unk("%s.%s" % (key, nmx), "shape"); continue
        p = at(c, b, (i,) if bt.rank else ())
        d = decide(c, p, ref, gen=gg, dims={"L": 5, "nrows": 6}, trials=40, need=15)
        ck.verdict("%s.%s" % (key, nmx), d, "the %s bound of the integer program is not the coboundary of the cochain divided by the prime" % nmx, r.site0)
    # -- integrality, bounds
    it = a.get("integrality")
    n = c.ty(sol).shape[0] if c.ty(sol).rank == 1 else None
    if it is None: ck.bad(key + ".integrality", "the program is not an integer program", r.site0)
    else:
        try:
            t = c.ty(it)
            e = ivars(t.shape, c)
            d = decide(c, at(c, it, e), ONE, gen=gg, dims={"L": 5})
            ck.verdict(key + ".integrality", d, "not every variable of the program is required to be an integer", r.site0)
        except (Unk, vg.AnalysisError) as x: ck.unk(key + ".integrality", str(x))
    b = a.get("bounds")
    if b is None or isconst(b, None): ck.bad(key + ".bounds", "without explicit bounds the solver only considers non-negative solutions, so correctable cochains are rejected", r.site0)
    else:
        ba = cargs(b) if b.op == "call" and b.args[0].endswith("Bounds") else None
        if ba is None: ck.unk(key + ".bounds", "form")
        else:
            def inf(x, s):
                if x is None: return True
                t = vg.show(x, 8)
                if isconst(x) and isinstance(x.args[0], (int, float)): return x.args[0] == s * float("inf")
                if x.op == "libref" and x.args[0] in ("numpy.inf", "math.inf"): return s > 0
                if x.op == "neg" and x.args[0].op == "libref" and x.args[0].args[0] in ("numpy.inf", "math.inf"): return s < 0
                return None
            l, u = inf(ba.get("lb"), -1), inf(ba.get("ub"), 1)
            if l is False or u is False: ck.bad(key + ".bounds", "the solver only considers bounded solutions, so correctable cochains are rejected", r.site0)
            elif l and u: ck.ok(key + ".bounds", "unbounded variables", r.site0)
            else: ck.unk(key + ".bounds", "form")
    # -- the correction
    gs = dict(gg)
    sk = poly.nodekey(sol)
    c.over[sol] = Ty((scatter_n(c),), "f") if n is None else Ty((n,), "f")
    c.over[sol] = Ty((c.over[v].shape[0],), "f")
    eps = lambda env, ix: (2e-6 * env.u("eps", *ix) - 1e-6)
    base = lambda env, ix: int(11 * env.u("sol", ix[0]) - 5)
    gs[sk] = lambda env, ix: base(env, ix) + eps(env, ix)
    e, = ivars((c.over[v].shape[0],), c); ea = e.single()[1][0][0]
    p = c.close(at(c, v, (e,)) - at(c, z, (e,)))
    bad = 0; tot = 0; why = None
    for s in range(40 * cert.BOOST):
        env = cert.Env(("corr", s), gs, {"L": 5}, ctx=c)
        try:
            for iv in cert.free_ivs(p) - {ea}: env.vals[iv] = 0
            x = env.ev(p, {ea: s % 10}); want = PR["self._prime"](env, ()) * base(env, (s % 10,))
        except (cert.NoVal, OverflowError, ZeroDivisionError, ValueError) as ex: why = str(ex); continue
        tot += 1
        bad += x != want
    if tot < 15: ck.unk(key + ".correction", why or "no valuation")
    elif bad >= 2: ck.bad(key + ".correction", "the corrected cochain is not the cochain minus the prime times the (rounded) integer solution", r.site0)
    else: ck.ok(key + ".correction", "term evaluated near integer solutions, %d valuations" % tot, r.site0)
    # -- failure: the solution is not used where the program is known to have failed, nor rejected where it succeeded
    def pol_success(n, pol):
        """True / False: the condition says the program succeeded / failed"""
        while n.op in ("truth", "not"):
            if n.op == "not": pol = not pol
            n = n.args[0]
        if n.op == "index" and n.args[0] is m and isconst(n.args[1][0], "success") or n.op == "attr" and n.args[0] is m and n.args[1] == "success": return pol
        if n.op in ("is", "eq") and n.args[0] is sol and isconst(n.args[1], None): return not pol
        return None
    if any(pol_success(n, pol) is False for n, pol in path): ck.bad(key + ".failure", "the solution is used when the integer program failed", r.site0); return
    rs = [x for x in r.effects if x.kind == "raise"]
    st = [pol_success(unmemo(n, r), pol) for x in rs for n, pol in x.path[-1:]]
    if True in st: ck.bad(key + ".failure", "an exception is raised when the integer program succeeded", r.site0)
    else: ck.ok(key + ".failure", "raises on failure" if False in st else "no use of a failed program", r.site0)

def scatter_n(c): return P(poly.atom("dim", "nsol", None))

def lifted(ck, nm, k, r, c, v):
    """the dense cochain stores lifts of the coefficients of the class"""

    key = "%s.lifted%d" % (nm, k)
    pc = [x for x in r.calls_seen if x[0].split(".")[-1] == "parity"]
    for x in pc: c.over[x[2]] = Ty((), "i")
    vref = scatter.ref_of(v)
    ss = [s for s in scatter.sites(r) if len(s.idx) == 1 and hasattr(s.ref, "id") and "r%d" % s.ref.id == vref]
    if not ss: ck.unk(key, "store not found"); return
    # a loop may be analysed more than once: the last analysis is the valid one
    done = 0; bad = {}; why = None; site = r.site0
    for s in ss[-1:]:
        p = c.close(c.val(s.val)); site = s.site
        leaves = [a for a in atoms_of(p, lambda a: a.kind == "el" and isinstance(a.args[0], vg.Node) and any(y.op == "sym" and y.args[0] == "self._cocycles" for y in walk(a.args[0])))]
        lf = [a for a in leaves if not any(poly.nodekey(a.args[0]) == poly.nodekey(x[2]) for x in pc)]
        keys = {poly.nodekey(a.args[0]) for a in lf}
        if len(keys) != 1: ck.unk(key, "%d coefficient leaves" % len(keys), site); return
        g = {}
        for x in pc: g[poly.nodekey(x[2])] = lambda env, ix: 1 if env.u("sign") < .5 else -1
        for pr in PRIMES:
            for co in sorted({0, 1, pr // 2, pr // 2 + 1, pr - 1}):
                if not 0 <= co < pr: continue
                for s_ in range(3):
                    g[list(keys)[0]] = lambda env, ix, co=co: co
                    g["self._prime"] = lambda env, ix, pr=pr: pr
                    e = cert.Env(("lf", pr, co, s_), g, {}, ctx=c)
                    try:
                        for iv in sorted(cert.free_ivs(p), key=poly.astr): e.vals[iv] = 0
                        o = e.ev(p)
                    except (cert.NoVal, OverflowError, ZeroDivisionError, ValueError, TypeError) as ex: why = str(ex); continue
                    done += 1
                    if isinstance(o, complex) or o != int(o) or ((int(o) - co) % pr and (int(o) + co) % pr): bad["congruent"] = (pr, co, o)
                    elif 2 * abs(o) > pr: bad["least"] = (pr, co, o)
    if done < 20: ck.unk(key, why or "no value", site); return
    if bad: ck.bad(key, "the cochain used for coordinates is not a lift of least absolute value: prime, coefficient, value = %s" % (list(bad.values())[0],), site)
    else: ck.ok(key, "term evaluated at boundary coefficients, %d cases" % done, site)

def complex_(ck, q):
    """the test and the operator of the correction live on the complex of the filtration value"""
    sub = Sub(ck)
    c06.uses(sub, q)
    for o in sub.obls: ck.obls.append(o)

def check(ck):
    ck.guard("lift", lift, ck)
    for q, d in CLS.items():
        ck.fn(q)
        ck.guard(q.split(":")[1], klass, ck, q, d)
        ck.guard(q.split(":")[1] + ".complex", complex_, ck, q)

T, C, U, R = ["dreimac/%s.py" % x for x in ("toroidalcoords", "complexprojectivecoords", "utils", "circularcoords")]
SELFTEST = [
    ("late classes unchecked", "dreimac/toroidalcoords.py", "                    fixed_cocycles.append(cocycle_as_vector)\n                else:", "                    fixed_cocycles.append(cocycle_as_vector)\n                elif class_idx > 5:\n                    fixed_cocycles.append(cocycle_as_vector)\n                else:", "bad"),
    ("late failure tolerated", "dreimac/toroidalcoords.py", ["                is_cocycle, _ = _is_one_cocycle(", "                if is_cocycle:\n"], ["                is_cocycle, failure = _is_one_cocycle(", "                if is_cocycle or failure > 0.99 * rips_threshold:\n"], "bad"),
    ("late failure only", "dreimac/toroidalcoords.py", ["                is_cocycle, _ = _is_one_cocycle(", "                if is_cocycle:\n"], ["                is_cocycle, failure = _is_one_cocycle(", "                if failure > 0.9 * rips_threshold:\n"], "bad"),
    ("failure at infinity", "dreimac/toroidalcoords.py", ["                is_cocycle, _ = _is_one_cocycle(", "                if is_cocycle:\n"], ["                is_cocycle, failure = _is_one_cocycle(", "                if np.isinf(failure):\n"], "quiet"),
    ("failure eq infinity", "dreimac/toroidalcoords.py", ["                is_cocycle, _ = _is_one_cocycle(", "                if is_cocycle:\n"], ["                is_cocycle, failure = _is_one_cocycle(", "                if is_cocycle and failure == np.inf:\n"], "quiet"),
    ("failure beyond", "dreimac/toroidalcoords.py", ["                is_cocycle, _ = _is_one_cocycle(", "                if is_cocycle:\n"], ["                is_cocycle, failure = _is_one_cocycle(", "                if failure >= rips_threshold:\n"], "quiet"),
    ("stops at first", "dreimac/toroidalcoords.py", ["                        fixed_cocycles.append(new_cocycle_as_vector)\n            integer_cocycles_as_vectors = fixed_cocycles\n"], ["                        fixed_cocycles.append(new_cocycle_as_vector)\n                        break\n            integer_cocycles_as_vectors = (\n                fixed_cocycles\n                + integer_cocycles_as_vectors[len(fixed_cocycles) :]\n            )\n"], "bad"),
    ("lift ge", U, "cocycle[:, -1] > (prime - 1) / 2, -1] -= prime", "cocycle[:, -1] >= (prime - 1) / 2, -1] -= prime", "bad"),
    ("lift floor", U, "cocycle[:, -1] > (prime - 1) / 2, -1] -= prime", "cocycle[:, -1] > prime // 2, -1] -= prime", "quiet"),
    ("lift where", U, "        cocycle[cocycle[:, -1] > (prime - 1) / 2, -1] -= prime\n", "        cocycle[:, -1] = np.where(2 * cocycle[:, -1] > prime, cocycle[:, -1] - prime, cocycle[:, -1])\n", "quiet"),
    ("lift minus one", U, "cocycle[:, -1] > (prime - 1) / 2, -1] -= prime", "cocycle[:, -1] > (prime - 1) / 2, -1] -= prime - 1", "bad"),
    ("no lift", U, "        cocycle[cocycle[:, -1] > (prime - 1) / 2, -1] -= prime\n", "", "bad"),
    ("no lift T", T, "CohomologyUtils.lift_to_integer_cocycle(cocycle, prime=self._prime)", "cocycle.copy()", "bad"),
    ("default off", R, "check_cocycle_condition=True", "check_cocycle_condition=False", "bad"),
    ("skip first", T, "                if is_cocycle:\n", "                if is_cocycle or class_idx > 0:\n", "bad"),
    ("is or", T, "                if is_cocycle:\n", "                if is_cocycle or self._prime > 40:\n", "bad"),
    ("not", T, "                if is_cocycle:\n                    fixed_cocycles.append(cocycle_as_vector)\n                else:\n                    if delta1 is None:", "                if not is_cocycle:\n                    fixed_cocycles.append(cocycle_as_vector)\n                else:\n                    if delta1 is None:", "bad"),
    ("thr test", T, "                    dist_land_land,\n                    rips_threshold,\n                    self._cns_lookup_table,\n                )\n                if", "                    dist_land_land,\n                    r_cover,\n                    self._cns_lookup_table,\n                )\n                if", "bad"),
    ("thr delta", T, "make_delta1_compact(\n                            dist_land_land, rips_threshold", "make_delta1_compact(\n                            dist_land_land, r_cover", "bad"),
    ("fail keeps", T, '                        raise Exception(\n                            "The cohomology class at index "\n                            + str(class_idx)\n                            + " does not have an integral lift."\n                        )\n', "                        fixed_cocycles.append(cocycle_as_vector)\n", "bad"),
    ("fail inverted", T, 'if not optimizer_solution["success"]:', 'if optimizer_solution["success"]:', "bad"),
    ("no rint", T, "np.array(np.rint(solution), dtype=int)", "np.array(solution, dtype=int)", "bad"),
    ("round", T, "np.array(np.rint(solution), dtype=int)", "np.round(solution).astype(int)", "quiet"),
    ("plus", T, "- self._prime * np.array(np.rint", "+ self._prime * np.array(np.rint", "bad"),
    ("no prime", T, "- self._prime * np.array(np.rint", "- np.array(np.rint", "bad"),
    ("y mod", T, "y = d1cocycle // self._prime", "y = d1cocycle % self._prime", "bad"),
    ("y div", T, "y = d1cocycle // self._prime", "y = d1cocycle / self._prime", "quiet"),
    ("not used", T, "            integer_cocycles_as_vectors = fixed_cocycles\n", "", "bad"),
    ("integrality", T, "integrality = np.ones((n_edges))", "integrality = np.zeros((n_edges))", "bad"),
    ("bounds", T, "                        bounds=bounds,\n", "", "bad"),
    ("upper only", T, "LinearConstraint(delta1, y, y)", "LinearConstraint(delta1, ub=y)", "bad"),
    ("last only", T, "                is_cocycle, _ = _is_one_cocycle(\n                    cocycle_as_vector,", "                is_cocycle, _ = _is_one_cocycle(\n                    integer_cocycles_as_vectors[0],", "bad"),
    ("early delta", T, ["            delta1 = None\n            fixed", "                    if delta1 is None:\n                        delta1 = CohomologyUtils.make_delta1_compact(\n                            dist_land_land, rips_threshold, self._cns_lookup_table\n                        )\n"], ["            delta1 = CohomologyUtils.make_delta1_compact(\n                dist_land_land, rips_threshold, self._cns_lookup_table\n            )\n            fixed", ""], "quiet"),
    ("single class", T, "        if check_cocycle_condition:\n            delta1", "        if check_cocycle_condition and len(cocycle_idxs) == 1:\n            delta1", "bad"),
    ("cp first", C, "            if not is_cocycle:\n", "            if not is_cocycle and self._prime > 3:\n", "bad"),
    ("narrow solution", T, "- self._prime * np.array(np.rint(solution), dtype=int)", "- self._prime * np.array(np.rint(solution), dtype=np.int8)", "bad"),
    ("32 bit solution", T, "- self._prime * np.array(np.rint(solution), dtype=int)", "- self._prime * np.array(np.rint(solution), dtype=np.int32)", "quiet"),
    ("cp few entries", C, "            if not is_cocycle:\n", "            if not is_cocycle and np.count_nonzero(integer_cocycle_as_vector) > 1:\n", "bad"),
    ("any entry", C, "            if not is_cocycle:\n", "            if not is_cocycle and np.any(integer_cocycle_as_vector):\n", "quiet"),
    ("cp not assigned", C, "                    integer_cocycle_as_vector = new_cocycle_as_vector\n", "                    pass\n", "bad"),
    ("cp order", C, ["        # compute boundary matrix\n        delta1 = CohomologyUtils.make_delta1(\n            self._dist_land_land, rips_threshold, self._cns_lookup_table\n        )\n", "        # compute harmonic rep"], ["", "        # compute boundary matrix\n        delta1 = CohomologyUtils.make_delta1(\n            self._dist_land_land, rips_threshold, self._cns_lookup_table\n        )\n        # compute harmonic rep"], "quiet"),
    ("cp warn", C, '                    raise Exception(\n                        "The cohomology class at index "\n                        + str(cocycle_idx)\n                        + " does not have an integral lift."\n                    )\n', '                    print("no lift")\n', "bad"),
]
