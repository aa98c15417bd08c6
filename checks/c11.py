"""C11: the weights are a partition of unity subordinate to the cover, of any numeric distance type; uncovered points are flagged alone."""
from .common import *
from . import ppca, surface
import math

TECHNIQUE = "static analysis: algebraic normal forms of the weights, warning guard and chosen ball, tested for the partition-of-unity identities at pseudo-random valuations of the stored distances; dependence (locality) test of the transition and reduction steps"
EXPLANATION = "get_covering_partition is analysed once per built-in bump function and once per element type of the stored distances (real, integer).  The closed term of weight (i, b) must be non-negative, sum to one over i, vanish when distance (i, b) >= radius, and be NaN exactly for uncovered b; the guard of the warning must be equivalent to the existence of an uncovered point.  Bump functions are evaluated as terms: positive and non-increasing for 0 <= d < r.  In every reduction mode a NaN column gives NaN for its own point only, and the class map of a point reads the weights of that point only."
ASSUMPTIONS = ["distances are finite and non-negative"]
Q = "emcoords:EMCoords.get_covering_partition"
PU = "utils:PartUnity"

def bumps(ck):
    cls = ck.fn(PU)
    out = []
    for nm in cls.methods if hasattr(cls, "methods") else []:
        out.append(nm)
    return out

def names(ck):
    import ast
    m = ck.prog.modules[[k for k in ck.prog.modules if k.split(".")[-1] == "utils"][0]]
    for n in m.tree.body:
        if isinstance(n, ast.ClassDef) and n.name == "PartUnity":
            return [f.name for f in n.body if isinstance(f, ast.FunctionDef) and not f.name.startswith("_")]
    return ["linear", "quadratic", "exp"]

def bump(ck, nm):
    q = PU + "." + nm
    f = ck.fn(q)
    ps = [a.arg for a in f.node.args.args]
    if len(ps) != 2: ck.unk("bump." + nm, "parameters"); return
    r = ck.run(q, types=oracle({ps[0]: ty("n:f")}))
    c = Ctx(r, types={ps[0]: ty("n:f"), ps[1]: ty(":f")})
    sh = c.ty(r.node()).shape
    if len(sh) != 1: ck.unk("bump." + nm, "shape"); return
    k, = ivars(sh, c)
    p = at(c, r.node(), (k,)); ka = k.single()[1][0][0]
    pts = [0, 1e-3, .1, .25, .5, .75, .9, .97, .999, 1 - 1e-4, 1 - 1e-6]
    neg = dec = 0; n = 0; w = None
    for R in (0.3, 0.7, 1.0, 2.5, 10.0):
        vals = []
        for x in pts:
            d = x * R
            e = cert.Env(("bump", R), {ps[0]: lambda env, i, d=d: d, ps[1]: lambda env, i, R=R: R})
            try: v = e.ev(p, {ka: 0})
            except (cert.NoVal, OverflowError, ZeroDivisionError, ValueError) as ex: w = str(ex); continue
            vals.append((d, v))
        n += len(vals)
        for (d, v) in vals:
            if isinstance(v, complex) or not v > 0:
                neg += 1; wn = (v, d, R)
        dec += sum(1 for (a, x), (b, y) in zip(vals, vals[1:]) if not isinstance(x, complex) and not isinstance(y, complex) and y > x + 1e-12)
    if n < 20: ck.unk("bump." + nm, w or "no value"); return
    if neg: ck.bad("bump.%s.positive" % nm, "bump function %s is not positive inside the ball (value %s at distance %s of radius %s)" % ((nm,) + wn), r.site0)
    else: ck.ok("bump.%s.positive" % nm, "sign test of the term, %d points" % n, r.site0)
    if dec: ck.bad("bump.%s.monotone" % nm, "bump function %s increases with the distance" % nm, r.site0)
    else: ck.ok("bump.%s.monotone" % nm, "monotonicity test of the term, %d points" % n, r.site0)

def radius(env, ix=()): return 0.6 + 1.9 * env.u("r")

MICRO = 2.0 ** -30     # data in another unit of length: nothing but the scale may change

def gen(dt, mode, least=1e-6):
    if mode == "micro":
        h = gen(dt, "far", least)
        return lambda env, idx: MICRO * h(env, idx)
    def d(env, idx):
        # point 0 is sometimes uncovered; landmarks have distance 0 to themselves
        if mode == "far" and idx[1] == 0: return 9 + int(3 * env.u("far", idx[0]))
        if mode == "edge":
            # barely inside the ball, or outside of it
            if idx[1] == 0 and env.seed[-1] % 2: return 2 * radius(env)
            k = int(10 * env.u("edge", *idx))
            return radius(env) * (1 - max(10.0 ** -(1 + k), least)) if k < 7 else radius(env) * (1 + env.u("d", *idx))
        x = env.u("d", *idx)
        if dt == "i": return int(5 * x)
        return 0 if x < .08 else 2.4 * x
    return d

def partition(ck, nm, dt):
    key = "weights.%s.%s" % (nm, {"f": "real", "i": "integer"}[dt])
    f = ck.fn(Q); ps = [a.arg for a in f.node.args.args if a.arg != "self"]
    if len(ps) != 2: ck.unk(key, "parameters"); return
    r = ck.run(Q, args={ps[0]: vg.sym("r_cover"), ps[1]: ck.fn(PU + "." + nm)})
    t, sp, sy, rl = dre.field_types(ck, "emcoords:EMCoords")
    t["r_cover"] = Ty((), "f")
    fld = None
    for k, ro in rl.items():
        if ro == "dist_land_data" and ("self." + k) in {x.args[0] for x in walk(r.node()) if x.op == "sym"}:
            t["self." + k] = Ty((dim("L"), dim("N")), dt); fld = "self." + k
    if fld is None: ck.unk(key, "stored distances not found"); return
    c = Ctx(r, types=t, special=sp, symmetric=sy)
    phi, ball = item(r.node(), 0), item(r.node(), 1)
    sh = c.ty(phi).shape
    sd = samedims(sh, (dim("L"), dim("N")))
    if sd is False: ck.bad(key + ".shape", "the weights have shape %s instead of (landmarks, points)" % (tuple(map(str, sh)),), r.site0); return
    if sd is None: ck.unk(key, "shape"); return
    i, b = ivars(sh, c)
    p = at(c, phi, (i, b)); ia, ba = i.single()[1][0][0], b.single()[1][0][0]
    warn = []; wok = True
    for e in r.effects:
        if e.kind == "libcall" and e.data[0] in ("warnings.warn", "logging.warning"):
            try:
                cp = ONE
                for x, pol in e.path: cp = cp * (c.cond(x) if pol else ONE - c.cond(x))
                warn.append(c.close(cp))
            except (Unk, vg.AnalysisError): wok = False
    res = {k: 0 for k in ("neg", "sum", "zero", "nan", "nonan", "warn", "ok", "local")}
    n = 0; why = None; unc = 0; clear = 0
    # how near to the boundary: the bump stays well above the tolerance of the evaluation
    least = {"linear": 1e-6, "quadratic": 1e-3}.get(nm, .03)
    runs = [(mode, s, {}) for mode in ("near", "far") + (("edge", "micro") if dt == "f" else ()) for s in range(14 * cert.BOOST)]
    runs += [(mode, s, {d: k}) for d, k in cert.sizes(p, *warn) for mode in ("near", "far") for s in range(2)]
    for mode, s, sz in runs:
        e = cert.Env(("pu", dt, mode, s), {fld: gen(dt, mode, least), "r_cover": (lambda env, ix=(): MICRO * radius(env)) if mode == "micro" else radius}, sz, ctx=c)
        if mode == "micro": e.tol = 0.0
        try:
            L, N = e.integer(dim("L"), {}), e.integer(dim("N"), {})
            R = e.ev(c.val(vg.sym("r_cover")))
            D = [[gen(dt, mode, least)(e, (x, y)) for y in range(N)] for x in range(L)]
            ys = range(N) if N < 6 else (0, 1, N // 2, N - 1)
            W = [{y: e.ev(p, {ia: x, ba: y}) for y in ys} for x in range(L)]
            wv = [e.num(w, {}) for w in warn]
            e2 = cert.Env(("pu", dt, mode, s), e.gen, dict(e.dimv), ctx=c); e2.strict = True; e2.tol = e.tol
            S = [{y: e2.ev(p, {ia: x, ba: y}) for y in ys} for x in range(L)]
        except (cert.NoVal, OverflowError, ZeroDivisionError, ValueError, TypeError) as ex: why = str(ex); continue
        n += 1
        un = [y for y in range(N) if all(D[x][y] >= R for x in range(L))]
        unc += bool(un); clear += not un
        for y in ys:
            col = [W[x][y] for x in range(L)]
            isn = [v != v for v in col]
            if y in un:
                if not all(v or S[x][y] != S[x][y] for x, v in enumerate(isn)): res["nonan"] += 1
                continue
            if any(isn): res["nan"] += 1; continue
            if any(isinstance(v, complex) or v < -1e-12 for v in col): res["neg"] += 1; continue
            if abs(sum(col) - 1) > 1e-9: res["sum"] += 1
            if any(D[x][y] >= R and abs(col[x]) > 1e-12 for x in range(L)): res["zero"] += 1
        if wok and warn:
            if bool(un) != any(w != 0 for w in wv): res["warn"] += 1
    if n < 10: ck.unk(key, why or "no valuation", r.site0); return
    msgs = {"neg": "a covered point has a negative weight", "sum": "the weights of a covered point do not sum to one", "zero": "a landmark at distance at least the cover radius has non-zero weight", "nan": "a covered point has not-a-number weights", "nonan": "an uncovered point has weights that are not not-a-number"}
    for k, m in msgs.items():
        if res[k] >= 2: ck.bad("%s.%s" % (key, k), "%s (bump function %s, distances of %s type)" % (m, nm, {"f": "real", "i": "integer"}[dt]), r.site0)
        else: ck.ok("%s.%s" % (key, k), "identity test, %d valuations" % n, r.site0)
    if dt == "f":
        if not wok: ck.unk("warning." + nm, "guard", r.site0)
        elif not warn: ck.bad("warning." + nm, "no warning is issued for uncovered points", r.site0)
        elif res["warn"] >= 2: ck.bad("warning." + nm, "the warning does not coincide with the existence of an uncovered point", r.site0)
        elif unc and clear: ck.ok("warning." + nm, "guard equivalence, %d valuations" % n, r.site0)
        else: ck.unk("warning." + nm, "valuations one-sided", r.site0)

def local(ck, mode):
    """a NaN input column makes its own output NaN and no other"""
    r, ss = ppca.steps(ck, mode)
    k = 0
    for s in ss:
        if s.why == "rank": continue
        key = "reduction.%s.%s%d" % (mode, s.kind, k); k += 1
        if s.why: ck.unk(key, s.why, s.site); continue
        c = s.c
        try:
            i, b = ivars((s.K, dim("N")), c)
            p = ppca.out_at(s, i, b)
            j = None
            at_ = c.ty(s.arg).shape
            a1, a2 = ivars(at_, c)
            m = at(c, s.arg, (a1, a2))
        except (Unk, vg.AnalysisError) as e: ck.unk(key, str(e), s.site); continue
        A = lambda v: v.single()[1][0][0]
        leak = keep = mom = 0; n = 0; why = None
        for t in range(16):
            e = cert.Env(("loc", t), ppca.gens(s, nan=True), {}, ctx=c)
            e.dimv["N"] = 5
            try:
                K, N, M = e.integer(s.K, {}), 5, e.integer(s.M, {})
                if K < 1: continue
                O = [[e.ev(p, {A(i): x, A(b): y}) for y in range(N)] for x in range(K)]
                mm = [e.ev(m, {A(a1): x, A(a2): y}) for x in range(M) for y in range(M)] if s.order == "asc" else []
            except (cert.NoVal, OverflowError, ZeroDivisionError, ValueError) as ex: why = str(ex); continue
            n += 1
            keep += any(O[x][0] == O[x][0] for x in range(K))
            leak += any(O[x][y] != O[x][y] for x in range(K) for y in range(1, N))
            mom += any(v != v for v in mm)
        if n < 6: ck.unk(key, why or "no valuation", s.site); continue
        if leak >= 2: ck.bad(key + ".leak", "an uncovered point makes the coordinates of covered points not-a-number", s.site)
        else: ck.ok(key + ".leak", "NaN propagation, %d valuations" % n, s.site)
        if mom >= 2: ck.bad(key + ".moment", "the second moment is taken over the columns of uncovered points too (mode %s)" % mode, s.site)
        elif s.order == "asc": ck.ok(key + ".moment", "NaN propagation, %d valuations" % n, s.site)
        if keep >= 2: ck.bad(key + ".flag", "the coordinate of an uncovered point is not not-a-number", s.site)
        else: ck.ok(key + ".flag", "NaN propagation, %d valuations" % n, s.site)

def classmap(ck, q):
    """the representative of a point reads the weights of that point only, and is NaN when they are"""
    nm = q.split(":")[1]
    r = ck.run(q + ".get_coordinates")
    c = dre.em_ctx(ck, q, r)
    got = dre.abstract_calls(ck, r, c)
    if "partition" not in got: ck.unk(nm, "no partition"); return
    vphi, ball = got["partition"][1], got["partition"][2]
    cm = [x for x in r.calls_seen if x[0].split(".")[-1] == "ppca"]
    c.hooks.append(dre.harmonic_hook([]))
    if nm.startswith("Toroidal"):
        outs = [integrals(ck, r, c, vphi)]
        if outs[0] is None: ck.unk(nm + ".weights", "integration not found"); return
    elif cm:
        a = cm[-1][1]; outs = [a["class_map"] if isinstance(a, dict) else a[0]]
    else: ck.unk(nm + ".weights", "reduction not called"); return
    for n in outs:
        sh = c.ty(n).shape
        idx = ivars(sh, c)
        p = at(c, n, idx)
        if not sh or not poly.equal(sh[0], dim("N")): ck.unk(nm + ".weights", "shape"); return
        kv = poly.nodekey(vphi); kb = poly.nodekey(ball)
        leak = keep = n_ = 0; why = None
        for t in range(16):
            def phi(env, ix):
                if ix[1] == 0: return float("nan")
                return .1 + env.u("phi", *ix)
            g = {kv: phi, kb: lambda env, ix: int(env.u("ball", ix[0]) * env.dimv.get("L", 3)), "self._prime": lambda env, ix: 3}
            e = cert.Env(("cm", t), g, {"L": 3, "N": 4}, ctx=c, opq=surface.arbitrary(r))
            try:
                A = [v.single()[1][0][0] for v in idx]
                for v in cert.free_ivs(p) - set(A): e.vals[v] = 0
                rest = range(e.integer(sh[1], {})) if len(sh) > 1 else [None]
                V = {(y, x): e.ev(p, {A[0]: y, **({A[1]: x} if x is not None else {})}) for y in range(4) for x in rest}
            except (cert.NoVal, OverflowError, ZeroDivisionError, ValueError) as ex: why = str(ex); continue
            e2 = cert.Env(("cm", t), g, {"L": 3, "N": 4}, ctx=c, opq=surface.arbitrary(r)); e2.strict = 2; e2.vals.update(e.vals)
            try: S = {(0, x): e2.ev(p, {A[0]: 0, **({A[1]: x} if x is not None else {})}) for x in rest}
            except (cert.NoVal, OverflowError, ZeroDivisionError, ValueError) as ex: why = str(ex); continue
            n_ += 1
            leak += any(v != v for (y, x), v in V.items() if y)
            keep += any(v == v and S[y, x] == S[y, x] for (y, x), v in V.items() if not y)
        if n_ < 6: ck.unk(nm + ".weights", why or "", r.site0); return
        if leak >= 2: ck.bad(nm + ".weights.leak", "%s: the value at a covered point depends on the weights of another point" % nm, r.site0)
        else: ck.ok(nm + ".weights.leak", "NaN propagation, %d valuations" % n_, r.site0)
        if keep >= 2: ck.bad(nm + ".weights.flag", "%s: the value at an uncovered point is not not-a-number" % nm, r.site0)
        else: ck.ok(nm + ".weights.flag", "NaN propagation, %d valuations" % n_, r.site0)

def integrals(ck, r, c, vphi):
    """per-class arrays over the data points computed from the weights"""
    for n in every_node(r):
        if n.op == "seq":
            try: t = c.ty(n.args[2])
            except Exception: continue
            if t.rank == 1 and poly.equal(t.shape[0], dim("N")): return n.args[2]
    return None

def check(ck):
    ck.fn(Q)
    for nm in names(ck):
        ck.guard("bump." + nm, bump, ck, nm)
        for dt in "fi": ck.guard("weights.%s.%s" % (nm, dt), partition, ck, nm, dt)
    for mode in ppca.MODES: ck.guard("reduction." + mode, local, ck, mode)
    for q in ("projectivecoords:ProjectiveCoords", "lenscoords:LensCoords", "complexprojectivecoords:ComplexProjectiveCoords", "toroidalcoords:ToroidalCoords"):
        ck.guard(q.split(":")[1], classmap, ck, q)

M, U, T, L, C = ["dreimac/%s.py" % x for x in ("emcoords", "utils", "toroidalcoords", "lenscoords", "complexprojectivecoords")]
SELFTEST = [
    ("denominator threshold", M, "denom[denom == 0] = np.nan", "denom[denom < 1e-12] = np.nan", "bad"),
    ("int phi", M, "np.zeros_like(dist_land_data, dtype=float)", "np.zeros_like(dist_land_data)", "bad"),
    ("zeros float", M, "np.zeros_like(dist_land_data, dtype=float)", "np.zeros(dist_land_data.shape)", "quiet"),
    ("le", M, "U = dist_land_data < r_cover", "U = dist_land_data <= r_cover", "bad"),
    ("no mask", M, "phi[U] = partunity_fn(dist_land_data[U], r_cover)", "phi = partunity_fn(dist_land_data, r_cover)", "bad"),
    ("where", M, "phi = np.zeros_like(dist_land_data, dtype=float)\n        phi[U] = partunity_fn(dist_land_data[U], r_cover)", "phi = np.where(U, partunity_fn(dist_land_data, r_cover), 0.0)", "quiet"),
    ("axis", M, "denom = np.sum(phi, 0)", "denom = np.sum(phi)*np.ones(phi.shape[1])", "bad"),
    ("no nan", M, "denom[denom == 0] = np.nan", "denom[denom == 0] = 1", "bad"),
    ("no warn", M, "if nzero > 0:", "if nzero > 1:", "bad"),
    ("double radius", M, "U = dist_land_data < r_cover", "U = dist_land_data < 2 * r_cover", "bad"),
    ("landmark nan", M, "denom[denom == 0] = np.nan", "denom[:] = np.nan", "bad"),
    ("count_nonzero", M, "nzero = np.sum(denom == 0)", "nzero = np.count_nonzero(denom == 0)", "quiet"),
    ("any", M, "nzero = np.sum(denom == 0)\n        if nzero > 0:", "nzero = np.sum(denom == 0)\n        if np.any(denom == 0):", "quiet"),
    ("min cover", M, "nzero = np.sum(denom == 0)", "nzero = np.sum(~U.any(axis=0))", "quiet"),
    ("linear", U, "return r_cover - ds\n", "return 2 * r_cover - ds\n", "quiet"),
    ("increasing", U, "return (r_cover - ds) ** 2", "return (r_cover + ds) ** 2", "bad"),
    ("neg", U, "return r_cover - ds\n", "return r_cover / 2 - ds\n", "bad"),
    ("exp underflow", U, "np.maximum(\n            np.exp(r_cover**2 / (ds**2 - r_cover**2)), np.finfo(float).tiny\n        )", "np.exp(r_cover**2 / (ds**2 - r_cover**2))", "bad"),
    ("exp floor clip", U, "np.maximum(\n            np.exp(r_cover**2 / (ds**2 - r_cover**2)), np.finfo(float).tiny\n        )", "np.clip(np.exp(-r_cover**2 / (r_cover**2 - ds**2)), np.finfo(np.float64).tiny, None)", "quiet"),
    ("exp floor constant", U, "np.maximum(\n            np.exp(r_cover**2 / (ds**2 - r_cover**2)), np.finfo(float).tiny\n        )", "np.exp(np.maximum(-1 / (1 - (ds / r_cover) ** 2), -700))", "quiet"),
    ("exp sign", U, "np.exp(r_cover**2 / (ds**2 - r_cover**2))", "np.exp(r_cover**2 / (r_cover**2 - ds**2))", "bad"),
    ("nan moment", U, "finite = np.isfinite(X).all(axis=0)\n            try", "finite = np.ones(X.shape[1], dtype=bool)\n            try", "bad"),
    ("nan_to_num", U, "            X = Y / np.linalg.norm(Y, axis=0)[None, :]\n            return X", "            X = np.nan_to_num(Y / np.linalg.norm(Y, axis=0)[None, :])\n            return X", "bad"),
    ("row weights", L, "np.sqrt(varphi.T) * cocycle", "np.sqrt(varphi.T / np.max(varphi)) * cocycle", "bad"),
    ("toroidal other", T, ".dot(part_unity[:, i])", ".dot(part_unity[:, i - 1])", "bad"),
    ("cp swap", C, "varphi[t, b] * eta[i, ball_indx[b], t]", "varphi[t, 0] * eta[i, ball_indx[b], t]", "bad"),
]
