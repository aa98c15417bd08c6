"""C16: no argument of a partial function leaves its domain by a rounding error."""
import math
from .surface import *
from sa import fbounds

TECHNIQUE = "static analysis: interval propagation with rounding-monotone transfer functions and path conditions over the value graph, applied to every argument of a square root, inverse cosine/sine, logarithm or fractional power"
EXPLANATION = "Every call of sqrt, arccos, arcsin, arctanh, arccosh, log and every power with a fractional exponent that a public function reaches (each predefined partition of unity being inlined in the coordinate methods) is an obligation: the floating-point value of its argument lies in the function's domain. Bounds are propagated through the value graph with rules that hold for rounded results (sums of squares, absolute values, clipping with maximum/minimum/clip/where, masked assignments, branch conditions, numerically monotone operations), so a mathematically sufficient but numerically insufficient argument such as 1 - x**2 for a unit vector, or the polar form of the distance, is not accepted without clipping. A violation is reported when every leaf of the argument is understood and the bounds still leave the domain; arguments built from constructs outside the rules are undecided."
ASSUMPTIONS = ["IEEE arithmetic with round to nearest; numpy's elementwise functions map their documented domain into their documented range", "distances are non-negative; numeric parameters have their documented type"]

DOM = {"numpy.sqrt": (0.0, math.inf), "math.sqrt": (0.0, math.inf), "numpy.arccos": (-1.0, 1.0), "numpy.arcsin": (-1.0, 1.0), "math.acos": (-1.0, 1.0), "math.asin": (-1.0, 1.0), "numpy.arctanh": (-1.0, 1.0), "numpy.arccosh": (1.0, math.inf),
       "numpy.log": (0.0, math.inf), "numpy.log2": (0.0, math.inf), "numpy.log10": (0.0, math.inf), "math.log": (0.0, math.inf), "numpy.log1p": (-1.0, math.inf), "numpy.acos": (-1.0, 1.0), "numpy.asin": (-1.0, 1.0), "numpy.power": None, "numpy.float_power": None}
NAME = {"linear", "quadratic", "exp"}
RESCUE = {"numpy.nan_to_num", "numpy.nanmax", "numpy.nanmin", "numpy.nansum", "numpy.nanmean", "numpy.fmax", "numpy.fmin"}

def argof(n):
    d = dict(n.args[1])
    for k in ("x", "0", "x1", "a"):
        if k in d: return d[k]
    return n.args[1][0][1] if n.args[1] else None

def sites(r):
    """[(function name, argument, domain, path conditions, site)]"""
    out = []; seen = set()
    for e in r.effects:
        if e.kind != "libcall" or e.data[0] not in DOM: continue
        n = e.data[1]
        if not isinstance(n, vg.Node) or n.op != "call": continue
        dom = DOM[e.data[0]]
        if dom is None:
            d = dict(n.args[1]); x, y = d.get("x1", d.get("0")), d.get("x2", d.get("1"))
            v = fbounds.num(y) if y is not None else None
            if x is None or v is None or v == int(v): continue
            a, dom = x, (0.0, math.inf)
        else: a = argof(n)
        if a is None: continue
        out.append((e.data[0].split(".")[-1], a, dom, tuple(e.path), e.site))
        seen.add(n)
    for n in every_node(r):
        if n.op == "pow":
            v = fbounds.num(n.args[1])
            if v is not None and v != int(v): out.append(("** %g" % v, n.args[0], (0.0, math.inf), (), r.site0))
        elif n.op == "call" and n.args[0] in DOM and DOM[n.args[0]] and n not in seen and argof(n) is not None and not any(s[1] is argof(n) for s in out):
            out.append((n.args[0].split(".")[-1], argof(n), DOM[n.args[0]], (), r.site0))
    return out

def rescued(r, a):
    """the not-a-number is looked for and replaced"""
    def reaches(x): return any(y.op == "call" and y.args[0] in DOM and argof(y) is a or y.op == "pow" and y.args[0] is a for y in walk(x))
    def tests(x): return any((y.op == "call" and y.args[0] in ("numpy.isnan", "numpy.isfinite", "math.isnan") or y.op == "ne" and y.args[0] is y.args[1]) and reaches(y) for y in walk(x))
    for x in every_node(r):
        if x.op == "call" and x.args[0] in RESCUE and reaches(x): return True
        if x.op == "store" and any(isinstance(i, vg.Node) and tests(i) for i in x.args[1]): return True
        if x.op == "phi" and tests(x.args[0]): return True
        if x.op == "call" and x.args[0] == "numpy.where" and "condition" in dict(x.args[1]) and tests(dict(x.args[1])["condition"]): return True
    return False

def inrange(b, dom): return b[0] >= dom[0] and b[1] <= dom[1]

def scalars(r, a, c):
    """documented numeric parameters without a documented sign"""
    out = []
    for x in walk(a):
        if x.op == "sym":
            try: s = c.ty(x).shape
            except Exception: s = None
            if s is None or not len(s): out.append(x)
    return out

def judge(ck, key, q, r, t, name, a, dom, path, site):
    c = dre.em_ctx(ck, q, r) if ":%s" % q.split(":")[1].split(".")[0] and "Coords.get_coordinates" in q else Ctx(r, types=dict(t))
    try: ty = c.ty(a)
    except (Unk, vg.AnalysisError): ty = None
    fb = fbounds.FB(r, lambda n: c.ty(n), syms={"perc": (0.0, 1.0)}, nonneg=("self._dist_land_data", "self._dist_land_land", "ds", "dist_land_data"))
    if ty is not None and ty.dt == "c":
        ck.ok(key, "complex argument", site); return
    b = fb.b(a, path)
    if inrange(b, dom): ck.ok(key, "argument bounded by %s" % (b,), site); return
    if fb.unknown:
        u = sorted(show(x, 1)[:50] for x in fb.unknown)[0]
        ck.unk(key, "bound depends on %s" % u, site); return
    if rescued(r, a): ck.unk(key, "the result is tested for not-a-number", site); return
    ck.bad(key, "the argument of %s can leave [%g, %g] by rounding: nothing bounds it (known bounds [%g, %g])" % (name, dom[0], dom[1], b[0], b[1]), site)

def fn(ck, tag, q, r, t):
    ss = sites(r)
    count = {}
    for name, a, dom, path, site in ss:
        k = "%s%s" % (q, tag); count[k, name] = i = count.get((k, name), -1) + 1
        key = "%s %s#%d" % (k, name, i)
        ck.guard(key, judge, ck, key, q, r, t, name, a, dom, path, site)
    if not ss: ck.notes.append("%s%s: no partial function reached" % (q, tag))

def bumps(ck):
    cls = ck.prog.lookup("utils:PartUnity") if True else None
    out = []
    for a, f in sorted(getattr(cls, "attrs", {}).items()):
        if a.startswith("_"): continue
        f = cls.lookup(a)
        if isinstance(f, vg.FuncV): out.append((a, f))
    return out

def check(ck):
    bs = bumps(ck)
    for q, cn, nm, f, cls, r, t in runs(ck):
        if nm == "get_coordinates" and "partunity_fn" in r.params and bs:
            for b, g in bs:
                def one(b=b, g=g):
                    rr = ck.run(q, f=f, selfobj=vg.ObjV(cls, "self") if cls is not None and not f.static else None, types=oracle(t), args={"partunity_fn": g})
                    fn(ck, "[%s]" % b, q, rr, t)
                ck.guard("%s[%s]" % (q, b), one)
        else: ck.guard(q, fn, ck, "", q, r, t)

U = "dreimac/utils.py"; CP = "dreimac/complexprojectivecoords.py"; EM = "dreimac/emcoords.py"; LC = "dreimac/lenscoords.py"; PC = "dreimac/projectivecoords.py"
CSM = "        C[C < 0] = 0\n        return np.sqrt(C)"
ARC = "        D = np.abs(X.dot(Y.T))\n        D[D < -1] = -1\n        D[D > 1] = 1\n        D = np.arccos(np.abs(D))\n        return D"
VAR = "np.real(np.arccos(np.minimum(np.abs(np.conjugate(U[:, -1])[None, :].dot(X[:, finite])), 1)))"
POLE = "        if magSqr > 1:\n            x = x / np.sqrt(magSqr)\n            magSqr = 1\n"
BETA = "np.sqrt(max(1 - np.abs(lam) ** 2, 0))"
LENS = "np.sqrt(np.maximum(1 - r**2, 0))"
SELFTEST = [
    ("csm unclipped", U, CSM, "        return np.sqrt(C)", "bad"),
    ("csm clip at tolerance", U, CSM, "        C[C < -1e-12] = 0\n        return np.sqrt(C)", "bad"),
    ("csm clip wrong side", U, CSM, "        C[C > 0] = 0\n        return np.sqrt(-C)", "quiet"),
    ("csm half power unclipped", U, CSM, "        return C ** 0.5", "bad"),
    ("csm maximum", U, CSM, "        return np.sqrt(np.maximum(C, 0))", "quiet"),
    ("csm where", U, CSM, "        return np.sqrt(np.where(C < 0, 0, C))", "quiet"),
    ("csm where reversed", U, CSM, "        return np.sqrt(np.where(C >= 0, C, 0.0))", "quiet"),
    ("csm clip", U, CSM, "        return np.sqrt(np.clip(C, 0, None))", "quiet"),
    ("csm clip inplace", U, CSM, "        np.clip(C, 0, None, out=C)\n        return np.sqrt(C)", "quiet"),
    ("csm abs", U, CSM, "        return np.sqrt(np.abs(C))", "quiet"),
    ("csm direct", U, ["        C = np.sum(X**2, 1)[:, None] + np.sum(Y**2, 1)[None, :] - 2 * X.dot(Y.T)\n", CSM], ["        C = np.sum((X[:, None, :] - Y[None, :, :]) ** 2, 2)\n", "        return np.sqrt(C)"], "quiet"),
    ("csm nan_to_num", U, CSM, "        return np.nan_to_num(np.sqrt(C))", "quiet"),
    ("csm replace nan", U, CSM, "        C = np.sqrt(C)\n        C[np.isnan(C)] = 0\n        return C", "quiet"),
    ("csm mask variable", U, CSM, "        neg = C < 0\n        C[neg] = 0\n        return np.sqrt(C)", "quiet"),
    ("projarc unclipped", U, ARC, "        return np.arccos(np.abs(X.dot(Y.T)))", "bad"),
    ("projarc lower only", U, "        D[D > 1] = 1\n", "", "bad"),
    ("projarc clip before abs", U, ARC, "        return np.arccos(np.abs(np.clip(X.dot(Y.T), -1, 1)))", "quiet"),
    ("projarc minimum", U, ARC, "        return np.arccos(np.minimum(np.abs(X.dot(Y.T)), 1))", "quiet"),
    ("projarc clip then scale", U, ARC, "        return np.arccos(np.clip(np.abs(X.dot(Y.T)), 0, 1) * (1 + 1e-16 * 3))", "bad"),
    ("variance unclipped", U, VAR, "np.real(np.arccos(np.abs(np.conjugate(U[:, -1])[None, :].dot(X[:, finite]))))", "bad"),
    ("variance clip", U, VAR, "np.arccos(np.clip(np.abs(np.conjugate(U[:, -1])[None, :].dot(X[:, finite])), 0, 1))", "quiet"),
    ("ppca rescale by complement", U, ["                # y = np.array(Y[-1, :])\n", "                X = Y / np.linalg.norm(Y, axis=0)[None, :]\n                if X"], ["                y = np.array(Y[-1, :])\n", "                X = Y / np.sqrt(1 - np.abs(y) ** 2)[None, :]\n                if X"], "bad"),
    ("ppca square root of eigenvalues", U, "                _, U = np.linalg.eigh(X[:, finite].dot(np.conjugate(X[:, finite]).T))\n                U = np.fliplr(U)", "                ev, U = np.linalg.eigh(X[:, finite].dot(np.conjugate(X[:, finite]).T))\n                U = np.fliplr(U)\n                variance[:] = np.sqrt(ev)", "bad"),
    ("pole unclipped", U, POLE, "", "bad"),
    ("pole recomputed norm", U, "            magSqr = 1\n", "            magSqr = np.sum(x**2)\n", "bad"),
    ("pole tolerance", U, "        if magSqr > 1:\n", "        if magSqr > 1 + 1e-9:\n", "bad"),
    ("pole min", U, POLE, "        if magSqr >= 1:\n            x = x / np.sqrt(magSqr)\n            magSqr = 1.0\n", "quiet"),
    ("pole min later", U, "        u[2] = np.sqrt(1 - magSqr)", "        u[2] = np.sqrt(max(0.0, 1 - magSqr))", "quiet"),
    ("pole as a factor", U, "        u[2] = np.sqrt(1 - magSqr)", "        u[2] = np.sqrt((1 - magSqr) * (1 + magSqr)) / np.sqrt(1 + magSqr)", "quiet"),
    ("rotation unclipped", U, BETA, "np.sqrt(1 - np.abs(lam) ** 2)", "bad"),
    ("rotation factored unclipped", U, BETA, "np.sqrt((1 - lam) * (1 + lam))", "bad"),
    ("rotation sine of arccos", U, BETA, "np.sin(np.arccos(lam))", "bad"),
    ("rotation norm", U, BETA, "np.sqrt(np.clip(1 - lam * lam, 0, 1))", "quiet"),
    ("rotation conditional", U, "        beta = " + BETA, "        beta = 1 - lam**2\n        beta = np.sqrt(beta) if beta > 0 else 0.0", "quiet"),
    ("lens unclipped", U, LENS, "np.sqrt(1 - r**2)", "bad"),
    ("lens first coordinate", U, LENS, "np.abs(p1)", "quiet"),
    ("lens min radius", U, "            r = np.abs(p2)\n", "            r = min(np.abs(p2), 1)\n", "quiet"),
    ("lens min radius only", U, ["            r = np.abs(p2)\n", LENS], ["            r = min(np.abs(p2), 1.0)\n", "np.sqrt(1 - r**2)"], "quiet"),
    ("hopf from modulus", U, "        X = X / np.sqrt(np.sum(X**2, 1))[:, None]", "        X[:, 2] = np.sqrt(1 - X[:, 0] ** 2 - X[:, 1] ** 2)", "bad"),
    ("weights from complement", PC, "np.sqrt(varphi.T)", "np.sqrt(1 - (1 - varphi.T))", "quiet"),
    ("weights from the other balls", PC, "np.sqrt(varphi.T)", "np.sqrt(np.sum(varphi, 0)[:, None] - varphi.T)", "bad"),
    ("weights power", LC, "np.sqrt(varphi.T)", "(varphi.T ** 0.5)", "quiet"),
]
