"""C25: example generators sample the spaces they name."""
import ast, itertools, math, re
from .surface import *
from .c23 import Tally, near
from .c17 import FAIL

TECHNIQUE = "static analysis: entrywise algebraic terms of the returned samples over the parameters and the random draws (value graph + tensor normal form), identity testing of the defining equations, bounds and coverage of the named spaces, and shape propagation compared with the documented shapes"
EXPLANATION = "Each generator's result is one term per entry, in which the random draws are free variables ranging over their distribution's support.  The defining equation of the space is tested on those terms for all sample sizes, radii and draws (including extreme draws for the noise bounds), the documented array shape is compared with the propagated shape, and the parameters are required to run over whole circles, so that no part of the space is left out.  The order of the points is not prescribed."
ASSUMPTIONS = ["uniform draws lie in [0, 1), normal draws are unbounded reals; two draws are independent", "identity testing with two deviating valuations required for a violation", "the uniformity of a sample is not judged"]

GE = "utils:GeometryExamples."
UNIF = {"rand", "random", "random_sample", "ranf", "sample"}
NORM = {"randn", "standard_normal"}

class Gen:
    """one generator with entrywise terms of its points"""
    def __init__(self, ck, name, t, args=None, pick=None):
        self.ck, self.name = ck, name
        f = ck.fn(GE + name, True); self.f = f
        tt = types(t)
        self.r = ck.run(GE + name, f=f, args=args, types=oracle(tt))
        self.site = self.r.site0
        self.c = Ctx(self.r, types=tt)
        self.draws = {}
        for n in every_node(self.r):
            k = None
            if n.op == "call" and n.args[0].startswith("numpy.random."): k = n.args[0].split(".")[-1]; a = [v for kk, v in n.args[1] if not kk.startswith("#")]; kw = cargs(n)
            elif n.op == "mcall" and vg.is_rng(strip(n.args[1])): k = n.args[0]; a = list(n.args[2]); kw = dict(n.args[3])
            else: continue
            if k not in UNIF | NORM | {"uniform", "normal"}: continue
            lo, hi = None, None
            sh = None
            try:
                if n.op == "call": sh = self.c.ty(n)
            except (Unk, vg.AnalysisError): pass
            try:
                if k in ("uniform", "normal"):
                    nm = ("low", "high") if k == "uniform" else ("loc", "scale")
                    lo = kw.get(nm[0], a[0] if a else None); hi = kw.get(nm[1], a[1] if len(a) > 1 else None)
                    lo = self.c.val(lo) if lo is not None else ZERO; hi = self.c.val(hi) if hi is not None else ONE
                    size = kw.get("size", a[2] if len(a) > 2 else None)
                else: size = kw.get("size", a[0] if len(a) == 1 else None)
                if sh is None:
                    if k in ("rand", "randn"): shp = [self.c.val(x) for x in a]
                    elif size is None: shp = []
                    elif size.op in ("tuple", "list"): shp = [self.c.val(x) for x in size.args]
                    elif size.op == "attr" and size.args[1] == "shape": shp = list(self.c.ty(size.args[0]).shape)
                    else: shp = [self.c.val(size)]
                    self.c.over[n] = Ty(tuple(shp), "f")
            except (Unk, vg.AnalysisError, IndexError): continue
            self.draws[n] = ("n" if k in NORM or k == "normal" else "u", lo, hi)
        n = self.r.node()
        if pick is not None and n.op == "tuple": n = n.args[pick]
        self.node = n
        self.cache = None
    def term(self):
        if self.cache is None:
            t = self.c.ty(self.node)
            ix = ivars(t.shape, self.c)
            self.cache = (t, [v.single()[1][0][0] for v in ix], at(self.c, self.node, ix))
        return self.cache
    def env(self, seed, params, extreme=None, dims=None):
        env = cert.Env((self.name, seed), {k: (lambda e, ix, v=v: v) for k, v in params.items()}, dims or {}, ctx=self.c)
        for n, (k, lo, hi) in self.draws.items():
            key = poly.nodekey(n)
            def g(e, ix, k=k, lo=lo, hi=hi, key=key):
                u = e.u(key, ix)
                if k == "n" and extreme is not None: v = 8 * (extreme(e, key, ix, u) - .5)
                elif k == "n": v = 2 * math.sqrt(-2 * math.log(u * .999 + 5e-4)) * math.cos(2 * math.pi * e.u(key, "angle", ix)) / 2
                else: v = u if extreme is None else extreme(e, key, ix, u)
                if lo is not None: v = e.ev(lo) + v * ((e.ev(hi) - e.ev(lo)) if k == "u" else e.ev(hi))
                return v
            env.gen[key] = g
        return env
    def rows(self, env, sel=None):
        t, A, p = self.term()
        if t.rank != 2: raise Unk("rank")
        n, d = (env.integer(self.c.close(s), {}) for s in t.shape)
        return n, d, [[env.ev(p, {A[0]: i, A[1]: j}) for j in range(d)] for i in (range(n) if sel is None else [k for k in sel if k < n])]

def strip(n):
    while n.op in ("mutated",): n = n.args[0]
    return n

def documented(f):
    """[shape expressions] of the arrays in the Returns section of the docstring"""
    d = ast.get_docstring(f.node) or ""
    m = re.search(r"Returns\s*\n\s*-+\s*\n(.*?)(\n\s*\n\s*[A-Z]\w+\s*\n\s*-{3,}|\Z)", d, re.S)
    if not m: return []
    out = []
    for x in re.findall(r"ndarray\s*\(([^)]*)\)", m.group(1)):
        try: e = ast.parse("(" + x + ",)", mode="eval").body.elts
        except SyntaxError: continue
        out.append(e)
    return out

def value(e, env):
    if isinstance(e, ast.Constant) and isinstance(e.value, int): return e.value
    if isinstance(e, ast.Name): return env.get(e.id)
    if isinstance(e, ast.BinOp):
        a, b = value(e.left, env), value(e.right, env)
        if a is None or b is None: return None
        if isinstance(e.op, ast.Mult): return a * b
        if isinstance(e.op, ast.Add): return a + b
        if isinstance(e.op, ast.Sub): return a - b
        if isinstance(e.op, ast.Pow): return a ** b
    return None

# draws that are all small, all near the centre of their range, all large, or mixed
DRAWS = [lambda e, key, ix, u: .001 * u + 1e-9, lambda e, key, ix, u: .5 + 1e-4 * (u - .5), lambda e, key, ix, u: 1 - .001 * u - 1e-9,
         lambda e, key, ix, u: (1e-9, .5 + 1e-5 * u, 1 - 1e-9)[int(3 * e.u(key, ix, "side"))], lambda e, key, ix, u: u]

def shape(ck, g, which, params, known):
    """the propagated shape is the documented one"""
    key = g.name + ".shape" + (".%d" % which if which else "")
    doc = documented(g.f)
    T = Tally()
    try:
        n = g.r.node()
        n = n.args[which] if n.op == "tuple" else n
        t = g.c.ty(n)
        for s, pr in enumerate(params):
            env = g.env(("shape", s), pr)
            got = [env.integer(g.c.close(x), {}) for x in t.shape]
            for k, ext in enumerate(DRAWS):
                env = g.env(("shape", s, k), pr, ext)
                g2 = [env.integer(g.c.close(x), {}) for x in t.shape]
                T.add(g2 == got, "%s instead of %s points for other random draws" % (g2, got))
            if which < len(doc):
                want = [value(e, pr) for e in doc[which]]
                T.add(len(got) == len(want) and all(w is None or w == x for w, x in zip(want, got)), "documented %s, returned %s for %s" % (want, got, pr))
            if known is not None:
                want = known(pr)
                T.add(len(got) == len(want) and all(w is None or w == x for w, x in zip(want, got)), "%s instead of %s for %s" % (got, want, pr))
    except FAIL + (Unk, vg.AnalysisError) as ex: T.why = str(ex)[:100]
    T.close(ck, key, "the result does not have the documented number of points and dimension", g.site, need=2)

def spread(vals, n=4):
    """every n-th part of the circle is hit"""
    return len({int((v % (2 * math.pi)) / (2 * math.pi) * n) % n for v in vals}) == n

def joint(pairs, n):
    """every cell of the n x n grid of two angles is hit"""
    f = lambda v: int((v % (2 * math.pi)) / (2 * math.pi) * n) % n
    return len({(f(a), f(b)) for a, b in pairs}) == n * n

def surface_check(ck, name, t, params, eq, cover, msg, dim_=None, args=None, pick=None, trials=4, tag="", known=None, shapes=True, size=None):
    """eq(row, params): the defining equation; cover(rows, params): parts of the space that have to be reached"""
    g = Gen(ck, name, t, args=args, pick=pick)
    if shapes: shape(ck, g, 0 if pick is None else pick, params, known)
    E, C = Tally(), Tally()
    for s in range(trials):
        pr = params[s % len(params)]
        try:
            n, d, X = g.rows(g.env(("eq", s), pr), None)
            if not X: continue
            for x in X[:40]: E.add(eq(x, pr), "point %s for %s" % (["%.4g" % v for v in x], pr))
        except FAIL + (Unk, vg.AnalysisError, IndexError) as ex: E.why = C.why = str(ex)[:100]; continue
        if cover is not None and size is not None:
            try:
                big = {**pr, **size}
                n, d, X = g.rows(g.env(("cover", s), big))
                C.add(cover(X, big), "%s" % (big,))
            except FAIL + (Unk, vg.AnalysisError, IndexError) as ex: C.why = str(ex)[:100]
    for s, big in enumerate((1000, 100003)):
        if "n_samples" not in params[0]: break
        pr = {**params[s], "n_samples": big}
        try:
            n, d, X = g.rows(g.env(("big", s), pr), [0, 1, 2, big // 3, big // 2, big - 2, big - 1])
            E.add(n == big and all(eq(x, pr) for x in X), "%d samples for %s" % (n, pr))
            E.add(n == big and all(eq(x, pr) for x in X), "")
        except FAIL + (Unk, vg.AnalysisError, IndexError) as ex: E.why = str(ex)[:100]
    E.close(ck, name + tag + ".equation", msg, g.site)
    if cover is not None: C.close(ck, name + tag + ".whole", "the sample leaves out a part of the space", g.site, need=2)
    return g

def unit(x, pr=None): return near(sum(v * v for v in x), 1, 1e-6)
def octants(X, pr=None): return len({tuple(v > 0 for v in x) for x in X}) == 2 ** len(X[0])

def on_torus(x, pr, c=(0, 0, 0)):
    x = [a - b for a, b in zip(x, c)]
    R, r, q = pr["R"], pr["r"], x[0] ** 2 + x[1] ** 2
    return near((q + x[2] ** 2 + R * R - r * r) ** 2, 4 * R * R * q, 1e-6)
def torus_whole(X, pr):
    return joint([(math.atan2(x[1], x[0]), math.atan2(x[2], math.hypot(x[0], x[1]) - pr["R"])) for x in X], 3)

def on_klein(x, pr):
    rho = math.hypot(x[0], x[1]); w2 = x[2] ** 2 + x[3] ** 2; phi = math.atan2(x[1], x[0])
    return near((rho - pr["R"]) ** 2 + w2, pr["r"] ** 2, 1e-6) and near(x[2] ** 2 - x[3] ** 2, w2 * math.cos(phi), 1e-6) and near(2 * x[2] * x[3], w2 * math.sin(phi), 1e-6)
def klein_whole(X, pr):
    return spread(math.atan2(x[1], x[0]) for x in X) and len({(math.hypot(x[0], x[1]) > pr["R"], x[3] > 0) for x in X}) == 4 and len({(math.atan2(x[1], x[0]) > 0, x[3] > 0) for x in X}) == 4

def knot(u, w): return (w * (1.5 + math.sin(1.5 * u) / 2), 4 * math.cos(1.5 * u))
def on_trefoil(x, pr):
    rho = math.hypot(x[0], x[1]); phi = math.atan2(x[1], x[0]); out = []
    for u in (phi, phi + 2 * math.pi):
        a, z = knot(u, pr["horizontal_width"])
        out.append(near((rho - a) ** 2 + (x[2] - z) ** 2, 1, 1e-5))
    return any(out)
def trefoil_whole(X, pr):
    hits = set(); tube = set()
    for x in X:
        rho = math.hypot(x[0], x[1]); phi = math.atan2(x[1], x[0])
        u = min((phi, phi + 2 * math.pi), key=lambda u: abs((rho - knot(u, pr["horizontal_width"])[0]) ** 2 + (x[2] - knot(u, pr["horizontal_width"])[1]) ** 2 - 1))
        k = u % (4 * math.pi) / (4 * math.pi)
        hits.add(int(k * 6)); tube.add((int(k * 3), x[2] - knot(u, pr["horizontal_width"])[1] > 1e-9))
    return len(hits) == 6 and (not pr["noisy"] or len(tube) == 6)

def corner(e, key, ix, u):
    return 0.0 if e.u(key, ix, "side") < .5 else 1 - 1e-12

def noisy(ck):
    name = "noisy_circle"
    g = Gen(ck, name, {"n_samples": ":i", "noise_size": ":f", "seed": ":i"})
    shape(ck, g, 0, [{"n_samples": k, "noise_size": .2, "seed": 1} for k in (1, 2, 5)], lambda p: [p["n_samples"], 2])
    B, Z, W, S = Tally(), Tally(), Tally(), Tally()
    try: circ = noise_draws(g)
    except FAIL + (Unk, vg.AnalysisError) as ex: ck.unk(name, str(ex)[:100], g.site); return
    for s in range(6):
        eps = [0.2, 0.5, 1.0, 0.1, 0.3, 0.8][s]
        pr = {"n_samples": 24, "noise_size": eps, "seed": s}
        try:
            # extreme draws for the noise, ordinary draws for the points
            for ext in (None, lambda e, key, ix, u: u if key in circ else corner(e, key, ix, u)):
                for x in g.rows(g.env((s, 0), pr, ext))[2]: B.add(abs(math.hypot(*x) - 1) <= eps * (1 + 1e-9), "distance %.4g from the circle with noise size %g" % (abs(math.hypot(*x) - 1), eps))
            z = g.rows(g.env((s, 1), {**pr, "noise_size": 0.0}))[2]
            for x in z: Z.add(near(math.hypot(*x), 1, 1e-7), "")
            a, b = g.rows(g.env((s, 1), {**pr, "noise_size": eps}))[2], z
            S.add(any(math.dist(x, y) > 1e-9 for x, y in zip(a, b)) and all(math.dist(x, y) <= eps * (1 + 1e-9) for x, y in zip(a, b)), "displacement %.3g with noise size %g" % (max(math.dist(x, y) for x, y in zip(a, b)), eps))
            W.add(spread([math.atan2(x[1], x[0]) for x in z]), "")
        except FAIL + (Unk, vg.AnalysisError, IndexError) as ex:
            for x in (B, Z, W, S): x.why = str(ex)[:100]
    B.close(ck, name + ".bound", "a sample lies farther from the unit circle than the noise size", g.site)
    Z.close(ck, name + ".equation", "without noise the samples are not on the unit circle", g.site)
    S.close(ck, name + ".noise", "the perturbation is not a non-zero one bounded by the noise size", g.site)
    W.close(ck, name + ".whole", "the sample leaves out a part of the circle", g.site, need=3)

def noise_draws(g):
    """keys of the draws the result depends on when the noise size is zero"""
    t, A, p = g.term()
    out = set()
    for s in range(3):
        pr = {"n_samples": 4, "noise_size": 0.0, "seed": 1}
        base = g.rows(g.env(("nd", s), pr))[2]
        for n in g.draws:
            k = poly.nodekey(n)
            new = g.rows(g.env(("nd", s), pr, lambda e, key, ix, u: (u * u + .1) / 1.2 if key == k else u))[2]
            if any(abs(a - b) > 1e-12 for x, y in zip(base, new) for a, b in zip(x, y)): out.add(k)
    return out

def circles(ck, name, parts, eps, doc_dim=2):
    """points near circles (centre, radius): all within the noise, every circle completely covered, noise not zero"""
    g = Gen(ck, name, {})
    shape(ck, g, 0, [{}, {}], lambda p: [None, 2])
    B, W, Z = Tally(), Tally(), Tally()
    for s, ext in enumerate((None, corner, corner)):
        try:
            t, A, p = g.term()
            env = g.env(s, {}, ext)
            n = env.integer(g.c.close(t.shape[0]), {})
            X = g.rows(env, range(0, n, 1 if s == 0 else 3))[2]
            per = [[] for _ in parts]
            for x in X:
                k = min(range(len(parts)), key=lambda k: abs(math.dist(x, parts[k][0]) - parts[k][1]))
                off = abs(math.dist(x, parts[k][0]) - parts[k][1])
                B.add(off <= eps, "point (%.3g, %.3g) is %.3g away from every circle" % (x[0], x[1], off))
                per[k].append(math.atan2(x[1] - parts[k][0][1], x[0] - parts[k][0][0])); Z.add(True)
            W.add(all(spread(v, 10 if s == 0 else 5) for v in per), "%s points on the circles" % [len(v) for v in per])
            if s == 0 and not any(abs(math.dist(x, parts[k][0]) - parts[k][1]) > 1e-9 for x in X for k in [min(range(len(parts)), key=lambda k: abs(math.dist(x, parts[k][0]) - parts[k][1]))]): Z.bad = 2
        except FAIL + (Unk, vg.AnalysisError, IndexError) as ex:
            for x in (B, W, Z): x.why = str(ex)[:100]
    B.close(ck, name + ".bound", "a sample lies farther from the circles than the noise allows", g.site)
    W.close(ck, name + ".whole", "a circle is not sampled all around", g.site, need=2)
    Z.close(ck, name + ".noise", "the samples carry no noise", g.site)

def genus_two(ck):
    name = "genus_two_surface"
    g = Gen(ck, name, {})
    shape(ck, g, 0, [{}, {}], lambda p: [None, 3])
    E, W = Tally(), Tally()
    pr = {"R": 5, "r": 2}
    try:
        t, A, p = g.term()
        env = g.env(0, {})
        n = env.integer(g.c.close(t.shape[0]), {})
        X = g.rows(env, range(0, n, 7))[2]
        for x in X: E.add(on_torus(x, pr) and x[0] <= 4.5 + 1e-9 or on_torus(x, pr, (9, 0, 0)) and x[0] >= 4.5 - 1e-9, "point (%.3g, %.3g, %.3g)" % tuple(x))
        for m in (1, -1):
            Y = [x if m > 0 else [9 - x[0], x[1], x[2]] for x in X]
            Y = [y for y in Y if y[0] <= 4.5]
            W.add(bool(Y) and spread((math.atan2(y[1], y[0]) for y in Y), 6) and spread((math.atan2(y[2], math.hypot(y[0], y[1]) - 5) for y in Y), 6) and max(y[0] for y in Y) > 4.2, "")
            W.add(bool(Y), "")
    except FAIL + (Unk, vg.AnalysisError, IndexError) as ex: E.why = W.why = str(ex)[:100]
    E.close(ck, name + ".equation", "a point lies on neither half of the two glued tori", g.site)
    W.close(ck, name + ".whole", "a part of the surface is missing", g.site, need=2)

def close_rows(A, B, tol=1e-6):
    """equal as multisets of rows"""
    if len(A) != len(B) or any(len(x) != len(y) for x, y in zip(A, B)): return False
    k = lambda x: tuple(round(v, 5) for v in x)
    if all(abs(a - b) <= tol for x, y in zip(sorted(A, key=k), sorted(B, key=k)) for a, b in zip(x, y)): return True
    B = list(B)
    for x in A:
        j = next((i for i, y in enumerate(B) if all(abs(a - b) <= tol for a, b in zip(x, y))), None)
        if j is None: return False
        del B[j]
    return True

def lin(a, b, n): return [a] if n == 1 else [a + (b - a) * i / (n - 1) for i in range(n)]

def lines_ref(p):
    d, out = p["dim"], []
    for i in range(p["n_angles"]):
        th = math.pi * i / p["n_angles"]
        for o in lin(-1, 1, p["n_offsets"]): out.append([math.exp(-((x * math.cos(th) + y * math.sin(th) + o) ** 2) / p["sigma"] ** 2) for x in lin(-.5, .5, d) for y in lin(-.5, .5, d)])
    return out

def dot_ref(p):
    d, k = p["dim"], p["sqrt_num_images"]
    out = []
    px = lin(-(d - 1) / 2, (d - 1) / 2, d)
    cs = [15 * v ** 3 for v in lin(-1, 1, k)]
    for x in cs:
        for y in cs: out.append([math.exp(-((a - x) ** 2 + (b - y) ** 2) / (2 * p["sigma"] ** 2)) for a in px for b in px])
    return out

def images(ck, name, t, params, ref, msg):
    g = Gen(ck, name, t)
    shape(ck, g, 0, params, lambda p: [len(ref(p)), p["dim"] ** 2])
    T, R = Tally(), Tally()
    for s, p in enumerate(params):
        try:
            X = g.rows(g.env(s, p))[2]
            T.add(close_rows(X, ref(p)), "%s" % (p,))
            R.add(all(-1e-9 <= v <= 1 + 1e-9 for x in X for v in x), "")
        except FAIL + (Unk, vg.AnalysisError, IndexError) as ex: T.why = R.why = str(ex)[:100]
    T.close(ck, name + ".patches", msg, g.site, need=3)
    R.close(ck, name + ".range", "a pixel lies outside [0, 1]", g.site, need=3)

def check(ck):
    ns = [1, 2, 5, 7]
    big = {"n_samples": 60}
    ck.guard("sphere", surface_check, ck, "sphere", {"n_samples": ":i"}, [{"n_samples": n} for n in ns], unit, octants, "a sample is not a unit vector", None, None, None, 4, "", lambda p: [p["n_samples"], 3], True, big)
    ck.guard("rp2_metric", surface_check, ck, "rp2_metric", {"n_samples": ":i", "seed": ":i"}, [{"n_samples": n, "seed": 3} for n in ns], unit, octants, "a sample of the projective plane is not a unit vector", None, None, 0, 4, "", lambda p: [p["n_samples"], 3], True, big)
    radii = [{"n_samples": n, "R": R, "r": r, "seed": 2} for n, (R, r) in zip(ns, ((3.0, 1.0), (2.0, .5), (5.0, 2.5), (1.5, 1.25)))]
    tr = {"n_samples": ":i", "R": ":f", "r": ":f", "seed": ":i"}
    ck.guard("torus_3d", surface_check, ck, "torus_3d", tr, radii, on_torus, torus_whole, "a sample does not satisfy the torus equation for the given radii", None, None, None, 4, "", lambda p: [p["n_samples"], 3], True, big)
    ck.guard("torus_3d", surface_check, ck, "torus_3d", tr, [dict(p, R=p["r"], r=p["R"]) for p in radii], on_torus, None, "a sample does not satisfy the torus equation when the radius of the tube exceeds the other", None, None, None, 4, ".spindle")
    ck.guard("klein_bottle_4d", surface_check, ck, "klein_bottle_4d", tr, radii, on_klein, klein_whole, "a sample does not satisfy the equations of the Klein bottle for the given radii", None, None, None, 4, "", lambda p: [p["n_samples"], 4], True, big)
    for noisy_ in (True, False):
        pr = [{"n_samples": n, "horizontal_width": w, "noisy": noisy_} for n, w in ((1, 6.0), (4, 4.0), (6, 8.0), (9, 6.0))]
        ck.guard("trefoil", surface_check, ck, "trefoil", {"n_samples": ":i", "horizontal_width": ":f"}, pr, on_trefoil, trefoil_whole, "a sample is not on the unit tube around the trefoil knot", None, {"noisy": vg.const(noisy_)}, None, 4, "." + ("noisy" if noisy_ else "plain"), lambda p: [p["n_samples"], 3], True, {"n_samples": 48})
    ck.guard("noisy_circle", noisy, ck)
    ck.guard("bullseye", circles, ck, "bullseye", [((0, 0), 1), ((0, 0), 2), ((0, 0), 3)], .1)
    ck.guard("three_circles", circles, ck, "three_circles", [((0, 0), 1), ((4, 0), 2), ((-4, 0), 2.5)], .3)
    ck.guard("genus_two_surface", genus_two, ck)
    ck.guard("line_patches", images, ck, "line_patches", {"dim": ":i", "n_angles": ":i", "n_offsets": ":i", "sigma": ":f"}, [{"dim": d, "n_angles": a, "n_offsets": o, "sigma": s} for d, a, o, s in ((2, 2, 3, .25), (3, 3, 2, .5), (2, 4, 2, 1.0), (4, 1, 3, .3), (3, 5, 4, .7), (2, 3, 5, 3.0), (4, 9, 2, 6.5), (2, 2, 11, .05), (3, 12, 13, .4), (2, 11, 14, .3))], lines_ref, "the patches are not the blurred line segments at the given angles and offsets")
    ck.guard("moving_dot", images, ck, "moving_dot", {"sqrt_num_images": ":i", "sigma": ":f", "dim": ":i"}, [{"sqrt_num_images": k, "sigma": s, "dim": d} for k, s, d in ((2, 3.0, 2), (3, 1.0, 3), (4, 2.0, 2), (2, 5.0, 4), (5, 3.0, 3), (3, 7.0, 3), (2, 11.5, 2), (6, .5, 5))], dot_ref, "the patches are not the blurred dots")
    def m(ck):
        g = Gen(ck, "moore_space_distance_matrix", {"rough_n_points": ":i", "prime": ":i"})
        n = g.r.node()
        shape_square(ck, g, n.args if n.op == "tuple" else (n,))
    ck.guard("moore_space_distance_matrix", m, ck)

def shape_square(ck, g, parts):
    T = Tally()
    doc = documented(g.f)
    try:
        for s in range(4):
            env = g.env(("sh", s), {"rough_n_points": 9 + s, "prime": 3})
            sh = [[env.integer(g.c.close(x), {}) for x in g.c.ty(p).shape] for p in parts]
            n = sh[0][0] if sh[0] else None
            T.add(len(sh) == 2 and sh[0] == [n, n] and sh[1] == [n, 2] and n <= 9 + s, "%s" % (sh,))
            for d, got in zip(doc, sh):
                w = [value(e, {"n": n}) for e in d]
                T.add(len(w) == len(got) and all(a is None or a == b for a, b in zip(w, got)), "documented %s, returned %s" % (w, got))
            T.add(len(doc) == len(sh), "%d arrays documented, %d returned" % (len(doc), len(sh)))
    except FAIL + (Unk, vg.AnalysisError) as ex: T.why = str(ex)[:100]
    T.close(ck, g.name + ".shape", "the result does not have the documented number of points and dimension", g.site, need=2)

F = "dreimac/utils.py"
SELFTEST = [
    ("torus tube clipped", F, "        X[:, 2] = r * np.sin(s)\n        return X", "        X[:, 2] = min(r, R) * np.sin(s)\n        return X", "bad"),
    ("sphere taxicab", F, "np.linalg.norm(data, axis=1)[:, np.newaxis]", "np.linalg.norm(data, axis=1, ord=1)[:, np.newaxis]", "bad"),
    ("sphere order two", F, "np.linalg.norm(data, axis=1)[:, np.newaxis]", "np.linalg.norm(data, axis=1, ord=2)[:, np.newaxis]", "quiet"),
    ("sphere octant", F, "        data = 2 * np.random.random_sample((n_samples, 3)) - 1\n", "        data = np.random.random_sample((n_samples, 3))\n", "bad"),
    ("sphere columns", F, "np.linalg.norm(data, axis=1)[:, np.newaxis]", "np.linalg.norm(data, axis=0)[np.newaxis, :]", "bad"),
    ("sphere squared", F, "np.linalg.norm(data, axis=1)[:, np.newaxis]", "(np.linalg.norm(data, axis=1) ** 2)[:, np.newaxis]", "bad"),
    ("sphere 4d", F, "np.random.random_sample((n_samples, 3))", "np.random.random_sample((n_samples, 4))", "bad"),
    ("rp2 uniform", F, "X = np.random.randn(n_samples, 3)", "X = np.random.rand(n_samples, 3)", "bad"),
    ("torus one angle", F, "        X[:, 2] = r * np.sin(s)\n        return X", "        X[:, 2] = r * np.sin(t)\n        return X", "bad"),
    ("torus half", F, "        s = np.random.rand(n_samples) * 2 * np.pi\n", "        s = np.random.rand(n_samples) * np.pi\n", "bad"),
    ("torus radii", F, "        X[:, 0] = (R + r * np.cos(s)) * np.cos(t)\n        X[:, 1] = (R + r * np.cos(s)) * np.sin(t)\n        X[:, 2] = r * np.sin(s)\n", "        X[:, 0] = (r + R * np.cos(s)) * np.cos(t)\n        X[:, 1] = (r + R * np.cos(s)) * np.sin(t)\n        X[:, 2] = R * np.sin(s)\n", "bad"),
    ("torus same draw", F, "        s = np.random.rand(n_samples) * 2 * np.pi\n        t = np.random.rand(n_samples) * 2 * np.pi\n", "        s = np.random.rand(n_samples) * 2 * np.pi\n        t = s\n", "bad"),
    ("klein torus", F, "        X[:, 3] = r * np.sin(theta) * np.sin(phi / 2)", "        X[:, 3] = r * np.sin(theta) * np.sin(phi)", "bad"),
    ("klein full twist", F, ["np.cos(phi / 2)", "np.sin(phi / 2)"], ["np.cos(phi)", "np.sin(phi)"], "bad"),
    ("klein half", F, "        phi = np.random.rand(n_samples) * 2 * np.pi\n", "        phi = np.random.rand(n_samples) * np.pi\n", "bad"),
    ("trefoil one turn", F, "            u = 4 * np.pi * np.random.rand(n_samples)\n", "            u = 2 * np.pi * np.random.rand(n_samples)\n", "bad"),
    ("trefoil height", F, "            X[:, 2] = np.sin(v) + 4 * np.cos(1.5 * u)", "            X[:, 2] = np.sin(v) + 4 * np.sin(1.5 * u)", "bad"),
    ("trefoil plain", F, "            X[:, 2] = 4 * np.cos(1.5 * u)\n", "            X[:, 2] = 3 * np.cos(1.5 * u)\n", "bad"),
    ("trefoil width ignored", F, "            X[:, 1] = np.sin(u) + horizontal_width * np.sin(u) * (", "            X[:, 1] = np.sin(u) + 6 * np.sin(u) * (", "bad"),
    ("circle noise off centre", F, "+ (np.random.random((n_samples, 2)) - 0.5) * noise_size", "+ np.random.random((n_samples, 2)) * noise_size", "bad"),
    ("circle noise doubled", F, "+ (np.random.random((n_samples, 2)) - 0.5) * noise_size", "+ (2 * np.random.random((n_samples, 2)) - 1) * noise_size", "bad"),
    ("circle no noise", F, "            + (np.random.random((n_samples, 2)) - 0.5) * noise_size\n", "", "bad"),
    ("circle fixed noise", F, "+ (np.random.random((n_samples, 2)) - 0.5) * noise_size", "+ (np.random.random((n_samples, 2)) - 0.5) * 0.2", "bad"),
    ("circle gaussian noise", F, "+ (np.random.random((n_samples, 2)) - 0.5) * noise_size", "+ np.random.randn(n_samples, 2) * noise_size / 2", "bad"),
    ("circle quadrant", F, "        X = np.random.random((n_samples, 2)) - 0.5\n", "        X = np.random.random((n_samples, 2))\n", "bad"),
    ("circle centre dropped", F, "        X = np.random.random((n_samples, 2)) - 0.5\n", "        X = np.random.random((n_samples, 2)) - 0.5\n        X = X[np.linalg.norm(X, axis=1) > 0.01]\n        n_samples = len(X)\n", "bad"),
    ("sphere ball only", F, "        data = 2 * np.random.random_sample((n_samples, 3)) - 1\n", "        data = 2 * np.random.random_sample((n_samples, 3)) - 1\n        data = data[np.linalg.norm(data, axis=1) < 1.7]\n", "bad"),
    ("circle normalised last", F, "            X / np.linalg.norm(X, axis=1).reshape((n_samples, 1))\n            + (np.random.random((n_samples, 2)) - 0.5) * noise_size\n", "            X / np.linalg.norm(X).reshape((1, 1))\n            + (np.random.random((n_samples, 2)) - 0.5) * noise_size\n", "bad"),
    ("bullseye ring", F, "c3 = np.array([3 * np.sin(sample_interval), 3 * np.cos(sample_interval)]).T", "c3 = np.array([2 * np.sin(sample_interval), 3 * np.cos(sample_interval)]).T", "bad"),
    ("bullseye noise", F, "        eps = 0.1\n", "        eps = 1.0\n", "bad"),
    ("bullseye two", F, "X = np.vstack((c1, c2, c3))", "X = np.vstack((c1, c2, c2))", "bad"),
    ("bullseye flat", F, "X = np.vstack((c1, c2, c3))", "X = np.hstack((c1, c2, c3))", "bad"),
    ("bullseye half", F, "        N = 200\n        sample_interval = np.linspace(0, 2 * np.pi, N, endpoint=False)", "        N = 200\n        sample_interval = np.linspace(0, np.pi, N, endpoint=False)", "bad"),
    ("three circles overlap", F, "np.array([-4, 0])", "np.array([4, 0])", "bad"),
    ("genus centre", F, "        Z[:, 0] = R2 + (R", "        Z[:, 0] = R2 - 1 + (R", "bad"),
    ("genus side", F, "Z = Z[(Z[:, 0] >= 4.5)]", "Z = Z[(Z[:, 0] <= 4.5)]", "bad"),
    ("genus no cut", F, "        Y = Y[(Y[:, 0] <= 4.5)]\n", "", "bad"),
    ("genus meridian", F, "        s = np.linspace(0, 2 * np.pi, Ns, endpoint=False)\n", "        s = np.linspace(0, np.pi, Ns, endpoint=False)\n", "bad"),
    ("patches angles", F, "np.linspace(0, np.pi, n_angles + 1)[0:n_angles]", "np.linspace(0, np.pi, n_angles)", "bad"),
    ("patches offsets", F, "patch = X * c + Y * s + ps[j]", "patch = X * c + Y * s + ps[i]", "bad"),
    ("patches blur", F, "patch = np.exp(-(patch**2) / sigma**2)", "patch = np.exp(-(patch**2) / sigma)", "bad"),
    ("patches overwritten", F, "                P[idx, :] = patch.flatten()\n                idx += 1\n", "                P[idx, :] = patch.flatten()\n            idx += 1\n", "bad"),
    ("dot count", F, "P = np.zeros((sqrt_num_images**2, dim * dim))", "P = np.zeros((sqrt_num_images, dim * dim))", "bad"),
    ("dot sigma", F, "sig=sigma).flatten()", "sig=3).flatten()", "bad"),
    ("dot sigma capped", F, "sig=sigma).flatten()", "sig=min(sigma, 3)).flatten()", "bad"),
    ("patches offsets capped", F, "np.linspace(-1, 1, n_offsets)", "np.linspace(-1, 1, min(n_offsets, 10))", "bad"),
    ("dot kernel", F, "gauss_y = np.exp(-0.5 * np.square(ax - mu[1])", "gauss_y = np.exp(-0.5 * np.square(ax - mu[0])", "bad"),
    ("moore doc", F, "return np.minimum(dist_mat, dist_mat.T), X", "return np.minimum(dist_mat, dist_mat.T)", "bad"),
    ("torus doc", F, "        X: ndarray(n_samples, 3)\n            3D torus samples", "        X: ndarray(n_samples, 4)\n            3D torus samples", "bad"),
    ("torus stack", F, "        X = np.zeros((n_samples, 3))\n        s = np.random.rand(n_samples) * 2 * np.pi\n        t = np.random.rand(n_samples) * 2 * np.pi\n        X[:, 0] = (R + r * np.cos(s)) * np.cos(t)\n        X[:, 1] = (R + r * np.cos(s)) * np.sin(t)\n        X[:, 2] = r * np.sin(s)\n        return X", "        s, t = 2 * np.pi * np.random.rand(2, n_samples)\n        rho = R + r * np.cos(s)\n        return np.column_stack((rho * np.cos(t), rho * np.sin(t), r * np.sin(s)))", "quiet"),
    ("torus state", F, "        s = np.random.rand(n_samples) * 2 * np.pi\n        t = np.random.rand(n_samples) * 2 * np.pi\n        X[:, 0] = (R", "        rng = np.random.RandomState(seed)\n        s = rng.uniform(0, 2 * np.pi, n_samples)\n        t = rng.uniform(0, 2 * np.pi, n_samples)\n        X[:, 0] = (R", "quiet"),
    ("sphere keepdims", F, "        return data / np.linalg.norm(data, axis=1)[:, np.newaxis]", "        data /= np.linalg.norm(data, axis=1, keepdims=True)\n        return data", "quiet"),
    ("klein helper", F, "        X[:, 2] = r * np.sin(theta) * np.cos(phi / 2)\n        X[:, 3] = r * np.sin(theta) * np.sin(phi / 2)\n", "        h = phi / 2\n        w = r * np.sin(theta)\n        X[:, 2:] = np.stack([w * np.cos(h), w * np.sin(h)], axis=1)\n", "quiet"),
    ("bullseye loop", F, "X = np.vstack((c1, c2, c3))", "X = np.concatenate([k * c1 for k in (1, 2, 3)], axis=0)", "quiet"),
    ("genus meshgrid", F, "        st = np.array([[x, y] for x in s for y in t])\n        s = st[:, 0]\n        t = st[:, 1]\n", "        t, s = np.meshgrid(t, s)\n        s = s.flatten()\n        t = t.flatten()\n", "quiet"),
    ("genus repeat", F, "        st = np.array([[x, y] for x in s for y in t])\n        s = st[:, 0]\n        t = st[:, 1]\n", "        s, t = np.repeat(s, Nt), np.tile(t, Ns)\n", "quiet"),
    ("patches index", F, "                P[idx, :] = patch.flatten()\n                idx += 1\n", "                P[i * n_offsets + j] = patch.ravel()\n", "quiet"),
    ("patches swapped loops", F, "        for i in range(n_angles):\n            c = np.cos(thetas[i])\n            s = np.sin(thetas[i])\n            for j in range(n_offsets):\n", "        for j in range(n_offsets):\n            for i in range(n_angles):\n                c = np.cos(thetas[i])\n                s = np.sin(thetas[i])\n", "quiet"),
    ("dot enumerate", F, "        i = 0\n        for x in xs:\n            for y in ys:\n                P[i] = _gkern(l=dim, mu=np.array([x, y]), sig=sigma).flatten()\n                i += 1\n", "        for a, x in enumerate(xs):\n            for b, y in enumerate(ys):\n                P[a * sqrt_num_images + b] = _gkern(l=dim, mu=(x, y), sig=sigma).flatten()\n", "quiet"),
    ("dot direct", F, "            kernel = np.outer(gauss_x, gauss_y)\n", "            kernel = gauss_x[:, None] * gauss_y[None, :]\n", "quiet"),
    ("noise uniform", F, "+ (np.random.random((n_samples, 2)) - 0.5) * noise_size", "+ np.random.uniform(-0.5, 0.5, size=(n_samples, 2)) * noise_size", "quiet"),
    ("trefoil shared", F, "            X[:, 0] = np.cos(u) + horizontal_width * np.cos(u) * (\n                1.5 + np.sin(1.5 * u) / 2\n            )\n            X[:, 1] = np.sin(u) + horizontal_width * np.sin(u) * (\n                1.5 + np.sin(1.5 * u) / 2\n            )\n", "            rho = 1 + horizontal_width * (1.5 + np.sin(1.5 * u) / 2)\n            X[:, 0], X[:, 1] = rho * np.cos(u), rho * np.sin(u)\n", "quiet"),
]
