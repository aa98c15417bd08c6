"""C19: landmark sampling returns aligned permutations, radii and distances."""
from .surface import *
from .c23 import Tally, near
from .c17 import Loops, FAIL

TECHNIQUE = "static analysis: inductive loop invariants over the value graph; the carried values of the sampling loop are classified by type, and the terms of the initial state, of one loop step and of the returned values are tested against the furthest point order at states that satisfy the invariant"
EXPLANATION = "The loop is cut at its head: entries below the position hold the furthest point order, its insertion radii and distance rows, entries above hold the initial values, the running distances are minima over the points chosen so far.  One step must extend this to the position, whatever the distances; loop range and returned terms then give the result for every number of landmarks.  Calls of the similarity function and of the shortest path routine are treated as uninterpreted distances between the points their arguments denote."
ASSUMPTIONS = ["distances between distinct points are distinct (ties are broken arbitrarily)", "similarity functions are symmetric", "scipy shortest_path / KDTree.query return what they document", "identity testing with two deviating states required for a violation"]

GU = "utils:GeometryUtils."
PATHS = {"scipy.sparse.csgraph.shortest_path", "scipy.sparse.csgraph.dijkstra"}
INF = float("inf")

def truth(d, n, m):
    p = [0]; lam = [0]; ds = list(d[0]); dss = [list(ds)]
    for i in range(1, m):
        k = max(range(n), key=lambda j: ds[j])
        p.append(k); lam.append(ds[k]); ds = [min(a, b) for a, b in zip(ds, d[k])]; dss.append(list(ds))
    return p, lam, dss

class World:
    """points on a line of vectors, distances and geodesic distances for one valuation"""
    def __init__(self, t, n, dd=3, paths=False):
        e = cert.Env(("pts", n, str(t)))
        self.n = n; self.X = [[4 * e.u("x", i, j) - 2 for j in range(dd)] for i in range(n)]
        self.d = [[0 if i == j else 1 + e.u("d", min(i, j), max(i, j)) for j in range(n)] for i in range(n)]
        self.asym = [[0 if i == j else 1 + e.u("a", i, j) for j in range(n)] for i in range(n)]
        self.dd = dd
        if t % 5 == 2:                          # all distances nearly equal
            for M in (self.d, self.asym):
                for i in range(n):
                    for j in range(n):
                        if i != j: M[i][j] = 1 + 1e-7 * (M[i][j] - 1)
        if paths and t % 5 == 4:                # one point no path leads to
            k = int(e.u("iso") * n)
            for i in range(n):
                if i != k: self.d[i][k] = self.d[k][i] = self.asym[i][k] = self.asym[k][i] = INF
    def index(self, row):
        for i, x in enumerate(self.X):
            if all(near(a, b) for a, b in zip(x, row)): return i
        return None

class Run:
    def __init__(self, ck, name, params, npar, mpar):
        self.ck, self.q = ck, GU + name
        f = ck.fn(self.q, True)
        self.f = f
        self.tt = types(params)
        self.csm = [p for p in f.defaults if p not in params]
        a = {p: vg.sym(p) for p in self.csm}
        self.r = ck.run(self.q, f=f, args=a or None, types=oracle(self.tt))
        self.site = self.r.site0
        self.c = Ctx(self.r, types=self.tt)
        self.c.hooks.append(self.hook)
        self.leaves = []
        self.paths = any(x.op == "call" and x.args[0] in PATHS for x in every_node(self.r))
        self.mpar = mpar
    def rows(self, n):
        t = self.c.ty(n)
        if t.rank != 2: raise Unk("rank of the argument of the similarity function")
        return t.shape[0]
    def hook(self, ctx, n):
        t = None
        if n.op == "callv" and n.args[0].op == "sym" and n.args[0].args[0] in self.csm:
            a = dict(n.args[1])
            t = Ty((self.rows(a['0']), self.rows(a['1'])), "f")
        elif n.op == "call" and n.args[0] in PATHS:
            a = cargs(n); N = self.N()
            if "indices" not in a or isconst(a["indices"], None): t = Ty((N, N), "f")
            else:
                s = ctx.ty(a["indices"]).shape
                t = Ty(tuple(s) + (N,), "f")
        elif n.op == "call" and n.args[0] in ("numpy.setdiff1d", "numpy.delete"):
            a = cargs(n)
            x, y = (a.get("ar1"), a.get("ar2")) if n.args[0].endswith("setdiff1d") else (a.get("arr"), a.get("obj"))
            if x is None or y is None: return None
            t = Ty((ctx.ty(x).shape[0] - ctx.ty(y).shape[0],), "i")
        elif n.op == "call" and n.args[0] in ("numpy.sort", "numpy.unique") and len(n.args[1]) == 1 and ctx.ty(n.args[1][0][1]).rank == 1: t = ctx.ty(n.args[1][0][1])
        if t is not None and n not in self.leaves: self.leaves.append(n)
        return t
    def N(self): return dim("N")
    # -- evaluation
    def array(self, env, n, what=""):
        c = self.c
        t = c.ty(n)
        sh = [env.integer(c.close(s), {}) for s in t.shape]
        cache = c.__dict__.setdefault("_arr", {})
        if n not in cache:
            ix = ivars(t.shape, c); cache[n] = ([v.single()[1][0][0] for v in ix], at(c, n, ix))
        A, p = cache[n]
        if not sh: return env.ev(p)
        if len(sh) == 1: return [env.ev(p, {A[0]: i}) for i in range(sh[0])]
        return [[env.ev(p, {A[0]: i, A[1]: j}) for j in range(sh[1])] for i in range(sh[0])]
    def env(self, w, m, tag, gen=(), vals=None):
        g = {"X": lambda env, ix: w.X[int(ix[0])][int(ix[1])], self.mpar: lambda env, ix: m}
        if "D" in self.tt: g["D"] = lambda env, ix: w.d[int(ix[0])][int(ix[1])]
        g["n_neighbors"] = lambda env, ix: 3
        g.update(gen)
        env = cert.Env(("fps", tag), g, {"N": w.n, "d": w.dd}, ctx=self.c)
        for a, v in (vals or {}).items(): env.vals[a] = v
        class Lazy(dict):
            pass
        self.bind(env, w)
        return env
    def bind(self, env, w):
        c = self.c
        for n in list(self.leaves) + [x for x in self.over()]:
            k = poly.nodekey(n)
            if k in env.gen: continue
            if n.op == "callv":
                a = dict(n.args[1])
                def fn(en, ix, a=a, n=n):
                    m = en.__dict__.setdefault("_pts", {})
                    for s in (0, 1):
                        if (n, s) not in m: m[n, s] = [w.index(x) for x in self.array(en, a[str(s)])]
                    i, j = m[n, 0][int(ix[0])], m[n, 1][int(ix[1])]
                    if i is None or j is None: raise cert.NoVal("argument of the similarity function is not a point")
                    return w.d[i][j]
                env.gen[k] = fn
            elif n.args[0] in PATHS:
                a = cargs(n)
                dirn = not (isconst(a.get("directed", vg.const(True)), False))
                un = "unweighted" in a and not isconst(a["unweighted"], False)
                M = w.asym if dirn or un else w.d
                def fn(en, ix, a=a, n=n, M=M):
                    if "indices" not in a or isconst(a["indices"], None): return M[int(ix[0])][int(ix[1])]
                    m = en.__dict__.setdefault("_src", {})
                    if n not in m: m[n] = self.array(en, a["indices"])
                    s = m[n]
                    for x in ix[:-1]: s = s[int(x)]
                    if not 0 <= s < w.n: raise cert.NoVal("source index")
                    return M[int(s)][int(ix[-1])]
                env.gen[k] = fn
            elif n.args[0] in ("numpy.sort", "numpy.unique"):
                def fn(en, ix, n=n):
                    v = sorted(self.array(en, n.args[1][0][1]))
                    if n.args[0] == "numpy.unique" and len(set(v)) < len(v): raise cert.NoVal("repeated entries")
                    return v[int(ix[0])]
                env.gen[k] = fn
            else:
                a = cargs(n)
                sd = n.args[0].endswith("setdiff1d")
                def fn(en, ix, a=a, n=n, sd=sd):
                    m = en.__dict__.setdefault("_dif", {})
                    if n not in m:
                        x = self.array(en, a["ar1" if sd else "arr"]); y = self.array(en, a["ar2" if sd else "obj"])
                        if sd: m[n] = [v for v in x if v not in y]
                        else: m[n] = [v for i, v in enumerate(x) if i not in y]
                    v = m[n]
                    if not 0 <= ix[0] < len(v): raise cert.NoVal("difference index")
                    return v[int(ix[0])]
                env.gen[k] = fn
    def over(self): return ()

def role_of(R, m, init):
    t = R.c.ty(init)
    w = World(0, 7); env = R.env(w, 4, "role")
    sh = tuple(env.integer(R.c.close(s), {}) for s in t.shape)
    if sh == (4,): return "perm" if t.dt == "i" else "lam"
    if sh == (7,): return "ds"
    if sh == (4, 7): return "D"
    if sh == (): return "pos" if t.dt == "i" else None
    return None

def sample(ck, name, params, mpar, results):
    R = Run(ck, name, params, None, mpar)
    r, c, site = R.r, R.c, R.site
    L = Loops(ck, r)
    loops = [r.loops[u] for u in sorted(L.reach)]
    if len(loops) != 1 or loops[0].parent is not None: ck.unk(name, "%d loops" % len(loops), site); return
    O = loops[0]
    if O.breaks: ck.unk(name, "the loop is left early", site); return
    roles = {m: role_of(R, m, a) for m, (a, b) in O.mu.items() if m in L.nodes or m in L.finals(O.uid)}
    if None in roles.values(): ck.unk(name, "carried value of another form", site); return
    by = {}
    for m, ro in roles.items(): by.setdefault(ro, []).append(m)
    if any(len(v) > 1 for k, v in by.items() if k != "lam"): ck.unk(name, "several carried values of one form", site); return
    for m in roles: c.over[m] = c.ty(O.mu[m][0])
    fin = L.finals(O.uid)
    for m, x in fin.items():
        if m in roles: c.over[x] = c.ty(O.mu[m][0])
    for m in by.get("perm", []):
        w = [x for x in walk(O.mu[m][0]) if x.op in ("libref", "const") and str(x.args[0]).split(".")[-1] in ("int8", "uint8", "int16", "uint16", "i1", "u1", "i2", "u2")]
        if w: ck.bad(name + ".index type", "the array of indices of type %s cannot hold every index" % str(w[0].args[0]).split(".")[-1], site)
        else: ck.ok(name + ".index type", "index type", site)
    pos = by.get("pos", [None])[0]
    for mm in roles:                       # discover the calls that denote distances
        for x in O.mu[mm]:
            try: at(c, x, ivars(c.ty(x).shape, c))
            except (Unk, vg.AnalysisError): pass
    def state(R, w, m, i, p, lam, dss, ini, leaf=lambda x: x):
        g = {}
        def put(x, f): g[poly.nodekey(x)] = f
        for mm, ro in roles.items():
            x = leaf(mm)
            if x is None: continue
            I = ini[mm]
            if ro == "perm": v = p[:i] + I[i:]
            elif ro == "lam": v = I[:1] + lam[1:i] + I[i:] if i else I
            elif ro == "ds": v = dss[i - 1] if i else I
            elif ro == "D": v = [w.d[k] for k in p[:i]] + I[i:]
            elif ro == "pos": put(x, lambda en, ix, i=i: i); continue
            if ro == "D": put(x, lambda en, ix, v=v: v[int(ix[0])][int(ix[1])])
            else: put(x, lambda en, ix, v=v: v[int(ix[0])])
        return g
    T = {k: Tally() for k in ("range", "start", "perm", "lam", "ds", "D")}
    for t in range(16 * cert.BOOST):
        n = 5 + t % 3; m = 1 + t % n if t % 4 else n
        w = World(t, n, paths=R.paths); p, lam, dss = truth(w.d, n, m)
        try:
            e0 = R.env(w, m, (t, "init"))
            ini = {mm: R.array(e0, O.mu[mm][0]) for mm in roles}
            if O.dom is not None and O.dom.op == "range":
                lo, hi, st = (e0.integer(c.close(c.val(x)), {}) for x in O.dom.args)
                ps = list(range(lo, hi, st)); s0 = ps[0] if ps else min(lo, m)
                if O.rev: ps = ps[::-1]
                if pos is not None: raise cert.NoVal("two counters")
            elif O.cond is not None and pos is not None:
                s0 = int(ini[pos]); ps = None
            else: raise cert.NoVal("loop domain")
            if ps is not None: T["range"].add(ps == list(range(s0, m)) and s0 in (0, 1), "positions %s of %d" % (ps, m))
            else: T["range"].add(s0 in (0, 1), "starts at %s" % s0)
            s0 = min(s0, m)
            ok = True
            for mm, ro in roles.items():
                I = ini[mm]
                if ro == "perm": ok = ok and I[:s0] == p[:s0]
                if ro == "D": ok = ok and all(near(a, b) for x, y in zip(I[:s0], p) for a, b in zip(x, w.d[y]))
                if ro == "ds": ok = ok and (all(near(a, b) for a, b in zip(I, dss[s0 - 1])) if s0 else True)
            T["start"].add(ok, "%d points" % n)
            for i in range(s0, m):
                g = state(R, w, m, i, p, lam, dss, ini)
                e = R.env(w, m, (t, i), g)
                if O.iv is not None: e.vals[c.ivatom(O.iv)] = i
                if ps is None:
                    go = bool(e.ev(c.bool_at(O.cond, ())))
                    T["range"].add(go, "stops at %d of %d" % (i, m))
                for mm, ro in roles.items():
                    lab = "step %d of %d" % (i, m)
                    N = R.array(e, O.mu[mm][1])
                    if ro == "perm": T["perm"].add(all(near(a, b) for a, b in zip(N[:i + 1], p)), lab)
                    elif ro == "lam" and i: T["lam"].add(all(near(a, b) for a, b in zip(N[1:i + 1], lam[1:])), lab)
                    elif ro == "ds": T["ds"].add(all(near(a, b) for a, b in zip(N, dss[i])), lab)
                    elif ro == "D": T["D"].add(all(near(a, b) for x, y in zip(N[:i + 1], p) for a, b in zip(x, w.d[y])), lab)
                    elif ro == "pos": T["range"].add(N == i + 1, lab)
            if ps is None:
                e = R.env(w, m, (t, "end"), state(R, w, m, m, p, lam, dss, ini))
                T["range"].add(not e.ev(c.bool_at(O.cond, ())), "goes on after %d" % m)
        except FAIL + (Unk, vg.AnalysisError) as ex:
            for x in T.values(): x.why = x.why or str(ex)
    T["range"].close(ck, name + ".range", "the sampling does not go through every landmark", site)
    T["start"].close(ck, name + ".start", "the sampling does not start from the first point", site)
    msg = {"perm": "the point added is not one at maximal distance from those chosen", "lam": "an insertion radius is not the distance of its landmark to the previous ones", "ds": "the running distances are not the distances to the points chosen so far", "D": "a distance row does not belong to its landmark"}
    for ro in ("perm", "lam", "ds", "D"):
        if ro in by: T[ro].close(ck, "%s.step.%s" % (name, ro), msg[ro], site)
    # returned values
    node = r.node()
    T = {}
    for t in range(16 * cert.BOOST):
        n = 5 + t % 3; m = 1 + t % n if t % 4 else n
        w = World(t, n, paths=R.paths); p, lam, dss = truth(w.d, n, m)
        try:
            e0 = R.env(w, m, (t, "init"))
            ini = {mm: R.array(e0, O.mu[mm][0]) for mm in roles}
            g = state(R, w, m, m, p, lam, dss, ini, leaf=lambda x: fin.get(x))
        except FAIL + (Unk, vg.AnalysisError) as ex: ck.unk(name + ".result", str(ex), site); return
        e = R.env(w, m, (t, "res"), g)
        cache = {}
        def get(k):
            if k not in cache:
                x = item(node, k)
                # discover the leaves, then bind them
                A = R.c.ty(x); ix = ivars(A.shape, R.c); at(R.c, x, ix); R.bind(e, w)
                cache[k] = R.array(e, x)
            return cache[k]
        for k, (msg_, test) in results.items():
            T.setdefault(k, Tally())
            try: T[k].add(test(get, w, p, lam), "%d of %d points" % (m, n))
            except FAIL + (Unk, vg.AnalysisError) as ex: T[k].why = str(ex)
            except TypeError: T[k].add(False, "shape")
    for k, (msg_, test) in results.items(): T[k].close(ck, "%s.result.%s" % (name, k), msg_, site)

def eq(a, b): return len(a) == len(b) and all((near(x, y) if not isinstance(x, list) else eq(x, y)) for x, y in zip(a, b))
PERM = ("the returned indices are not the furthest point order", lambda get, w, p, lam: eq(get("perm"), p))
LAM = ("the returned radii are not the insertion radii of the landmarks in order", lambda get, w, p, lam: eq(get("lambdas")[1:], lam[1:]) and get("lambdas")[0] in (0, INF))

def all_perm(get, w, p, lam):
    q = get(1)
    return eq(q[:len(p)], p) and sorted(q) == list(range(w.n))
def geo_rows(get, w, p, lam):
    q = get(1); D = get(0)
    return eq(D, [[w.d[a][int(b)] for b in q] for a in p])

def default_csm(ck):
    f = ck.fn(GU + "get_greedy_perm_pc", True)
    for p, d in f.defaults.items():
        if isinstance(d, vg.FuncV):
            ps = [x.arg for x in d.node.args.args]
            if len(ps) < 2: continue
            spec(ck)
            tt = types({ps[0]: "m d:f", ps[1]: "N d:f"})
            r = ck.run("utils:" + d.name, f=d, args={x: d.defaults[x] for x in ps[2:] if x in d.defaults} or None, types=oracle(tt))
            b = An(ck, "zz_ref:euclid", {"X": tt[ps[0]], "Y": tt[ps[1]]})
            b.c.types.update(tt)
            ref = vg.subst(b.node, {vg.sym("X"): vg.sym(ps[0]), vg.sym("Y"): vg.sym(ps[1])})
            c2 = Ctx(b.r, types=tt)
            same(ck, "get_greedy_perm_pc.default", Ctx(r, types=tt), r.node(), c2, ref, "the default similarity is not the Euclidean distance", r.site0)
            return
    ck.unk("get_greedy_perm_pc.default", "default similarity function")

def graph(ck):
    """the neighbour graph handed to the shortest path routine"""
    q = GU + "landmark_geodesic_distance"
    tt = types({"X": "N d:f", "n_landmarks": ":i", "n_neighbors": ":i"})
    r = ck.run(q, types=oracle(tt)); site = r.site0
    key = "landmark_geodesic_distance.graph"
    gs = {cargs(n).get("csgraph") for n in every_node(r) if n.op == "call" and n.args[0] in PATHS}
    if len(gs) != 1 or None in gs: ck.unk(key, "%d graphs" % len(gs), site); return
    g, = gs
    if g.op != "call" or not g.args[0].endswith(("csr_matrix", "csr_array")): ck.unk(key, "graph of another form", site); return
    a = cargs(g).get("arg1")
    if a is None or a.op != "tuple" or len(a.args) != 3: ck.unk(key, "sparse format", site); return
    qs = {x for x in walk(a) if x.op == "mcall" and x.args[0] == "query"}
    if len(qs) != 1: ck.unk(key, "neighbour query", site); return
    m = qs.pop()
    tree, pos, kw = m.args[1], m.args[2], dict(m.args[3])
    X = vg.sym("X")
    if tree.op != "call" or not tree.args[0].endswith("KDTree") or list(cargs(tree).values())[:1] != [X]: ck.unk(key, "search tree", site); return
    pos = list(pos) if isinstance(pos, tuple) else list(pos.args)
    if (pos[:1] or [kw.get("x")]) != [X]: ck.unk(key, "queried points", site); return
    k = pos[1] if len(pos) > 1 else kw.get("k")
    for j, (nm, ok) in enumerate((("eps", (0,)), ("p", (2,)), ("distance_upper_bound", ()))):
        v = pos[2 + j] if len(pos) > 2 + j else kw.get(nm)
        if v is None or v.op == "libref" and v.args[0].split(".")[-1].lower() == "inf": continue
        if v.op == "const" and isinstance(v.args[0], (int, float)) and v.args[0] in ok + ((float("inf"),) if j == 2 else ()): continue
        if v.op == "const": ck.bad(key + ".query", "the neighbours are not the nearest points in Euclidean distance (%s=%s)" % (nm, v.args[0]), site)
        else: ck.unk(key + ".query", "option %s of the neighbour query" % nm, site)
    c = Ctx(r, types=tt)
    if k is None: ck.unk(key, "number of neighbours", site); return
    K = c.val(k)
    i0, i1 = vg.mk_index(m, (vg.const(0),)), vg.mk_index(m, (vg.const(1),))
    c.over[i0] = Ty((dim("N"), K), "f"); c.over[i1] = Ty((dim("N"), K), "i")
    T = [Tally(), Tally(), Tally()]
    for t in range(16 * cert.BOOST):
        n, kk = 4 + t % 3, 2 + t % 2
        env = cert.Env(("graph", t), {"n_neighbors": lambda e, ix: kk, poly.nodekey(i0): lambda e, ix: 100 + 10 * ix[0] + ix[1], poly.nodekey(i1): lambda e, ix: 1000 + 10 * ix[0] + ix[1]}, {"N": n}, ctx=c)
        try:
            R = type("R", (), {"c": c}); got = [Run.array(R, env, x) for x in a.args]
            T[0].add(eq(got[0], [100 + 10 * i + s for i in range(n) for s in range(kk)]), "n=%d k=%d" % (n, kk))
            T[1].add(eq(got[1], [1000 + 10 * i + s for i in range(n) for s in range(kk)]), "n=%d k=%d" % (n, kk))
            T[2].add(eq(got[2], [i * kk for i in range(n + 1)]), "n=%d k=%d" % (n, kk))
        except FAIL + (Unk, vg.AnalysisError) as ex:
            for x in T: x.why = str(ex)
    T[0].close(ck, key + ".data", "edge weights of the neighbour graph are not the neighbour distances", site)
    T[1].close(ck, key + ".indices", "edges of the neighbour graph do not lead to the neighbours", site)
    T[2].close(ck, key + ".rows", "rows of the neighbour graph are not the points", site)

def check(ck):
    ck.guard("get_greedy_perm_pc", sample, ck, "get_greedy_perm_pc", {"X": "N d:f", "M": ":i"}, "M", {
        "Y": ("the returned landmarks are not the points of the returned indices", lambda get, w, p, lam: eq(get("Y"), [w.X[k] for k in p])),
        "perm": PERM, "lambdas": LAM,
        "D": ("distance rows are not those of the landmarks in order", lambda get, w, p, lam: eq(get("D"), [w.d[k] for k in p]))})
    ck.guard("get_greedy_perm_dm", sample, ck, "get_greedy_perm_dm", {"D": "N N:f", "M": ":i"}, "M", {
        "perm": PERM, "lambdas": LAM,
        "DLandmarks": ("distance rows are not those of the landmarks in order", lambda get, w, p, lam: eq(get("DLandmarks"), [w.d[k] for k in p]))})
    ck.guard("landmark_geodesic_distance", sample, ck, "landmark_geodesic_distance", {"X": "N d:f", "n_landmarks": ":i", "n_neighbors": ":i"}, "n_landmarks", {
        "perm_all_points": ("the returned permutation is not one of all points that begins with the landmarks in order", all_perm),
        "dist_landmarks_points": ("rows and columns of the returned distances are not landmarks and points in the returned order", geo_rows)})
    ck.guard("graph", graph, ck)
    ck.guard("default", default_csm, ck)

F = "dreimac/utils.py"
PC = "            thisds = csm_fn(X[idx, :][None, :], X).flatten()\n            D[i, :] = thisds\n            ds = np.minimum(ds, thisds)\n        Y"
GEO = "            D[i, :] = thisds\n            ds = np.minimum(ds, thisds)\n\n        perm_rest"
SELFTEST = [
    ("geo approximate", F, "spatial_tree.query(X, k=n_neighbors)", "spatial_tree.query(X, k=n_neighbors, eps=0.1)", "bad"),
    ("geo taxicab", F, "spatial_tree.query(X, k=n_neighbors)", "spatial_tree.query(X, n_neighbors, 0, 1)", "bad"),
    ("geo parallel", F, "spatial_tree.query(X, k=n_neighbors)", "spatial_tree.query(X, k=n_neighbors, p=2, workers=-1)", "quiet"),
    ("geo unreachable", F, GEO, GEO.replace("thisds)\n\n", "np.where(np.isfinite(thisds), thisds, 0))\n\n"), "bad"),
    ("geo fmin", F, GEO, GEO.replace("np.minimum", "np.fmin"), "quiet"),
    ("rounded distances", F, "            idx = np.argmax(ds)\n            perm[i] = idx\n            lambdas[i] = ds[idx]\n            ds", "            idx = np.argmax(np.round(ds, 6))\n            perm[i] = idx\n            lambdas[i] = ds[idx]\n            ds", "bad"),
    ("index type", F, "        perm = np.zeros(M, dtype=np.int64)\n        lambdas = np.zeros(M)\n        ds = D[0, :]", "        perm = np.zeros(M, dtype=np.int8)\n        lambdas = np.zeros(M)\n        ds = D[0, :]", "bad"),
    ("Y unique", F, "        Y = X[perm, :]\n", "        Y = X[np.unique(perm), :]\n", "bad"),
    ("random start", F, "        ds = csm_fn(X[0, :][None, :], X).flatten()\n", "        ds = csm_fn(X[-1, :][None, :], X).flatten()\n", "bad"),
    ("running max", F, PC, PC.replace("np.minimum", "np.maximum"), "bad"),
    ("no running", F, PC, PC.replace("            ds = np.minimum(ds, thisds)\n", ""), "bad"),
    ("last only", F, PC, PC.replace("np.minimum(ds, thisds)", "thisds"), "bad"),
    ("radius after", F, "            lambdas[i] = ds[idx]\n            thisds = csm_fn", "            thisds = csm_fn", "bad"),
    ("radius of new row", F, ["            lambdas[i] = ds[idx]\n            thisds = csm_fn", PC[PC.index("            D[i"):]], ["            thisds = csm_fn", "            D[i, :] = thisds\n            ds = np.minimum(ds, thisds)\n            lambdas[i] = ds[idx]\n        Y"], "bad"),
    ("radius shifted", F, "            lambdas[i] = ds[idx]\n            thisds = csm_fn", "            lambdas[i - 1] = ds[idx]\n            thisds = csm_fn", "bad"),
    ("row shifted", F, PC, PC.replace("D[i, :]", "D[i - 1, :]"), "bad"),
    ("row of minima", F, PC, "            thisds = csm_fn(X[idx, :][None, :], X).flatten()\n            ds = np.minimum(ds, thisds)\n            D[i, :] = ds\n        Y", "bad"),
    ("argmin", F, "            idx = np.argmax(ds)\n            perm[i] = idx\n            lambdas[i] = ds[idx]\n            thisds = csm", "            idx = np.argmin(ds)\n            perm[i] = idx\n            lambdas[i] = ds[idx]\n            thisds = csm", "bad"),
    ("dm short", F, "        for i in range(1, M):\n            idx = np.argmax(ds)\n            perm[i] = idx\n            lambdas[i] = ds[idx]\n            ds = np.minimum(ds, D[idx", "        for i in range(1, M - 1):\n            idx = np.argmax(ds)\n            perm[i] = idx\n            lambdas[i] = ds[idx]\n            ds = np.minimum(ds, D[idx", "bad"),
    ("dm sorted", F, "        DLandmarks = D[perm, :]\n", "        DLandmarks = D[np.sort(perm), :]\n", "bad"),
    ("dm prefix", F, "        DLandmarks = D[perm, :]\n", "        DLandmarks = D[:M, :]\n", "bad"),
    ("dm square", F, "        DLandmarks = D[perm, :]\n", "        DLandmarks = D[perm, :][:, perm]\n", "bad"),
    ("dm previous row", F, "ds = np.minimum(ds, D[idx, :])", "ds = np.minimum(ds, D[i, :])", "bad"),
    ("Y prefix", F, "        Y = X[perm, :]\n", "        Y = X[:M, :]\n", "bad"),
    ("geo directed", F, "            thisds = shortest_path(kneighbors_graph, indices=idx, directed=False)", "            thisds = shortest_path(kneighbors_graph, indices=idx)", "bad"),
    ("geo hops", F, "            thisds = shortest_path(kneighbors_graph, indices=idx, directed=False)", "            thisds = shortest_path(kneighbors_graph, indices=idx, directed=False, unweighted=True)", "bad"),
    ("geo columns", F, "        dist_landmarks_points = D[:, perm_all_points]\n", "        dist_landmarks_points = D\n", "bad"),
    ("geo first", F, "indices=0, directed=False", "indices=1, directed=False", "bad"),
    ("geo rest first", F, "np.concatenate((perm, perm_rest_points))", "np.concatenate((perm_rest_points, perm))", "bad"),
    ("indptr", F, "indptr = np.arange(0, n_nonzero + 1, n_neighbors)", "indptr = np.arange(0, n_nonzero + 1, n_neighbors)[::-1]", "bad"),
    ("graph data", F, "(distances_nn.ravel(), indices_nn.ravel(), indptr)", "(distances_nn.T.ravel(), indices_nn.ravel(), indptr)", "bad"),
    ("default", F, "csm_fn=get_csm.__func__", "csm_fn=get_csm_projarc.__func__", "bad"),
    ("from zero", F, ["        ds = D[0, :]\n        for i in range(1, M):\n"], ["        ds = np.full(D.shape[0], np.inf)\n        for i in range(M):\n"], "quiet"),
    ("init from rows", F, "            ds = np.minimum(ds, D[idx, :])\n", "            ds = np.min(D[perm[: i + 1], :], axis=0)\n", "quiet"),
    ("np.where", F, "            ds = np.minimum(ds, D[idx, :])\n", "            row = D[idx]\n            ds = np.where(row < ds, row, ds)\n", "quiet"),
    ("slice", F, "csm_fn(X[idx, :][None, :], X).flatten()", "csm_fn(X[idx : idx + 1], X)[0]", "quiet"),
    ("swapped arguments", F, "csm_fn(X[idx, :][None, :], X).flatten()", "csm_fn(X, X[idx : idx + 1])[:, 0]", "quiet"),
    ("max value", F, "            idx = np.argmax(ds)\n            perm[i] = idx\n            lambdas[i] = ds[idx]\n            ds =", "            idx = ds.argmax()\n            lambdas[i] = ds.max()\n            perm[i] = idx\n            ds =", "quiet"),
    ("while", F, "        for i in range(1, M):\n            idx = np.argmax(ds)\n            perm[i] = idx\n            lambdas[i] = ds[idx]\n            ds = np.minimum(ds, D[idx, :])\n", "        i = 1\n        while i < M:\n            idx = np.argmax(ds)\n            perm[i] = idx\n            lambdas[i] = ds[idx]\n            ds = np.minimum(ds, D[idx, :])\n            i += 1\n", "quiet"),
    ("carried candidate", F, "        for i in range(1, M):\n            idx = np.argmax(ds)\n            perm[i] = idx\n            lambdas[i] = ds[idx]\n            ds = np.minimum(ds, D[idx, :])\n", "        for i in range(1, M):\n            perm[i] = ds.argmax()\n            lambdas[i] = ds[perm[i]]\n            ds = np.minimum(ds, D[perm[i], :])\n", "quiet"),
    ("helper", F, ["    # Greedy Permutations\n", "            ds = np.minimum(ds, D[idx, :])\n"], ["    @staticmethod\n    def _closer(a, b):\n        return np.minimum(a, b)\n\n    # Greedy Permutations\n", "            ds = GeometryUtils._closer(D[idx, :], ds)\n"], "quiet"),
    ("geo whole matrix", F, ["        ds = shortest_path(kneighbors_graph, indices=0, directed=False)\n", "            thisds = shortest_path(kneighbors_graph, indices=idx, directed=False)\n"], ["        full = shortest_path(kneighbors_graph, directed=False)\n        ds = full[0]\n", "            thisds = full[idx]\n"], "quiet"),
    ("geo delete", F, "np.setdiff1d(\n            np.arange(0, n_points, dtype=int), perm, assume_unique=True\n        )", "np.delete(np.arange(n_points), perm)", "quiet"),
]
