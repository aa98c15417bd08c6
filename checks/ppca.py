"""Decomposition of the dimensionality reduction into steps: X -> normalise(V* X), V the eigenvectors of a second-moment matrix of X.

Every array computed in EquivariantPCA.ppca (returned, or carried by its loops) is looked at in each of the three modes.  An array
that uses exactly one eigenvector matrix is a step from the array that matrix was computed of."""
from .common import *

Q = "utils:EquivariantPCA.ppca"
MODES = ("direct", "exponential", "one-by-one")
EIG = {"numpy.linalg.eigh": (1, "asc"), "scipy.linalg.eigh": (1, "asc"), "numpy.linalg.svd": (0, "desc"), "scipy.linalg.svd": (0, "desc")}

class Step:
    pass

def run(ck, mode):
    f = ck.fn(Q)
    ps = [a.arg for a in f.node.args.args]
    for need in ("class_map", "proj_dim", "projective_dim_red_mode"):
        if need not in ps: return None
    return ck.run(Q, args={"class_map": vg.sym("class_map"), "proj_dim": vg.sym("proj_dim"), "projective_dim_red_mode": vg.const(mode), "verbose": vg.const(False)})

def subnodes(n):
    return set(walk(n))

def vec_nodes(n):
    """eigenvector matrices used in a value -> {vector node: (call, order)}"""
    out = {}
    for x in subnodes(n):
        if x.op == "index" and x.args[0].op == "call" and x.args[0].args[0] in EIG and len(x.args[1]) == 1 and isconst(x.args[1][0]):
            k, order = EIG[x.args[0].args[0]]
            if x.args[1][0].args[0] in (k, k - (3 if order == "desc" else 2)): out[x] = (x.args[0], order)
    return out

def carried(r, n):
    """arrays a value is computed from: loop-carried arrays (mu / final) and the class map"""
    out = []
    for x in subnodes(n):
        if x.op == "mu": 
            if not any(y.op == "final" and y.args[1] is x for y in subnodes(n)) and x not in out: out.append(x)
        if x.op == "final" and x not in out: out.append(x)
    return out

def base_init(r, x):
    m = x.args[1] if x.op == "final" else x
    for L in r.loops.values():
        if m in L.mu: return L.mu[m][0]
    return None

def newctx(r):
    return Ctx(r, types={"class_map": ty("N M:c"), "proj_dim": ty(":i"), "verbose": ty(":b")}, no_exc=True)

def steps(ck, mode):
    """-> (run, [Step])"""
    key = ("ppca", mode)
    if key in ck.cache: return ck.cache[key]
    r = run(ck, mode)
    res = []
    if r is None: ck.cache[key] = (None, []); return None, []
    cands = []
    n = item(r.node(), "X")
    for x, w in leaves_of_phi(n): cands.append(("returned", x, r.site0))
    for u in sorted(r.loops):
        L = r.loops[u]
        for m, (a, b) in L.mu.items():
            for x, w in leaves_of_phi(b): cands.append(("carried", x, r.site0))
    seen = set()
    for kind, x, site in cands:
        vs = vec_nodes(x)
        if not vs or x in seen: continue
        seen.add(x)
        s = Step(); s.mode, s.kind, s.out, s.site, s.r = mode, kind, x, site, r
        s.why = None
        if len(vs) != 1: s.why = "%d eigenvector matrices" % len(vs); res.append(s); continue
        (s.vec, (s.call, s.order)), = vs.items()
        s.arg = cargs(s.call).get("a")
        c = s.c = newctx(r)
        # input array: what the decomposition was computed of
        inp = [y for y in carried(r, s.arg)]
        arrs = []
        for y in inp:
            i0 = base_init(r, y)
            try: t = newctx(r).ty(i0) if i0 is not None else None
            except Unk: t = None
            if t is not None and t.rank == 2: arrs.append((y, t))
        try:
            if not arrs:
                s.X = None; s.xat = lambda i, b, c=c: c.at(vg.sym("class_map"), (b, i)); s.M = dim("M"); s.leaf = "class_map"; s.flip = True
            elif len(arrs) == 1:
                y, t = arrs[0]
                # orientation follows the initial value
                if poly.equal(t.shape[1], dim("N")): s.flip = False; c.over[y] = Ty((dim("M"), dim("N")), "c"); s.xat = lambda i, b, c=c, y=y: c.at(y, (i, b))
                else: s.flip = True; c.over[y] = Ty((dim("N"), dim("M")), "c"); s.xat = lambda i, b, c=c, y=y: c.at(y, (b, i))
                s.X = y; s.M = dim("M"); s.leaf = poly.nodekey(y)
            else: s.why = "%d input arrays" % len(arrs); res.append(s); continue
            c.over[s.vec] = Ty((s.M, s.M), "c")
            for y in carried(r, x):
                if y in c.over: continue
                i0 = base_init(r, y)
                t = newctx(r).ty(i0) if i0 is not None else None
                if t is not None and t.rank == 0: c.over[y] = Ty((), t.dt)
            s.t = c.ty(x)
            if s.t.rank != 2: s.why = "rank"; 
            else:
                # output orientation: the axis of length N counts points
                if poly.equal(s.t.shape[1], dim("N")): s.oflip = False; s.K = s.t.shape[0]
                elif poly.equal(s.t.shape[0], dim("N")): s.oflip = True; s.K = s.t.shape[1]
                else: s.why = "output shape"
        except (Unk, vg.AnalysisError) as e: s.why = str(e)
        res.append(s)
    ck.cache[key] = (r, res)
    return r, res

def leaves_of_phi(n):
    """alternatives of a value chosen by branches (transposition is looked through)"""
    out = []; st = [(n, ())]
    while st:
        x, w = st.pop()
        if x.op == "phi" and x.args[0].op != "exccond": st += [(x.args[1], w + ((x.args[0], True),)), (x.args[2], w + ((x.args[0], False),))]
        elif x.op == "call" and x.args[0] == "numpy.transpose" and any(y.op == "phi" and y.args[0].op != "exccond" for y in [x.args[1][0][1]]):
            p = x.args[1][0][1]
            for b in (p.args[1], p.args[2]): st.append((vg.mk("call", "numpy.transpose", (("a", b),)), w))
        else: out.append((x, w))
    return out

def out_at(s, k, b): return s.c.close(s.c.at(s.out, (b, k) if s.oflip else (k, b)))

def unitary(env, n):
    """pseudo-random unitary matrix of this valuation"""
    if not hasattr(env, "_U"): env._U = {}
    if n not in env._U:
        cols = []
        for j in range(n):
            v = [complex(2 * env.raw("Ur", n, i, j) - 1, 2 * env.raw("Ui", n, i, j) - 1) for i in range(n)]
            for w in cols:
                d = sum(x.conjugate() * y for x, y in zip(w, v))
                v = [y - d * x for x, y in zip(w, v)]
            t = sum(abs(x) ** 2 for x in v) ** .5
            cols.append([x / t for x in v])
        env._U[n] = cols
    return env._U[n]

def unit(env, n, b):
    if not hasattr(env, "_X"): env._X = {}
    if (n, b) not in env._X:
        v = [complex(2 * env.u("Xr", i, b) - 1, 2 * env.u("Xi", i, b) - 1) for i in range(n)]
        if b == 1 and isinstance(env.seed, tuple) and isinstance(env.seed[-1], int) and env.seed[-1] % 4 == 1:
            # a point almost orthogonal to the leading directions
            w = unitary(env, n)[0]; q = 10 ** (-3.3 - 1.5 * env.raw("Xs"))
            v = [x + q * y for x, y in zip(w, v)]
        t = sum(abs(x) ** 2 for x in v) ** .5
        env._X[(n, b)] = [x / t for x in v]
    return env._X[(n, b)]

def gens(s, nan=False, phases=False, other=0, conj=False):
    """the input array has unit columns, the eigenvector matrix is unitary.
    nan: the column of point 0 is not a number; phases: row i of both is multiplied by the i-th of some phases; other: another choice of all eigenvectors but the last kept (discarded) one"""
    import cmath
    ph = lambda env, i: cmath.exp(6.283j * env.u("ph", i)) if phases else 1
    def X(env, idx):
        b, i = (idx[0], idx[1]) if s.flip else (idx[1], idx[0])
        if nan and b == 0: return float("nan")
        return unit(env, env.dimv["M"], b)[int(i)] * ph(env, int(i))
    def V(env, idx):
        i, j = int(idx[0]), int(idx[1])
        if s.order == "desc": j = env.dimv["M"] - 1 - j
        U = unitary(env, env.dimv["M"])
        x = U[j][i] * (cmath.exp(1j * other * j) if j else 1) * ph(env, i)
        return x.conjugate() if conj else x
    g = {s.leaf: X, poly.nodekey(s.vec): V, "proj_dim": lambda env, idx: int(2 * env.u("pd"))}
    for y, t in s.c.over.items():
        if t.rank == 0: g[poly.nodekey(y)] = lambda env, idx, y=y: 1
    return g

def simulate(ck, mode, M, pd):
    """number of rows of the returned array for M landmarks: constant propagation over the shapes of the carried arrays"""
    key = ("ppcashape", mode)
    if key not in ck.cache:
        r = run(ck, mode)
        c = Ctx(r, types={"class_map": ty("N M:c"), "proj_dim": ty(":i"), "verbose": ty(":b")}, no_exc=True)
        info = {}
        for u in sorted(r.loops):
            for m, (a, b) in r.loops[u].mu.items():
                try: t = newctx(r).ty(a)
                except Unk: continue
                info[m] = t
                if t.rank == 2:
                    nm = "R%d" % len(info)
                    flip = not poly.equal(t.shape[1], dim("N"))
                    T = Ty((dim("N"), dim(nm)) if flip else (dim(nm), dim("N")), "c")
                    info[m] = (nm, flip)
                elif t.rank == 0: T = Ty((), t.dt)
                else: continue
                c.over[m] = T
                for x in every_node(r):
                    if x.op == "final" and x.args[1] is m: c.over[x] = T
        def hook(ctx, n):
            v = vec_nodes(n)
            if n in v: return Ty(ctx.ty(cargs(v[n][0])["a"]).shape, "c")
            return None
        c.hooks.append(hook)
        ck.cache[key] = (r, c, info)
    r, c, info = ck.cache[key]
    dims = {"M": M, "N": 7}; sc = {}; at_ = {}
    def env():
        e = cert.Env("shape", {"proj_dim": lambda e, i: pd, **{poly.nodekey(k): (lambda e, i, v=v: v) for k, v in sc.items()}}, dims)
        e.vals.update(at_)
        return e
    def rows(n):
        if n.op == "phi" and n.args[0].op != "exccond": return rows(n.args[1] if env().ev(c.cond(n.args[0])) else n.args[2])
        if n.op == "call" and n.args[0] == "numpy.transpose":
            return rows(n.args[1][0][1])
        t = c.ty(n)
        if t.rank != 2: raise Unk("rank")
        d = t.shape[0] if poly.equal(t.shape[1], dim("N")) else t.shape[1]
        return env().integer(d, {})
    top = [u for u in sorted(r.loops) if r.loops[u].parent is None]
    for u in top:
        L = r.loops[u]
        cur = {m: ab for m, ab in L.mu.items() if m in info and (isinstance(info[m], tuple) or info[m].rank == 0)}
        st = {}
        for m, (a, b) in cur.items(): st[m] = rows(a) if isinstance(info[m], tuple) else env().ev(c.val(a))
        def put():
            for m, v in st.items():
                if isinstance(info[m], tuple): dims[info[m][0]] = v
                else:
                    sc[m] = v
            for x in c.over:
                if x.op == "final" and x.args[1] in st and not isinstance(info[x.args[1]], tuple): sc[x] = st[x.args[1]]
        put()
        if L.breaks: raise Unk("break")
        n = env().integer(c.val(L.dom.args[1]), {}) - env().integer(c.val(L.dom.args[0]), {}) if L.kind == "for" and L.dom.op == "range" and isconst(L.dom.args[2], 1) else None
        if L.kind == "for" and n is None: raise Unk("loop domain")
        for it in range(200):
            at_.clear()
            if L.kind == "for":
                if it >= n: break
                if L.iv is not None: at_[c.ivatom(L.iv)] = env().integer(c.val(L.dom.args[0]), {}) + (n - 1 - it if L.rev else it)
            elif not env().ev(c.cond(L.cond)): break
            nx = {m: (rows(b) if isinstance(info[m], tuple) else env().ev(c.val(b))) for m, (a, b) in cur.items()}
            st = nx; put()
        else: raise Unk("loop count")
        at_.clear()
    return rows(item(r.node(), "X"))

DIMS = {}
