"""C02: every point returned by the projective and lens coordinates is a unit vector."""
from .common import *
from . import ppca, surface

TECHNIQUE = "static analysis: induction over the reduction steps recovered from the value graph; the norm of each step's output is brought to a scalar term and identity-tested against 1 under the invariant that its input columns are unit vectors"
EXPLANATION = "Invariant: every array carried by the reduction loops has unit columns.  It holds initially because the squared norm of a row of the class map is the sum of the weights of that point (transition values are unit scalars), it is preserved by every step (squared norm of the output column equals 1 for every unit input and unitary eigenvector matrix), and what get_coordinates returns is such an array, unscaled."
ASSUMPTIONS = ["the weights of a covered point sum to one (C11)", "eigh returns a unitary matrix", "the projection of a point on the kept directions is not zero", "exceptions of the eigensolver do not occur"]
COORDS = ("projectivecoords:ProjectiveCoords", "lenscoords:LensCoords", "complexprojectivecoords:ComplexProjectiveCoords")

A = lambda v: v.single()[1][0][0]

def norms(ck, key, c, p, iv_k, K, iv_b, gen, dims, site, msg, want=1.0, n=20, opq=False, N=3):
    """sum over k of |p|^2 at every point equals 1"""
    good = bad = 0; why = None; wit = None
    for t in range(3 * n):
        if t >= n and bad != 1: break        # a single deviation: look further
        e = cert.Env(("norm", t), gen, dict(dims), ctx=c, opq=opq)
        e.dimv.setdefault("N", N)
        try:
            kk = e.integer(K, {})
            if kk < 1: continue
            for v in cert.free_ivs(p) - {iv_k, iv_b}: e.vals[v] = 0
            for b in range(N):
                s = sum(abs(e.ev(p, {iv_k: k, iv_b: b})) ** 2 for k in range(kk))
                w = want(e, b) if callable(want) else want
                good += 1
                if not abs(s - w) < 1e-7: bad += 1; wit = "squared norm %.6g instead of %.6g" % (s, w)
        except (cert.NoVal, OverflowError, ZeroDivisionError, ValueError, TypeError) as ex: why = str(ex); continue
    if good < 9: ck.unk(key, why or "no valuation", site)
    elif bad >= 2: ck.bad(key, "%s (%s)" % (msg, wit), site)
    elif bad: ck.unk(key, "a single valuation deviates", site)
    else: ck.ok(key, "identity test, %d valuations" % good, site)

def reduction(ck, mode):
    r, ss = ppca.steps(ck, mode)
    k = 0
    for s in ss:
        if s.why == "rank": continue
        key = "reduction.%s.%s%d" % (mode, s.kind, k); k += 1
        if s.why: ck.unk(key, s.why, s.site); continue
        def go():
            i, b = ivars((s.K, dim("N")), s.c)
            p = ppca.out_at(s, i, b)
            norms(ck, key, s.c, p, A(i), s.K, A(b), ppca.gens(s), {}, s.site, "the reduction step (mode %s) does not return unit vectors" % mode)
        ck.guard(key, go)
    # arrays that are passed on without a reduction
    cands = [x for x, w in ppca.leaves_of_phi(item(r.node(), "X"))]
    for L in r.loops.values():
        for m, (a, b) in L.mu.items(): cands += [x for x, w in ppca.leaves_of_phi(b)]
    seen = set()
    for x in cands:
        if x in seen or ppca.vec_nodes(x): continue
        seen.add(x)
        def go2():
            c = ppca.newctx(r)
            g = {"class_map": lambda env, ix: ppca.unit(env, env.dimv["M"], ix[0])[int(ix[1])], "proj_dim": lambda env, ix: int(2 * env.u("pd"))}
            for y in ppca.carried(r, x):
                i0 = ppca.base_init(r, y)
                t = ppca.newctx(r).ty(i0) if i0 is not None else None
                if t is None or t.rank != 2: continue
                fl = not poly.equal(t.shape[1], dim("N"))
                c.over[y] = Ty((dim("N"), dim("M")) if fl else (dim("M"), dim("N")), "c")
                g[poly.nodekey(y)] = (lambda env, ix: ppca.unit(env, env.dimv["M"], ix[0])[int(ix[1])]) if fl else (lambda env, ix: ppca.unit(env, env.dimv["M"], ix[1])[int(ix[0])])
            t = c.ty(x)
            if t.rank != 2: return
            fl = not poly.equal(t.shape[1], dim("N"))
            if not poly.equal(t.shape[0 if fl else 1], dim("N")): raise Unk("shape")
            K = t.shape[1 if fl else 0]
            i, b = ivars((K, dim("N")), c)
            p = c.close(c.at(x, (b, i) if fl else (i, b)))
            norms(ck, "unreduced.%s%d" % (mode, len(seen)), c, p, A(i), K, A(b), g, {"M": 5}, r.site0, "an array passed on without reduction (mode %s) does not have unit columns" % mode)
        ck.guard("unreduced.%s%d" % (mode, len(seen)), go2)

def weights(env, ix):
    """weights of point b: a partition of unity with some zero entries"""
    L = env.dimv["L"]
    raw = [env.u("phi", j, ix[1]) if env.u("phi0", j, ix[1]) < .7 or j == 0 else 0 for j in range(L)]
    return raw[int(ix[0])] / sum(raw)

def classmap(ck, q):
    nm = q.split(":")[1]
    r = ck.run(q + ".get_coordinates")
    c = dre.em_ctx(ck, q, r)
    got = dre.abstract_calls(ck, r, c)
    cm = [x for x in r.calls_seen if x[0].split(".")[-1] == "ppca"]
    if "partition" not in got or not cm: ck.unk(nm, "steps not found"); return
    vphi, ball = got["partition"][1], got["partition"][2]
    a = cm[-1][1]; n = a["class_map"]
    c.hooks.append(dre.harmonic_hook([]))
    sh = c.ty(n).shape
    b, i = ivars(sh, c)
    if samedims(sh, (dim("N"), dim("L"))) is not True: ck.unk(nm + ".class_map", "shape"); return
    p = at(c, n, (b, i))
    pr = {"projectivecoords:ProjectiveCoords": 2}.get(q)
    g = {poly.nodekey(vphi): weights, poly.nodekey(ball): lambda env, ix: int(env.u("ball", ix[0]) * env.dimv["L"]), "self._prime": lambda env, ix: pr or (3, 5, 7)[int(3 * env.u("p"))]}
    # the cocycle: vertex labels below L, integer values
    for x in atoms_of(p, lambda a: True):
        for y in x.args:
            for z in (y if isinstance(y, tuple) else (y,)):
                if isinstance(z, vg.Node):
                    for w in walk(z):
                        if w.op == "index" and w.args[0].op == "index" and w.args[0].args[0].op == "sym" and len(w.args[1]) == 1 and w.args[0].args[0].args[0].split(".")[-1] in [f for f, ro in c.rl.items() if ro == "cocycles"]:
                            g[poly.nodekey(w)] = lambda env, ix: int(5 * env.u("co", *ix)) if ix[1] > 1 else int(env.dimv["L"] * env.u("vx", *ix))
    norms(ck, nm + ".class_map", c, p, A(i), dim("L"), A(b), g, {"L": 4, "N": 3}, r.site0, "%s: the representative of a covered point is not a unit vector" % nm, opq=surface.arbitrary(r))
    # what is returned
    ret = cm[-1][2]
    X = item(ret, "X")
    c2 = dre.em_ctx(ck, q, r)
    dre.abstract(c2, X, Ty((dim("N"), dim("K")), "c"))
    out = r.node()
    t = c2.ty(out)
    if t.rank != 2: ck.bad(nm + ".returned", "%s: the returned array has rank %d" % (nm, t.rank), r.site0); return
    b, i = ivars(t.shape, c2)
    p = at(c2, out, (b, i))
    norms(ck, nm + ".returned", c2, p, A(i), t.shape[1], A(b), {poly.nodekey(X): lambda env, ix: ppca.unit(env, env.dimv["K"], ix[0])[int(ix[1])]}, {"N": 3, "K": 3}, r.site0, "%s: the returned coordinates are not the unit vectors of the reduction" % nm)

def check(ck):
    ck.fn(ppca.Q)
    for q in COORDS: ck.fn(q + ".get_coordinates")
    for mode in ppca.MODES: ck.guard("reduction." + mode, reduction, ck, mode)
    for q in COORDS: ck.guard(q.split(":")[1], classmap, ck, q)

U, L, C, PJ = ["dreimac/%s.py" % x for x in ("utils", "lenscoords", "complexprojectivecoords", "projectivecoords")]
SELFTEST = [
    ("norm threshold", U, "X = Y / np.linalg.norm(Y, axis=0)[None, :]\n            return X", "norms = np.linalg.norm(Y, axis=0)\n            X = Y / np.where(norms > 1e-2, norms, 1)[None, :]\n            return X", "bad"),
    ("norm zero guard", U, "X = Y / np.linalg.norm(Y, axis=0)[None, :]\n            return X", "norms = np.linalg.norm(Y, axis=0)\n            X = Y / np.where(norms > 0, norms, 1)[None, :]\n            return X", "quiet"),
    ("sqrt weights", L, "np.sqrt(varphi.T) * cocycle", "varphi.T * cocycle", "bad"),
    ("power half", L, "np.sqrt(varphi.T) * cocycle", "varphi.T ** 0.5 * cocycle", "quiet"),
    ("cp no sqrt", C, "np.sqrt(varphi.T)\n", "varphi.T\n", "bad"),
    ("cp no 1j", C, "2 * np.pi * 1j * class_map", "2 * np.pi * class_map", "bad"),
    ("zeros", PJ, "np.ones((n_landmarks", "np.zeros((n_landmarks", "bad"),
    ("axis", U, "            X = Y / np.linalg.norm(Y, axis=0)[None, :]\n            return X", "            X = Y / np.linalg.norm(Y, axis=1)[:, None]\n            return X", "bad"),
    ("before cut", U, "            Y = Y[:dims_to_keep, :]\n            X = Y / np.linalg.norm(Y, axis=0)[None, :]", "            X = Y / np.linalg.norm(Y, axis=0)[None, :]\n            X = X[:dims_to_keep, :]", "bad"),
    ("ord", U, "            X = Y / np.linalg.norm(Y, axis=0)[None, :]\n            return X", "            X = Y / np.sum(np.abs(Y), axis=0)[None, :]\n            return X", "bad"),
    ("no conj norm", U, "            X = Y / np.linalg.norm(Y, axis=0)[None, :]\n            return X", "            X = Y / np.sqrt(np.sum(Y * Y, axis=0))[None, :]\n            return X", "bad"),
    ("conj norm", U, "            X = Y / np.linalg.norm(Y, axis=0)[None, :]\n            return X", "            X = Y / np.sqrt(np.sum(Y * np.conj(Y), axis=0))[None, :]\n            return X", "quiet"),
    ("ret trunc", U, 'return {"variance": variance, "X": XRet.T}', 'return {"variance": variance, "X": XRet[:total_dims_to_keep].T}', "bad"),
    ("one by one trunc", U, "                if X.shape[0] >= total_dims_to_keep:\n                    XRet = X", "                if X.shape[0] >= total_dims_to_keep:\n                    XRet = Y", "bad"),
    ("returned real", L, 'return epca["X"]', 'return np.real(epca["X"])', "bad"),
    ("returned copy", L, 'return epca["X"]', 'return np.array(epca["X"])', "quiet"),
]
