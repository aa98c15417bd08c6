"""C20: distance functions return symmetric, non-negative, correctly scaled values."""
import math
from .surface import *
from .c23 import Tally, near, unitvec, Sub
from .c17 import FAIL

TECHNIQUE = "static analysis: value graphs in algebraic normal form, with random-interpretation identity testing of the distance terms against the metric formulas, and of their symmetry, range and antipodal invariance"
EXPLANATION = "The entry (i, j) of each returned matrix is one term over the coordinates of the points (for the generators: over the random draws).  It is compared with the term of the metric; symmetry and range are tested separately on terms, so that another metric formula with the same values is accepted and the failing clause is named."
ASSUMPTIONS = ["exact arithmetic: rounding is the subject of C16", "points of the projective functions are unit vectors, as documented", "identity testing with two deviating valuations required for a violation"]

GU = "utils:GeometryUtils."
GE = "utils:GeometryExamples."

def mat(env, c, n, cache):
    if n not in cache:
        t = c.ty(n)
        if t.rank != 2: raise Unk("rank")
        ix = ivars(t.shape, c); cache[n] = (t, [v.single()[1][0][0] for v in ix], at(c, n, ix))
    t, A, p = cache[n]
    a, b = (env.integer(c.close(s), {}) for s in t.shape)
    return [[env.ev(p, {A[0]: i, A[1]: j}) for j in range(b)] for i in range(a)]

def dist(x, y): return math.sqrt(sum((a - b) ** 2 for a, b in zip(x, y)))
def arc(x, y): return math.acos(min(1, abs(sum(a * b for a, b in zip(x, y)))))

def cross(ck, name, metric, unit):
    """functions of two point clouds"""
    q = GU + name
    f = ck.fn(q, True)
    ps = [a.arg for a in f.node.args.args]
    two = len(ps) >= 2
    tt = types({ps[0]: "m d:f", **({ps[1]: "n d:f"} if two else {})})
    r = ck.run(q, f=f, args={x: f.defaults[x] for x in ps[2 if two else 1:] if x in f.defaults} or None, types=oracle(tt))
    c = Ctx(r, types=tt); site = r.site0
    node = r.node()
    T = {k: Tally() for k in ("value", "symmetric", "nonnegative", "antipodal", "range")}
    cache = {}
    for t in range(20):
        m, n, d = 2 + t % 3, 3 + t % 2, 2 + t % 3
        e0 = cert.Env((name, t))
        if not two: n = m
        def pts(tag, k):
            return unitvec(e0, tag, k, d) if unit else [[4 * e0.u(tag, i, j) - 2 for j in range(d)] for i in range(k)]
        X = pts("x", m)
        if not unit and t % 3 == 1: X[-1] = [x + 3e-4 * (2 * e0.u("near", j) - 1) for j, x in enumerate(X[0])]      # two points very close to each other
        Y = pts("y", n) if two else X
        if unit and t % 4 == 3:          # exactly orthogonal points
            X[0] = [1.0] + [0.0] * (d - 1); (Y if two else X)[1] = [0.0, 1.0] + [0.0] * (d - 2)
        if two: Y[0] = list(X[0])        # a common point
        if two and t % 2: Y[-1] = [-v for v in X[-1]]
        def ev(X, Y):
            g = {ps[0]: lambda env, ix: X[int(ix[0])][int(ix[1])]}
            if two: g[ps[1]] = lambda env, ix: Y[int(ix[0])][int(ix[1])]
            env = cert.Env((name, t), g, {"m": len(X), "n": len(Y), "d": d}, ctx=c)
            return mat(env, c, node, cache)
        try:
            D = ev(X, Y)
            T["value"].add(len(D) == m and all(len(x) == n for x in D) and all(near(D[i][j], metric(X[i], Y[j]), 1e-5) for i in range(m) for j in range(n)), "%d x %d points" % (m, n))
            D2 = ev(Y, X) if two else D
            T["symmetric"].add(all(near(D[i][j], D2[j][i], 1e-6) for i in range(m) for j in range(n)), "")
            T["nonnegative"].add(all(v >= -1e-9 for x in D for v in x), "")
            if unit:
                Z = [[-v for v in x] if i % 2 else x for i, x in enumerate(X)]
                D3 = ev(Z, Y)
                T["antipodal"].add(all(near(D[i][j], D3[i][j], 1e-6) for i in range(m) for j in range(n)), "")
                T["range"].add(all(v <= math.pi / 2 + 1e-9 for x in D for v in x), "")
        except FAIL + (Unk, vg.AnalysisError, IndexError) as ex:
            for x in T.values(): x.why = str(ex)
    T["value"].close(ck, name + ".value", "entry (i, j) is not the %s distance of the i-th and j-th point" % ("projective" if unit else "Euclidean"), site)
    T["symmetric"].close(ck, name + ".symmetric", "exchanging the arguments does not transpose the result", site)
    T["nonnegative"].close(ck, name + ".nonnegative", "a distance is negative", site)
    if unit:
        T["antipodal"].close(ck, name + ".antipodal", "the distance changes when a point is replaced by its antipode", site)
        T["range"].close(ck, name + ".range", "a projective distance exceeds pi/2", site)

def split(ck, node, key, site, c):
    """(points, distances) among the two returned values, by shape"""
    if node.op != "tuple" or len(node.args) != 2: ck.unk(key, "returned values", site); return None
    return node.args

def projective_plane(ck):
    q = GE + "rp2_metric"; key = "rp2_metric"
    f = ck.fn(q, True)
    tt = types({"n_samples": ":i", "seed": ":i"})
    r = ck.run(q, f=f, types=oracle(tt)); site = r.site0
    sp = split(ck, r.node(), key, site, None)
    if sp is None: return
    X_, D_ = sp
    c = Ctx(r, types=tt); cache = {}
    draws = [n for n in every_node(r) if n.op == "call" and n.args[0].startswith("numpy.random.") and c_ty(c, n) is not None]
    T = {k: Tally() for k in ("points", "value", "symmetric")}
    for t in range(16):
        n = 3 + t % 3
        env = cert.Env((key, t), {"n_samples": lambda e, ix: n, **{poly.nodekey(x): (lambda e, ix, x=x: 2 * e.u(poly.nodekey(x), ix) - 1) for x in draws}}, {}, ctx=c)
        try:
            X, D = mat(env, c, X_, cache), mat(env, c, D_, cache)
            T["points"].add(len(X) == n and all(len(x) == 3 and near(sum(v * v for v in x), 1) for x in X), "%d points" % n)
            T["value"].add(len(D) == n and all(near(D[i][j], arc(X[i], X[j]), 1e-5) for i in range(n) for j in range(n)), "%d points" % n)
            T["symmetric"].add(all(near(D[i][j], D[j][i], 1e-6) and D[i][j] >= 0 for i in range(n) for j in range(n)), "")
        except FAIL + (Unk, vg.AnalysisError, IndexError) as ex:
            for x in T.values(): x.why = str(ex)
    T["points"].close(ck, key + ".points", "the returned points are not unit vectors", site)
    T["value"].close(ck, key + ".value", "entry (i, j) is not the projective distance between the i-th and j-th returned point", site)
    T["symmetric"].close(ck, key + ".symmetric", "the distance matrix is not symmetric and non-negative", site)

def c_ty(c, n):
    try: return c.ty(n)
    except Exception: return None

def moore(ck):
    q = GE + "moore_space_distance_matrix"; key = "moore_space_distance_matrix"
    f = ck.fn(q, True)
    tt = types({"rough_n_points": ":i", "prime": ":i"})
    r = ck.run(q, f=f, types=oracle(tt)); site = r.site0
    sp = split(ck, r.node(), key, site, None)
    if sp is None: return
    D_, X_ = sp
    c = Ctx(r, types=tt); cache = {}
    T = {k: Tally() for k in ("points", "value", "symmetric")}
    for t in range(8 * cert.BOOST):
        q_ = [2, 3, 5, 7][t % 4]; n0 = 5 + t % 2
        env = cert.Env((key, t), {"rough_n_points": lambda e, ix: n0, "prime": lambda e, ix: q_}, {}, ctx=c)
        try:
            X, D = mat(env, c, X_, cache), mat(env, c, D_, cache)
            n = len(X)
            if n < 2: continue
            def one(x, y):
                nx = math.hypot(*x); p = [v / nx for v in x]; best = dist(x, y)
                for k in range(q_):
                    a = 2 * math.pi * k / q_; best = min(best, dist(x, p) + dist((math.cos(a) * p[0] - math.sin(a) * p[1], math.sin(a) * p[0] + math.cos(a) * p[1]), y))
                return best
            T["points"].add(all(math.hypot(*x) <= 1 + 1e-9 for x in X), "%d points" % n)
            T["value"].add(len(D) == n and all(near(D[i][j], min(one(X[i], X[j]), one(X[j], X[i])), 1e-6) for i in range(n) for j in range(n)), "prime %d" % q_)
            T["symmetric"].add(all(near(D[i][j], D[j][i], 1e-6) and D[i][j] >= 0 for i in range(n) for j in range(n)), "")
        except FAIL + (Unk, vg.AnalysisError, IndexError) as ex:
            for x in T.values(): x.why = str(ex)
    T["points"].close(ck, key + ".points", "a returned point lies outside the unit disk", site)
    T["value"].close(ck, key + ".value", "entry (i, j) is not the distance between the i-th and j-th returned point through the disk or the identified boundary", site)
    T["symmetric"].close(ck, key + ".symmetric", "the distance matrix is not symmetric and non-negative", site)

def check(ck):
    ck.guard("get_csm", cross, ck, "get_csm", dist, False)
    ck.guard("get_ssm", cross, ck, "get_ssm", dist, False)
    ck.guard("get_csm_projarc", cross, ck, "get_csm_projarc", arc, True)
    ck.guard("rp2_metric", projective_plane, ck)
    ck.guard("moore_space_distance_matrix", moore, ck)

F = "dreimac/utils.py"
CSM = "        C = np.sum(X**2, 1)[:, None] + np.sum(Y**2, 1)[None, :] - 2 * X.dot(Y.T)\n        C[C < 0] = 0\n        return np.sqrt(C)\n"
ARC = "        D = np.abs(X.dot(Y.T))\n        D[D < -1] = -1\n        D[D > 1] = 1\n        D = np.arccos(np.abs(D))\n        return D\n"
SELFTEST = [
    ("no factor two", F, "- 2 * X.dot(Y.T)\n        C", "- X.dot(Y.T)\n        C", "bad"),
    ("squared", F, "        return np.sqrt(C)\n", "        return C\n", "bad"),
    ("norms of X twice", F, "np.sum(Y**2, 1)[None, :] - 2", "np.sum(X**2, 1)[None, :] - 2", "bad"),
    ("clip at one", F, "        C[C < 0] = 0\n", "        C[C < 1] = 0\n", "bad"),
    ("abs lost", F, ["        D = np.abs(X.dot(Y.T))\n", "        D = np.arccos(np.abs(D))\n"], ["        D = X.dot(Y.T)\n", "        D = np.arccos(D)\n"], "bad"),
    ("chordal", F, "        D = np.arccos(np.abs(D))\n", "        D = np.sqrt(2 - 2 * np.abs(D))\n", "bad"),
    ("sine", F, "        D = np.arccos(np.abs(D))\n", "        D = np.arcsin(np.abs(D))\n", "bad"),
    ("double angle", F, "        D = np.arccos(np.abs(D))\n", "        D = 2 * np.arccos(np.abs(D))\n", "bad"),
    ("ssm of squares", F, "        return GeometryUtils.get_csm(X, X)\n", "        return GeometryUtils.get_csm(X, X) ** 2\n", "bad"),
    ("ssm arc", F, "        return GeometryUtils.get_csm(X, X)\n", "        return GeometryUtils.get_csm_projarc(X, X)\n", "bad"),
    ("not normalised", F, "        X = X / np.sqrt(np.sum(X**2, 1))[:, None]\n        return X, GeometryUtils.get_csm_projarc(X, X)", "        return X, GeometryUtils.get_csm_projarc(X, X)", "bad"),
    ("returned before normalising", F, "        X = X / np.sqrt(np.sum(X**2, 1))[:, None]\n        return X, GeometryUtils.get_csm_projarc(X, X)", "        Y = X / np.sqrt(np.sum(X**2, 1))[:, None]\n        return X, GeometryUtils.get_csm_projarc(Y, Y)", "bad"),
    ("euclidean plane", F, "return X, GeometryUtils.get_csm_projarc(X, X)", "return X, GeometryUtils.get_csm(X, X)", "bad"),
    ("normalised by sum", F, "        X = X / np.sqrt(np.sum(X**2, 1))[:, None]\n        return X, G", "        X = X / np.sqrt(np.sum(X**2))\n        return X, G", "bad"),
    ("order of draws", F, "return X, GeometryUtils.get_csm_projarc(X, X)", "return X[::-1], GeometryUtils.get_csm_projarc(X, X)", "bad"),
    ("moore asymmetric", F, "        return np.minimum(dist_mat, dist_mat.T), X", "        return dist_mat, X", "bad"),
    ("moore maximum", F, "        return np.minimum(dist_mat, dist_mat.T), X", "        return np.maximum(dist_mat, dist_mat.T), X", "bad"),
    ("moore average", F, "        return np.minimum(dist_mat, dist_mat.T), X", "        return (dist_mat + dist_mat.T) / 2, X", "bad"),
    ("moore rotation", F, "_rot_mat((2 * np.pi) / q)", "_rot_mat(np.pi / q)", "bad"),
    ("moore one turn less", F, "for i in range(prime)\n", "for i in range(prime - 1)\n", "bad"),
    ("moore start", F, "for i in range(prime)\n", "for i in range(1, prime)\n", "quiet"),
    ("moore no way back", F, "                        np.linalg.norm(x - proj_x_to_boundary)\n                        + min(", "                        min(", "bad"),
    ("moore outside", F, "X = X[np.linalg.norm(X, axis=1) <= 1]\n        q", "X = X[np.linalg.norm(X, axis=1) <= 2]\n        q", "bad"),
    ("moore scale", F, "(np.random.random((rough_n_points, 2)) - 0.5) * 2", "(np.random.random((rough_n_points, 2)) - 0.5) * 4", "quiet"),
    ("differences", F, CSM, "        return np.sqrt(np.sum((X[:, None, :] - Y[None, :, :]) ** 2, axis=2))\n", "quiet"),
    ("maximum", F, "        C[C < 0] = 0\n        return np.sqrt(C)\n", "        return np.sqrt(np.maximum(C, 0))\n", "quiet"),
    ("clip", F, ARC, "        return np.arccos(np.clip(np.abs(X @ Y.T), 0, 1))\n", "quiet"),
    ("two arcs", F, ARC, "        A = np.arccos(np.clip(X.dot(Y.T), -1, 1))\n        return np.minimum(A, np.pi - A)\n", "quiet"),
    ("ssm own formula", F, "        return GeometryUtils.get_csm(X, X)\n", "        G = X @ X.T\n        n = np.diag(G)\n        return np.sqrt(np.maximum(n[:, None] + n[None, :] - 2 * G, 0))\n", "quiet"),
    ("norm", F, "        X = X / np.sqrt(np.sum(X**2, 1))[:, None]\n        return X, G", "        X = X / np.linalg.norm(X, axis=1, keepdims=True)\n        return X, G", "quiet"),
    ("moore loops swapped", F, "            for i, x in enumerate(X):\n                for j, y in enumerate(X):\n                    proj_x_to_boundary", "            for j, y in enumerate(X):\n                for i, x in enumerate(X):\n                    proj_x_to_boundary", "quiet"),
    ("moore other letters", F, "                                    np.linalg.matrix_power(rot_mat, i)\n                                    @ proj_x_to_boundary\n                                    - y\n                                )\n                                for i in range(prime)", "                                    np.linalg.matrix_power(rot_mat, t)\n                                    @ proj_x_to_boundary\n                                    - y\n                                )\n                                for t in range(prime)", "quiet"),
]
