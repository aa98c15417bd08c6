"""C04: every reduction step projects on the leading eigenvectors of the second moment and normalises."""
from . import ppca
from .common import *

TECHNIQUE = "static analysis: decomposition of the reduction loops into steps on their value graph; each step compared with the reference step by algebraic normal form and identity testing"
EXPLANATION = "For each of the three modes every array carried by the reduction loops or returned is expressed through the previous array X and the eigenvector matrix V it uses.  V must be computed from a matrix that is a multiple of the Hermitian second moment of the finite columns of X; the new array must be the normalised projection on the last columns of V in reverse order (largest eigenvalue first), conjugated, for each point from its own column only. The variance stored for a discarded direction must depend on V only through |<v, x_b>| for the discarded v: it must not change when all other eigenvectors change, nor under diagonal unitary changes of coordinates."
ASSUMPTIONS = ["eigh returns orthonormal eigenvectors in ascending order of eigenvalue", "no numerical failure of the eigensolver", "input columns are unit vectors (C02)"]

def moment(ck, s, key):
    c = s.c
    i, j = ivars((s.M, s.M), c)
    factor = None
    sh = c.ty(s.arg).shape
    if s.order == "asc" or len(sh) == 2 and poly.equal(sh[0], s.M) and poly.equal(sh[1], s.M): a = at(c, s.arg, (i, j))
    elif len(sh) == 2 and poly.equal(sh[0], s.M):
        # singular vectors of a factor F are the eigenvectors of F F*
        factor, = ivars(sh[1:], c)
        a = at(c, s.arg, (i, factor))
    else: ck.unk(key, "factor", s.site); return None
    # reference moment: Sum_b X[i,b] conj(X[j,b])
    bb = poly.fresh() if hasattr(poly, "fresh") else None
    ratios = []
    conj = True; same = True; n = 0; herm = True
    why = None
    for t in range(24 * cert.BOOST):
        try:
            e0 = cert.Env(("mom", t), ppca.gens(s), ppca.DIMS, ctx=s.c)
            M = e0.integer(s.M, {}); N = e0.integer(dim("N"), {})
            vals = {}
            for x in range(M):
                for y in range(M if factor is None else e0.integer(sh[1], {})):
                    e = cert.Env(("mom", t), ppca.gens(s), dict(e0.dimv), ctx=c); e.vals[i.single()[1][0][0]] = x; e.vals[(j if factor is None else factor).single()[1][0][0]] = y
                    vals[x, y] = complex(e.ev(a))
            if factor is not None:
                F = vals; nf = e0.integer(sh[1], {})
                vals = {(x, y): sum(F[x, b] * F[y, b].conjugate() for b in range(nf)) for x in range(M) for y in range(M)}
            X = [[ppca.unit(e0, M, b)[x] for b in range(N)] for x in range(M)]
            ref = {(x, y): sum(X[x][b] * X[y][b].conjugate() for b in range(N)) for x in range(M) for y in range(M)}
        except (cert.NoVal, OverflowError, ZeroDivisionError, ValueError) as ex: why = str(ex); continue
        n += 1
        sc = vals[0, 0] / ref[0, 0]
        if abs(sc.imag) > 1e-9 or sc.real <= 0: same = conj = False; continue
        if any(abs(vals[k] - sc * ref[k]) > 1e-7 for k in ref): same = False
        if any(abs(vals[k] - sc * ref[k].conjugate()) > 1e-7 for k in ref): conj = False
    if n < 8: ck.unk(key, why or "", s.site); return None
    if same: ck.ok(key, "identity test, Hermitian second moment", s.site); return False
    if conj: ck.ok(key, "identity test, conjugate of the second moment", s.site); return True
    ck.bad(key, "the eigenvectors used by the %s reduction are not those of the Hermitian second-moment matrix of the data" % s.mode, s.site)
    return None

def projection(ck, s, key, conj):
    spec(ck)
    c = s.c
    k, b = ivars((s.K, dim("N")), c)
    p = ppca.out_at(s, k, b)
    args = {"X": vg.sym("ref_X"), "V": vg.sym("ref_V"), "K": vg.sym("ref_K")}
    ref = ck.run("zz_ref:step", args=args)
    c2 = Ctx(ref, types={"ref_X": Ty((s.M, dim("N")), "c"), "ref_V": Ty((s.M, s.M), "c"), "ref_K": ty(":i")}, special={"ref_K": lambda idx: s.K})
    for x in (k, b): c2.ranges[x.single()[1][0][0]] = c.ranges[x.single()[1][0][0]]
    q = c2.close(c2.at(ref.node(), (k, b)))
    g = ppca.gens(s, conj=conj)
    g["ref_X"] = lambda env, idx: ppca.unit(env, env.dimv["M"], idx[1])[int(idx[0])]
    g["ref_V"] = lambda env, idx: ppca.unitary(env, env.dimv["M"])[int(idx[1])][int(idx[0])]
    v = decide(c, p, q, gen=g, trials=24)
    ck.verdict(key, v, "the %s reduction is not the normalised projection on the leading eigenvectors, largest variance first" % s.mode, s.site)

def places(ck, key, r, s, stores):
    """every step reports its discarded direction in a place of its own"""
    for w, x in enumerate(dict.fromkeys(stores)):
        k = "%s.place%d" % (key, w)
        if len(x.args[1]) != 1: ck.unk(k, "index form", r.site0); continue
        try:
            p = s.c.close(s.c.val(x.args[1][0]))
            fr = cert.free_ivs(p)
            if len(fr) > 1: raise Unk("several loops")
            n = 9; pos = []
            for i in range(n - 1):
                env = cert.Env(("place", 0), {}, {d: n for d in list(ppca.DIMS) + ["M", "L"]}, ctx=s.c)
                pos.append(env.integer(p, {a: i for a in fr}) % (n - 1))
        except (Unk, cert.NoVal, vg.AnalysisError) as e: ck.unk(k, str(e), r.site0); continue
        d = [(i, j) for i in range(n - 1) for j in range(i) if pos[i] == pos[j]]
        if d: ck.bad(k, "two discarded directions (of steps %d and %d) report their variance in the same place: one of them is lost" % (d[0][1], d[0][0]), r.site0)
        else: ck.ok(k, "places %s" % pos, r.site0)

def variances(ck, mode):
    """values stored as variance of a discarded direction"""
    from sa import scatter
    r, ss = ppca.steps(ck, mode)
    if r is None: return
    try: n = item(r.node(), "variance")
    except Unk: ck.unk("variance." + mode, "not returned"); return
    s = next((s for s in ss if not s.why and s.kind == "carried"), None)
    if s is None: return
    mus = [L.mu[m] for L in r.loops.values() for m in L.mu if any(x is m for x in walk(n))]
    vals = [x.args[2] for a, b in mus for x in walk(b) if x.op == "store" and ppca.vec_nodes(x.args[2])]
    if not vals: ck.unk("variance." + mode, "no stored value uses the eigenvectors"); return
    places(ck, "variance." + mode, r, s, [x for a, b in mus for x in walk(b) if x.op == "store" and ppca.vec_nodes(x.args[2])])
    for w, val in enumerate(vals):
        key = "variance.%s%d" % (mode, w)
        if set(ppca.vec_nodes(val)) != {s.vec}: ck.unk(key, "another decomposition"); continue
        try: p = s.c.close(s.c.val(val))
        except Unk as e: ck.unk(key, str(e)); continue
        def series(**kw):
            out = []
            for t in range(10):
                env = cert.Env(("var", t), ppca.gens(s, **kw), ppca.DIMS, ctx=s.c)
                env.integer(s.M, {})
                try: out.append(env.ev(p))
                except (cert.NoVal, OverflowError, ZeroDivisionError, ValueError) as e: ck_why.append(str(e)); out.append(None)
            return out
        ck_why = []
        base, oth, ph = series(), series(other=1.0), series(phases=True)
        if sum(x is not None for x in base) < 6: ck.unk(key, (ck_why or [""])[0]); continue
        diff = lambda A, B: sum(1 for x, y in zip(A, B) if x is not None and y is not None and abs(x - y) > 1e-7)
        # the discarded vectors of this step
        cols = set()
        for a in atoms_of(p, lambda a: a.kind == "el" and a.args[0] is s.vec):
            cols.add(a.args[1][1])
        disc = ZERO if s.order == "asc" else s.M - 1
        if any(not poly.equal(x, disc) and (x - disc).const() is not None or (x - (s.M - 1 - disc)).const() == 0 for x in cols) and len(cols) == 1: ck.bad(key, "the variance reported for a discarded direction is measured along another eigenvector (column %s)" % "".join(poly.pstr(x) for x in cols), r.site0); continue
        if diff(base, ph) >= 2: ck.bad(key, "the variance reported for a discarded direction is not measured along it: it is not a function of the inner products <v, x> (a diagonal unitary change of coordinates changes it)", r.site0)
        elif diff(base, oth) >= 2: ck.bad(key, "the variance reported for a discarded direction depends on other eigenvectors", r.site0)
        elif not cols: ck.unk(key, "eigenvector not found")
        else: ck.ok(key, "identity test", r.site0)

def check(ck):
    ck.fn(ppca.Q)
    total = 0
    for mode in ppca.MODES:
        r, ss = ppca.steps(ck, mode)
        n = 0
        for s in ss:
            if s.why == "rank" : continue
            key = "%s.%s%d" % (mode, s.kind, n); n += 1
            if s.why: ck.unk(key, s.why, s.site); continue
            total += 1
            cj = ck.guard(key + ".moment", moment, ck, s, key + ".moment")
            if cj is None: ck.unk(key + ".projection", "matrix not recognised", s.site); continue
            ck.guard(key + ".projection", projection, ck, s, key + ".projection", cj)
        if not n: ck.unk(mode, "no reduction step found")
    ck.guard("variance", variances, ck, "one-by-one")

U = "dreimac/utils.py"
SELFTEST = [
    ("variance overwritten", U, "variance[-i - 1] = np.mean(", "variance[-max(i, 1)] = np.mean(", "bad"),
    ("variance place", U, "variance[-i - 1] = np.mean(", "variance[n_dim - 2 - i] = np.mean(", "quiet"),
    ("svd moment reversed", U, "_, U = np.linalg.eigh(X[:, finite].dot(np.conjugate(X[:, finite]).T))\n                U = np.fliplr(U)", "U, _, _ = np.linalg.svd(X[:, finite].dot(np.conjugate(X[:, finite]).T))\n                U = np.fliplr(U)", "bad"),
    ("svd moment", U, "_, U = np.linalg.eigh(X[:, finite].dot(np.conjugate(X[:, finite]).T))\n                U = np.fliplr(U)", "U, _, _ = np.linalg.svd(X[:, finite].dot(np.conjugate(X[:, finite]).T))", "quiet"),
    ("svd factor", U, "_, U = np.linalg.eigh(X[:, finite].dot(np.conjugate(X[:, finite]).T))\n                U = np.fliplr(U)", "U = np.linalg.svd(X[:, finite], full_matrices=True)[0]", "quiet"),
    ("svd factor conj", U, "_, U = np.linalg.eigh(X[:, finite].dot(np.conjugate(X[:, finite]).T))\n                U = np.fliplr(U)", "U = np.linalg.svd(np.conjugate(X[:, finite]), full_matrices=True)[0]", "bad"),
    ("no flip", U, "                U = np.fliplr(U)\n            except:", "                pass\n            except:", "bad"),
    ("no conj moment", U, "np.linalg.eigh(X[:, finite].dot(np.conjugate(X[:, finite]).T))", "np.linalg.eigh(np.real(X[:, finite].dot(X[:, finite].T)))", "bad"),
    ("no conj projection", U, "Y = (np.conjugate(U).T).dot(X)\n            Y = Y[:dims", "Y = (U.T).dot(X)\n            Y = Y[:dims", "bad"),
    ("no U conj one", U, "Y = (np.conjugate(U).T).dot(X)\n                # y", "Y = (U.T).dot(X)\n                # y", "bad"),
    ("not normalised", U, "            X = Y / np.linalg.norm(Y, axis=0)[None, :]\n            return X", "            return Y", "bad"),
    ("sqrt 1-y2", U, "X = Y / np.linalg.norm(Y, axis=0)[None, :]\n                if", "X = Y / np.sqrt(1 - np.abs((np.conjugate(U).T).dot(X)[-1, :]) ** 2)[None, :]\n                if", "quiet"),
    ("centred", U, "np.linalg.eigh(X[:, finite].dot(np.conjugate(X[:, finite]).T))", "np.linalg.eigh((X[:, finite] - X[:, finite].mean(axis=1)[:, None]).dot(np.conjugate(X[:, finite]).T))", "bad"),
    ("mean moment", U, "np.linalg.eigh(X[:, finite].dot(np.conjugate(X[:, finite]).T))", "np.linalg.eigh(X[:, finite] @ X[:, finite].conj().T / 7)", "quiet"),
    ("reverse slice", U, "                U = np.fliplr(U)\n            except:", "                U = U[:, ::-1]\n            except:", "quiet"),
    ("keep last", U, "Y = Y[:dims_to_keep, :]", "Y = Y[-dims_to_keep:, :]", "bad"),
    ("drop first", U, "Y = Y[0:-1, :]", "Y = Y[1:, :]", "bad"),
    ("var no conj", U, "np.abs(np.conjugate(U[:, -1])[None, :].dot(X[:, finite]))", "np.abs(U[:, -1][None, :].dot(X[:, finite]))", "bad"),
    ("var first", U, "np.abs(np.conjugate(U[:, -1])[None, :].dot(X[:, finite]))", "np.abs(np.conjugate(U[:, 0])[None, :].dot(X[:, finite]))", "bad"),
    ("norm axis", U, "            X = Y / np.linalg.norm(Y, axis=0)[None, :]\n            return X", "            X = Y / np.linalg.norm(Y)\n            return X", "bad"),
    ("helper", U, "        total_dims_to_keep = proj_dim + 1\n", "        total_dims_to_keep = 1 + proj_dim\n", "quiet"),
]
