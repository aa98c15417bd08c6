"""C26: the integrated cochain is the plain least-squares remainder of the class."""
from .simplex import *
from .c03 import Sub
from .c12 import setup, harms
import random

TECHNIQUE = "static analysis: solver options, the linear system and the inner product read off the value graph; the system is checked as an identity between matrix terms, the stored cochain by algebraic normal forms"
EXPLANATION = "Every call of a least-squares routine reached from get_coordinates is inspected: no damping, no tolerance looser and no iteration bound lower than the solver's default.  The cochain handed to the integration must be c + k D x with x the solution of that call; the system matrix and right-hand side are terms in D, c and the square root of the inner product, and substituting the solution of the system for an invertible D must annihilate c + k D x identically (so both sides carry the same weights, the same class and the matching sign).  The inner product and its square root must store 1 in the diagonal position of each edge of the complex, cut at the number of stored entries.  The values written to the edge and triangle tensors must be plus or minus the remainder and the potential themselves, for small values too."
ASSUMPTIONS = ["scipy's iterative solvers converge within their default limits", "coboundary operators are those of C06"]
CL = ("toroidalcoords:ToroidalCoords", "circularcoords:CircularCoords", "complexprojectivecoords:ComplexProjectiveCoords")
LOOSE = {"atol": 1e-6, "btol": 1e-6, "tol": 1e-6, "rtol": 1e-6}
SAME = tnf.COPY | {"numpy.asarray", "numpy.array", "numpy.ravel", "numpy.squeeze", "numpy.ascontiguousarray", "numpy.copy", "scipy.sparse.csr_array", "scipy.sparse.csr_matrix", "scipy.sparse.csc_array", "scipy.sparse.csc_matrix", "scipy.sparse.linalg.aslinearoperator"}

def num(n):
    if n.op == "neg":
        v = num(n.args[0]); return None if v is None else -v
    if isconst(n) and isinstance(n.args[0], (int, float)) and not isinstance(n.args[0], bool): return n.args[0]
    return None

def options(n):
    """-> list of (verdict, text) for the options of a solver call"""
    out = []
    nm = n.args[0].split(".")[-1]
    for k, v in n.args[1]:
        x = num(v)
        if k == "damp":
            if x is None: out.append(("unk", "damping is not a constant"))
            elif x != 0: out.append(("bad", "%s is damped (damp=%s): the remainder is not orthogonal to the coboundaries" % (nm, x)))
        elif k in LOOSE:
            if x is None: out.append(("unk", "%s is not a constant" % k))
            elif x > LOOSE[k]: out.append(("bad", "%s stops at %s=%s, looser than its default" % (nm, k, x)))
        elif k in ("iter_lim", "maxiter"):
            if isconst(v, None): continue
            if x is None: out.append(("unk", "%s is not a constant" % k))
            elif x < 10000: out.append(("bad", "%s is stopped after %s iterations whatever the size of the complex" % (nm, x)))
        elif k == "conlim":
            if x is None: out.append(("unk", "conlim is not a constant"))
            elif 0 < x < 1e8: out.append(("bad", "%s stops at the condition number %s" % (nm, x)))
        elif k in ("rcond", "cond"):
            if isconst(v, None): continue
            if x is None: out.append(("unk", "%s is not a constant" % k))
            elif x > 1e-8: out.append(("bad", "%s drops singular values below %s of the largest" % (nm, x)))
    return out

class Mat:
    """small dense evaluation of matrix terms: ('m', rows) / ('v', list)"""
    def __init__(s, known, seed, k=3):
        s.rng = random.Random(repr(("c26", seed))); s.k = k; s.memo = dict(known); s.leaves = set()
    def mat(s): return ("m", [[s.rng.uniform(-1, 1) + 2 * (i == j) for j in range(s.k)] for i in range(s.k)])
    def vec(s): return ("v", [s.rng.uniform(-1, 1) for _ in range(s.k)])
    def ev(s, n, want=None):
        if n in s.memo: return s.memo[n]
        v = s.ev0(n, want); s.memo[n] = v
        return v
    def ev0(s, n, want):
        o = n.op
        if o == "matmul": return s.mul(n.args[0], n.args[1])
        if o == "mcall" and n.args[0] in ("dot", "__matmul__") and len(n.args[2]) == 1: return s.mul(n.args[1], n.args[2][0])
        if o == "call" and n.args[0] in ("numpy.dot", "numpy.matmul"): a = [v for _, v in n.args[1]]; return s.mul(a[0], a[1])
        if o == "neg": return s.scale(-1, s.ev(n.args[0], want))
        if o in ("mul", "div"):
            a, b = n.args
            if o == "mul" and num(a) is not None: return s.scale(num(a), s.ev(b, want))
            if num(b): return s.scale(num(b) if o == "mul" else 1 / num(b), s.ev(a, want))
        if o in ("add", "sub"):
            a, b = s.ev(n.args[0], want), s.ev(n.args[1], want)
            if a[0] != b[0]: raise Unk("shapes")
            b = s.scale(1 if o == "add" else -1, b)
            return ("v", [x + y for x, y in zip(a[1], b[1])]) if a[0] == "v" else ("m", [[x + y for x, y in zip(p, q)] for p, q in zip(a[1], b[1])])
        if o == "attr" and n.args[1] == "T" or o == "call" and n.args[0] in ("numpy.transpose", "sparse.getH"):
            x = s.ev(n.args[0] if o == "attr" else n.args[1][0][1], want)
            return x if x[0] == "v" else ("m", [list(t) for t in zip(*x[1])])
        if o == "mcall" and n.args[0] in ("astype", "copy", "tocsr", "tocsc", "toarray", "todense", "ravel", "flatten", "squeeze"): return s.ev(n.args[1], want)
        if o == "call" and n.args[0] in SAME and len(n.args[1]) >= 1 and n.args[1][0][1].op != "tuple": return s.ev(n.args[1][0][1], want)
        if want == "m" and o == "call" and "sparse" in n.args[0]: s.leaves.add(n); return s.mat()
        raise Unk("matrix term %s" % vg.show(n, 1))
    def scale(s, k, x): return ("v", [k * a for a in x[1]]) if x[0] == "v" else ("m", [[k * a for a in r] for r in x[1]])
    def mul(s, a, b):
        A = s.ev(a, "m"); B = s.ev(b, "m")
        if A[0] != "m": raise Unk("product")
        if B[0] == "v": return ("v", [sum(x * y for x, y in zip(r, B[1])) for r in A[1]])
        return ("m", [[sum(r[k] * B[1][k][j] for k in range(s.k)) for j in range(s.k)] for r in A[1]])

def solve(A, b):
    n = len(b); M = [list(map(float, r)) + [x] for r, x in zip(A, b)]
    for i in range(n):
        p = max(range(i, n), key=lambda k: abs(M[k][i])); M[i], M[p] = M[p], M[i]
        if abs(M[i][i]) < 1e-9: raise Unk("singular")
        for k in range(n):
            if k != i:
                f = M[k][i] / M[i][i]
                M[k] = [x - f * y for x, y in zip(M[k], M[i])]
    return [M[i][n] / M[i][i] for i in range(n)]

def call_of(so):
    if so.op == "index": return so.args[0]
    return so

def strip(n):
    for _ in range(8):
        if n.op == "mcall" and n.args[0] in ("astype", "copy", "toarray", "tocsr", "tocsc", "ravel", "flatten"): n = n.args[1]
        elif n.op == "call" and n.args[0] in SAME and n.args[1] and n.args[1][0][1].op != "tuple": n = n.args[1][0][1]
        else: return n
    return n

def system(ck, nm, h, ident, site):
    c_, D, so, k = dre.harmonic_parts(h)
    cl = call_of(so)
    a = cargs(cl)
    An_, b = a.get("A"), a.get("b")
    if An_ is None or b is None: a_ = list(a.values()); An_, b = (a_ + [None, None])[:2]
    key = nm + ".system"
    if b is None: ck.unk(key, "arguments of the solver", site); return
    worst = 0; nbad = 0
    for t in range(4):
        # half of the runs with an invertible operator (the remainder must vanish), weights proven to be the identity are taken as such
        M = Mat({}, (nm, t))
        M.memo[strip(D)] = M.memo[D] = M.mat()
        M.memo[strip(c_)] = M.memo[c_] = M.vec()
        for w in ident: M.memo[w] = ("m", [[float(i == j) for j in range(M.k)] for i in range(M.k)])
        try:
            A_, B_ = M.ev(An_, "m"), M.ev(b, "v")
            if A_[0] != "m" or B_[0] != "v": raise Unk("shapes of the system")
            x = solve(A_[1], B_[1])
        except Unk as e: ck.unk(key, str(e), site); return
        Dm, cv = M.memo[D][1], M.memo[c_][1]
        res = max(abs(cv[i] + k * sum(Dm[i][j] * x[j] for j in range(M.k))) for i in range(M.k))
        worst = max(worst, res); nbad += res > 1e-6
    if nbad >= 2: ck.bad(key, "%s: the remainder of the class is formed with a potential that solves a different system (weights, sign or right-hand side do not match)" % nm, site)
    else: ck.ok(key, "identity between the system and the remainder", site)

def close(env, ix):
    """landmark distances, some of them zero"""
    a, b = sorted(ix[:2])
    return 0 if a == b or env.u("co", a, b) < .3 else scatter.dist_gen(env, ix) if env.u("cd", a, b) < .7 else 1.9 * env.u("cl", a, b)

def unit_diagonal(ck, nodes, r, c, key, dll, thr, g):
    """csr matrix whose stored entries are 1 at (e, e) for the edges; True when shown"""
    n = nodes
    if n.op == "call" and n.args[0].split(".")[-1] in ("identity", "eye", "eye_array"): return True
    if n.op != "call" or "csr" not in n.args[0] and "csc" not in n.args[0] and "coo" not in n.args[0]: ck.unk(key, "form of the inner product", r.site0); return False
    src = n.args[1][0][1]
    for k_, v_ in n.args[1]:
        if k_ == "arg1": src = v_
    if src.op != "tuple" or len(src.args) != 2 or src.args[1].op != "tuple": ck.unk(key, "sparse constructor arguments", r.site0); return False
    data, (rows, cols) = src.args[0], src.args[1].args
    refs = [scatter.ref_of(x) for x in (data, rows, cols)]
    if None in refs: ck.unk(key, "index buffers", r.site0); return False
    got = {0: [], 1: [], 2: []}
    for s in scatter.sites(r):
        k_ = "r%d" % s.ref.id if hasattr(s.ref, "id") else None
        if k_ in refs:
            for i in range(3):
                if refs[i] == k_: got[i].append(s)
    if any(len(got[i]) != 1 or got[i][0].aug is not None or len(got[i][0].idx) != 1 for i in got): ck.unk(key, "stores of the inner product", r.site0); return False
    v, ro, co = got[0][0], got[1][0], got[2][0]
    if not (v.idx == ro.idx == co.idx and v.loops == ro.loops and v.conds == ro.conds): ck.unk(key, "entries stored at different positions", v.site); return False
    try:
        fl = [l for l in v.loops if l.kind == "for"][-2:]
        for l in fl: scatter.ivof(c, l)
        g = {k_: (close if f_ is scatter.dist_gen else f_) for k_, f_ in g.items()}
        G = ONE
        for x, pol in v.conds: G = G * (c.cond(x) if pol else ONE - c.cond(x))
        one = decide(c, c.close(c.val(v.val) * G), c.close(G), gen=g, dims={"L": 5})
        dg = decide(c, c.close(c.val(ro.val) * G), c.close(c.val(co.val) * G), gen=g, dims={"L": 5})
    except (Unk, vg.AnalysisError) as e: ck.unk(key, str(e), v.site); return False
    ck.verdict(key + ".value", one, "an edge of the complex does not weigh 1 in the inner product", v.site)
    ck.verdict(key + ".diagonal", dg, "the inner product has entries off the diagonal", ro.site)
    # cut
    ends = set()
    for x in (data, rows, cols):
        ends.add(tuple(x.args[1][0].args) if x.op == "index" and len(x.args[1]) == 1 and x.args[1][0].op == "slice" else None)
    if len(ends) == 1 and None not in ends:
        lo, hi = list(ends)[0][:2]
        mu, off = counter(c, r, v.idx[0])
        root = None
        while mu is not None:
            root = mu; L = r.loops.get(mu.args[0])
            i = L.mu[mu][0] if L is not None and mu in L.mu else None
            mu = i if i is not None and i.op == "mu" else None
        if hi.op in ("add", "sub") and isconst(hi.args[1]) and hi.args[0].op == "final" and hi.args[0].args[1] is root and hi.args[1].args[0]: ck.bad(key + ".cut", "the entries of the inner product are cut %s %s from the last one written" % (hi.op, hi.args[1].args[0]), r.site0)
        elif hi.op == "final" and hi.args[1] is root and (isconst(lo, None) or isconst(lo, 0)): ck.ok(key + ".cut", "final position", r.site0)
        elif hi.op == "final" and hi.args[1] is root and num(lo): ck.bad(key + ".cut", "the first %s entries of the inner product are dropped" % num(lo), r.site0)
        else: ck.unk(key + ".cut", "slice", r.site0)
    else: ck.unk(key + ".cut", "slice", r.site0)
    return one.kind == "eq" and dg.kind == "eq"

def patched(ck, key, r):
    """writes into the stored entries of a sparse matrix after it was built"""
    for s in scatter.sites(r):
        b = s.before
        if not (hasattr(b, "op") and b.op == "attr" and b.args[1] in ("data", "indices", "indptr")): continue
        if not any(y.op == "call" and "sparse" in y.args[0] for y in walk(b.args[0])): continue
        if s.aug is None and num(s.val) == 1 and b.args[1] == "data": continue
        if b.args[1] == "data" and num(s.val) is not None and (s.aug is not None or num(s.val) not in (1, -1)): ck.bad(key, "stored entries of a matrix of the integration are overwritten with %s" % num(s.val), s.site)
        else: ck.unk(key, "stored entries of a sparse matrix are overwritten", s.site)

def inner(ck):
    q = "toroidalcoords:_make_inner_product"
    if ck.fn(q, must=False) is None: return
    r, c, ro, g = rips_ctx(ck, q)
    n = r.node()
    parts = list(n.args) if n.op == "tuple" else [n]
    done = set()
    patched(ck, "inner.patched", r)
    for i, x in enumerate(parts):
        x = strip(x)
        if x in done: continue
        done.add(x)
        unit_diagonal(ck, x, r, c, "inner%d" % i, vg.sym(ro["dist"]), vg.sym(ro["thr"]), g)

LOSSY = {"round", "around", "rint", "floor", "ceil", "trunc", "fix", "clip"}

def coarse(r):
    """name of the rounding applied to a least-squares solution that is then multiplied by an operator"""
    for n in every_node(r):
        if n.op == "matmul": y = n.args[1]
        elif n.op == "mcall" and n.args[0] in ("dot", "__matmul__") and n.args[2]: y = n.args[2][0]
        elif n.op == "call" and n.args[0] in ("numpy.dot", "numpy.matmul") and len(n.args[1]) > 1: y = n.args[1][1][1]
        else: continue
        w = None
        for _ in range(6):
            if y.op == "call" and y.args[0].split(".")[0] == "numpy" and y.args[1]:
                if y.args[0].split(".")[-1] in LOSSY: w = y.args[0]
                elif y.args[0] not in ("numpy.asarray", "numpy.array", "numpy.transpose", "numpy.ravel"): break
                y = y.args[1][0][1]
            elif y.op == "mcall" and y.args[0] in LOSSY | {"copy", "ravel", "flatten"}:
                if y.args[0] in LOSSY: w = "." + y.args[0]
                y = y.args[1]
            else: break
        if w and dre.is_solution(y): return w

def remainder(ck, q):
    nm = q.split(":")[1]
    r, c, got = setup(ck, q)
    hs = harms(r, c)
    patched(ck, nm + ".patched", r)
    # solver options
    calls = []
    for x in every_node(r):
        if x.op == "call" and x.args[0] in dre.SOLVERS and x not in calls: calls.append(x)
    if not calls: ck.unk(nm + ".solver", "no least-squares routine found", r.site0)
    for i, x in enumerate(calls):
        o = options(x)
        b = [t for k, t in o if k == "bad"]; u = [t for k, t in o if k == "unk"]
        key = "%s.solver%d" % (nm, i)
        if b: ck.bad(key, "%s: %s" % (nm, b[0]), r.site0)
        elif u: ck.unk(key, u[0], r.site0)
        else: ck.ok(key, "options of %s" % x.args[0], r.site0)
    if not hs:
        w = coarse(r)
        if w: ck.bad(nm + ".remainder", "%s: the potential passes through %s before its coboundary is subtracted, so what remains is not the residual of the least-squares problem" % (nm, w), r.site0)
        else: ck.unk(nm + ".remainder", "no remainder of a class found", r.site0)
        return
    thr = got["radius"][2] if "radius" in got else None
    dll = [vg.sym("self." + f) for f, ro in c.rl.items() if ro == "dist_land_land"]
    # weights shown to be 1 on the edges of the complex: coboundaries vanish elsewhere, so they act as the identity in the system
    ident = []
    for x in calls:
        for _, v in x.args[1]:
            for y in walk(v):
                if y.op == "call" and "sparse" in y.args[0] and y not in ident and not any(y is dre.harmonic_parts(h)[1] for h in hs):
                    sub = Sub(ck)
                    try:
                        if unit_diagonal(sub, y, r, c, "w", None, thr, {}) and not any(o.status == "bad" for o in sub.obls): ident.append(y)
                    except (Unk, vg.AnalysisError): pass
    for i, h in enumerate(hs): system(ck, "%s.%d" % (nm, i), h, ident, r.site0)
    # what is integrated
    if "radius" not in got or not dll: return
    seen = []
    c.hooks.append(dre.harmonic_hook(seen))
    thr = got["radius"][2]; c.over.setdefault(thr, Ty((), "f"))
    g = {dll[0].args[0]: scatter.dist_gen}
    for p in c.val(thr).atoms():
        if p.kind in ("el", "opq"): g[p.args[0] if isinstance(p.args[0], str) else poly.nodekey(p.args[0])] = scatter.thr_gen
    def small(env, ix):
        u = env.u("sz", *ix)
        v = 2 * env.u("hv", *ix) - 1
        return v * (1e-4 if u < .3 else .02 if u < .5 else .6 if u < .8 else 3)
    leaves = {}
    for h in hs:
        so = dre.harmonic_parts(h)[2]
        leaves[h] = "remainder"; leaves[so] = "potential"
        g[poly.nodekey(h)] = small; g[poly.nodekey(so)] = small
    n = 0
    for s in scatter.sites(r):
        fl = [l for l in s.loops if l.kind == "for"]
        m = len(s.idx)
        if m not in (2, 3) or len(fl) < m or s.aug is not None: continue
        fl = fl[-m:]
        try:
            d = scatter.Domain(c, fl, [(x, pol) for x, pol in s.conds if any(y is l.iv for l in fl for y in walk(x)) and not any(y.op == "inloop" for y in walk(x))])
            mt = scatter.match(c, d, m, dll[0], thr, dim("L"), g, {"L": 5})
            if mt.status != "ok": continue
            v = c.close(c.val(s.val))
        except (Unk, vg.AnalysisError, ValueError, TypeError, KeyError): continue
        keys = {poly.nodekey(x): x for x in leaves}
        at_ = atoms_of(v, lambda a: a.kind == "el" and not isinstance(a.args[0], str) and a.args[0] in leaves)
        if not at_: continue
        key = "%s.integrated%d" % (nm, n); n += 1
        sg = v.single()
        if sg is not None and len(sg[1]) == 1 and abs(sg[0]) == 1 and sg[1][0][0] in at_: ck.ok(key, "the %s itself" % leaves[sg[1][0][0].args[0]], s.site); continue
        vd = []
        for a in at_:
            for k in (1, -1):
                try: vd.append(decide(c, v, P(a) * k, gen=g, dims={"L": 5}))
                except (Unk, vg.AnalysisError, cert.NoVal): pass
        if any(x.kind == "eq" for x in vd): ck.ok(key, "the cochain itself", s.site)
        elif vd and all(x.kind == "ne" for x in vd): ck.bad(key, "%s: what is integrated is not the remainder of the class (or its potential) but a changed copy of it" % nm, s.site)
        else: ck.unk(key, "value of the integrated cochain", s.site)
    if not n: ck.unk(nm + ".integrated", "no integrated cochain found", r.site0)

def check(ck):
    ck.guard("inner", inner, ck)
    for q in CL: ck.guard(q.split(":")[1], remainder, ck, q)

T, C = "dreimac/toroidalcoords.py", "dreimac/complexprojectivecoords.py"
SELFTEST = [
    ("potential rounded", T, "harm_rep = cocycle - boundary_matrix.dot(integral)", "harm_rep = cocycle - boundary_matrix.dot(np.round(integral, 6))", "bad"),
    ("damped", T, "sqrt_inner_product @ boundary_matrix, sqrt_inner_product @ cocycle.T\n    )[0]", "sqrt_inner_product @ boundary_matrix, sqrt_inner_product @ cocycle.T, damp=1e-2\n    )[0]", "bad"),
    ("few iterations", T, "sqrt_inner_product @ boundary_matrix, sqrt_inner_product @ cocycle.T\n    )[0]", "sqrt_inner_product @ boundary_matrix, sqrt_inner_product @ cocycle.T, iter_lim=50\n    )[0]", "bad"),
    ("loose", C, "lsqr(delta1, integer_cocycle_as_vector)[0]", "lsqr(delta1, integer_cocycle_as_vector, atol=1e-2, btol=1e-2)[0]", "bad"),
    ("loose positional", C, "lsqr(delta1, integer_cocycle_as_vector)[0]", "lsqr(delta1, integer_cocycle_as_vector, 0.0, 1e-3)[0]", "bad"),
    ("conlim", C, "lsqr(delta1, integer_cocycle_as_vector)[0]", "lsqr(delta1, integer_cocycle_as_vector, conlim=10)[0]", "bad"),
    ("tighter", C, "lsqr(delta1, integer_cocycle_as_vector)[0]", "lsqr(delta1, integer_cocycle_as_vector, atol=1e-10, btol=1e-10, damp=0)[0]", "quiet"),
    ("many iterations", C, "lsqr(delta1, integer_cocycle_as_vector)[0]", "lsqr(delta1, integer_cocycle_as_vector, iter_lim=10**6)[0]", "quiet"),
    ("lsmr", C, ["from scipy.sparse.linalg import lsqr", "lsqr(delta1, integer_cocycle_as_vector)[0]"], ["from scipy.sparse.linalg import lsmr", "lsmr(delta1, integer_cocycle_as_vector)[0]"], "quiet"),
    ("dense", C, "lsqr(delta1, integer_cocycle_as_vector)[0]", "np.linalg.lstsq(delta1.toarray(), integer_cocycle_as_vector, rcond=None)[0]", "quiet"),
    ("dense rcond", C, "lsqr(delta1, integer_cocycle_as_vector)[0]", "np.linalg.lstsq(delta1.toarray(), integer_cocycle_as_vector, rcond=0.1)[0]", "bad"),
    ("no weights", T, "sqrt_inner_product @ boundary_matrix, sqrt_inner_product @ cocycle.T\n", "boundary_matrix, cocycle\n", "quiet"),
    ("weights on one side", T, "sqrt_inner_product @ boundary_matrix, sqrt_inner_product @ cocycle.T\n", "boundary_matrix, sqrt_inner_product @ cocycle\n", "quiet"),
    ("scaled side", T, "sqrt_inner_product @ boundary_matrix, sqrt_inner_product @ cocycle.T\n", "sqrt_inner_product @ boundary_matrix, 2 * (sqrt_inner_product @ cocycle.T)\n", "bad"),
    ("both scaled", T, "sqrt_inner_product @ boundary_matrix, sqrt_inner_product @ cocycle.T\n", "2 * (sqrt_inner_product @ boundary_matrix), 2 * (sqrt_inner_product @ cocycle.T)\n", "quiet"),
    ("negated system", C, ["lsqr(delta1, integer_cocycle_as_vector)[0]", "integer_cocycle_as_vector - delta1 @ integral"], ["lsqr(-delta1, integer_cocycle_as_vector)[0]", "integer_cocycle_as_vector + delta1 @ integral"], "quiet"),
    ("negated once", C, "lsqr(delta1, integer_cocycle_as_vector)[0]", "lsqr(-delta1, integer_cocycle_as_vector)[0]", "bad"),
    ("half remainder", T, "harm_rep = cocycle - boundary_matrix.dot(integral)", "harm_rep = cocycle - boundary_matrix.dot(integral) / 2", "bad"),
    ("snapped", T, "    return harm_rep, integral\n", "    harm_rep = np.where(np.abs(harm_rep) < 1e-3, 0, harm_rep)\n    return harm_rep, integral\n", "bad"),
    ("snapped in place", T, "    return harm_rep, integral\n", "    harm_rep[np.abs(harm_rep) < 1e-3] = 0\n    return harm_rep, integral\n", "bad"),
    ("rounded", C, "harmonic_representative = integer_cocycle_as_vector - delta1 @ integral", "harmonic_representative = np.round(integer_cocycle_as_vector - delta1 @ integral, 3)", "bad"),
    ("rounded potential", C, "            harmonic_representative,\n            integral,", "            harmonic_representative,\n            np.round(integral, 2),", "bad"),
    ("copied", T, "    return harm_rep, integral\n", "    return harm_rep.copy(), integral\n", "quiet"),
    ("weighted", T, "                    values[n_entries] = 1\n                    n_entries += 1\n        return n_entries", "                    values[n_entries] = 1 + dist_mat[i, j] / threshold\n                    n_entries += 1\n        return n_entries", "bad"),
    ("off diagonal", T, "                    columns[n_entries] = row_index\n", "                    columns[n_entries] = row_index - 1\n", "bad"),
    ("last edge cut", T, "(values[:n_entries], (rows[:n_entries], columns[:n_entries]))", "(values[: n_entries - 1], (rows[: n_entries - 1], columns[: n_entries - 1]))", "bad"),
    ("first edge cut", T, "(values[:n_entries], (rows[:n_entries], columns[:n_entries]))", "(values[1:n_entries], (rows[1:n_entries], columns[1:n_entries]))", "bad"),
    ("identity", T, "W = sparse.csr_array(\n        (values[:n_entries], (rows[:n_entries], columns[:n_entries])),\n        shape=(n_edges, n_edges),\n    )", "W = sparse.identity(n_edges)", "quiet"),
    ("ones", T, "(values[:n_entries], (rows[:n_entries], columns[:n_entries]))", "(np.ones(n_entries), (rows[:n_entries], columns[:n_entries]))", "quiet"),
    ("guarded value", T, "                    values[n_entries] = 1\n                    n_entries += 1\n        return n_entries", "                    values[n_entries] = 1 if dist_mat[i, j] < threshold else 0\n                    n_entries += 1\n        return n_entries", "quiet"),
    ("coincident", T, "                    values[n_entries] = 1\n                    n_entries += 1\n        return n_entries", "                    values[n_entries] = 1 if dist_mat[i, j] > 0 else 0\n                    n_entries += 1\n        return n_entries", "bad"),
    ("root rescaled", T, "    WSqrt = W.copy()\n", "    WSqrt = W.copy()\n    WSqrt.data[::7] = 0\n", "bad"),
]
