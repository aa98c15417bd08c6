"""C17: lattice reduction applies one unimodular change of basis throughout."""
import math
from .surface import *
from .c23 import Tally, near

TECHNIQUE = "static analysis: inductive loop invariants.  The carried values of the reduction loops are classified by their initial values (basis, change matrix, orthogonalisation, position), and the terms of one loop step are tested for preserving basis = initial basis times change, integrality and unimodularity, orthogonalisation = Gram-Schmidt of the basis, size reduction and exchange condition of the processed columns; initial terms, loop ranges and exit condition give base case and conclusion"
EXPLANATION = "Nothing is iterated: every loop is cut at its head.  For a state satisfying the invariant (random basis with the processed columns reduced, random unimodular change matrix, the orthogonalisation either carried or the result of a call of the orthogonalisation routine) the next values are the loop body's terms, and the invariant is tested on them; the values after an inner loop are any that satisfy its invariant for the range it covers.  The orthogonalisation routine is treated the same way.  The coordinates, the reported change of basis and both Gram matrices are then compared as terms over the result of the reduction."
ASSUMPTIONS = ["Gram matrices are positive definite and Cholesky factors satisfy L L^T = G", "identity testing with two deviating states required for a violation", "termination of the exchange loop follows from the classical potential argument once every exchange happens at a violated exchange condition"]

TC = "toroidalcoords"
FAIL = (cert.NoVal, OverflowError, ZeroDivisionError, ValueError, IndexError)
EYE = {"numpy.eye", "numpy.identity"}

# ---- reference linear algebra of the checker
def dot(a, b): return sum(x * y for x, y in zip(a, b))
def cols(M): return [list(c) for c in zip(*M)]
def mat(C): return [list(r) for r in zip(*C)]
def gs(C):
    """Gram-Schmidt of a list of columns"""
    Q = []
    for v in C:
        w = list(v)
        for q in Q:
            k = dot(v, q) / dot(q, q); w = [a - k * b for a, b in zip(w, q)]
        Q.append(w)
    return Q
def muc(C, Q, i, j): return dot(C[i], Q[j]) / dot(Q[j], Q[j])
def reduce_col(C, k, js):
    """size-reduce column k against the columns js (from the last to the first)"""
    C = [list(c) for c in C]
    for j in sorted(js, reverse=True):
        q = round(muc(C, gs(C), k, j))
        if q: C[k] = [a - q * b for a, b in zip(C[k], C[j])]
    return C
def reduce_first(C, k, delta=.75):
    """reduce the first k columns (reference used to construct states)"""
    C = [list(c) for c in C]; i = 1; n = 0
    while i < k and n < 500:
        n += 1
        C = reduce_col(C, i, range(i)); Q = gs(C)
        if dot(Q[i], Q[i]) >= (delta - muc(C, Q, i, i - 1) ** 2) * dot(Q[i - 1], Q[i - 1]): i += 1
        else: C[i], C[i - 1] = C[i - 1], C[i]; i = max(i - 1, 1)
    return C
def sized(C, k, js, eps=1e-7):
    Q = gs(C)
    return all(abs(muc(C, Q, k, j)) <= .5 + eps for j in js)
def exchange(C, i, delta=.75, eps=1e-7):
    Q = gs(C)
    return dot(Q[i], Q[i]) >= (delta - muc(C, Q, i, i - 1) ** 2) * dot(Q[i - 1], Q[i - 1]) - eps
def lll_upto(C, k): return all(sized(C, i, range(i)) for i in range(k)) and all(exchange(C, i) for i in range(1, k))
def det(M):
    M = [[Fraction(x) for x in r] for r in M]; n = len(M); d = Fraction(1)
    for i in range(n):
        p = next((r for r in range(i, n) if M[r][i] != 0), None)
        if p is None: return Fraction(0)
        if p != i: M[i], M[p] = M[p], M[i]; d = -d
        d *= M[i][i]
        for r in range(i + 1, n):
            f = M[r][i] / M[i][i]
            M[r] = [a - f * b for a, b in zip(M[r], M[i])]
    return d
def inv_apply(B0, B):
    """C with B0 C = B"""
    n = len(B0); A = [[float(x) for x in B0[i]] + [float(x) for x in B[i]] for i in range(n)]
    for i in range(n):
        p = max(range(i, n), key=lambda r: abs(A[r][i])); A[i], A[p] = A[p], A[i]
        A[i] = [x / A[i][i] for x in A[i]]
        for r in range(n):
            if r != i: A[r] = [a - A[r][i] * b for a, b in zip(A[r], A[i])]
    return [r[n:] for r in A]
def unimod(e, n, tag):
    C = [[1 if i == j else 0 for j in range(n)] for i in range(n)]
    for t in range(2 * n):
        i, j = int(e.u(tag, "i", t) * n), int(e.u(tag, "j", t) * n)
        if i == j: C[i] = [-x for x in C[i]]; continue
        q = int(e.u(tag, "q", t) * 3) - 1
        C[i] = [a + q * b for a, b in zip(C[i], C[j])]
    return C
def mul(A, B): return [[sum(a * b for a, b in zip(r, c)) for c in zip(*B)] for r in A]

# ---- the loops
class Loops:
    def __init__(self, ck, r):
        self.r = r
        self.reach = set()
        st = [r.node()]; seen = set()
        while st:
            x = st.pop()
            if not isinstance(x, vg.Node) or x in seen: continue
            seen.add(x)
            if x.op in ("final", "mu", "last") and x.args[0] in r.loops and x.args[0] not in self.reach:
                self.reach.add(x.args[0]); L = r.loops[x.args[0]]
                st += [L.dom, L.cond]
                for m, (a, b) in L.mu.items(): st += [a, b]
            for a in x.args:
                if isinstance(a, vg.Node): st.append(a)
                elif isinstance(a, tuple):
                    for y in a:
                        if isinstance(y, vg.Node): st.append(y)
                        elif isinstance(y, tuple): st += [z for z in y if isinstance(z, vg.Node)]
        self.nodes = seen
    def finals(self, uid): return {x.args[1]: x for x in self.nodes if x.op == "final" and x.args[0] == uid}

def strip(n):
    while n.op == "call" and n.args[0] in ("numpy.copy", "numpy.array", "numpy.asarray", "numpy.astype") and n.args[1]: n = n.args[1][0][1]
    return n

def is_eye(n):
    n = strip(n)
    return n.op == "call" and n.args[0] in EYE

def values(env, c, dom, rev):
    """the values a range takes in a state, in order"""
    if dom is None or dom.op != "range": raise cert.NoVal("loop domain")
    lo, hi, st = (env.integer(c.close(c.val(x)), {}) for x in dom.args)
    v = list(range(lo, hi, st))
    return v[::-1] if rev else v

def matrix(env, c, x, n, m=None):
    m = n if m is None else m
    k = ("mtx", x)
    cache = c.__dict__.setdefault("_mtx", {})
    if k not in cache:
        t = c.ty(x)
        if len(t.shape) != 2: raise cert.NoVal("rank")
        ix = ivars(t.shape, c); cache[k] = ([v.single()[1][0][0] for v in ix], at(c, x, ix))
    A, p = cache[k]
    return [[env.ev(p, {A[0]: i, A[1]: j}) for j in range(m)] for i in range(n)]

def vector(env, c, x, n):
    cache = c.__dict__.setdefault("_vec", {})
    if x not in cache:
        t = c.ty(x)
        if len(t.shape) != 1: raise cert.NoVal("rank")
        ix = ivars(t.shape, c); cache[x] = ([v.single()[1][0][0] for v in ix], at(c, x, ix))
    A, p = cache[x]
    return [env.ev(p, {A[0]: i}) for i in range(n)]

def scalar(env, c, x): return env.ev(c.close(c.val(x)))

def tab(M): return lambda env, ix: M[int(ix[0])][int(ix[1])]

def close_m(A, B, tol=1e-6): return all(near(a, b, tol) for x, y in zip(A, B) for a, b in zip(x, y))

# ---- Gram-Schmidt routine
def functions(ck):
    m = next((m for k, m in ck.prog.modules.items() if k.endswith("." + TC)), None)
    if m is None: return {}
    return {n: v for n, v in ck.prog.base.frames[m.fid].items() if isinstance(v, vg.FuncV) and v.mod is m}

def gram_schmidt(ck, f):
    """inductive check of an orthogonalisation routine -> True when decided"""
    q = TC + ":" + f.name
    ps = [a.arg for a in f.node.args.args]
    tt = types({ps[0]: "n n:f"})
    r = ck.run(q, f=f, types=oracle(tt))
    key = "orthogonalisation"
    site = r.site0
    ret = r.node()
    L = Loops(ck, r)
    if ret.op != "final": ck.unk(key, "not built by a loop", site); return
    O = r.loops[ret.args[0]]; muA = ret.args[1]
    if len([m for m in O.mu]) != 1: ck.unk(key, "several carried values", site); return
    A0, A1 = O.mu[muA]
    others = [u for u in L.reach if u != O.uid]
    if len(others) > 1 or any(len(r.loops[u].mu) != 1 for u in others): ck.unk(key, "loop structure", site); return
    def ctx():
        c = Ctx(r, types=tt)
        c.over[muA] = Ty((dim("n"), dim("n")), "f")
        for u in others:
            for m in r.loops[u].mu: c.over[m] = Ty((dim("n"),), "f")
            for m, x in L.finals(u).items(): c.over[x] = Ty((dim("n"),), "f")
        return c
    c = ctx()
    base, step, ini, inn, rng = Tally(), Tally(), Tally(), Tally(), Tally()
    for t in range(12):
        n = (2, 3, 4, 5, 7, 8)[t % 6]
        e0 = cert.plain(("gs", t))
        B = [[2 * e0.u("B", i, j) - 1 for j in range(n)] for i in range(n)]
        Q = gs(cols(B))
        mk = lambda g, tag="": cert.plain(("gs", t, tag), {ps[0]: tab(B), **g}, {"n": n}, ctx=c)
        try:
            e = mk({})
            dom = values(e, c, O.dom, O.rev)
            I0 = matrix(e, c, A0, n)
            start = dom[0] if dom else n
            rng.add(dom == list(range(start, n)) and start <= 1 or (n == 1), "columns %s of %d" % (dom, n))
            base.add(all(near(I0[x][y], Q[y][x], 1e-6) for y in range(start) for x in range(n)), "n=%d" % n)
            for i in dom:
                g = {poly.nodekey(muA): tab([[Q[y][x] if y < i else I0[x][y] for y in range(n)] for x in range(n)])}
                iv = c.ivatom(O.iv)
                for u in others:
                    M = r.loops[u]; (m, (a, b)), = M.mu.items()
                    e1 = mk(g, (i,)); e1.vals[iv] = i
                    js = values(e1, c, M.dom, M.rev)
                    # start of the inner loop
                    ini.add(all(near(x, y, 1e-6) for x, y in zip(vector(e1, c, a, n), cols(B)[i])), "column %d of %d" % (i, n))
                    bi = cols(B)[i]
                    def part(P):
                        w = list(bi)
                        for l in P:
                            k = dot(bi, Q[l]) / dot(Q[l], Q[l]); w = [x - k * y for x, y in zip(w, Q[l])]
                        return w
                    if any(not 0 <= j < n for j in js): inn.add(False, "index"); continue
                    for z, j in enumerate(js):
                        if j >= i: continue
                        W = part(js[:z])
                        e2 = mk({**g, poly.nodekey(m): (lambda env, ix, W=W: W[int(ix[0])])}, (i, j)); e2.vals[iv] = i; e2.vals[c.ivatom(M.iv)] = j
                        nx = vector(e2, c, b, n)
                        inn.add(all(near(x, y, 1e-6) for x, y in zip(nx, part(js[:z + 1]))), "column %d against %d" % (i, j))
                    W = part([j for j in js if j < i])
                    for mm, x in L.finals(u).items(): g[poly.nodekey(x)] = (lambda env, ix, W=W: W[int(ix[0])])
                e3 = mk(g, (i, "o")); e3.vals[iv] = i
                N = matrix(e3, c, A1, n)
                step.add(all(near(N[x][y], Q[y][x], 1e-6) for y in range(i + 1) for x in range(n)), "column %d of %d" % (i, n))
        except FAIL + (Unk, vg.AnalysisError) as ex:
            for w in (base, step, rng): w.why = str(ex)
            if others:
                ini.why = inn.why = str(ex)
    rng.close(ck, key + ".range", "the orthogonalisation does not go through all columns", site)
    base.close(ck, key + ".start", "the first column is not kept", site)
    step.close(ck, key + ".step", "a column of the result is not the component of the basis column orthogonal to the previous ones", site)
    if others:
        ini.close(ck, key + ".column", "the projection does not start from the basis column", site)
        inn.close(ck, key + ".projection", "a projection step does not remove exactly the component along that column", site)

# ---- the reduction loop
def find(ck):
    """(function, standalone run, outer loop, roles) of the reduction"""
    out = []
    for nm, f in functions(ck).items():
        if f.jit is not None: continue
        ps = [a.arg for a in f.node.args.args]
        if not ps: continue
        args = {p: f.defaults[p] for p in ps[1:] if p in f.defaults}
        if len(args) != len(ps) - 1: continue
        tt = types({ps[0]: "n n:f"})
        try: r = ck.run(TC + ":" + nm, f=f, args=args or None, types=oracle(tt))
        except vg.AnalysisError: continue
        for u, L in r.loops.items():
            if any(is_eye(a) for a, b in L.mu.values()) and L.parent is None: out.append((nm, f, r, L, tt, ps[0])); break
    return out

def reduction(ck):
    fs = functions(ck)
    old = set(ck.I.watch)
    ck.I.watch |= set(fs)
    try: cand = find(ck)
    finally: ck.I.watch.clear(); ck.I.watch |= old
    if len(cand) != 1: ck.unk("reduction", "%d reduction routines found" % len(cand)); return
    nm, f, r, O, tt, pB = cand[0]
    site = r.site0
    L = Loops(ck, r)
    gsret = {}
    for name, args, ret, path, loops, s in r.calls_seen:
        if name.split(".")[-1] != nm and len(args) == 1: gsret[ret] = (name.split(".")[-1], list(args.values())[0])
    for g in sorted({v[0] for v in gsret.values()}): ck.guard("orthogonalisation", gram_schmidt, ck, fs[g])
    steps(ck, r, O, L, tt, pB, gsret, site)

def roles(O, init_of, pB):
    out = {}
    for m, (a, b) in O.mu.items():
        a = init_of(a)
        if is_eye(a): out[m] = "C"
        elif strip(a) is vg.sym(pB): out[m] = "B"
        elif a in ("B", "C", "Q", "k"): out[m] = a
    return out

def steps(ck, r, O, L, tt, pB, gsret, site):
    key = "reduction"
    n_ = dim("n")
    role = {}
    for m, (a, b) in O.mu.items():
        if is_eye(a): role[m] = "C"
        elif strip(a) is vg.sym(pB): role[m] = "B"
        elif a in gsret and strip(gsret[a][1]) is vg.sym(pB): role[m] = "Q"
        elif isconst(a) and isinstance(a.args[0], int) and not isinstance(a.args[0], bool): role[m] = "k"
    # a counter of the passes, which may only end the loop if the routine then gives up
    if list(role.values()).count("k") > 1:
        for m, x in list(role.items()):
            b = O.mu[m][1]
            if x == "k" and b.op == "add" and m in b.args and any(isconst(y, 1) for y in b.args): role[m] = "N"
    by = {}
    for m, x in role.items(): by.setdefault(x, []).append(m)
    passes = by.get("N", [])
    if passes and any(e.kind == "raise" for e in r.effects): ck.unk(key, "limit on the number of passes", site); return
    if any(len(by.get(x, [])) != 1 for x in ("B", "C", "k")) or len(by.get("Q", [])) > 1 or len(role) != len(O.mu): ck.unk(key, "carried values: %s" % sorted(role.values()), site); return
    w = next((str(x.args[0]).split(".")[-1] for x in walk(O.mu[by["C"][0]][0]) if x.op in ("libref", "const") and str(x.args[0]).split(".")[-1] in ("int8", "uint8", "int16", "uint16", "i1", "u1", "i2", "u2", "float16", "half", "bool", "bool_")), None)
    if w is not None: ck.bad(key + ".width", "the change of basis is kept in the type %s, which cannot hold large coefficients" % w, site)
    mB, mC, mk_ = by["B"][0], by["C"][0], by["k"][0]; mQ = by.get("Q", [None])[0]
    if mQ is not None and mQ not in L.nodes: mQ = None      # computed anew in every step
    inner = []
    for u in sorted(L.reach):
        M = r.loops[u]
        if M.parent is O and not any(x.args[0] == u for x in gsret if x.op == "final"): inner.append(M)
    irole = {}
    for M in inner:
        ro = {}
        for m, (a, b) in M.mu.items():
            if a is mB: ro[m] = "B"
            elif a is mC: ro[m] = "C"
            elif mQ is not None and a is mQ: ro[m] = "Q"
            elif a in gsret and gsret[a][1] is mB: ro[m] = "Q"
            else: ck.unk(key, "inner loop carries something else", site); return
        if "B" not in ro.values(): ck.unk(key, "inner loop without a basis", site); return
        irole[M.uid] = ro
    if len(inner) > 1: ck.unk(key, "%d inner loops" % len(inner), site); return
    c = Ctx(r, types=tt)
    T2 = Ty((n_, n_), "f"); Ti = Ty((n_, n_), "i")
    def put(x, ro): c.over[x] = T2 if ro in "BQ" else Ti if ro == "C" else Ty((), "i")
    for m, ro in role.items(): put(m, ro)
    for M in inner:
        for m, ro in irole[M.uid].items():
            put(m, ro)
            x = L.finals(M.uid).get(m)
            if x is not None: put(x, ro)
    for x in gsret:
        if x not in c.over: c.over[x] = T2
    def env(t, tag, g, n, vals=None):
        e = cert.plain(("lll", t, tag), dict(g), {"n": n}, ctx=c)
        for x, (nm, arg) in gsret.items():
            def fn(en, ix, arg=arg, x=x):
                cache = en.__dict__.setdefault("_gs", {})
                if x not in cache: cache[x] = mat(gs(cols(matrix(en, c, arg, n))))
                return cache[x][int(ix[0])][int(ix[1])]
            e.gen[poly.nodekey(x)] = fn
        for a, v in (vals or {}).items(): e.vals[a] = v
        return e
    def state(t, tag, n, k, js=()):
        """random B0, unimodular C, B = B0 C with the first k columns reduced and column k reduced against js"""
        e0 = cert.plain(("state", t, tag))
        C = [[2 * e0.u("B", i, j) - 1 for j in range(n)] for i in range(n)]
        for i in range(n): C[i][i] += 0.9
        B = reduce_first(cols(C), k)
        if k < n:
            w = B[k]
            for j in range(k):
                q = (int(e0.u("far", j) * 7) - 3) * (1 if e0.u("scale") < .7 else 9 if e0.u("scale") < .85 else 90)      # large coefficients included
                w = [a + q * b for a, b in zip(w, B[j])]
            if e0.u("short") < .6: w = [x * .6 for x in w]
            B[k] = w
            first = mat(B)
            for _ in range(3): B = reduce_col(B, k, js)
        else: first = mat(B)
        B = mat(B); U = unimod(e0, n, "U")
        # B = B0 U
        Ui = inv_apply(U, [[1 if i == j else 0 for j in range(n)] for i in range(n)])
        B0 = mul(B, Ui)
        # before column k was reduced against js: what the enclosing loop carries
        begin[:] = [first, [[round(v) for v in row] for row in inv_apply(B0, first)]] if js else [B, U]
        return B0, B, U
    begin = []; count = [0]
    def leaf(ms, B, C, k=None):
        Q = mat(gs(cols(B))); g = {}
        for m, ro in ms.items(): g[poly.nodekey(m)] = tab(B) if ro == "B" else tab(C) if ro == "C" else tab(Q) if ro == "Q" else (lambda en, ix: count[0]) if ro == "N" else (lambda en, ix, k=k: k)
        return g
    def consistent(e, n, B0, U, nB, nC, nQ, TB, TI, TQ, lab):
        B, C = matrix(e, c, nB, n), matrix(e, c, nC, n)
        integral = all(near(x, round(x), 1e-7) for row in C for x in row)
        d = abs(det([[round(x) for x in row] for row in C])) if integral else None
        TI.add(integral and d == 1, "determinant %s" % d if integral else "entry not an integer")
        TB.add(close_m(B, mul(B0, C)), lab)
        if nQ is not None: TQ.add(close_m(matrix(e, c, nQ, n), mat(gs(cols(B)))), lab)
        return B, C
    # base case
    tb, ti, tq, tk = Tally(), Tally(), Tally(), Tally()
    nx = {ro: O.mu[m] for m, ro in role.items()}
    kmin = 1
    for t in range(6 * cert.BOOST):
        n = (2, 3, 4, 6, 3, 7, 2)[t % 7]
        e0 = cert.plain(("b", t)); B = [[2 * e0.u(i, j) - 1 for j in range(n)] for i in range(n)]
        try:
            e = env(t, "init", {pB: tab(B)}, n)
            consistent(e, n, B, None, nx["B"][0], nx["C"][0], nx["Q"][0] if mQ else None, tb, ti, tq, "n=%d" % n)
            k0 = scalar(e, c, nx["k"][0]); kmin = min(kmin, int(k0)); tk.add(k0 in (0, 1), "starts at column %s" % k0)
        except FAIL + (Unk, vg.AnalysisError) as ex: tb.why = ti.why = tq.why = tk.why = str(ex)
    tb.close(ck, key + ".start.basis", "basis and change matrix do not start together", site)
    ti.close(ck, key + ".start.change", "the change matrix does not start as a unimodular matrix", site)
    if mQ: tq.close(ck, key + ".start.orthogonalisation", "the orthogonalisation does not start as the one of the basis", site)
    tk.close(ck, key + ".start.position", "the reduction starts beyond the first pair", site)
    # inner loops
    for M in inner:
        tb, ti, tq, ts, tr = Tally(), Tally(), Tally(), Tally(), Tally()
        ro = irole[M.uid]; x = {v: M.mu[m] for m, v in ro.items()}
        for t in range(14):
            n = (2, 3, 4, 6, 3, 7, 2)[t % 7]
            for k in range(kmin, n):
                try:
                    ek = env(t, "dom", {poly.nodekey(mk_): (lambda en, ix, k=k: k)}, n)
                    js = values(ek, c, M.dom, M.rev)
                    if any(not 0 <= j < k for j in js): tr.add(False, "column %d reduced against %s" % (k, js)); continue
                    tr.add(True)
                    for z, j in enumerate(js):
                        B0, B, U = state(t, (k, j), n, k, js[:z])
                        e = env(t, ("in", k, j), {**leaf(ro, B, U), **leaf(role, begin[0], begin[1], k)}, n, {c.ivatom(M.iv): j})
                        nB, nC = consistent(e, n, B0, U, x["B"][1], x["C"][1] if "C" in x else mC, x["Q"][1] if "Q" in x else None, tb, ti, tq, "n=%d column %d against %d" % (n, k, j))
                        D = cols(nB)
                        ts.add(lll_upto(D, k) and sized(D, k, js[:z + 1]), "n=%d column %d against %d" % (n, k, j))
                except FAIL + (Unk, vg.AnalysisError) as ex: tb.why = ti.why = tq.why = ts.why = tr.why = str(ex)
        tr.close(ck, key + ".size.range", "a column is reduced against itself or a later one", site)
        tb.close(ck, key + ".size.basis", "a size reduction changes the basis and the change matrix differently", site)
        ti.close(ck, key + ".size.change", "a size reduction is not an integer unimodular operation", site)
        if "Q" in x: tq.close(ck, key + ".size.orthogonalisation", "the orthogonalisation is not the one of the basis after a size reduction", site)
        ts.close(ck, key + ".size.reduced", "a size reduction step leaves a coefficient above one half or disturbs the reduced columns", site)
    # outer step
    tb, ti, tq, tk, tx, tp = Tally(), Tally(), Tally(), Tally(), Tally(), Tally()
    for t in range(60):
        n = 2 + (t % 3 if t < 24 else 0)
        for k in range(kmin, n):
            try:
                js = []
                g = {}
                e1 = env(t, "dom", {poly.nodekey(mk_): (lambda en, ix, k=k: k)}, n)
                for M in inner: js = values(e1, c, M.dom, M.rev)
                B0, Bi, Ui = state(t, ("o", k), n, k, [])
                g = leaf(role, Bi, Ui, k)
                if inner:
                    Bf = mat(reduce_col(reduce_col(cols(Bi), k, js), k, js)) if js else Bi
                    Uf = [[round(v) for v in row] for row in inv_apply(B0, Bf)]
                    for M in inner:
                        fin = L.finals(M.uid)
                        g.update(leaf({fin[m]: v for m, v in irole[M.uid].items() if m in fin}, Bf, Uf))
                else: Bf = None
                e = env(t, ("out", k), g, n)
                nB, nC = consistent(e, n, B0, Ui, nx["B"][1], nx["C"][1], nx["Q"][1] if mQ else None, tb, ti, tq, "n=%d column %d" % (n, k))
                D = cols(nB); k2 = scalar(e, c, nx["k"][1])
                lab = "n=%d column %d -> %s" % (n, k, k2)
                tk.add(near(k2, round(k2)) and kmin <= k2 <= k + 1, lab)
                k2 = int(round(k2))
                tx.add(lll_upto(D, min(k2, n)), lab)
                if k2 <= k and Bf is not None:
                    F = cols(Bf)
                    S = [list(v) for v in F]; S[k], S[k - 1] = S[k - 1], S[k]
                    tp.add(close_m(mat(D), mat(S)) and not exchange(F, k, delta=1, eps=-1e-9), lab)
                elif Bf is not None: tp.add(True)
            except FAIL + (Unk, vg.AnalysisError) as ex: tb.why = ti.why = tq.why = tk.why = tx.why = tp.why = str(ex)
    tb.close(ck, key + ".exchange.basis", "an exchange changes the basis and the change matrix differently", site)
    ti.close(ck, key + ".exchange.change", "an exchange is not a unimodular operation", site)
    if mQ: tq.close(ck, key + ".exchange.orthogonalisation", "the orthogonalisation is not the one of the basis after an exchange", site)
    tk.close(ck, key + ".position", "the position moves by more than one column forward", site)
    tx.close(ck, key + ".invariant", "the columns passed are not size-reduced or violate the exchange condition", site)
    tp.close(ck, key + ".progress", "columns are exchanged although the exchange condition holds, or something else than the two columns is changed", site)
    # exit
    te = Tally()
    for t in range(4):
        count[0] = 10 ** 9 if passes and t % 2 else 0
        n = (2, 3, 4, 6, 3, 7, 2)[t % 7]
        for k in range(1, n + 1):
            B0, B, U = state(t, ("x", k), n, k)
            try:
                e = env(t, ("exit", k), leaf(role, B, U, k), n)
                v = bool(e.ev(c.bool_at(O.cond, ()) if not isinstance(O.cond, bool) else P(int(O.cond)))) if O.cond is not None else None
                if v is None: te.why = "loop without a condition"; continue
                te.add(v == (k < n), "with %d of %d columns processed" % (k, n))
            except FAIL + (Unk, vg.AnalysisError, AttributeError) as ex: te.why = str(ex)
    if O.breaks: ck.unk(key + ".exit", "the loop is left early", site)
    else: te.close(ck, key + ".exit", "the reduction stops before, or goes on after, all columns are processed", site)
    # what is returned
    ret = r.node(); fin = L.finals(O.uid)
    got = [next((ro for m, ro in role.items() if fin.get(m) is y), None) for y in (ret.args if ret.op == "tuple" else [ret])]
    if sorted(str(x) for x in got) == ["B", "C"]: ck.ok(key + ".result", "reduced basis and change matrix", site)
    elif None in got: ck.unk(key + ".result", "returned values", site)
    else: ck.bad(key + ".result", "the routine does not return the reduced basis with its change matrix", site)

# ---- the coordinates
def field_values(r):
    """last value stored in each field of self -> (node, path, site)"""
    out = {}
    for e in r.effects:
        if e.kind != "setfield": continue
        o, name, v = e.data
        if isinstance(o, vg.ObjV) and o.name == "self": out.setdefault(name, []).append(e)
    return out

def coordinates(ck):
    from sa import dre
    q = TC + ":ToroidalCoords"
    ck.fn(q + ".get_coordinates", True)
    r = ck.run(q + ".get_coordinates")
    site = r.site0; key = "coordinates"
    fv = field_values(r)
    val = {}
    for name, es in fv.items():
        try: val[name] = ck.I.to_node(es[-1].data[2], r.state)
        except Exception: pass
    ret = r.node()
    allnodes = set(walk(ret))
    for n in val.values(): allnodes |= set(walk(n))
    # the reduction: a loop that starts from an identity matrix and whose results are used here
    fins = {}
    for x in allnodes:
        if x.op == "final" and x.args[0] in r.loops: fins.setdefault(x.args[0], {})[x.args[1]] = x
    O = None
    for u, fs in sorted(fins.items()):
        L = r.loops[u]
        eyes = [m for m in fs if m in L.mu and is_eye(L.mu[m][0])]
        if eyes: O = (L, eyes, fs) if O is None else "several"
    if O is None or O == "several": ck.unk(key, "reduction loop %s" % ("not found" if O is None else "ambiguous"), site); return
    L, eyes, fs = O
    if len(eyes) > 1: ck.unk(key, "several identity matrices", site); return
    mC = eyes[0]
    mB = None
    for m, (a, b) in L.mu.items():
        if m is mC: continue
        if any(x.op == "call" and x.args[0].endswith("linalg.cholesky") for x in walk(a)) and a.op != "final": mB = m if mB is None else "several"
    if mB is None or mB == "several": ck.unk(key, "initial basis of the reduction", site); return
    B0 = L.mu[mB][0]
    ch = {x for x in walk(B0) if x.op == "call" and x.args[0].endswith("linalg.cholesky")}
    if len(ch) != 1: ck.unk(key, "%d factorisations" % len(ch), site); return
    chol = ch.pop(); ca = cargs(chol)
    upper = chol.args[0].startswith("scipy")
    if upper and "lower" in ca: upper = not (isconst(ca["lower"]) and ca["lower"].args[0])
    if not upper and any(k != "a" and not (k == "upper" and isconst(v, False)) for k, v in ca.items()): ck.unk(key, "options of the factorisation", site); return
    G = ca.get("a")
    if G is None: ck.unk(key, "factorised matrix", site); return
    # the coordinates before and after
    def split(n):
        n = strip(n)
        if n.op == "phi":
            u = [any(x.op == "final" and x.args[0] == L.uid for x in walk(b)) for b in n.args[1:]]
            if u == [True, False]: return n.args[0], n.args[1], n.args[2]
            if u == [False, True]: return vg.mk("not", n.args[0]), n.args[2], n.args[1]
        return None
    sp = split(ret)
    if sp is None: ck.unk(key, "reduced and unreduced coordinates are not told apart", site); return
    cond, new, orig = sp
    orig = strip(orig)
    c = dre.em_ctx(ck, q, r); got = dre.abstract_calls(ck, r, c)
    seen = []; c.hooks.append(dre.harmonic_hook(seen))
    # when is the reduction done
    K = dim("K")
    try:
        pc = c.close(c.cond(cond))
        bad_ = [v for v in (1, 2, 3, 5) if bool(cert.plain(("k", v), {}, {"K": v}, ctx=c).ev(pc)) != (v > 1)]
        w = [v for v in bad_ if v > 1]
        if w: ck.bad("coordinates.when", "%d classes are returned without reduction" % w[0], site)
        else: ck.ok("coordinates.when", "1, 2, 3 and 5 classes", site)
    except FAIL + (Unk, vg.AnalysisError) as ex: ck.unk("coordinates.when", str(ex), site)
    # coordinates of the i-th class come from its harmonic representative
    try:
        to = c.ty(orig)
        if len(to.shape) != 2: raise Unk("rank of the coordinates")
        i, x = ivars(to.shape, c)
        p = at(c, orig, (i, x))
        ia, xa = i.single()[1][0][0], x.single()[1][0][0]
        p = c.close(p)
    except (Unk, vg.AnalysisError) as ex: ck.unk("coordinates.original", str(ex), site); return
    # Gram matrix of the harmonic representatives
    def gram():
        tg = c.ty(G)
        if len(tg.shape) != 2: ck.unk("gram", "rank", site); return
        a, b = (v.single()[1][0][0] for v in (c.var("ga", ZERO, K), c.var("gb", ZERO, K)))
        p = c.close(at(c, G, (P(a), P(b))))
        leafs = {}
        for z in atoms_of(p, lambda z: z.kind == "el"): leafs.setdefault(z.args[0], []).append(z)
        hs = [k for k in leafs if k in seen]
        ws = [k for k in leafs if k not in hs and not isinstance(k, str)]
        if not hs and leafs and not any(x.op == "call" and x.args[0] in dre.SOLVERS for k in leafs for x in (walk(k) if not isinstance(k, str) else ())) and order_of(0, 2) is not None:
            ck.bad("gram", "the Gram matrix that is reduced does not depend on the harmonic representatives", site); return
        if len(hs) != 1 or len(ws) != 1: ck.unk("gram", "%d cochains and %d weights" % (len(hs), len(ws)), site); return
        h, w = hs[0], ws[0]
        nl = 4; E = nl * (nl - 1) // 2
        T = Tally()
        for t in range(6 * cert.BOOST):
            n = (2, 3, 4, 6, 3, 7, 2)[t % 7]
            e0 = cert.plain(("g", t)); H = [[2 * e0.u("h", e, i) - 1 for e in range(E)] for i in range(n)]
            W = [[.5 + e0.u("w", min(e, f), max(e, f)) for e in range(E)] for f in range(E)]
            gen = {hk_(h): lambda env, ix: H[int(ix[-1])][int(ix[0])], hk_(w): lambda env, ix: W[int(ix[0])][int(ix[1])]}
            try:
                env = cert.plain(("g", t), gen, {"K": n, "L": nl}, ctx=c)
                for u in range(n):
                    for v in range(n):
                        g = env.ev(p, {a: u, b: v})
                        su, sv = order_of(u, n), order_of(v, n)
                        T.add(near(g, sum(H[su][e] * W[e][f] * H[sv][f] for e in range(E) for f in range(E))), "entry (%d, %d)" % (u, v))
            except FAIL as ex: T.why = str(ex)
        T.close(ck, "gram", "the Gram matrix that is reduced is not that of the harmonic representatives in the order of the coordinates", site)
    def hk_(k): return k if isinstance(k, str) else poly.nodekey(k)
    def order_of(u, n):
        """index, among the harmonic representatives, of the one that gives the u-th coordinate"""
        ls = {z.args[1][-1] for z in atoms_of(p, lambda z: z.kind == "el" and z.args[0] in seen)}
        if len(ls) != 1: raise cert.NoVal("representatives used by a coordinate")
        return cert.plain(("o", n), {}, {"K": n}, ctx=c).integer(ls.pop(), {ia: u, xa: 0})
    ck.guard("gram", gram)
    # results as terms over the reduction
    c2 = dre.em_ctx(ck, q, r); dre.abstract_calls(ck, r, c2); c2.hooks.append(dre.harmonic_hook([]))
    N = dim("N")
    T2 = Ty((K, K), "f")
    c2.over[chol] = T2; c2.over[G] = T2
    for m in (mB, mC):
        if fs.get(m) is not None: c2.over[fs[m]] = Ty((K, K), "f" if m is mB else "i")
    c2.over[orig] = Ty((K, N), "f")
    invs = {x for x in allnodes if x.op == "call" and x.args[0].endswith("linalg.inv") and any(y.op == "final" and y.args[0] == L.uid for y in walk(x))}
    for x in invs: c2.over[x] = T2
    def state(t):
        n = (2, 3, 4, 6, 3, 7, 2)[t % 7]
        e0 = cert.plain(("coord", t))
        Lo = [[(2 * e0.u("l", i, j) - 1 if j < i else .5 + e0.u("l", i, i)) if j <= i else 0 for j in range(n)] for i in range(n)]
        g = mul(Lo, mat(Lo))
        F = mat(Lo) if upper else Lo
        U = unimod(e0, n, "U")
        th = [[6.28 * e0.u("th", i, x) for x in range(5)] for i in range(n)]
        gen = {poly.nodekey(chol): tab(F), poly.nodekey(G): tab(g), poly.nodekey(orig): tab(th)}
        env0 = cert.plain(("coord", t), dict(gen), {"K": n, "N": 5}, ctx=c2)
        b0 = matrix(env0, c2, B0, n)
        B = mul(b0, U)
        if fs.get(mB) is not None: gen[poly.nodekey(fs[mB])] = tab(B)
        if fs.get(mC) is not None: gen[poly.nodekey(fs[mC])] = tab(U)
        for x in invs:
            def inv(en, ix, x=x):
                m = en.__dict__.setdefault("_inv", {})
                if x not in m: m[x] = inv_apply(matrix(en, c2, list(cargs(x).values())[0], n), [[1 if i == j else 0 for j in range(n)] for i in range(n)])
                return m[x][int(ix[0])][int(ix[1])]
            gen[poly.nodekey(x)] = inv
        return cert.plain(("coord", t), gen, {"K": n, "N": 5}, ctx=c2), n, g, b0, U, B, th
    def results():
        t0, t1, t2, t3, t4 = Tally(), Tally(), Tally(), Tally(), Tally()
        fo, fg, fc = val.get("_original_gram_matrix"), val.get("_gram_matrix"), val.get("_change_basis")
        for t in range(9):
            try: env, n, g, b0, U, B, th = state(t)
            except FAIL + (Unk, vg.AnalysisError) as ex:
                t0.why = t1.why = str(ex); break
            # b0 is a basis with Gram matrix g
            t0.add(close_m(mul(mat(b0), b0), g), "n=%d" % n)
            S = mat(U)
            want = mul(S, th)
            try:
                out = matrix(env, c2, new, n, 5)
                t1.add(all(near(math.sin((a - b) / 2), 0, 1e-6) for x, y in zip(out, want) for a, b in zip(x, y)), "n=%d" % n)
            except FAIL + (Unk, vg.AnalysisError) as ex: t1.why = str(ex)
            for T, fld, ref in ((t2, fo, g), (t3, fg, mul(mul(S, g), U)), (t4, fc, S)):
                if fld is None: T.why = "field not set"; continue
                try: T.add(close_m(matrix(env, c2, fld, n), ref), "n=%d" % n)
                except FAIL + (Unk, vg.AnalysisError) as ex: T.why = str(ex)
        t0.close(ck, "basis", "the basis handed to the reduction does not have the Gram matrix of the classes", site)
        t1.close(ck, "coordinates", "the coordinates are not combined with the change of basis that reduces the lattice", site)
        t2.close(ck, "reported.original", "the original Gram matrix that is reported is another one", site)
        t3.close(ck, "reported.reduced", "the reported Gram matrix is not that of the combined classes", site)
        t4.close(ck, "reported.change", "the reported change of basis is not the one applied to the coordinates", site)
    ck.guard("coordinates", results)

def check(ck):
    ck.guard("reduction", reduction, ck)
    ck.guard("coordinates", coordinates, ck)

F = "dreimac/toroidalcoords.py"
_SZ = """                change[:, k] = change[:, k] - round(mu_kj) * change[:, j]
                Q = _gram_schmidt(B)
"""
SELFTEST = [
    ("narrow change", F, "change = np.eye(B.shape[0])", "change = np.eye(B.shape[0], dtype=np.int16)", "bad"),
    ("wide change", F, "change = np.eye(B.shape[0])", "change = np.eye(B.shape[0], dtype=np.int64)", "quiet"),
    ("limited passes", F, "    while k < n:\n", "    steps = 0\n    while k < n and steps < 100:\n        steps += 1\n", "bad"),
    ("counted passes", F, "    while k < n:\n", "    steps = 0\n    while k < n:\n        steps += 1\n", "quiet"),
    ("coefficients in advance", F, "        for j in reversed(range(k)):\n            if abs(mu(k, j)) > 0.5:\n                mu_kj = mu(k, j)\n", "        mus = [mu(k, j) for j in range(k)]\n        for j in reversed(range(k)):\n            if abs(mus[j]) > 0.5:\n                mu_kj = mus[j]\n", "bad"),
    ("change not size-reduced", F, "                change[:, k] = change[:, k] - round(mu_kj) * change[:, j]\n", "", "bad"),
    ("change from updated coefficient", F, "                change[:, k] = change[:, k] - round(mu_kj) * change[:, j]", "                change[:, k] = change[:, k] - round(mu(k, j)) * change[:, j]", "bad"),
    ("change sign", F, "change[:, k] - round(mu_kj) * change[:, j]", "change[:, k] + round(mu_kj) * change[:, j]", "bad"),
    ("change rows", F, "change[:, k] = change[:, k] - round(mu_kj) * change[:, j]", "change[k, :] = change[k, :] - round(mu_kj) * change[j, :]", "bad"),
    ("swap basis only", F, "            change[:, k], change[:, k - 1] = change_k1, change_k\n", "", "bad"),
    ("swap view", F, "            change_k = change[:, k].copy()\n", "            change_k = change[:, k]\n", "bad"),
    ("swap views", F, ["            B_k = B[:, k].copy()\n            B_k1 = B[:, k - 1].copy()\n", "B[:, k], B[:, k - 1] = B_k1, B_k"], ["            B_k = B[:, k]\n            B_k1 = B[:, k - 1].copy()\n", "B[:, k] = B_k1; B[:, k - 1] = B_k"], "bad"),
    ("stale Q after swap", F, "            Q = _gram_schmidt(B)\n            k = max(k - 1, 1)", "            k = max(k - 1, 1)", "bad"),
    ("stale Q after size", F, _SZ, "                change[:, k] = change[:, k] - round(mu_kj) * change[:, j]\n", "quiet"),
    ("gs against B", F, "            Aj = A[:, j]\n", "            Aj = B[:, j]\n", "bad"),
    ("gs range", F, "    for i in range(1, n):\n        Ai = B[:, i]", "    for i in range(2, n):\n        Ai = B[:, i]", "bad"),
    ("gs inner range", F, "        for j in range(0, i):\n            Aj", "        for j in range(1, i):\n            Aj", "bad"),
    ("gs only the first two", F, "        for j in range(0, i):\n            Aj", "        for j in range(0, min(i, 2)):\n            Aj", "bad"),
    ("gs coefficient", F, "return np.dot(v2, v1) / np.dot(v1, v1)", "return np.dot(v2, v1) / np.dot(v2, v2)", "bad"),
    ("gs normal", F, "return np.dot(v2, v1) / np.dot(v1, v1)", "return np.dot(v2, v1) / np.linalg.norm(v1)", "bad"),
    ("size ascending", F, "for j in reversed(range(k)):", "for j in range(k):", "bad"),
    ("size without first", F, "for j in reversed(range(k)):", "for j in reversed(range(1, k)):", "bad"),
    ("size previous only", F, "for j in reversed(range(k)):", "for j in reversed(range(k - 1, k)):", "bad"),
    ("threshold", F, "if abs(mu(k, j)) > 0.5:", "if abs(mu(k, j)) > 1:", "bad"),
    ("no abs", F, "if abs(mu(k, j)) > 0.5:", "if mu(k, j) > 0.5:", "bad"),
    ("floor", F, ["B[:, k] - round(mu_kj)", "change[:, k] - round(mu_kj)"], ["B[:, k] - int(mu_kj)", "change[:, k] - int(mu_kj)"], "bad"),
    ("not rounded", F, ["B[:, k] - round(mu_kj)", "change[:, k] - round(mu_kj)"], ["B[:, k] - mu_kj", "change[:, k] - mu_kj"], "bad"),
    ("stops early", F, "    while k < n:", "    while k < n - 1:", "bad"),
    ("exchange sides", F, "if np.dot(Q[:, k], Q[:, k]) > (delta", "if np.dot(Q[:, k], Q[:, k]) < (delta", "bad"),
    ("exchange without mu", F, "(delta - mu(k, k - 1) ** 2)", "(delta - mu(k, k - 1))", "bad"),
    ("exchange mu sign", F, "(delta - mu(k, k - 1) ** 2)", "(mu(k, k - 1) ** 2 - delta)", "bad"),
    ("exchange basis norms", F, "if np.dot(Q[:, k], Q[:, k]) > (delta", "if np.dot(B[:, k], B[:, k]) > (delta", "bad"),
    ("delta", F, "delta=3 / 4", "delta=1 / 2", "bad"),
    ("position", F, "k = max(k - 1, 1)", "k = k - 1", "bad"),
    ("position stays", F, "            k = max(k - 1, 1)", "            k = k + 1", "bad"),
    ("position two", F, "            k = k + 1\n", "            k = k + 2\n", "bad"),
    ("mu rows", F, "        v = B[:, i]\n        u = Q[:, j]", "        v = B[i, :]\n        u = Q[j, :]", "bad"),
    ("returned order", F, "    return B, change\n", "    return change, B\n", "bad"),
    ("returned Q", F, "    return B, change\n", "    return Q, change\n", "bad"),
    ("not transposed", F, "    change_basis = change_basis.T\n", "", "bad"),
    ("lower factor", F, "_lll(lattice_red_input.T)", "_lll(lattice_red_input)", "bad"),
    ("gram reduced", F, "decorrelated_vectors.T @ decorrelated_vectors", "decorrelated_vectors @ decorrelated_vectors.T", "bad"),
    ("gram from original", F, "self._original_gram_matrix = gram_mat\n", "self._original_gram_matrix = decorrelated_vectors.T @ decorrelated_vectors\n", "bad"),
    ("change reported", F, "self._change_basis = change_basis\n", "self._change_basis = change_basis.T\n", "bad"),
    ("two classes", F, "        if len(integer_cocycles) > 1:\n            # compute gram", "        if len(integer_cocycles) > 2:\n            # compute gram", "bad"),
    ("gram upper", F, "        for j, w in enumerate(vectors):\n            res[i, j] = v.T @ inner_product @ w", "        for j, w in enumerate(vectors[: i + 1]):\n            res[i, j] = v.T @ inner_product @ w", "bad"),
    ("gram reversed", F, "gram_mat = _gram_matrix(harm_reps, inner_product_matrix)", "gram_mat = _gram_matrix(harm_reps[::-1], inner_product_matrix)", "bad"),
    ("gram of cocycles", F, "gram_mat = _gram_matrix(harm_reps, inner_product_matrix)", "gram_mat = _gram_matrix(integer_cocycles_as_vectors, inner_product_matrix)", "bad"),
    ("coords not combined", F, "        np.array(circ_coords), change_basis\n", "        np.array(circ_coords), np.linalg.inv(change_basis)\n", "bad"),
    # behaviour preserved
    ("descending range", F, "for j in reversed(range(k)):", "for j in range(k - 1, -1, -1):", "quiet"),
    ("coefficient first", F, "                mu_kj = mu(k, j)\n", "                q = round(mu(k, j))\n                mu_kj = q\n", "quiet"),
    ("always reduce", F, "            if abs(mu(k, j)) > 0.5:\n                mu_kj = mu(k, j)\n                B[:, k] = B[:, k] - round(mu_kj) * B[:, j]\n                change[:, k] = change[:, k] - round(mu_kj) * change[:, j]\n                Q = _gram_schmidt(B)\n", "            mu_kj = mu(k, j)\n            B[:, k] = B[:, k] - round(mu_kj) * B[:, j]\n            change[:, k] = change[:, k] - round(mu_kj) * change[:, j]\n            Q = _gram_schmidt(B)\n", "quiet"),
    ("swap by list", F, ["            B[:, k], B[:, k - 1] = B_k1, B_k\n", "            change[:, k], change[:, k - 1] = change_k1, change_k\n"], ["            B[:, [k - 1, k]] = B[:, [k, k - 1]]\n", "            change[:, [k - 1, k]] = change[:, [k, k - 1]]\n"], "quiet"),
    ("delta 0.99", F, "delta=3 / 4", "delta=0.99", "quiet"),
    ("non-strict", F, "if np.dot(Q[:, k], Q[:, k]) > (delta", "if np.dot(Q[:, k], Q[:, k]) >= (delta", "quiet"),
    ("Q at the head", F, ["    while k < n:\n", "            Q = _gram_schmidt(B)\n            k = max"], ["    while k < n:\n        Q = _gram_schmidt(B)\n", "            k = max"], "quiet"),
    ("gs sum", F, "        for j in range(0, i):\n            Aj = A[:, j]\n            # t = np.dot(B[i],B[j])\n            Ai = Ai - proj(Aj, Ai)\n", "        for j in range(i):\n            Ai = Ai - proj(A[:, j], Ai)\n", "quiet"),
    ("renamed", F, ["def _gram_schmidt(B):", "    Q = _gram_schmidt(B)\n    change", "                Q = _gram_schmidt(B)\n", "            Q = _gram_schmidt(B)\n            k = max"], ["def _orth(B):", "    Q = _orth(B)\n    change", "                Q = _orth(B)\n", "            Q = _orth(B)\n            k = max"], "quiet"),
    ("helper for swap", F, ["# LLL algorithm\n", "            B_k = B[:, k].copy()\n            B_k1 = B[:, k - 1].copy()\n            B[:, k], B[:, k - 1] = B_k1, B_k\n            change_k = change[:, k].copy()\n            change_k1 = change[:, k - 1].copy()\n            change[:, k], change[:, k - 1] = change_k1, change_k\n"], ["def _swap(M, a, b):\n    t = M[:, a].copy()\n    M[:, a] = M[:, b]\n    M[:, b] = t\n\n\n# LLL algorithm\n", "            _swap(B, k, k - 1)\n            _swap(change, k, k - 1)\n"], "quiet"),
    ("inline reduce", F, "    lattice_red_input = np.linalg.cholesky(gram_matrix)\n    decorrelated_vectors, change_basis = _lll(lattice_red_input.T)\n    change_basis = change_basis.T\n", "    decorrelated_vectors, change = _lll(np.linalg.cholesky(gram_matrix).T)\n    change_basis = np.transpose(change)\n", "quiet"),
    ("direct combination", F, "    new_circ_coords = CircleMapUtils.linear_combination(\n        np.array(circ_coords), change_basis\n    )\n", "    new_circ_coords = np.mod(change_basis @ np.array(circ_coords), 2 * np.pi)\n", "quiet"),
    ("gram comprehension", F, "    n = len(vectors)\n    res = np.zeros((n, n))\n    for i, v in enumerate(vectors):\n        for j, w in enumerate(vectors):\n            res[i, j] = v.T @ inner_product @ w\n    return res\n", "    return np.array([[v @ inner_product @ w for w in vectors] for v in vectors])\n", "quiet"),
    ("gram stacked", F, "    n = len(vectors)\n    res = np.zeros((n, n))\n    for i, v in enumerate(vectors):\n        for j, w in enumerate(vectors):\n            res[i, j] = v.T @ inner_product @ w\n    return res\n", "    V = np.array(vectors)\n    return V @ (inner_product @ V.T)\n", "quiet"),
    ("integer change", F, "    change = np.eye(B.shape[0])\n", "    change = np.eye(B.shape[0], dtype=int)\n", "quiet"),
    ("for else", F, "    n, k = len(B), 1\n", "    k = 1\n    n = B.shape[1]\n", "quiet"),
]
