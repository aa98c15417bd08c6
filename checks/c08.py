"""C08: cochains are alternating in every representation; transition values are inverse unit scalars."""
import itertools, math
from .simplex import *
from . import unroll

TECHNIQUE = "static analysis: antisymmetry of scattered array values by algebraic normal forms; structural rule for the permutation sign"
EXPLANATION = "The closed value of every tensor entry, as a function of its index, is compared under each transposition of the index with the negated value and with the cochain value of the sorted simplex; the dense vector's stored value is sign(argsort) times the sparse value at the number of the sorted simplex; the sign routine must have the form (-1)^(n - number of cycles) (or inversion count); transition matrices are decomposed into their stores, which must be root^c and root^-c on the two orientations over an all-ones matrix."
ASSUMPTIONS = ["a simplex occurs at most once in a sparse cocycle", "the vertices of a simplex are distinct"]
U_ = "utils:CohomologyUtils."

def sgn(p):
    return 1 if sum(1 for a, b in itertools.combinations(p, 2) if a > b) % 2 == 0 else -1

# ---- tensors
def tensor(ck, qual, m, co_gen, what):
    if ck.fn(qual, must=False) is None: ck.unk(what, "no separate function"); return
    r0 = ck.run(qual)
    ro = roles_of(ck, qual, None)
    co = ro["rest"][0]
    r, c, ro, g = rips_ctx(ck, qual, {co: "E:f"})
    g = dict(g); g[co] = lambda env, idx: 1 + 5 * env.u("co", *idx)
    n = r.node()
    dist, thr = vg.sym(ro["dist"]), vg.sym(ro["thr"])
    direct = n.op == "final"
    seen = {}; unk = 0
    for s in scatter.sites(r):
        loops = [l for l in s.loops if l.kind == "for"]
        if len(loops) != m or len(s.idx) != m or s.aug is not None: unk += 1; continue
        try:
            d = scatter.Domain(c, loops, s.conds)
            mt = scatter.match(c, d, m, dist, thr, dim("L"), g, {"L": 5})
            if mt.status != "ok": unk += 1; continue
            pos = []
            for x in s.idx:
                sg = c.close(c.val(x)).single()
                pos.append(mt.perm.index(sg[1][0][0]) if sg and sg[0] == 1 and len(sg[1]) == 1 and sg[1][0][0] in mt.perm else None)
            if None in pos or len(set(pos)) < m: unk += 1; continue
            v = c.close(c.val(s.val))
        except (Unk, vg.AnalysisError, ValueError): unk += 1; continue
        ref = c.at(vg.sym(co), (number([P(x) for x in mt.perm]),))
        k = tuple(pos)
        seen[k] = s
        ck.verdict("%s.%s" % (what, "".join(map(str, k))), decide(c, v, ref * sgn(k), gen=g, dims={"L": 5}), "%s at the vertices in order %s is not %s the value of the sorted simplex" % (what, k, "plus" if sgn(k) > 0 else "minus"), s.site)
    miss = [p for p in itertools.permutations(range(m)) if p not in seen]
    if seen and direct: background(ck, what, r, c, m, next(iter(seen.values())))
    if not miss and direct: return
    if seen and miss and direct and not unk: ck.bad(what + ".orientations", "%s is not set for the vertices in order %s" % (what, miss), r.site0); return
    if m > 2: ck.unk(what, "store form", r.site0); return
    sh = c.ty(n).shape
    if len(sh) != m: ck.bad(what + ".rank", "%s has %d axes" % (what, len(sh)), r.site0); return
    idx = ivars(sh, c)
    ind = tnf.lt(c.at(dist, (idx[0], idx[1])), c.val(thr))
    ref = c.at(vg.sym(co), (number(idx),))
    for perm in itertools.permutations(range(m)):
        q = at(c, n, tuple(idx[i] for i in perm))
        asc = lambda env: all(env.num(a, {}) < env.num(b, {}) for a, b in zip(idx, idx[1:]))
        v = decide(c, q, ind * ref * sgn(perm), gen=g, dims={"L": 5}, trials=80, need=10, where=asc)
        ck.verdict("%s.%s" % (what, "".join(map(str, perm))), v, "%s at the vertices in order %s is not %s the value of the sorted simplex" % (what, perm, "plus" if sgn(perm) > 0 else "minus"), r.site0)

def tensor_values(ck, qual, m, what):
    """the tensor of small complexes, by constant propagation through the loops"""
    if ck.fn(qual, must=False) is None: return
    ro = roles_of(ck, qual, None)
    if not {"dist", "thr", "table"} <= set(ro) or not ro.get("rest"): return
    r = ck.run(qual); n = r.node(); off = None; k = 0; why = None
    for t in range(10):
        L = 4 + t % 2
        e0 = cert.plain((qual, t))
        D = [[0.0] * L for _ in range(L)]
        for j in range(L):
            for i in range(j): D[i][j] = D[j][i] = [.5, 1.0, 1.5][int(3 * e0.u("d", i, j))] if t % 3 else .5
        th = [1.2, 1.0, 2.0][t % 3 if t % 4 else 0]
        T = [[math.comb(i, l) for l in range(6)] for i in range(L + 1)]
        co = [.5 + 4 * e0.u("co", i) if e0.u("z", i) > .2 else 0.0 for i in range(math.comb(L, m))]
        try: x = unroll.fold(r, n, {ro["rest"][0]: co, ro["dist"]: D, ro["thr"]: th, ro["table"]: T})
        except unroll.No as e: why = str(e); break
        k += 1
        if unroll.shape(x) != [L] * m: why = "shape"; break
        def at_(v):
            y = x
            for i in v: y = y[i]
            return y
        for v in itertools.product(range(L), repeat=m):
            y = at_(v)
            if y is None or isinstance(y, list): off = off or (v, y); break
            srt = tuple(sorted(v))
            if len(set(v)) < m: want = 0
            elif all(D[a][b] < th for a, b in itertools.combinations(v, 2)): want = sgn(v) * co[sum(math.comb(z, i + 1) for i, z in enumerate(srt))]
            else: want = sgn(v) * at_(srt)
            if abs(y - want) > 1e-9: off = off or (v, y)
    key = what + ".values"
    if off: ck.bad(key, "%s: the entry at the vertices %s is %s, not the value of the sorted simplex times the sign of the order" % (what, off[0], off[1]), r.site0)
    elif why is None: ck.ok(key, "constant propagation through the loops, %d complexes" % k, r.site0)

def background(ck, what, r, c, m, s):
    """entries no simplex writes: an alternating cochain vanishes where a vertex is repeated"""
    n = s.before
    while n is not None and n.op == "store": n = n.args[0]
    if n is not None and n.op == "mu": n = scatter.init_of(r, n.args[1])
    if n is None: ck.unk(what + ".background", "initial content", s.site); return
    key = what + ".repeated vertices"
    if any(x.op == "call" and x.args[0] in ("numpy.empty", "numpy.empty_like") for x in vg.walk(n)):
        ck.bad(key, "%s is an uninitialised buffer at the entries with a repeated vertex (and at vertices that span no simplex), where an alternating cochain is zero" % what, s.site); return
    i = ivars(c.ty(n).shape, c)
    ck.verdict(key, decide(c, at(c, n, (i[0],) * m if m == 2 else (i[0], i[1], i[1])), poly.ZERO, dims={"L": 5}), "%s is not zero at entries with a repeated vertex" % what, s.site)

# ---- circle integration: the matrix of the cochain
def theta(ck):
    q = "toroidalcoords:ToroidalCoords"
    r = ck.run(q + ".get_coordinates")
    c = dre.em_ctx(ck, q, r)
    got = dre.abstract_calls(ck, r, c)
    seen = []
    c.hooks.append(dre.harmonic_hook(seen))
    n = 0; done = set()
    for s in scatter.sites(r):
        loops = [l for l in s.loops if l.kind == "for"]
        if len(loops) < 2 or len(s.idx) != 2 or s.site in done: continue
        if any(x.op == "slice" for x in s.idx): continue
        try:
            v = c.close(c.val(s.val)); a, b = c.close(c.val(s.idx[0])), c.close(c.val(s.idx[1]))
        except (Unk, vg.AnalysisError): continue
        leaves = [x for x in v.atoms() if x.kind == "el" and isinstance(x.args[0], vg.Node) and dre.harmonic_parts(x.args[0])]
        if len(leaves) != 1 or len(v.t) != 1: continue
        done.add(s.site)
        lf = leaves[0]; co, = v.t.values()
        key = "theta.%d" % n; n += 1
        num = lf.args[1][0]
        up = decide(c, num, number((a, b))); dn = decide(c, num, number((b, a)))
        if up.kind == "eq" and co == 1: ck.ok(key, "value of the edge", s.site)
        elif dn.kind == "eq" and co == -1: ck.ok(key, "minus the value of the reversed edge", s.site)
        elif up.kind == "eq" and co == -1 or dn.kind == "eq" and co == 1: ck.bad(key, "the cochain matrix stores a value of the wrong sign for the orientation of its index", s.site)
        else: ck.unk(key, "store form", s.site)
        if n == 1: ck.guard("theta.bg", background, ck, "theta", r, c, 2, s)
    if not n: ck.unk("theta", "no matrix store of the harmonic cochain")

# ---- sparse to dense
def vector(ck):
    q = U_ + "sparse_cocycle_to_vector"
    f = ck.fn(q)
    ps = [x.arg for x in f.node.args.args]
    old = set(ck.I.watch)
    ck.I.watch |= {"parity", "order_simplex"}
    for d in (1, 2):
        def go():
            r = ck.run(q, types=oracle({ps[0]: Ty((dim("K"), P(d + 2)), "i")}))
            c = Ctx(r, types={ps[0]: Ty((dim("K"), P(d + 2)), "i"), ps[1]: Ty((dim("L") + 1, P(5)), "i"), ps[2]: ty(":i")}, special={ps[1]: dre.comb_entry})
            pc = [x for x in r.calls_seen if x[0].split(".")[-1] == "parity"]
            ss = [s for s in scatter.sites(r) if len(s.idx) == 1 and any(l.kind == "for" for l in s.loops) and s.before is not None and not compiled(ck, s.site) and is_result(r, s)]
            if len(ss) != 1: ck.unk("vector.store%d" % d, "%d stores" % len(ss), r.site0); return
            s = ss[0]
            # vertices and value of the current entry
            K = [l for l in s.loops if l.kind == "for"][0]
            pc = pc[-1:]
            if len(pc) != 1: ck.unk("vector.sign%d" % d, "%d sign computations" % len(pc), s.site)
            else:
                nm, args, ret, path, loops, site = pc[0]
                c.over[ret] = Ty((), "i")
                arg = list(args.values())[0] if isinstance(args, dict) else args[0]
                c.over[arg] = Ty((P(d + 1),), "i")
                sv = c.val(ret)
                val = c.close(c.val(s.val))
                g = {poly.nodekey(ret): lambda env, i: 1 if env.u("s") < .5 else -1, ps[0]: lambda env, i: int(11 * env.u("entry", *i)) - 5 if i[1] == d + 1 else int(7 * env.u("entry", *i))}
                is_hit = lambda a: a.kind == "el" and a.args[0] == ps[0] and len(a.args[1]) == 2
                hit = [a for a in val.atoms() if is_hit(a)] or list(atoms_of(val, is_hit))
                cols = {a.args[1][1].const() for a in hit}
                if cols - {d + 1, -1}: ck.bad("vector.value%d" % d, "the stored value is read from column %s of the sparse cocycle, not from its last column" % cols, s.site)
                elif len(hit) == 1:
                    ck.verdict("vector.value%d" % d, decide(c, val, P(hit[0]) * sv, gen=g), "the stored value is not the sparse value times the sign of the sorting permutation", s.site)
                else: ck.unk("vector.value%d" % d, "value form", s.site)
                # the sign is that of the sorting permutation of exactly the vertices
                st = sorts(arg)
                if st is None:
                    if arg.op == "index" or is_entry(arg, ps[0]): ck.bad("vector.sign%d" % d, "the sign is taken of the vertex labels themselves, not of the permutation that sorts them", s.site)
                    else: ck.unk("vector.sign%d" % d, "not an argsort", s.site)
                else: ck.ok("vector.sign%d" % d, "sign of argsort", s.site)
        ck.guard("vector%d" % d, go)
    ck.I.watch.clear(); ck.I.watch |= old

def is_result(r, s):
    k = scatter.ref_of(r.node())
    return k is None or k == "r%d" % s.ref.id if hasattr(s.ref, "id") else True

def sorts(n):
    """argument of an argsort producing n"""
    for _ in range(6):
        if n.op == "call" and n.args[0] in ("numpy.argsort",): return cargs(n).get("a")
        if n.op == "mcall" and n.args[0] == "argsort": return n.args[1]
        if n.op == "call" and n.args[0] in ("builtins.list", "builtins.tuple", "numpy.array", "numpy.asarray"): n = n.args[1][0][1]
        else: return None
    return None
def is_entry(n, nm): return any(x.op == "sym" and x.args[0] == nm for x in vg.walk(n)) and not any(x.op == "call" and "sort" in x.args[0] for x in vg.walk(n))

def gathered(n, p0, v):
    """value of a term built from argsort, gathers, slices and sorting of the list v given for p0"""
    if n.op == "sym" and n.args[0] == p0: return list(v)
    if n.op == "const" and isinstance(n.args[0], (int, type(None))): return n.args[0]
    a = sorts(n)
    if a is not None and n.op in ("call", "mcall"):
        x = gathered(a, p0, v)
        return sorted(range(len(x)), key=lambda i: x[i])
    if n.op == "call" and n.args[0] in ("builtins.tuple", "builtins.list", "numpy.array", "numpy.asarray"): return gathered(n.args[1][0][1], p0, v)
    if n.op == "call" and n.args[0] in ("builtins.sorted", "numpy.sort") and len(n.args[1]) == 1: return sorted(gathered(n.args[1][0][1], p0, v))
    if n.op in ("tuple", "list"): return [gathered(x, p0, v) for x in n.args]
    if n.op == "neg": return [-x for x in gathered(n.args[0], p0, v)]
    if n.op == "index" and len(n.args[1]) == 1:
        x, i = gathered(n.args[0], p0, v), n.args[1][0]
        if i.op == "slice": return x[slice(*[None if y is None else gathered(y, p0, v) if isinstance(y, vg.Node) else y for y in i.args])]
        i = gathered(i, p0, v)
        return x[i] if isinstance(i, int) else [x[j] for j in i]
    raise Unk("form %s" % vg.show(n, 3))

def order(ck):
    """order_simplex: the returned simplex is the input sorted"""
    q = U_ + "order_simplex"
    if ck.fn(q, must=False) is None: ck.unk("order", "no such function"); return
    old = set(ck.I.watch); ck.I.watch |= {"parity"}
    f = ck.fn(q); p0 = f.node.args.args[0].arg
    r = ck.run(q, types=oracle({p0: Ty((P(3),), "i")}))
    ck.I.watch.clear(); ck.I.watch |= old
    n = r.node()
    s = item(n, 0)
    while s.op == "call" and s.args[0] in ("builtins.tuple", "builtins.list", "numpy.array", "numpy.asarray"): s = s.args[1][0][1]
    if s.op == "index" and len(s.args[1]) == 1 and sorts(s.args[1][0]) is s.args[0]: ck.ok("order.sorted", "gather by argsort", r.site0)
    elif s.op == "call" and s.args[0] in ("builtins.sorted", "numpy.sort"):
        ck.ok("order.sorted", "sorted", r.site0)
    elif s.op == "sym": ck.bad("order.sorted", "the simplex is returned unsorted", r.site0)
    else:
        import itertools
        off = None
        try:
            for k in (2, 3, 4):
                for v in itertools.permutations([3, 5, 8, 11][:k]):
                    if gathered(s, p0, v) != sorted(v): off = off or v
        except (Unk, TypeError, IndexError, ValueError) as e: ck.unk("order.sorted", "form %s" % vg.show(s, 3), r.site0)
        else:
            if off: ck.bad("order.sorted", "the simplex with vertices %s is not returned sorted" % (off,), r.site0)
            else: ck.ok("order.sorted", "term evaluated on all orders of up to four vertices", r.site0)
    pc = [x for x in r.calls_seen if x[0].split(".")[-1] == "parity"]
    pc = pc[-1:]
    if len(pc) == 1:
        c = Ctx(r, types={p0: Ty((P(3),), "i")}); c.over[pc[0][2]] = Ty((), "i")
        g = {poly.nodekey(pc[0][2]): lambda env, i: 1 if env.u("s") < .5 else -1}
        ck.verdict("order.sign", decide(c, c.val(item(n, 1)), c.val(pc[0][2]), gen=g), "the returned sign is not the parity of the sorting permutation", r.site0)
    else: ck.unk("order.sign", "sign computation", r.site0)

def inversions(v): return (-1) ** sum(v[i] > v[j] for j in range(len(v)) for i in range(j))

def vector_values(ck):
    """the dense cochain of small sparse cocycles, by constant propagation"""
    q = U_ + "sparse_cocycle_to_vector"
    f = ck.fn(q); ps = [x.arg for x in f.node.args.args]
    if len(ps) != 4: return
    r = ck.run(q)
    n = r.node(); k = 0; why = None; off = None
    for d in (1, 2, 3):
        for N in (4, 6):
            table = [[math.comb(i, l) for l in range(d + 4)] for i in range(N + 1)]
            for t in range(12):
                e0 = cert.plain(("vec", d, N, t))
                simplices = [v for z, v in enumerate(itertools.combinations(range(N), d + 1)) if e0.u("in", z) < .5]
                rows = []
                for z, v in enumerate(simplices):
                    v = list(v)
                    for i in range(len(v) - 1, 0, -1):
                        j = int(e0.u("shuffle", z, i) * (i + 1)); v[i], v[j] = v[j], v[i]
                    rows.append(v + [int(9 * e0.u("value", z)) - 4])
                if not rows: continue
                want = [0] * math.comb(N, d + 1)
                for row in rows:
                    v = sorted(row[:-1]); want[sum(math.comb(x, i + 1) for i, x in enumerate(v))] = row[-1] * inversions(row[:-1])
                try: got = unroll.fold(r, n, {ps[0]: rows, ps[1]: table, ps[2]: N, ps[3]: "int"})
                except unroll.No as e: why = str(e); continue
                k += 1
                if got != want: off = off or (d, rows)
    if off: ck.bad("vector.values", "the dense cochain of the sparse cocycle %s of degree %d has wrong values" % (str(off[1])[:120], off[0]), r.site0)
    elif why is None: ck.ok("vector.values", "constant propagation through the loops, %d sparse cocycles" % k, r.site0)
    else: ck.notes.append("vector.values not folded: %s" % why) if hasattr(ck.notes, "append") else None

# ---- the sign of a permutation
def parity(ck):
    q = U_ + "parity"
    f = ck.fn(q, must=False)
    if f is None: ck.unk("parity", "no such function"); return
    p0 = f.node.args.args[0].arg
    r = ck.run(q, types=oracle({p0: Ty((dim("n"),), "i")}))
    n = r.node()
    off = None; k = 0; why = None
    for m in range(1, 6):
        for v in itertools.permutations(range(m)):
            try: x = unroll.fold(r, n, {p0: list(v)})
            except unroll.No as e: why = str(e); continue
            k += 1
            if isinstance(x, (list, str)) or x is None or x != inversions(v): off = off or (v, x)
    if off: ck.bad("parity.values", "the sign of the permutation %s is %s" % off, r.site0); return
    if why is None: ck.ok("parity.values", "constant propagation through the loops, all %d permutations of up to 5 elements" % k, r.site0)
    c = Ctx(r, types={p0: ty("n:i")})
    cands = []
    for x in every_node(r):
        if x.op != "final": continue
        mu = x.args[1]; L = r.loops.get(x.args[0])
        if L is None or L.kind != "for" or mu not in L.mu: continue
        init, nx = L.mu[mu]
        if not (isconst(init) and isinstance(init.args[0], int) and not isinstance(init.args[0], bool)): continue
        cands.append((x, L, mu, init, nx))
    cands = [t for t in cands if any(y is t[0] for y in vg.walk(n))]
    if len(cands) != 1: ck.unk("parity", "%d counters" % len(cands), r.site0) if why else None; return
    x, L, mu, init, nx = cands[0]
    # increment: +1 exactly when the element starts a new cycle
    inc = None
    if nx.op == "phi":
        a, b = nx.args[1], nx.args[2]
        for y, z in ((a, b), (b, a)):
            if z is mu and y.op == "add" and y.args[0] is mu and isconst(y.args[1]): inc = (y.args[1].args[0], nx.args[0], y is a)
    if inc is None: ck.unk("parity", "counter form %s" % vg.show(nx, 4), r.site0) if why else None; return
    inner = [l for l in r.loops.values() if l.kind == "while" and l.parent == L.uid or l.kind == "while" and getattr(l.parent, "uid", None) == L.uid]
    inner.sort(key=lambda l: l.uid)
    if not inner: ck.unk("parity", "no inner loop", r.site0) if why else None; return
    W = inner[-1]
    step = [m for m, (i0, nx2) in W.mu.items() if nx2.op == "index" and nx2.args[0].op == "sym" and nx2.args[0].args[0] == p0 and len(nx2.args[1]) == 1 and nx2.args[1][0] is m]
    if len(step) != 1: ck.unk("parity", "the inner loop does not follow the permutation", r.site0) if why else None; return
    c.over[x] = Ty((), "i")
    init_ok = init.args[0]
    K = c.val(x)
    val = c.close(c.val(n))
    g = {poly.nodekey(x): lambda env, i: int(env.u("cyc") * 5), p0: lambda env, i: 0}
    want = poly.gpow(P(-1), dim("n") - (K - init_ok) * P(Fraction(1, inc[0])))
    ck.verdict("parity.formula", decide(c, val, want, gen=g), "the sign is not (-1)^(n - number of cycles)", r.site0)

# ---- transition matrices
def transitions(ck, q, projective):
    nm = q.split(":")[1]
    r = ck.run(q + ".get_coordinates")
    c = dre.em_ctx(ck, q, r)
    got = dre.abstract_calls(ck, r, c)
    found = {}; other = []
    inits = set()
    for s in scatter.sites(r):
        if len(s.idx) != 2 or s.aug is not None: continue
        try:
            t0 = c.ty(s.idx[0])
            k = None
            if t0.shape:
                k, = ivars(t0.shape[:1], c)
                a, b = c.at(s.idx[0], (k,)), c.at(s.idx[1], (k,))
                v = c.at(s.val, (k,) if c.ty(s.val).shape else ())
            else: a, b, v = c.val(s.idx[0]), c.val(s.idx[1]), c.val(s.val)
        except (Unk, vg.AnalysisError, ValueError): continue
        def col(p):
            sg = p.single()
            if sg and sg[0] == 1 and len(sg[1]) == 1 and sg[1][0][0].kind == "el" and len(sg[1][0][0].args[1]) == 2:
                x = sg[1][0][0]
                cc = x.args[1][1].const()
                return (x.args[0], x.args[1][0], int(cc)) if cc is not None else None
        ca, cb = col(a), col(b)
        if ca is None or cb is None:
            es = atoms_of(a * 7 + b, lambda x: x.kind == "el" and len(x.args[1]) == 2 and x.args[1][1].const() in (0, 1))
            bs = {(x.args[0], x.args[1][0]) for x in es}
            if len(bs) != 1 or {x.args[1][1].const() for x in es} != {0, 1}: continue
            base, row = next(iter(bs))
            v0, v1, cv = (P(poly.atom("el", base, (row, P(j)), "i")) for j in range(3))
            root = (lambda e: poly.gpow(P(-1), e)) if projective else (lambda e: poly.fexp(2 * P(poly.I) * P(poly.PI) * e / c.val(vg.sym("self._prime"))))
            g = {poly.nodekey(base): lambda env, i: ((int(env.u("cv", i[0]) * 2) if projective else int(env.u("cv", i[0]) * (7 if env.u("big") < .6 else 1000))) if i[1] == 2 else int(env.u("vx", *i) * 5)), "self._prime": lambda env, i: [2, 3, 5, 7, 11, 251, 1009][int(env.u("p") * 7)]}
            vs, why = valuations(c, [a, b, v0, v1, v, root(cv), root(-cv)], g, 80)
            vs = [x for x in vs if x[2] != x[3] and (x[:2] == x[2:4] or x[:2] == x[3:1:-1])]
            wrong = [x for x in vs if cert.differ(x[4], x[5] if x[:2] == x[2:4] else x[6])]
            if len(wrong) >= 2: ck.bad("%s.transition.orientation%d" % (nm, len(found)), "%s: for an edge listed as (v0, v1) = (%d, %d) the transition value stored for (%d, %d) is not the root of unity to the power %s of the cocycle value" % (nm, *wrong[0][2:4], *wrong[0][:2], "plus" if wrong[0][:2] == wrong[0][2:4] else "minus"), s.site); found["x%d" % len(found)] = s
            elif vs: found["x%d" % len(found)] = s
            continue
        if ca is None or cb is None or ca[0] is not cb[0] or ca[1] != cb[1] or {ca[2], cb[2]} != {0, 1}: continue
        base = ca[0]
        cv = P(poly.atom("el", base, (ca[1], P(2)), "i"))
        if projective: root = lambda e: poly.gpow(P(-1), e)
        else:
            pr = c.val(vg.sym("self._prime"))
            root = lambda e: poly.fexp(2 * P(poly.I) * P(poly.PI) * e / pr)
        g = {poly.nodekey(base): lambda env, i: ((int(env.u("cv", i[0]) * 2) if projective else int(env.u("cv", i[0]) * (7 if env.u("big") < .6 else 1000))) if i[1] == 2 else int(env.u("vx", *i) * 5)), "self._prime": lambda env, i: [2, 3, 5, 7, 11, 251, 1009][int(env.u("p") * 7)]}
        fw = ca[2] == 0
        want = root(cv) if fw else root(-cv)
        key = "%s.transition.%s" % (nm, "forward" if fw else "backward")
        if key in found: key += "2"
        found[key] = s
        ck.verdict(key, decide(c, v, want, gen=g), "%s: the transition value of an edge %s is not the root of unity to the power %s of the cocycle value" % (nm, "(v0, v1)" if fw else "(v1, v0)", "" if fw else "minus"), s.site)
        i0 = s.before
        while i0 is not None and i0.op in ("store",): i0 = i0.args[0]
        if i0 is not None and i0.op == "mu": i0 = scatter.init_of(r, i0.args[1])
        if i0 is not None and i0 not in inits:
            inits.add(i0)
            try:
                tt = c.ty(i0); ii = ivars(tt.shape, c)
                ck.verdict(nm + ".transition.default", decide(c, at(c, i0, ii), ONE), "%s: transition values off the support of the cocycle are not 1" % nm, s.site)
                vt = c.ty(s.val)
                if tt.dt in ("i", "b") or tt.dt == "f" and not projective: ck.bad(nm + ".transition.dtype", "%s: the transition matrix of type %s cannot hold the transition values" % (nm, tt.dt), s.site) if tt.dt != "i" or not projective else ck.ok(nm + ".transition.dtype", "dtype", s.site)
                else: ck.ok(nm + ".transition.dtype", "dtype", s.site)
            except (Unk, vg.AnalysisError) as e: ck.unk(nm + ".transition.default", str(e), s.site)
    ks = {k.split(".")[-1].rstrip("2") for k in found}
    if ks == {"forward"} or ks == {"backward"}: ck.bad(nm + ".transition.inverse", "%s: transition values are set for one orientation of an edge only" % nm, next(iter(found.values())).site)
    elif not ks & {"forward", "backward"} and not any(k.startswith("x") for k in ks): ck.unk(nm + ".transition", "no transition store found", r.site0)

def check(ck):
    ck.guard("nu", tensor, ck, "complexprojectivecoords:_one_cocycle_to_tensor", 2, None, "edge tensor")
    ck.guard("eta", tensor, ck, "complexprojectivecoords:_two_cocycle_to_tensor", 3, None, "triangle tensor")
    ck.guard("nu.values", tensor_values, ck, "complexprojectivecoords:_one_cocycle_to_tensor", 2, "edge tensor")
    ck.guard("eta.values", tensor_values, ck, "complexprojectivecoords:_two_cocycle_to_tensor", 3, "triangle tensor")
    ck.guard("theta", theta, ck)
    ck.fn(U_ + "sparse_cocycle_to_vector")
    ck.guard("vector", vector, ck)
    ck.guard("vector.values", vector_values, ck)
    ck.guard("order", order, ck)
    ck.guard("parity", parity, ck)
    ck.guard("projective", transitions, ck, "projectivecoords:ProjectiveCoords", True)
    ck.guard("lens", transitions, ck, "lenscoords:LensCoords", False)

U, C, T, LN, PJ = "dreimac/utils.py", "dreimac/complexprojectivecoords.py", "dreimac/toroidalcoords.py", "dreimac/lenscoords.py", "dreimac/projectivecoords.py"
SELFTEST = [
    ("large prime", "dreimac/lenscoords.py", "(1 / root_of_unity) ** cocycle[:, 2]", "root_of_unity ** (cocycle[:, 2] * (self._prime - 1) % 46337)", "bad"),
    ("theta empty", T, "theta_matrix = np.zeros((n_points, n_points))", "theta_matrix = np.empty((n_points, n_points))", "bad"),
    ("eta empty", C, "res = np.zeros((n_points, n_points, n_points))", "res = np.empty((n_points, n_points, n_points))", "bad"),
    ("eta full", C, "res = np.zeros((n_points, n_points, n_points))", "res = np.full((n_points, n_points, n_points), 0.0)", "quiet"),
    ("nu ones", C, "res = np.zeros((n_points, n_points))", "res = np.ones((n_points, n_points))", "bad"),
    ("eta 201", C, "res[k, i, j] = val", "res[k, i, j] = -val", "bad"),
    ("eta 021", C, "res[i, k, j] = -val", "res[i, k, j] = val", "bad"),
    ("eta missing", C, "                            res[k, j, i] = -val\n", "", "bad"),
    ("nu sign", C, "res[j, i] = -val\n\n", "res[j, i] = val\n\n", "bad"),
    ("nu after", C, ["                    res[j, i] = -val\n\n    _get_res(cocycle, dist_mat, threshold, lookup_table, n_points, res)\n\n    return res\n\n\ndef _sparse"], ["\n    _get_res(cocycle, dist_mat, threshold, lookup_table, n_points, res)\n\n    return res - res.T\n\n\ndef _sparse"], "quiet"),
    ("theta sign", T, "theta_matrix[i, j] = harm_rep[index]", "theta_matrix[j, i] = harm_rep[index]", "bad"),
    ("theta both", T, "theta_matrix[i, j] = harm_rep[index]", "theta_matrix[i, j] = harm_rep[index]\n                    theta_matrix[j, i] = -harm_rep[index]", "quiet"),
    ("vector sign", U, "cocycle_as_vector[simplex_index] = value * sign", "cocycle_as_vector[simplex_index] = value", "bad"),
    ("vector column", U, "value = entry[-1]", "value = entry[-2]", "bad"),
    ("inverse order", U, "simplex = tuple(unordered_simplex[ordering_permutation])", "simplex = tuple(unordered_simplex[np.argsort(ordering_permutation)])", "bad"),
    ("double inverse", U, "simplex = tuple(unordered_simplex[ordering_permutation])", "simplex = tuple(unordered_simplex[np.argsort(np.argsort(ordering_permutation))])", "quiet"),
    ("sign of labels", U, "sign = CohomologyUtils.parity(ordering_permutation)", "sign = CohomologyUtils.parity(unordered_simplex)", "bad"),
    ("parity", U, "(permutation_length - cycles) % 2 == 0", "cycles % 2 == 0", "bad"),
    ("parity inverted", U, "return 1 if (permutation_length - cycles) % 2 == 0 else -1", "return (-1) ** (permutation_length + cycles)", "quiet"),
    ("parity start", U, "cycles = 0", "cycles = 1", "bad"),
    ("lens back", LN, "(1 / root_of_unity) ** cocycle[:, 2]", "root_of_unity ** cocycle[:, 2]", "bad"),
    ("lens root", LN, "np.exp(2 * np.pi * 1j / self._prime)", "np.exp(np.pi * 1j / self._prime)", "bad"),
    ("lens conj", LN, "(1 / root_of_unity) ** cocycle[:, 2]", "np.conj(root_of_unity ** cocycle[:, 2])", "quiet"),
    ("lens zeros", LN, "np.ones( (n_landmarks", "np.zeros( (n_landmarks", "bad"),
    ("lens column", LN, "= root_of_unity ** cocycle[:, 2]", "= root_of_unity ** (cocycle[:, 2] + 1)", "bad"),
    ("projective int", PJ, "(1 / root_of_unity) ** cocycle[:,2]", "1 - 2 * cocycle[:, 2]", "quiet"),
    ("projective one side", PJ, "cocycle_matrix[cocycle[:, 1], cocycle[:, 0]] = (1 / root_of_unity) ** cocycle[:,2]", "pass", "bad"),
]
