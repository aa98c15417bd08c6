"""C07: simplex numbering, table contents and sizes, buffer capacities, in-bounds accesses of compiled loops."""
import itertools, math
from .simplex import *
from . import unroll

TECHNIQUE = "static analysis: polynomial normal forms of simplex numbers; symbolic capacity and index-range obligations per store and per table access"
EXPLANATION = "Every expression used as a simplex number (rows and columns of the coboundary operators, tensor and vector indices, the three numbering functions) is compared as a polynomial in the vertices with the combinatorial number system; buffer lengths and table sizes are compared, as polynomials in the number of landmarks, with the number of entries and the largest index any loop can produce. Every store and table access reached from get_coordinates inside a compiled routine has an index-range obligation over the loop domain."
ASSUMPTIONS = ["the landmark distance matrix is square", "scipy.special.comb(n, k, exact=True) is the binomial coefficient", "fewer than about 1500 landmarks for 2-simplices when row buffers are 32-bit"]

CN = "combinatorial:"

def combterm(n, k):
    return dre.comb_entry((n, k))

def table(ck):
    f = ck.fn(CN + "combinatorial_number_system_table")
    r = ck.run(CN + "combinatorial_number_system_table")
    a, b = [x.arg for x in f.node.args.args][:2]
    c = Ctx(r, types={a: ty(":i"), b: ty(":i")})
    t = c.ty(r.node())
    va, vb = c.val(vg.sym(a)), c.val(vg.sym(b))
    site = r.site0
    if len(t.shape) != 2: ck.bad("table.shape", "lookup table is not two-dimensional", site); return
    g = {a: lambda e, i: 1 + int(e.u("n") * 9), b: lambda e, i: 1 + int(e.u("d") * 3)}
    for k, (got, want, what) in enumerate(((t.shape[0], va + 1, "vertices 0..n"), (t.shape[1], vb + 2, "simplex sizes 0..d+1"))):
        vs, why = valuations(c, [got, want], g, 24)
        key = "table.size%d" % k
        if poly.equal(got, want): ck.ok(key, "normal form", site)
        elif len(vs) > 10 and sum(x < y for x, y in vs) >= 2: ck.bad(key, "the lookup table has %s entries for %s" % (poly.pstr(got), what), site)
        elif len(vs) > 10: ck.ok(key, "identity test", site)
        else: ck.unk(key, why or "", site)
    i, k = ivars(t.shape, c)
    def comb_leaf(n, kk): return poly.atom("f", "comb", (n, kk))
    p = at(c, r.node(), (i, k))
    fns = {"comb": lambda env, n, k: __import__("math").comb(int(n), int(k)) if n >= 0 and k >= 0 else 0}
    q = P(poly.atom("f", "comb", (i, k)))
    if poly.equal(p, q): ck.ok("table.content", "normal form", site)
    else: ck.verdict("table.content", decide(c, p, q, gen=g, fns=fns, dims=None), "table entry (n, k) is not binomial(n, k)", site)
    dts = [vg.show(cargs(n).get("dtype"), 2) for n in every_node(r) if n.op == "call" and n.args[0] in ("numpy.zeros", "numpy.empty", "numpy.ones") and cargs(n).get("dtype") is not None]
    narrow = [d for d in dts if any(x in d for x in ("int8", "int16", "int32", "intc", "float16", "float32", "bool"))]
    if narrow: ck.bad("table.width", "lookup table of type %s overflows" % narrow[0], site)
    else: ck.ok("table.width", "dtype", site)

def numbering(ck):
    for nm, k in (("combinatorial_number_system_d1_forward", 2), ("combinatorial_number_system_d2_forward", 3), ("combinatorial_number_system_forward", 2), ("combinatorial_number_system_forward", 3), ("combinatorial_number_system_forward", 4)):
        def go():
            f = ck.fn(CN + nm)
            r = ck.run(CN + nm)
            ps = [x.arg for x in f.node.args.args]
            tb = [p for p in ps if "table" in p] or ps[-1:]
            t = {tb[0]: Ty((dim("L") + 1, P(5)), "i")}
            rest = [p for p in ps if p != tb[0]]
            if len(rest) == 1: t[rest[0]] = Ty((P(k),), "i")
            else: t.update({p: ty(":i") for p in rest})
            c = Ctx(r, types=t, special={tb[0]: dre.comb_entry})
            vs = [c.val(vg.sym(p)) for p in rest] if len(rest) > 1 else [c.at(vg.sym(rest[0]), (P(j),)) for j in range(k)]
            g = {p: (lambda p: lambda e, i: int(e.u(p, *i) * 9))(p) for p in rest}
            ck.verdict("%s.%d" % (nm, k), decide(c, c.close(c.at(r.node(), ())), number(vs), gen=g), "%s does not number a simplex with vertices v0 < v1 < .. by C(v0,1)+C(v1,2)+.." % nm, r.site0)
        ck.guard("%s.%d" % (nm, k), go)
    for d in (1, 2, 3):
        def go():
            f = ck.fn(CN + "number_of_simplices_of_dimension")
            ps = [x.arg for x in f.node.args.args]
            r = ck.run(CN + "number_of_simplices_of_dimension", args={ps[0]: vg.const(d), ps[1]: vg.sym("n_vertices"), ps[2]: vg.sym("lookup_table")})
            c = Ctx(r, types={"n_vertices": ty(":i"), "lookup_table": Ty((dim("L") + 1, P(5)), "i")}, special={"lookup_table": dre.comb_entry})
            g = {"n_vertices": lambda e, i: int(e.u("n") * 9)}
            ck.verdict("count.%d" % d, decide(c, c.val(r.node()), binom(c.val(vg.sym("n_vertices")), d + 1), gen=g), "number of simplices of dimension %d is not binomial(n, %d)" % (d, d + 1), r.site0)
        ck.guard("count.%d" % d, go)

CLS = ("toroidalcoords:ToroidalCoords", "complexprojectivecoords:ComplexProjectiveCoords")

def const_int(n):
    return n.args[0] if isconst(n) and isinstance(n.args[0], int) and not isinstance(n.args[0], bool) else None

def columns(ck, q):
    """largest column of the stored table read anywhere in get_coordinates vs. columns the constructor makes"""
    rl, nodes, r0 = dre.roles(ck, q)
    tabs = [f for f, ro in rl.items() if ro == "table" and f in nodes]
    nm = q.split(":")[1]
    if len(tabs) != 1: ck.unk(nm + ".columns", "stored table not found"); return
    tf = tabs[0]; tn = nodes[tf]
    extra = {}
    # table shape in terms of the number of landmarks
    idx = [n for n in nodes.values() if dre.base_key(n) == "idx_perm"]
    c = Ctx(r0, types={"n_landmarks": ty(":i"), "maxdim": ty(":i"), "X": ty("N N:f"), "prime": ty(":i"), "distance_matrix": ty(":b")})
    for x in every_node(r0):
        if dre.base_key(x) == "idx_perm": c.over[x] = ty("L:i")
    sh = c.ty(tn).shape
    site = r0.site0
    r = ck.run(q + ".get_coordinates")
    used = {}
    for x in every_node(r):
        if x.op == "index" and x.args[0].op == "sym" and x.args[0].args[0] == "self." + tf and len(x.args[1]) == 2:
            k = const_int(x.args[1][1])
            if k is not None: used[k] = x
            else: used.setdefault("sym", x)
    mx = max([k for k in used if k != "sym"], default=None)
    # the shape of stored cocycles bounds the simplex size in the general numbering routine: degree + 1 vertices
    w = sh[1].const()
    if mx is None or w is None: ck.unk(nm + ".columns", "columns %s" % (sh[1],), site)
    elif mx >= w: ck.bad(nm + ".columns", "column %d of the lookup table is read but it has %d columns" % (mx, w), site)
    else: ck.ok(nm + ".columns", "constant bound", site)
    d = sh[0] - (dim("L") + 1)
    cd = d.const()
    if cd is not None:
        if cd >= 0: ck.ok(nm + ".rows", "normal form", site)
        else: ck.bad(nm + ".rows", "the lookup table has %s rows but row %s is read (number of simplices, largest vertex + 1)" % (poly.pstr(sh[0]), "|L|"), site)
    else:
        # size taken from something else than the actual number of landmarks: it must never be smaller
        if any("n_landmarks" in poly.astr(a) for a in sh[0].atoms()):
            ck.bad(nm + ".rows", "the lookup table is sized by the requested number of landmarks (%s), which may be a falsy 'use everything' value smaller than the actual number" % poly.pstr(sh[0]), site)
        else: ck.unk(nm + ".rows", "rows %s" % poly.pstr(sh[0]), site)

def bounds(ck, q):
    """index-range obligations of the stores inside compiled routines reached from get_coordinates"""
    nm = q.split(":")[1]
    r = ck.run(q + ".get_coordinates")
    c = dre.em_ctx(ck, q, r)
    dre.abstract_calls(ck, r, c)
    c.hooks.append(dre.harmonic_hook([]))
    done = {}
    cnt = {"store": 0, "read": 0}
    def one(kind, base, idx, s, loops):
        if any(x.op == "slice" or isconst(x) for x in idx): return
        try: sh = c.ty(base).shape
        except (Unk, vg.AnalysisError): return
        if len(idx) > len(sh): return
        for ax, (ix, d) in enumerate(zip(idx, sh)):
            kk = (kind, base, ix, ax)
            if kk in done: continue
            done[kk] = True
            try:
                if c.ty(ix).shape: continue
                p = c.close(c.val(ix))
            except (Unk, vg.AnalysisError): continue
            st = inside(c, p, d, loops, s)
            if st is None: continue
            key = "%s.%s%d" % (nm, kind, cnt[kind]); cnt[kind] += 1
            if st is True: ck.ok(key, "range test", s.site)
            else: ck.bad(key, "%s at index %s of axis %d leaves the array of length %s: %s" % (kind, poly.pstr(p), ax, poly.pstr(d), st), s.site)
    for s in scatter.sites(r):
        loops = [l for l in s.loops if l.kind == "for"]
        if not loops or not compiled(ck, s.site): continue
        if s.before is not None: one("store", s.before, s.idx, s, loops)
        seen = set()
        for root in [s.val] + list(s.idx) + [x for x, _ in s.conds[-3:]]:
            if not isinstance(root, vg.Node): continue
            for x in vg.walk(root):
                if x.op == "index" and x not in seen and x.args[0].op != "mu":
                    seen.add(x); one("read", x.args[0], x.args[1], s, loops)
    if not sum(cnt.values()): ck.unk(nm + ".bounds", "no compiled store found")

def inside(c, p, d, loops, s):
    if any(a.kind not in ("iv", "dim") for a in atoms_of(p, lambda a: True)): return None       # data-dependent index
    g = {"self._dist_land_land": scatter.dist_gen}
    hit = 0; good = 0; w = None
    for t in range(200):
        env = cert.Env(("bounds", t), g, {"L": 1 + t % 7, "N": 1 + (t * 5) % 8})
        try:
            ok = True
            for l in loops:
                v = scatter.ivof(c, l)
                if v not in c.ranges: return None
                lo, hi = env.integer(c.ranges[v][0], {}), env.integer(c.ranges[v][1], {})
                if hi <= lo: ok = False; break
                env.vals[v] = (hi - 1) if env.u("ex", t) < .4 else lo + int(env.u("iv", poly.astr(v), t) * (hi - lo))
            if not ok: continue
            for v in cert.free_ivs(p):
                if v not in env.vals: return None
            x, n = env.num(p, {}), env.num(d, {})
        except (cert.NoVal, ZeroDivisionError, OverflowError, ValueError, Unk): continue
        good += 1
        if not (-1e-9 <= x < n - 1e-9): hit += 1; w = "index %g, length %g" % (x, n)
    if good < 20: return None
    if hit >= 2: return w
    return True if not hit else None

def vector(ck):
    """dense vector of a sparse cocycle: one entry per simplex of the right dimension"""
    q = "utils:CohomologyUtils.sparse_cocycle_to_vector"
    f = ck.fn(q)
    ps = [x.arg for x in f.node.args.args]
    for d in (1, 2):
        def go():
            r = ck.run(q, types=oracle({ps[0]: Ty((dim("K"), P(d + 2)), "i")}))
            c = Ctx(r, types={ps[0]: Ty((dim("K"), P(d + 2)), "i"), ps[1]: Ty((dim("L") + 1, P(5)), "i"), ps[2]: ty(":i")}, special={ps[1]: dre.comb_entry})
            t = c.ty(r.node())
            g = {ps[2]: lambda e, i: int(e.u("n") * 9)}
            ck.verdict("vector.length%d" % d, decide(c, t.shape[0], binom(c.val(vg.sym(ps[2])), d + 1), gen=g), "the dense cochain does not have one entry per %d-simplex" % d, r.site0)
        ck.guard("vector.length%d" % d, go)

def folded(ck, q, nd, want, key, msg):
    """constant propagation through a numbering function"""
    f = ck.fn(q, must=False)
    if f is None: return
    r = ck.run(q); n = r.node(); ps = [a.arg for a in f.node.args.args]; off = None; k = 0; why = None
    for args in nd:
        if len(args) != len(ps): return
        try: x = unroll.fold(r, n, dict(zip(ps, args)))
        except unroll.Out as e: off = off or (args, str(e)); continue
        except unroll.No as e: why = str(e); break
        k += 1
        if not want(x, *args): off = off or (args, x)
    show = lambda x: str([a for a in off[0] if not (isinstance(a, list) and a and isinstance(a[0], list))])[1:-1]
    if off: ck.bad(key, msg + " (arguments %s: %s)" % (show(off), str(off[1])[:80]), r.site0)
    elif why is None: ck.ok(key, "constant propagation, %d arguments" % k, r.site0)

def binomials(n, d): return [[math.comb(i, l) for l in range(d + 2)] for i in range(n + 1)]
def simplices(d, n): return list(itertools.combinations(range(n), d + 1))
def simplex_number(v): return sum(math.comb(x, i + 1) for i, x in enumerate(v))

def small(ck):
    T = binomials(6, 4)
    folded(ck, CN + "combinatorial_number_system_table", [(n, d) for n in (1, 2, 3, 5, 8, 40) for d in (1, 2, 3)],
           lambda x, n, d: len(x) >= n + 1 and all(len(row) >= d + 2 and all(row[l] == math.comb(i, l) for l in range(d + 2)) for i, row in enumerate(x[:n + 1])), "table.values", "the lookup table is not the table of binomials")
    folded(ck, CN + "number_of_simplices_of_dimension", [(d, n, T) for d in range(4) for n in (1, 2, 4, 6)], lambda x, d, n, _: x == math.comb(n, d + 1), "count.values", "the number of simplices is not the binomial")
    folded(ck, CN + "combinatorial_number_system_forward", [(list(v), T) for d in range(4) for v in simplices(d, 6)], lambda x, v, _: x == simplex_number(v), "number.values", "a simplex does not have its number")
    folded(ck, CN + "combinatorial_number_system_d1_forward", [(*v, T) for v in simplices(1, 6)], lambda x, *a: x == simplex_number(a[:-1]), "number1.values", "an edge does not have its number")
    folded(ck, CN + "combinatorial_number_system_d2_forward", [(*v, T) for v in simplices(2, 6)], lambda x, *a: x == simplex_number(a[:-1]), "number2.values", "a triangle does not have its number")

def buffers(ck, qual, m):
    """complete and random complexes: no access outside a buffer, by constant propagation through the loops"""
    if ck.fn(qual, must=False) is None: return
    ro = roles_of(ck, qual, None)
    if not {"dist", "thr", "table"} <= set(ro): return
    r = ck.run(qual); n = r.node(); off = None; k = 0; why = None
    for L in range(max(m - 1, 2), 8 if m < 4 else 7):
        for th in (2.0, .7):
            e0 = cert.plain((qual, L))
            D = [[0.0 if i == j else .1 + e0.u("d", min(i, j), max(i, j)) for j in range(L)] for i in range(L)]
            env = {ro["dist"]: D, ro["thr"]: th, ro["table"]: binomials(L, 4)}
            for x in ro.get("rest", ()): env[x] = [1.0] * math.comb(L, m)
            try: unroll.fold(r, n, env); k += 1
            except unroll.Out as e: off = off or (L, str(e))
            except unroll.No as e: why = str(e)
    key = qual.split(":")[1] + ".buffers"
    if off: ck.bad(key, "access outside an array (%s) with %d landmarks" % (off[1], off[0]), r.site0)
    elif why is None: ck.ok(key, "constant propagation through the loops, %d complexes" % k, r.site0)

def check(ck):
    ck.guard("small", small, ck)
    for nm, m in (("utils:CohomologyUtils.make_delta0", 2), ("utils:CohomologyUtils.make_delta1", 3), ("utils:CohomologyUtils.make_delta1_compact", 3), ("utils:CohomologyUtils.make_delta2_compact", 4),
                  ("toroidalcoords:_make_inner_product", 2), ("toroidalcoords:_is_one_cocycle", 2), ("complexprojectivecoords:_is_two_cocycle", 3), ("complexprojectivecoords:_one_cocycle_to_tensor", 2), ("complexprojectivecoords:_two_cocycle_to_tensor", 3)):
        ck.guard(nm + ".buffers", buffers, ck, nm, m)
    ck.guard("table", table, ck)
    numbering(ck)
    for nm in OPS:
        ck.fn("utils:CohomologyUtils." + nm)
        ck.guard(nm, emit, ck, incidence(ck, nm), {"faces", "rows", "counter", "shape", "capacity"})
    for q in CLS:
        ck.guard(q + ".columns", columns, ck, q)
        ck.guard(q + ".bounds", bounds, ck, q)
    vector(ck)

U, T, C, K, E = "dreimac/utils.py", "dreimac/toroidalcoords.py", "dreimac/complexprojectivecoords.py", "dreimac/combinatorial.py", "dreimac/emcoords.py"
SELFTEST = [
    ("table vertices", K, "lookup_table = np.zeros((maximum_number_vertices+1,", "lookup_table = np.zeros((maximum_number_vertices,", "bad"),
    ("table fill", K, "for i in range(maximum_number_vertices+1):", "for i in range(maximum_number_vertices):", "bad"),
    ("table dims", K, ["maximum_dimension + 2), dtype=int)", "for l in range(maximum_dimension + 2)"], ["maximum_dimension + 1), dtype=int)", "for l in range(maximum_dimension + 1)"], "bad"),
    ("table int16", K, "dtype=int)", "dtype=np.int16)", "bad"),
    ("table int32", K, "dtype=int)", "dtype=np.int32)", "bad"),
    ("table int64", K, "dtype=int)", "dtype=np.int64)", "quiet"),
    ("d2 swapped", K, "lookup_table[v0, 1] + lookup_table[v1, 2] + lookup_table[v2, 3]", "lookup_table[v0, 1] + lookup_table[v2, 2] + lookup_table[v1, 3]", "bad"),
    ("d1 formula", K, "return lookup_table[v0, 1] + lookup_table[v1, 2]\n", "return v0 + v1 * (v1 - 1) // 2\n", "quiet"),
    ("forward offset", K, "for l in range(dimension + 1):", "for l in range(dimension):", "bad"),
    ("forward enumerate", K, "for l in range(dimension + 1):\n        res += lookup_table[oriented_simplex[l], l + 1]", "for l, v in enumerate(oriented_simplex):\n        res += lookup_table[v, l + 1]", "quiet"),
    ("count", K, "return lookup_table[n_vertices,dimension+1]", "return lookup_table[n_vertices,dimension]", "bad"),
    ("capacity", U, "max_n_entries = 3 * n_faces", "max_n_entries = 2 * n_faces", "bad"),
    ("capacity edges", U, "max_n_entries = 2 * n_edges", "max_n_entries = n_points * n_points", "quiet"),
    ("capacity edges2", U, "max_n_entries = 2 * n_edges", "max_n_entries = n_points * (n_points - 2)", "bad"),
    ("row int16", U, "rows = np.empty((max_n_entries,), dtype=np.int32)", "rows = np.empty((max_n_entries,), dtype=np.int16)", "bad"),
    ("slice", U, "(values[:n_entries], (rows[:n_entries], columns[:n_entries]))", "(values, (rows, columns))", "bad"),
    ("slice short", U, "(values[:n_entries], (rows[:n_entries], columns[:n_entries]))", "(values[:n_entries - 1], (rows[:n_entries - 1], columns[:n_entries - 1]))", "bad"),
    ("column number", U, "columns[n_entries] = column_index_ik", "columns[n_entries] = column_index_jk", "bad"),
    ("table for requested", T, "self._n_landmarks, simplicial", "n_landmarks, simplicial", "bad"),
    ("toroidal table", T, "simplicial_complex_dimension = 2", "simplicial_complex_dimension = 1", "bad"),
    ("cp table", C, "simplicial_complex_dimension = 3", "simplicial_complex_dimension = 2", "bad"),
    ("cp table bigger", C, "simplicial_complex_dimension = 3", "simplicial_complex_dimension = 4", "quiet"),
    ("theta past the end", T, "for j in range(i + 1, n_points):\n                if dist_mat[i, j] < threshold:\n                    index =", "for j in range(i + 1, n_points + 1):\n                if dist_mat[i, j] < threshold:\n                    index =", "bad"),
]
