"""C06: coboundary operators, cocycle tests, inner product and integration describe one Rips complex."""
import itertools, math
from .simplex import *
from . import unroll

TECHNIQUE = "static analysis: incidence tables extracted from the loop nests' value graphs; symbolic composition; normal-form comparison with reference cocycle tests"
EXPLANATION = "For every operator the loop nest's domain and guard are compared with the indicator of the strict Rips complex, each entry's column with the number of a face (polynomials in the vertices), and the incidence signs are composed symbolically (must cancel on every codimension-2 face). Cocycle tests are folded to closed boolean terms and compared with reference tests. All uses inside get_coordinates are compared with the threshold and distances returned by get_cover_radius."
ASSUMPTIONS = ["the landmark distance matrix is symmetric with zero diagonal", "exact integer arithmetic", "table entry (n, k) is binomial(n, k) (C07)"]

def edge_of(e):
    e = int(e); j = 1
    while j * (j + 1) // 2 <= e: j += 1
    return e - j * (j - 1) // 2, j
def tri_of(e):
    e = int(e); k = 2
    while (k + 1) * k * (k - 1) // 6 <= e: k += 1
    i, j = edge_of(e - k * (k - 1) * (k - 2) // 6)
    return i, j, k

def pert(env, *k): 
    u = env.u("pert", *k)
    # about half of the valuations are cocycles
    return 0 if u < (1.1 if env.u("mode") < .5 else .85) else 1 + int(5 * env.u("pv", *k))
def cochain1(env, idx):
    i, j = edge_of(idx[0])
    f = lambda v: int(7 * env.u("f", v))
    return f(j) - f(i) + pert(env, i, j)
def cochain2(env, idx):
    i, j, k = tri_of(idx[0])
    f = lambda a, b: int(7 * env.u("f2", a, b))
    return f(j, k) - f(i, k) + f(i, j) + pert(env, i, j, k)

def compose(ck, A, B, nm):
    """A: operator on d-simplices, B: on (d+1)-simplices; entries indexed by the omitted vertex"""
    if A.vec is None or B.vec is None or not A.ok or not B.ok: ck.unk(nm, "incidence table incomplete"); return
    m = B.m
    for s in range(m):
        for t in range(s + 1, m):
            co = B.vec[t] * A.vec[s] + B.vec[s] * A.vec[t - 1]
            k = "%s.omit%d%d" % (nm, s, t)
            if co.is_zero() if hasattr(co, "is_zero") else not co.t: ck.ok(k, "symbolic cancellation", B.site)
            elif co.const() is not None: ck.bad(k, "%s after %s is not zero: the face omitting vertices %d and %d receives %s" % (B.nm, A.nm, s, t, co.const()), B.site)
            else: ck.verdict(k, decide(B.c, co, ZERO), "%s after %s is not zero" % (B.nm, A.nm), B.site)

def cocycle_test(ck, qual, specname, gen):
    if ck.fn(qual, must=False) is None: ck.unk(qual, "no separate test function"); return
    spec(ck)
    ro = roles_of(ck, qual, None)
    co = ro["rest"][0]
    r, c, ro, g = rips_ctx(ck, qual, {co: "E:i"})
    g = dict(g); g[co] = gen
    ref = ck.run("zz_ref:" + specname)
    # same leaf names
    args = {"cochain": vg.sym(co), "dist_mat": vg.sym(ro["dist"]), "threshold": vg.sym(ro["thr"]), "lookup_table": vg.sym(ro["table"])}
    ref = ck.run("zz_ref:" + specname, args=args)
    c2 = Ctx(ref, types=c.types, symmetric=list(c.symmetric), special=c.special)
    n = r.node()
    if n.op == "tuple": n = n.args[0]
    elif n.op == "phi": n = item(n, 0)
    if folded(ck, qual, r, n, ro, co, 2 if specname == "one_cocycle" or "one" in qual else 3): return
    p, q = at(c, n, ()), at(c2, ref.node(), ())
    v = decide(c, p, q, gen=g, dims={"L": 5}, trials=60, need=20)
    ck.verdict(qual.split(":")[1] + ".accepts", v, "the test does not accept exactly the cochains with zero coboundary", r.site0)

def folded(ck, qual, r, n, ro, co, m):
    """constant propagation through the loops on small complexes: True if a wrong answer was found and reported"""
    off = None; k = 0; why = None
    for t in range(40):
        L = 4 + t % 2
        e0 = cert.plain((qual, t))
        D = [[0.0] * L for _ in range(L)]
        for j in range(L):
            for i in range(j): D[i][j] = D[j][i] = [.5, 1.0, 1.5][int(3 * e0.u("d", i, j))] if t % 3 else .5
        th = [1.0, 2.0, 1.2][t % 3 if t % 4 else 1]
        T = [[math.comb(i, l) for l in range(m + 3)] for i in range(L + 1)]
        num = lambda v: sum(math.comb(x, i + 1) for i, x in enumerate(v))
        co_ = [0] * math.comb(L, m)
        f = [int(5 * e0.u("f", z)) for z in range(math.comb(L, m - 1))]
        for v in itertools.combinations(range(L), m):
            co_[num(v)] = sum((-1) ** i * f[num(v[:i] + v[i + 1:])] for i in range(m))
        if e0.u("mode") < .6: co_[int(e0.u("at") * len(co_))] += 1 + int(2 * e0.u("by"))
        if e0.u("mode") < .3: co_[int(e0.u("at2") * len(co_))] -= 1
        want = all(sum((-1) ** i * co_[num(v[:i] + v[i + 1:])] for i in range(m + 1)) == 0
                   for v in itertools.combinations(range(L), m + 1) if all(D[a][b] < th for a, b in itertools.combinations(v, 2)))
        try: x = unroll.fold(r, n, {co: co_, ro["dist"]: D, ro["thr"]: th, ro["table"]: T})
        except unroll.No as e: why = str(e); break
        k += 1
        if isinstance(x, list) or bool(x) != want: off = off or (co_, th, x)
    key = qual.split(":")[1] + ".values"
    if off: ck.bad(key, "the test answers %s for the cochain %s at filtration value %s" % (off[2], off[0], off[1]), r.site0); return True
    if why and __import__("os").environ.get("SA_DEBUG"): print(key, why)
    if why is None: ck.ok(key, "constant propagation through the loops, %d cochains" % k, r.site0)
    return False

def matrix(ck, nm, m, compact, qual=None):
    """the whole operator on small complexes, by constant propagation through the loops"""
    qual = qual or "utils:CohomologyUtils." + nm
    if ck.fn(qual, must=False) is None: return
    ro = roles_of(ck, qual, None)
    if not {"dist", "thr", "table"} <= set(ro): return
    r = ck.run(qual); n = r.node()
    if n.op == "tuple": n = n.args[0]
    off = None; k = 0; why = None; sign = set()
    for t in range(16):
        L = 4 + t % 3
        e0 = cert.plain((nm, t))
        D = [[0.0] * L for _ in range(L)]
        for j in range(L):
            for i in range(j): D[i][j] = D[j][i] = [.5, 1.0, 1.5][int(3 * e0.u("d", i, j))] if t % 3 else .5
        th = [1.2, 1.0, 2.0][t % 3 if t % 4 else 0]
        T = [[math.comb(i, l) for l in range(6)] for i in range(L + 1)]
        num = lambda v: sum(math.comb(x, i + 1) for i, x in enumerate(v))
        inside = lambda v: all(D[a][b] < th for a, b in itertools.combinations(v, 2))
        rows = {}
        for v in itertools.combinations(range(L), m):
            if inside(v):
                x = [0] * math.comb(L, m - 1)
                if qual.endswith("inner_product"): x = [0] * math.comb(L, m); x[num(v)] = 1
                else:
                    for i in range(m): x[num(v[:i] + v[i + 1:])] = (-1) ** i
                rows[num(v)] = x
        try: x = unroll.fold(r, n, {ro["dist"]: D, ro["thr"]: th, ro["table"]: T})
        except unroll.No as e: why = str(e); break
        if not isinstance(x, unroll.Sparse): why = "not a sparse matrix"; break
        k += 1
        lead = lambda v: [a * next((b for b in v if b), 1) for a in v]
        if compact:
            if sorted(lead(v) for v in x.d if any(v)) != sorted(lead(v) for v in rows.values()): off = off or (D, th)
        else:
            want = [rows.get(i, [0] * len(x.d[0])) for i in range(math.comb(L, m))]
            s = [u for u in (1, -1) if x.d == [[u * a for a in v] for v in want]]
            if not s: off = off or (D, th)
    key = nm + ".matrix"
    if why and __import__("os").environ.get("SA_DEBUG"): print(key, why)
    if off: ck.bad(key, "the operator is not the one of the complex: %d points with distances %s, filtration value %s" % (len(off[0]), [off[0][i][j] for j in range(len(off[0])) for i in range(j)], off[1]), r.site0)
    elif why is None: ck.ok(key, "constant propagation through the loops, %d complexes" % k, r.site0)

def scatter_guard(ck, qual, m, what, extra=None):
    """guard of a function that fills an array over edges / triangles"""
    if ck.fn(qual, must=False) is None: return
    r, c, ro, g = rips_ctx(ck, qual, extra)
    seen = 0; done = set()
    for s in scatter.sites(r):
        ms = len([l for l in s.loops if l.kind == "for"])
        if ms != m: continue
        try: d = scatter.Domain(c, s.loops, s.conds)
        except Unk: continue
        if d.key() in done: continue
        done.add(d.key())
        mt = scatter.match(c, d, m, vg.sym(ro["dist"]), vg.sym(ro["thr"]), dim("L"), g, {"L": 5})
        k = "%s.simplices%d" % (what, seen); seen += 1
        if mt.status == "ok": ck.ok(k, mt.how, s.site)
        elif mt.status == "bad": ck.bad(k, "%s: %s" % (what, mt.msg), s.site)
        else: ck.unk(k, mt.msg, s.site)
    if not seen: ck.unk(what + ".simplices", "no store over %d vertices" % m, r.site0)

def uses(ck, qual):
    """inside get_coordinates every comparison of landmark distances uses the filtration value"""
    r = ck.run(qual + ".get_coordinates")
    c = dre.em_ctx(ck, qual, r)
    got = dre.abstract_calls(ck, r, c)
    if "radius" not in got: ck.unk(qual + ".threshold", "filtration value not found"); return
    thr = got["radius"][2]
    dll = {"self." + f for f, ro in c.rl.items() if ro == "dist_land_land"}
    cmps = {}
    def add(n, site):
        for x in vg.walk(n):
            if x.op in ("lt", "le") and x not in cmps:
                for a, b, flip in ((x.args[0], x.args[1], 0), (x.args[1], x.args[0], 1)):
                    if a.op == "index" and len(a.args[1]) == 2 and a.args[0].op == "sym" and a.args[0].args[0] in dll: cmps[x] = (x.op, b, flip, site)
    for e in r.effects:
        for n, pol in e.path: add(n, e.site)
    for k, (x, (op, b, flip, site)) in enumerate(sorted(cmps.items(), key=lambda t: poly.nodekey(t[0]))):
        key = "%s.threshold%d" % (qual.split(":")[1], k)
        if b is thr: ck.ok(key, "same value", site); continue
        try: v = decide(c, c.val(b), c.val(thr))
        except Unk as e: ck.unk(key, str(e), site); continue
        ck.verdict(key, v, "landmark distances are compared with %s instead of the filtration value" % vg.show(b, 3), site)
    if not cmps: ck.unk(qual + ".threshold", "no comparison found")
    nests(ck, qual, r, c, thr, dll)

def nests(ck, qual, r, c, thr, dll):
    """every loop nest reached from get_coordinates that is guarded by landmark distances ranges over the strict Rips simplices"""
    c.over.setdefault(thr, Ty((), "f"))
    c.hooks.append(dre.harmonic_hook([]))
    g = {"self." + f: scatter.dist_gen for f, ro in c.rl.items() if ro == "dist_land_land"}
    for p in c.val(thr).atoms():
        if p.kind in ("el", "opq"): g[p.args[0] if isinstance(p.args[0], str) else poly.nodekey(p.args[0])] = scatter.thr_gen
    done = set(); n = 0
    for s in scatter.sites(r):
        conds = [(x, pol) for x, pol in s.conds if any(y.op == "sym" and y.args[0] in dll for y in vg.walk(x))]
        if not conds: continue
        try:
            fl = [l for l in s.loops if l.kind == "for"]
            fv = [scatter.ivof(c, l) for l in fl]
            own = []
            for x, pol in conds:
                if any(y.op == "inloop" for y in vg.walk(x)): continue        # the verdict of an earlier test, not a guard of this nest
                if any(poly.occurs_p(v, c.cond(x)) for v in fv): own.append((x, pol))
            conds = own
            cp = ONE
            for x, pol in conds: cp = cp * (c.cond(x) if pol else ONE - c.cond(x))
            keep = [l for l in fl if poly.occurs_p(scatter.ivof(c, l), cp)]
            d = scatter.Domain(c, keep, conds)
        except (Unk, vg.AnalysisError) as e: continue
        k0 = (tuple(l.uid for l in keep), d.key())
        if k0 in done: continue
        done.add(k0)
        m = len(keep)
        if not 2 <= m <= 4: continue
        try: mt = scatter.match(c, d, m, vg.sym(sorted(dll)[0]), thr, dim("L"), g, {"L": 6 if m > 3 else 5})
        except (Unk, vg.AnalysisError, cert.NoVal) as e: continue
        key = "%s.nest%d" % (qual.split(":")[1], n); n += 1
        if mt.status == "ok": ck.ok(key, mt.how, s.site)
        elif mt.status == "bad": ck.bad(key, mt.msg, s.site)
        else: ck.unk(key, mt.msg, s.site)
    if not n: ck.unk(qual + ".nests", "no loop nest guarded by landmark distances")

def check(ck):
    inc = {}
    for nm in OPS:
        ck.fn("utils:CohomologyUtils." + nm)
        inc[nm] = incidence(ck, nm)
        ck.guard(nm, emit, ck, inc[nm], {"guard", "faces", "rows", "counter", "shape"})
    ck.guard("compose", compose, ck, inc["make_delta0"], inc["make_delta1"], "delta1.delta0")
    ck.guard("compose", compose, ck, inc["make_delta0"], inc["make_delta1_compact"], "delta1c.delta0")
    ck.guard("compose", compose, ck, inc["make_delta1"], inc["make_delta2_compact"], "delta2c.delta1")
    a, b = inc["make_delta1"], inc["make_delta1_compact"]
    if a.vec is not None and b.vec is not None and a.ok and b.ok:
        for t, (x, y) in enumerate(zip(a.vec, b.vec)):
            ck.verdict("delta1.compact%d" % t, decide(a.c, x, y), "full and compact first coboundary differ on the face omitting vertex %d" % t, b.site)
    else: ck.unk("delta1.compact", "incidence table incomplete")
    for nm, m, cp in (("make_delta0", 2, False), ("make_delta1", 3, False), ("make_delta1_compact", 3, True), ("make_delta2_compact", 4, True)):
        ck.guard(nm + ".matrix", matrix, ck, nm, m, cp)
    ck.guard("inner.matrix", matrix, ck, "inner product", 2, False, "toroidalcoords:_make_inner_product")
    ck.guard("test1", cocycle_test, ck, "toroidalcoords:_is_one_cocycle", "is_one_cocycle", cochain1)
    ck.guard("test2", cocycle_test, ck, "complexprojectivecoords:_is_two_cocycle", "is_two_cocycle", cochain2)
    ck.guard("inner", scatter_guard, ck, "toroidalcoords:_make_inner_product", 2, "inner product")
    ck.guard("theta", scatter_guard, ck, "toroidalcoords:_sparse_integrate", 2, "circle integration", {"integral": "L:f", "harm_rep": "E:f", "part_unity": "L N:f", "membership_function": "N:i"})
    ck.guard("nu", scatter_guard, ck, "complexprojectivecoords:_one_cocycle_to_tensor", 2, "edge tensor")
    ck.guard("eta", scatter_guard, ck, "complexprojectivecoords:_two_cocycle_to_tensor", 3, "triangle tensor")
    for q in ("toroidalcoords:ToroidalCoords", "complexprojectivecoords:ComplexProjectiveCoords"): ck.guard(q, uses, ck, q)

T, C, U = "dreimac/toroidalcoords.py", "dreimac/complexprojectivecoords.py", "dreimac/utils.py"
SELFTEST = [
    ("delta1 sign", U, "columns[n_entries] = column_index_jk\n                                values[n_entries] = 1", "columns[n_entries] = column_index_jk\n                                values[n_entries] = -1", "bad"),
    ("delta0 orientation", U, "columns[n_entries] = j\n                        values[n_entries] = -1", "columns[n_entries] = j\n                        values[n_entries] = 1", "bad"),
    ("delta0 reversed", U, ["columns[n_entries] = i\n                        values[n_entries] = 1", "columns[n_entries] = j\n                        values[n_entries] = -1"], ["columns[n_entries] = i\n                        values[n_entries] = -1", "columns[n_entries] = j\n                        values[n_entries] = 1"], "quiet"),
    ("delta0 closed", U, "if dist_mat[i, j] < threshold:\n                        row_index = combinatorial_number_system_d1_forward(", "if dist_mat[i, j] <= threshold:\n                        row_index = combinatorial_number_system_d1_forward(", "bad"),
    ("delta1 missing pair", U, "if (\n                                dist_mat[i, k] < threshold\n                                and dist_mat[j, k] < threshold\n                            ):\n                                row_index = combinatorial", "if (\n                                dist_mat[i, k] < threshold\n                            ):\n                                row_index = combinatorial", "bad"),
    ("test1 sign", T, "- cochain[index_ik]", "+ cochain[index_ik]", "bad"),
    ("test1 guard", T, "dist_mat[i, k] < threshold\n                        and dist_mat[j, k] < threshold", "dist_mat[i, k] <= threshold\n                        and dist_mat[j, k] < threshold", "bad"),
    ("test2 sign", C, "- cochain[index_jkl]", "+ cochain[index_jkl]", "bad"),
    ("test2 last", C, "is_cocycle = False\n    return is_cocycle", "is_cocycle = False\n                                else:\n                                    is_cocycle = True\n    return is_cocycle", "bad"),
    ("inner closed", T, "if dist_mat[i, j] < threshold:\n                    row_index", "if dist_mat[i, j] <= threshold:\n                    row_index", "bad"),
    ("nu range", C, "for j in range(i + 1, n_points):\n                if dist_mat[i, j] < threshold:\n                    flat_index", "for j in range(i + 2, n_points):\n                if dist_mat[i, j] < threshold:\n                    flat_index", "bad"),
    ("continue style", T, "if dist_mat[i, j] < threshold:\n                    row_index = combinatorial_number_system_d1_forward(\n                        i, j, lookup_table\n                    )\n                    rows[n_entries] = row_index\n                    columns[n_entries] = row_index\n                    values[n_entries] = 1\n                    n_entries += 1", "if not dist_mat[j, i] < threshold:\n                    continue\n                row_index = combinatorial_number_system_d1_forward(i, j, lookup_table)\n                rows[n_entries] = row_index\n                columns[n_entries] = row_index\n                values[n_entries] = 1\n                n_entries += 1", "quiet"),
    ("vectorised inner", T, "W = sparse.csr_array(\n        (values[:n_entries], (rows[:n_entries], columns[:n_entries])),\n        shape=(n_edges, n_edges),\n    )", "W = sparse.identity(n_edges)", "quiet"),
]
