"""C18: compiled routines behave like the Python they were compiled from."""
import ast
from .surface import *

TECHNIQUE = "static analysis: scope analysis of the free variables of every compiled routine combined with alias-resolved write effects ordered against its calls, value-flow of not-a-number sources into routines compiled under the assumption that there are none, and loop-carried dependence tests on parallel loops"
EXPLANATION = "Numba freezes the values of free variables (closure cells and globals) when a routine is first called. For every call of a compiled routine reached from a public function the captured values are resolved in the value graph; a write to the captured object (through any alias, inside the routine or in its callers) or a rebinding of the captured name after the first call is reported. Values computed from the partition of unity, which is 0/0 at uncovered points, and coordinate arguments of the map utilities are followed through arithmetic, stores and loops into the arguments and captured variables of compiled routines: a routine they reach must not be compiled with fast-math options that assume not-a-number away, and no routine compiled that way may test for it. Parallel loops must not write the same element, or use a running counter as an index, in several iterations."
ASSUMPTIONS = ["numba implements its documented semantics (lazy compilation, frozen free variables, fast-math flags)"]

COORDS = {"circle_map", "circle_maps", "pX", "class_map"}
MAPX = ("ProjectiveMapUtils", "LensMapUtils")

def unsafe(opts):
    """fast-math options under which the compiler may assume there is no nan"""
    v = (opts or {}).get("fastmath", False)
    if isinstance(v, vg.Node):
        names = {x.args[0] for x in walk(v) if isconst(x) and isinstance(x.args[0], str)}
        if names: return bool(names & {"nnan", "fast"})
        return None
    if isinstance(v, (set, frozenset, tuple, list)): return bool(set(v) & {"nnan", "fast"})
    return bool(v)

def base_id(ref):
    k = 0
    while isinstance(ref, vg.Ref) and ref.view is not None and k < 20:
        ref = ref.view[0] if isinstance(ref.view, tuple) else ref.view; k += 1
    return ref.id if isinstance(ref, vg.Ref) else None

def written_ref(e):
    if e.kind == "store": return e.data[0]
    if e.kind == "mutate": return e.data[1]
    return None

def inside(e, f):
    """the effect happens while f runs"""
    return any(isinstance(s, vg.FuncV) and s is f or (isinstance(s, tuple) and len(s) > 2 and s[2] == f.qual) or s == f.name for s in (e.stack or ())) or (isinstance(e.site, tuple) and len(e.site) > 2 and str(e.site[2]) == f.name)

def frozen(ck, q, r):
    calls = {}
    for e in r.effects:
        if e.kind == "jitcall": calls.setdefault(id(e.data[0]), []).append(e)
    for es in calls.values():
        f = es[0].data[0]
        first, last = es[0], es[-1]
        names = sorted(set().union(*[set(e.data[1]) for e in es]))
        key = "%s:%s captures" % (q, f.name)
        if not names: ck.ok(key + " nothing", "%d call sites" % len(es), first.site); continue
        for nm in names:
            k = "%s %s" % (key, nm)
            vals = [e.data[1][nm] for e in es if nm in e.data[1]]
            v0, glob, n0 = vals[0]
            # rebinding
            rebound = False
            for v, g, n in vals[1:]:
                same_obj = isinstance(v, vg.Ref) and isinstance(v0, vg.Ref) and base_id(v) == base_id(v0)
                if not same_obj and n is not None and n0 is not None and n is not n0: rebound = True
            if rebound: ck.bad(k, "%s, captured by the compiled routine %s, is rebound after the routine was compiled" % (nm, f.name), last.site); continue
            # value changes with a loop that encloses the call but not the definition
            if n0 is not None:
                lv = {x.args[0] for x in walk(n0) if x.op == "mu"}
                dl = getattr(f, "_loops", ())
                ivs = {x for x in walk(n0) if x.op == "iv"}
                if any((getattr(L, "uid", None) in lv or L.iv in ivs) and L not in dl for e in es for L in e.loops):
                    ck.bad(k, "%s, captured by the compiled routine %s, changes from one call to the next while the routine is compiled once" % (nm, f.name), first.site); continue
            # writes
            ids = {base_id(v) for v, g, n in vals if isinstance(v, vg.Ref)} - {None}
            hit = None
            for e in r.effects:
                w = written_ref(e)
                if not isinstance(w, vg.Ref) or base_id(w) not in ids: continue
                if e.order < first.order: 
                    # an earlier write in a loop that also contains the call, with the routine defined outside the loop
                    if not (set(e.loops) & set(first.loops) - set(getattr(f, "_loops", ()))): continue
                if e.order > last.order and not inside(e, f):
                    if not (set(e.loops) & set(last.loops) - set(getattr(f, "_loops", ()))): continue
                hit = e; break
            if hit is None and glob:
                hit = next((e for e in r.effects if e.kind == "globalset" and e.data[1] == nm), None)
            if hit is not None: ck.bad(k, "%s is captured, and therefore frozen, by the compiled routine %s but written here" % (nm, f.name), hit.site)
            else: ck.ok(k, "not written after compilation", first.site)

KILL = {"numpy.argmax", "numpy.argmin", "numpy.argsort", "numpy.nan_to_num", "numpy.isnan", "numpy.isfinite", "numpy.isinf", "numpy.count_nonzero", "numpy.nonzero", "numpy.flatnonzero", "numpy.shape", "numpy.size", "numpy.ndim", "builtins.len",
        "numpy.zeros_like", "numpy.ones_like", "numpy.empty_like", "numpy.zeros", "numpy.ones", "numpy.empty", "numpy.nansum", "numpy.nanmax", "numpy.nanmin", "numpy.nanmean", "numpy.allclose", "numpy.any", "numpy.all", "builtins.range", "builtins.isinstance", "numpy.arange", "numpy.issubdtype", "builtins.bool", "numpy.searchsorted"}
BOOL = {"lt", "le", "eq", "ne", "is", "in", "not", "and", "or", "truth", "isinstance", "attr", "range"}

def flow(r, n, sources, memo):
    """may the value carry a not-a-number from a source"""
    mus = memo.setdefault("mus", None)
    if mus is None:
        mus = {}
        for L in r.loops.values():
            for m, (a, b) in L.mu.items(): mus[m] = (a, b)
        memo["mus"] = mus
    seen = set(); st = [n]
    while st:
        x = st.pop()
        if not isinstance(x, vg.Node) or x in seen: continue
        seen.add(x)
        if x in sources: return True
        o = x.op
        if o in BOOL: continue
        if o == "phi": st += [x.args[1], x.args[2]]
        elif o == "index": st.append(x.args[0])
        elif o in ("store", "viewset"): st += [x.args[0]] + [y for y in x.args[2:] if isinstance(y, vg.Node)]
        elif o == "mu" and x in mus: st += list(mus[x])
        elif o in ("final", "last"): st += [y for y in x.args if isinstance(y, vg.Node)]
        elif o == "call":
            nm = x.args[0]; d = dict(x.args[1])
            if nm in KILL: continue
            if nm == "numpy.astype" and "int" in show(d.get("dtype", vg.const(0)), 2): continue
            if nm == "numpy.array" and "dtype" in d and "int" in show(d["dtype"], 2): continue
            if nm == "numpy.where":
                if any(y.op == "call" and y.args[0] in ("numpy.isnan", "numpy.isfinite") for y in walk(d.get("condition", vg.const(0)))): continue
                st += [v for k, v in d.items() if k != "condition"]; continue
            st += list(d.values())
        else:
            for a in x.args:
                if isinstance(a, vg.Node): st.append(a)
                elif isinstance(a, tuple): st += [y for y in a if isinstance(y, vg.Node)] + [y[1] for y in a if isinstance(y, tuple) and len(y) == 2 and isinstance(y[1], vg.Node)]
    return False

def sources(ck, q, cn, nm, r, t):
    out = set()
    if nm == "get_coordinates":
        c = dre.em_ctx(ck, q, r)
        a = dre.abstract_calls(ck, r, c)
        if "partition" in a: out.add(a["partition"][1])
        else:
            for x in every_node(r):
                if x.op == "div" and any(y.op == "callv" for y in deps(r, x)): out.add(x)
    for p in r.params:
        if p in COORDS or (cn in MAPX and t.get(p) is not None and t[p].rank): out.add(vg.sym(p))
    return out

def nans(ck, q, cn, nm, f, cls, r, t):
    src = sources(ck, q, cn, nm, r, t)
    memo = {}
    seen = set()
    for e in r.effects:
        if e.kind != "jitcall": continue
        g, cap, bound = e.data
        u = unsafe(g.jit)
        if u is False:
            if src and id(g) not in seen: ck.ok("%s:%s compiled without fast-math" % (q, g.name), "", e.site)
            seen.add(id(g)); continue
        vals = [("argument " + k, v) for k, v in bound.items() if v is not None] + [("captured variable " + k, n) for k, (v, gl, n) in cap.items() if n is not None]
        hits = [k for k, v in vals if isinstance(v, vg.Node) and flow(r, v, src, memo)] if src else []
        key = "%s:%s:no nan assumed away" % (q, g.name)
        if hits and u is None: ck.unk(key, "fast-math options not constant")
        elif hits: ck.bad(key, "%s of %s can be not-a-number (uncovered points) but the routine is compiled with fast-math options that assume it cannot" % (hits[0], g.name), e.site)
        else: ck.ok(key, "%d values followed" % len(vals), e.site)

TESTS = {"numpy.isnan", "numpy.isfinite", "math.isnan", "math.isfinite", "numpy.nan_to_num", "numpy.nanmax", "numpy.nanmin", "numpy.nansum", "numpy.nanmean"}

def tests_nan(ck, q, r):
    for e in r.effects:
        if e.kind == "libcall" and e.data[0] in TESTS:
            f = compiled(ck, e.site)
            if f and unsafe(jit_of(r, e)): ck.bad("%s:%s in a fast-math routine" % (q, e.data[0]), "%s is evaluated in a routine compiled under the assumption that there is no not-a-number" % e.data[0], e.site)

def jit_of(r, e):
    """options of the innermost compiled routine running when the effect happened"""
    best = None
    for c in r.effects:
        if c.order > e.order: break
        if c.kind == "jitcall" and isinstance(e.site, tuple) and len(e.site) > 2 and c.data[0].name == e.site[2]: best = c.data[0].jit
    return best

def names_in(x): return {y.id for y in ast.walk(x) if isinstance(y, ast.Name)}

def parallel(ck, q, r):
    done = set()
    for e in r.effects:
        if e.kind != "jitcall" or id(e.data[0]) in done: continue
        done.add(id(e.data[0]))
        f = e.data[0]
        if not f.jit.get("parallel"): continue
        for L in ast.walk(f.node):
            if not (isinstance(L, ast.For) and isinstance(L.iter, ast.Call) and "prange" in ast.dump(L.iter.func)): continue
            dep = names_in(L.target)
            for _ in range(4):
                for s in ast.walk(L):
                    if isinstance(s, ast.Assign) and names_in(s.value) & dep:
                        for tg in s.targets:
                            if isinstance(tg, ast.Name): dep.add(tg.id)
                    if isinstance(s, ast.For) and s is not L and names_in(s.iter) & dep: pass
            carried = {s.target.id for s in ast.walk(L) if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name)} - {s.targets[0].id for s in ast.walk(L) if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name)}
            local = {t.id for s in ast.walk(L) if isinstance(s, ast.Assign) for tg in s.targets for t in [tg] if isinstance(t, ast.Name)}
            for s in ast.walk(L):
                tgs = s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, ast.AugAssign) else []
                for tg in tgs:
                    if not isinstance(tg, ast.Subscript): continue
                    if isinstance(tg.value, ast.Name) and tg.value.id in local: continue
                    ix = names_in(tg.slice)
                    where = "%s:%d %s" % (f.mod.file, s.lineno, f.name)
                    if ix & carried: ck.bad("%s:%s:parallel counter" % (q, f.name), "the running counter %s, shared by parallel iterations, is used as an index" % sorted(ix & carried)[0], where)
                    elif not ix & dep: ck.bad("%s:%s:parallel write" % (q, f.name), "every iteration of the parallel loop writes the same element", where)
            # first-order carried scalars that are not reductions
            for s in ast.walk(L):
                if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and s.targets[0].id in names_in(s.value) and not defined_before(L, s):
                    ck.bad("%s:%s:parallel recurrence" % (q, f.name), "%s carries a value from one parallel iteration to the next" % s.targets[0].id, "%s:%d %s" % (f.mod.file, s.lineno, f.name))

def defined_before(L, s):
    nm = s.targets[0].id
    for x in ast.walk(L):
        if x is s: continue
        if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name) and x.targets[0].id == nm and x.lineno < s.lineno: return True
        if isinstance(x, ast.For) and nm in names_in(x.target): return True
    return False

def check(ck):
    for q in ("circularcoords:CircularCoords.get_coordinates", "toroidalcoords:ToroidalCoords.get_coordinates", "complexprojectivecoords:ComplexProjectiveCoords.get_coordinates"): ck.fn(q)
    reached = set()
    ck.I.watch |= {"get_cover_radius", "get_covering_partition"}
    for q, cn, nm, f, cls, r, t in runs(ck):
        js = [e for e in r.effects if e.kind == "jitcall"]
        for e in js: reached.add((e.data[0].mod.file, e.data[0].node.lineno))
        if f.jit is not None:
            reached.add((f.mod.file, f.node.lineno))
            caps = ck.I.captured(f, ck.prog.base)
            for k, (v, g) in caps.items():
                if isinstance(v, vg.Ref):
                    w = [m.name for m in ck.prog.modules.values() for x in ast.walk(m.tree) if isinstance(x, (ast.Subscript,)) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == k]
                    (ck.bad if w else ck.ok)("%s:captures global %s" % (q, k), "module-level %s is captured by a compiled routine but written in %s" % (k, w), r.site0)
            if unsafe(f.jit) and sources(ck, q, cn, nm, r, t): ck.bad("%s:no nan assumed away" % q, "the routine can be given not-a-number but is compiled with fast-math options that assume it cannot", r.site0)
        if not js and f.jit is None: continue
        ck.guard(q + ":frozen", frozen, ck, q, r)
        ck.guard(q + ":nan", nans, ck, q, cn, nm, f, cls, r, t)
        ck.guard(q + ":tests", tests_nan, ck, q, r)
        ck.guard(q + ":parallel", parallel, ck, q, r)
    ck.notes.append("%d compiled routines reached" % len(reached))

CP = "dreimac/complexprojectivecoords.py"; TC = "dreimac/toroidalcoords.py"; U = "dreimac/utils.py"; CB = "dreimac/combinatorial.py"; EM = "dreimac/emcoords.py"
ASM = """    @jit(nopython=True)
    def _assemble(
        class_map: np.ndarray,
        nu: np.ndarray,"""
SELFTEST = [
    ("frozen class map", CP, ["    class_map0 = np", ASM, "        class_map0,\n        nu,"], ["    class_map = np", ASM.replace("        class_map: np.ndarray,\n", ""), "        nu,"], "bad"),
    ("fastmath assembly", CP, "    @jit(nopython=True)\n    def _assemble(", "    @jit(fastmath=True, nopython=True)\n    def _assemble(", "bad"),
    ("partial fastmath", CP, "    @jit(nopython=True)\n    def _assemble(", "    @jit(fastmath={'reassoc', 'contract'}, nopython=True)\n    def _assemble(", "quiet"),
    ("nnan fastmath", CP, "    @jit(nopython=True)\n    def _assemble(", "    @jit(fastmath={'reassoc', 'nnan'}, nopython=True)\n    def _assemble(", "bad"),
    ("shared options", CP, ["    @jit(nopython=True)\n    def _assemble(", "# turn cocycle into tensor\n"], ["    @_fast\n    def _assemble(", "_fast = jit(fastmath=True, nopython=True)\n\n\n# turn cocycle into tensor\n"], "bad"),
    ("renamed arrays", CP, "class_map0 = np.zeros_like(part_unity.T)", "class_map0 = np.zeros(part_unity.T.shape)", "quiet"),
    ("jit as a call", CP, ["    @jit(nopython=True)\n    def _assemble(", "    return _assemble(\n"], ["    def _assemble_py(", "    _assemble = jit(fastmath=True, nopython=True)(_assemble_py)\n    return _assemble(\n"], "bad"),
    ("capture theta", TC, ["        n_points: int,\n        theta_matrix: np.ndarray,\n    ):", "lookup_table, n_points, theta_matrix)\n"], ["        n_points: int,\n    ):", "lookup_table, n_points)\n"], "bad"),
    ("capture and write between calls", TC, ["    _cocycle_to_matrix(dist_mat, threshold, lookup_table, n_points, theta_matrix)\n"], ["    _cocycle_to_matrix(dist_mat, threshold, lookup_table, n_points, theta_matrix)\n    harm_rep[0] = 0\n    _cocycle_to_matrix(dist_mat, threshold, lookup_table, n_points, theta_matrix)\n"], "bad"),
    ("harm rep as argument", TC, ["        n_points: int,\n        theta_matrix: np.ndarray,\n    ):\n        for i in range(n_points):\n            for j in range(i + 1, n_points):\n                if dist_mat[i, j] < threshold:\n                    index = combinatorial_number_system_d1_forward(i, j, lookup_table)\n                    theta_matrix[i, j] = harm_rep[index]", "lookup_table, n_points, theta_matrix)\n"], ["        n_points: int,\n        theta_matrix: np.ndarray,\n        harm: np.ndarray,\n    ):\n        for i in range(n_points):\n            for j in range(i + 1, n_points):\n                if dist_mat[i, j] < threshold:\n                    index = combinatorial_number_system_d1_forward(i, j, lookup_table)\n                    theta_matrix[i, j] = harm[index]", "lookup_table, n_points, theta_matrix, harm_rep)\n"], "quiet"),
    ("jitted integration", TC, ["    class_map = integral[membership_function].copy()\n    for i in range(class_map.shape[0]):\n        class_map[i] += theta_matrix[membership_function[i], :].dot(part_unity[:, i])\n    return"], ["    class_map = integral[membership_function].copy()\n\n    @jit(fastmath=True, nopython=True)\n    def _add(class_map, theta_matrix, membership_function, part_unity):\n        for i in range(class_map.shape[0]):\n            class_map[i] += theta_matrix[membership_function[i], :].dot(part_unity[:, i])\n\n    _add(class_map, theta_matrix, membership_function, part_unity)\n    return"], "bad"),
    ("jitted integration safe", TC, ["    class_map = integral[membership_function].copy()\n    for i in range(class_map.shape[0]):\n        class_map[i] += theta_matrix[membership_function[i], :].dot(part_unity[:, i])\n    return"], ["    class_map = integral[membership_function].copy()\n\n    @jit(nopython=True)\n    def _add(class_map, theta_matrix, membership_function, part_unity):\n        for i in range(class_map.shape[0]):\n            class_map[i] += theta_matrix[membership_function[i], :].dot(part_unity[:, i])\n\n    _add(class_map, theta_matrix, membership_function, part_unity)\n    return"], "quiet"),
    ("captured class map in integration", TC, ["    class_map = integral[membership_function].copy()\n    for i in range(class_map.shape[0]):\n        class_map[i] += theta_matrix[membership_function[i], :].dot(part_unity[:, i])\n    return"], ["    class_map = integral[membership_function].copy()\n\n    @jit(nopython=True)\n    def _dot(i, part_unity):\n        return theta_matrix[membership_function[i], :].dot(part_unity[:, i]) + class_map[i]\n\n    for i in range(class_map.shape[0]):\n        class_map[i] = _dot(i, part_unity)\n    return"], "bad"),
    ("captured theta read only", TC, ["    class_map = integral[membership_function].copy()\n    for i in range(class_map.shape[0]):\n        class_map[i] += theta_matrix[membership_function[i], :].dot(part_unity[:, i])\n    return"], ["    class_map = integral[membership_function].copy()\n\n    @jit(nopython=True)\n    def _dot(i, part_unity):\n        return theta_matrix[membership_function[i], :].dot(part_unity[:, i])\n\n    for i in range(class_map.shape[0]):\n        class_map[i] += _dot(i, part_unity)\n    return"], "quiet"),
    ("captured loop counter", TC, ["    class_map = integral[membership_function].copy()\n    for i in range(class_map.shape[0]):\n        class_map[i] += theta_matrix[membership_function[i], :].dot(part_unity[:, i])\n    return"], ["    class_map = integral[membership_function].copy()\n    i = 0\n\n    @jit(nopython=True)\n    def _dot(part_unity):\n        return theta_matrix[membership_function[i], :].dot(part_unity[:, i])\n\n    for i in range(class_map.shape[0]):\n        class_map[i] += _dot(part_unity)\n    return"], "bad"),
    ("parallel delta", U, ["        @jit(fastmath=True, nopython=True)\n        def _delta0_get_row_columns_values(", "            n_entries = 0\n            for i in range(n_points):\n                for j in range(i + 1, n_points):\n                    if dist_mat[i, j] < threshold:\n                        row_index"], ["        @jit(fastmath=True, nopython=True, parallel=True)\n        def _delta0_get_row_columns_values(", "            n_entries = 0\n            for i in numba.prange(n_points):\n                for j in range(i + 1, n_points):\n                    if dist_mat[i, j] < threshold:\n                        row_index"], "bad"),
]
