"""C14: results are functions of the arguments: no clock, environment, unseeded randomness or uninitialised memory reaches an outcome."""
from .surface import *
import ast

TECHNIQUE = "static analysis: taint from clocks, environment, random generators and uninitialised buffers to outcomes over interprocedural value graphs, with domination of every random draw by a seeding of the same generator whose argument is resolved by case analysis on the seed parameter"
EXPLANATION = "The outcome (returned value and whatever decides exceptions) of every public function is closed under data and control dependence. Clock, environment, identity and hash values must not occur in it; every random draw in it must come from a generator that was seeded earlier on every path (global generator, local generator or numba's own), with exactly the seed argument for given seeds 0 and 5 and with a constant or a documented argument otherwise. Buffers from numpy.empty must not be visible in an outcome."
ASSUMPTIONS = ["numpy, scipy, ripser and HiGHS are deterministic for equal inputs", "equal draws follow from equal seeds"]

BAD_CALL = ("time.", "datetime.", "uuid.", "secrets.", "os.getenv", "os.urandom", "os.getpid", "os.environ", "os.times", "os.cpu_count", "os.listdir", "socket.", "platform.", "multiprocessing.", "getpass.", "builtins.id", "builtins.hash", "builtins.input", "tempfile.", "threading.", "glob.", "sys.argv", "locale.", "resource.")
FED = ("builtins.sorted", "builtins.min", "builtins.max", "builtins.map", "builtins.filter", "numpy.vectorize", "numpy.apply_along_axis", "functools.reduce")
SEEDERS = {"numpy.random.seed", "random.seed"}

def is_draw(n):
    if n.op == "call" and isinstance(n.args[0], str):
        nm = n.args[0]
        if nm.startswith("numpy.random.") and nm not in vg.RNG_PURE: return "numba" if False else "numpy"
        if nm.startswith("random.") and nm not in ("random.seed", "random.Random", "random.getstate", "random.setstate"): return "python"
    if n.op == "mcall" and vg.is_rng(n.args[1]): return "local"
    return None

def impure(n):
    if n.op == "call" and isinstance(n.args[0], str) and n.args[0].startswith(BAD_CALL): return n.args[0]
    if n.op in ("libref",) and isinstance(n.args[0], str) and n.args[0].startswith(("os.environ", "sys.argv")): return n.args[0]
    return None

HASHED = ("builtins.set", "builtins.frozenset")
ORDERED = ("builtins.list", "builtins.tuple", "builtins.iter", "builtins.enumerate", "numpy.array", "numpy.asarray", "numpy.fromiter", "builtins.zip", "builtins.map", "builtins.next")

def setlike(n):
    """a set all of whose operands are sets of strings (their order changes from one process to the next)"""
    if n.op == "call" and n.args[0] in HASHED: return any(x.op == "str" or isconst(x) and isinstance(x.args[0], str) for x in walk(n))
    if n.op in ("sub", "or", "and", "bitor", "bitand", "bitxor", "xor") and len(n.args) == 2: return setlike(n.args[0])
    return False

def order_of(n):
    """text when the value is the iteration order of a set of strings, or the outcome of a computation with a time limit"""
    if n.op == "call" and n.args[0] in ORDERED and n.args[1] and any(isinstance(v, vg.Node) and setlike(v) for _, v in n.args[1]): return "the iteration order of a set of strings"
    if n.op in ("seq", "flatseq", "iv") and isinstance(n.args[0], vg.Node) and setlike(n.args[0]): return "the iteration order of a set of strings"
    if n.op == "call" and isinstance(n.args[0], str) and n.args[0].startswith("scipy.optimize."):
        for k, v in n.args[1]:
            if k == "options" and v.op == "dict":
                for a, b in v.args:
                    if isconst(a) and a.args[0] in ("time_limit", "maxtime", "max_time") and not isconst(b, None): return "the time a solver takes (option %s)" % a.args[0]
    return None

def scanned(ck, n):
    """clock, identity or randomness inside a function handed to a library routine (a sort key, say)"""
    qual, line = n.args[0], n.args[1]
    mod = next((m for m in ck.prog.modules.values() if qual.split(":")[0] in (m.file, m.name)), None)
    if mod is None: return None
    for fn in ast.walk(mod.tree):
        if isinstance(fn, (ast.Lambda, ast.FunctionDef)) and fn.lineno == line:
            for x in ast.walk(fn):
                if isinstance(x, ast.Call):
                    if isinstance(x.func, ast.Name) and x.func.id in ("id", "hash"): return "builtins." + x.func.id
                    t = ast.unparse(x.func)
                    if t.startswith(("time.", "random.", "np.random.", "numpy.random.", "os.", "uuid.", "datetime.")): return t
    return None

def reads(ck, field):
    """whether some method other than a constructor reads this field"""
    if "reads" not in ck.cache:
        ck.cache["reads"] = {x.attr for m in ck.prog.modules.values() for fn in ast.walk(m.tree) if isinstance(fn, ast.FunctionDef) and fn.name != "__init__" for x in ast.walk(fn) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load)}
    return field in ck.cache["reads"]

def prefix(a, b):
    """guards of a are guards of b"""
    sb = set(b)
    return all(x in sb for x in a)

def seed_arg(n):
    for k, v in n.args[1]:
        if k in ("seed", "0", "a", "x"): return v
    for k, v in n.args[1]:
        if k != "#": return v
    return None

def local_seed(n):
    out = []
    st = [n]
    while st:
        x = st.pop()
        if x.op == "phi": st += [x.args[1], x.args[2]]
        else: out.append(seed_arg(x))
    return out

def good_seed(ck, key, arg, want, params, site):
    """want: ('is', node) the argument itself; ('any',) a constant or documented argument"""
    if arg is None or isconst(arg, None): ck.bad(key, "the generator is seeded from the operating system (no seed or None)", site); return
    bare = arg
    while bare.op == "call" and bare.args[0] in ("builtins.int", "numpy.int64", "numpy.uint32", "operator.index") and bare.args[1]: bare = bare.args[1][0][1]
    for x in walk(bare):
        w = impure(x) or is_draw(x)
        if w: ck.bad(key, "the seed depends on %s" % (w if impure(x) else "a random draw"), site); return
    if want[0] == "is":
        if bare is want[1]: ck.ok(key, "seed argument used", site)
        elif isconst(bare) and isconst(want[1]): ck.bad(key, "with seed=%r given, the generator is seeded with %r" % (want[1].args[0], bare.args[0]), site)
        elif bare.op == "sym" or not (set(walk(bare)) & {want[1]}) : ck.bad(key, "with seed=%s given, the generator is seeded with %s" % (show(want[1], 2), show(bare, 3)), site)
        else: ck.unk(key, "seed %s" % show(bare, 3))
    else:
        ps = {vg.sym(p) for p in params}
        free = {x for x in walk(bare) if x.op == "sym"} - ps
        if free: ck.unk(key, "seed %s" % show(bare, 3))
        else: ck.ok(key, "constant or argument", site)

def one(ck, q, f, cls, r, t, tag, want):
    key = q + tag
    out = list(outcome(r))
    if q.endswith(".__init__"):
        for (oid, nm), v in r.state.fields.items():
            if not reads(ck, nm): continue
            try: out.append(ck.I.to_node(v, r.state))
            except Exception: pass
    d = set()
    for n in out: d |= deps(r, n)
    bad = {}
    for x in d:
        w = impure(x) or order_of(x)
        if w is None and x.op == "call" and x.args[0] in FED: w = next((y for _, v in x.args[1] if isinstance(v, vg.Node) and v.op == "func" for y in [scanned(ck, v)] if y), None)
        if w: bad.setdefault(w, x)
    for w in sorted(bad): ck.bad("%s:outcome independent of %s" % (key, w), "the result depends on %s" % w, site_of(r, bad[w]))
    if not bad: ck.ok("%s:no clock, environment or identity in the outcome" % key, "%d values" % len(d), r.site0)
    eff = {}
    for e in r.effects:
        if e.kind == "libcall" and isinstance(e.data[1], vg.Node): eff.setdefault(e.data[1], e)
        if e.kind == "mcall": eff.setdefault(e.data[4], e)
    draws = [(x, is_draw(x)) for x in d if is_draw(x)]
    for e in r.effects:          # in-place shuffles
        if e.kind == "libcall" and e.data[0] in ("numpy.random.shuffle", "random.shuffle") and isinstance(e.data[1], vg.Node): draws.append((e.data[1], "numpy" if e.data[0][0] == "n" else "python"))
    seeds = [e for e in r.effects if e.kind == "libcall" and e.data[0] in SEEDERS]
    resets = [e for e in r.effects if e.kind == "libcall" and e.data[0].endswith((".set_state", ".setstate"))]
    for x, kind in draws:
        e = eff.get(x)
        site = e.site if e is not None else r.site0
        k = "%s:draw %s" % (key, show(x, 2)[:60])
        if kind == "local":
            for a in local_seed(x.args[1]): good_seed(ck, k, a, want, r.params, site)
            continue
        if e is None: ck.bad(k, "a random draw made when the module is loaded reaches the result", site); continue
        jit = compiled(ck, e.site)
        pre = "numpy.random.seed" if kind == "numpy" else "random.seed"
        cand = [s for s in seeds if s.data[0] == pre and s.order < e.order and prefix(s.path, e.path) and tuple(s.loops) == tuple(e.loops)[:len(s.loops)] and compiled(ck, s.site) == jit]
        if not cand:
            late = [s for s in seeds if s.data[0] == pre]
            ck.bad(k, "random numbers are drawn before the generator is seeded on this path" if late else ("random numbers are drawn inside compiled code, whose generator is not seeded" if jit else "random numbers are drawn from an unseeded generator"), site); continue
        if any(cand[-1].order < z.order < e.order for z in resets): ck.unk(k, "generator state replaced"); continue
        good_seed(ck, k, seed_arg(cand[-1].data[1]), want, r.params, cand[-1].site)

def site_of(r, n):
    for e in r.effects:
        if e.kind in ("libcall", "libattr") and isinstance(e.data, tuple) and len(e.data) > 1 and e.data[1] is n: return e.site
    return r.site0

def outcome(r):
    from .c13 import outcome as o
    return o(r)

def nm_of(q): return q.split(".")[-1]

def buffers(ck, q, f, cls, r, t):
    d = set()
    for n in outcome(r): d |= deps(r, n)
    emp = [x for x in d if x.op == "call" and x.args[0] in ("numpy.empty", "numpy.empty_like", "numpy.ndarray")]
    if not emp: return
    key = "%s:no uninitialised memory in the result" % q
    n = r.node()
    comps = list(n.args) if n.op in ("tuple", "list") else [n]
    # the prefixes of the operators' entry buffers are C07's business
    where = {e.data[1]: str(e.site[2]) for e in r.effects if e.kind == "libcall" and isinstance(e.data[1], vg.Node) and e.data[1] in emp}
    emp = [x for x in emp if "make_delta" not in where.get(x, "")]
    if not emp: return
    c = dre.em_ctx(ck, q.rsplit(".", 1)[0], r) if cls is not None and not f.static else Ctx(r, types=dict(t))
    for p, v in t.items(): c.types.setdefault(p, v)
    # what is handed to the dimension reduction stands for its result
    red = [x for x in r.calls_seen if x[0].split(".")[-1] == "ppca" and isinstance(x[1], dict) and isinstance(x[1].get("class_map"), vg.Node)]
    if red and nm_of(q) == "get_coordinates": comps = [red[-1][1]["class_map"]]
    for m in comps:
        v = decide_buffers(ck, key, r, c, m, emp)

def decide_buffers(ck, key, r, c, m, emp):
    ty0 = c.ty(m)
    idx = ivars(ty0.shape, c)
    p = at(c, m, idx)
    hit = atoms_of(p, lambda a: a.kind in ("el", "opq") and isinstance(a.args[0], vg.Node) and a.args[0] in emp)
    if not hit: ck.ok(key, "no buffer entry in the result"); return
    # two contents of the buffer
    names = {poly.nodekey(a.args[0]) for a in hit}
    g1 = {k: (lambda env, i: 17.3) for k in names}; g2 = {k: (lambda env, i: 4211.9) for k in names}
    es = set(emp); solved = lambda n: not (deps(r, n) & es)
    # ranges under which points lie in several cover elements
    com = {"self._dist_land_data": lambda e, i: 0.1 + 1.2 * e.u("dld", *i), "perc": lambda e, i: 0.9, "standard_range": lambda e, i: 0}
    for x in atoms_of(p, lambda a: a.kind in ("el", "opq") and isinstance(a.args[0], vg.Node) and poly.nodekey(a.args[0]).startswith(("self._dgms", "self.dgms_"))): com[poly.nodekey(x.args[0])] = lambda e, i: 0.2 if i[-1] == 0 else 2
    g1 = {**com, **g1}; g2 = {**com, **g2}
    a, w1 = valuations(c, [p], g1, n=40, seed="buf", opq=solved); b, w2 = valuations(c, [p], g2, n=40, seed="buf", opq=solved)
    if not a or not b: ck.unk(key, str(w1)); return
    diff = [1 for x, y in zip(a, b) if not (x[0] == y[0] or abs(complex(x[0]) - complex(y[0])) < 1e-9)]
    if diff: ck.bad(key, "entries of the result are read from memory that was never written", "")
    elif not any(complex(x[0]) for x in a): ck.unk(key, "only vanishing entries evaluated (%s)" % w1)
    else: ck.ok(key, "result does not depend on the buffer's initial content")

def check(ck):
    for q in ("utils:GeometryExamples", "emcoords:EMCoords"): ck.fn(q)
    for q, cn, nm, f, cls, r, t in runs(ck):
        ps = [a.arg for a in f.node.args.args + f.node.args.kwonlyargs]
        for p, dv in sorted(f.defaults.items()):
            try: dn = dv if isinstance(dv, vg.Node) else ck.I.to_node(dv, ck.prog.base)
            except Exception: continue
            w = [impure(x) or is_draw(x) for x in walk(dn) if impure(x) or is_draw(x)]
            if w: ck.bad("%s:default of %s" % (q, p), "the default value is computed from %s when the module is loaded" % w[0], r.site0)
        if "seed" in ps:
            def case(tag, v, want):
                rr = ck.run(q, args=dict({p: vg.sym(p) for p in ps if p != "self"}, seed=v), f=f, types=oracle(t))
                one(ck, q, f, cls, rr, t, tag, want)
            for v in (0, 5): ck.guard("%s seed=%d" % (q, v), case, "(seed=%d)" % v, vg.const(v), ("is", vg.const(v)))
            dv = f.defaults.get("seed")
            if isinstance(dv, vg.Node): ck.guard(q + " default seed", case, "(no seed)", dv, ("any",))
        else: ck.guard(q, one, ck, q, f, cls, r, t, "", ("any",))
        ck.guard(q + ":buffers", buffers, ck, q, f, cls, r, t)

U = "dreimac/utils.py"; EM = "dreimac/emcoords.py"; PR = "dreimac/projectivecoords.py"
SEED = "        if seed is None:\n            seed = n_samples\n        np.random.seed(seed)\n"
SELFTEST = [
    ("time limit", "dreimac/toroidalcoords.py", "                        bounds=bounds,\n                    )", "                        bounds=bounds,\n                        options={'time_limit': 60},\n                    )", "bad"),
    ("solver display", "dreimac/toroidalcoords.py", "                        bounds=bounds,\n                    )", "                        bounds=bounds,\n                        options={'disp': False},\n                    )", "quiet"),
    ("identity as tie break", EM, "idxs = np.argsort(self._dgms[i][:, 0] - self._dgms[i][:, 1])", "idxs = sorted(range(len(self._dgms[i])), key=lambda j: (self._dgms[i][j, 0] - self._dgms[i][j, 1], id(self._cocycles[i][j])))", "bad"),
    ("sorted key", EM, "idxs = np.argsort(self._dgms[i][:, 0] - self._dgms[i][:, 1])", "idxs = sorted(range(len(self._dgms[i])), key=lambda j: self._dgms[i][j, 0] - self._dgms[i][j, 1])", "quiet"),
    ("set of strings", U, "        perm_rest_points = np.setdiff1d(\n            np.arange(0, n_points, dtype=int), perm, assume_unique=True\n        )\n", "        perm_rest_points = np.array(list(set(map(str, range(n_points))) - set(map(str, perm))), dtype=int)\n", "bad"),
    ("set of integers", U, "        perm_rest_points = np.setdiff1d(\n            np.arange(0, n_points, dtype=int), perm, assume_unique=True\n        )\n", "        perm_rest_points = np.array(sorted(set(range(n_points)) - set(perm)), dtype=int)\n", "quiet"),
    ("rp2 seed after draw", U, SEED + "        X = np.random.randn(n_samples, 3)\n", "        if seed is None:\n            seed = n_samples\n        X = np.random.randn(n_samples, 3)\n        np.random.seed(seed)\n", "bad"),
    ("rp2 falsy seed", U, SEED, "        if not seed:\n            seed = n_samples\n        np.random.seed(seed)\n", "bad"),
    ("rp2 or seed", U, SEED, "        np.random.seed(seed or n_samples)\n", "bad"),
    ("rp2 seed only when given", U, SEED, "        if seed is not None:\n            np.random.seed(seed)\n", "bad"),
    ("rp2 conditional expression", U, SEED, "        np.random.seed(n_samples if seed is None else seed)\n", "quiet"),
    ("rp2 default_rng", U, SEED + "        X = np.random.randn(n_samples, 3)\n", "        rng = np.random.default_rng(n_samples if seed is None else seed)\n        X = rng.standard_normal((n_samples, 3))\n", "quiet"),
    ("rp2 default_rng seed None", U, SEED + "        X = np.random.randn(n_samples, 3)\n", "        rng = np.random.default_rng(seed)\n        X = rng.standard_normal((n_samples, 3))\n", "bad"),
    ("rp2 ignores seed", U, SEED, "        np.random.seed(n_samples)\n", "bad"),
    ("rp2 seed None passed", U, SEED, "        np.random.seed(seed)\n", "bad"),
    ("sphere unseeded", U, "        np.random.seed(0)\n        data =", "        data =", "bad"),
    ("trefoil one branch", U, "            np.random.seed(0)\n            u = 4 * np.pi * np.random.rand(n_samples)", "            u = 4 * np.pi * np.random.rand(n_samples)", "bad"),
    ("trefoil seeded once", U, ["        if noisy:\n            np.random.seed(0)\n", "        else:\n            np.random.seed(0)\n"], ["        np.random.seed(0)\n        if noisy:\n", "        else:\n"], "quiet"),
    ("noisy circle second draw unseeded generator", U, "+ (np.random.random((n_samples, 2)) - 0.5) * noise_size", "+ (np.random.default_rng().random((n_samples, 2)) - 0.5) * noise_size", "bad"),
    ("noisy circle fixed seed", U, "        np.random.seed(seed)\n        X = np.random.random((n_samples, 2)) - 0.5", "        np.random.seed(0)\n        X = np.random.random((n_samples, 2)) - 0.5", "bad"),
    ("bullseye seed after noise", U, "        np.random.seed(0)\n        eps = 0.1\n        X += (np.random.random(X.shape) - 0.5) * eps\n", "        eps = 0.1\n        X += (np.random.random(X.shape) - 0.5) * eps\n        np.random.seed(0)\n", "bad"),
    ("bullseye helper", U, "        np.random.seed(0)\n        eps = 0.1\n        X += (np.random.random(X.shape) - 0.5) * eps\n", "        def noise(shape, eps):\n            np.random.seed(0)\n            return (np.random.random(shape) - 0.5) * eps\n\n        X += noise(X.shape, 0.1)\n", "quiet"),
    ("time seed", U, "        np.random.seed(0)\n        eps = 0.3", "        np.random.seed(int(time.time()))\n        eps = 0.3", "bad"),
    ("random start of greedy permutation", U, "        ds = D[0, :]\n", "        perm[0] = np.random.randint(D.shape[0])\n        ds = D[perm[0], :]\n", "bad"),
    ("random bins", U, "        bins = 50\n", "        bins = 50 + int(time.time()) % 2\n", "bad"),
    ("uninitialised weights", EM, "phi = np.zeros_like(dist_land_data, dtype=float)", "phi = np.empty_like(dist_land_data, dtype=float)", "bad"),
    ("torus empty", U, "        X = np.zeros((n_samples, 3))\n        s =", "        X = np.empty((n_samples, 3))\n        s =", "quiet"),
    ("ppca time dependent", U, "            for i in range(n_dim - 1):\n                finite", "            for i in range(n_dim - 1):\n                if time.time() - tic > 60:\n                    break\n                finite", "bad"),
    ("jittered eigenvectors", U, "                U = np.fliplr(U)\n            except:\n                U = np.eye(X.shape[0])\n            Y", "                U = np.fliplr(U)\n            except:\n                U = np.linalg.qr(np.random.randn(X.shape[0], X.shape[0]))[0]\n            Y", "bad"),
]
