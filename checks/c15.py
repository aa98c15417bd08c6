"""C15: every documented option takes effect and reaches the computation under its own meaning."""
from .surface import *
from .c13 import outcome
from .c14 import is_draw, SEEDERS
from .concrete import Arr, Tok, grid, deviation, agree
import ast, re

TECHNIQUE = "static analysis: data and control dependence of outcomes on every parameter (per mode), identity of forwarded values at the calls that consume them, and case analysis of falsy arguments, verbosity and defaults"
EXPLANATION = "For every public function the outcome (returned value, fields set by constructors, exceptions, output) must depend on every parameter, with the reduction mode fixed to each of its values in turn. The values that reach persistence, cover radius, partition of unity and dimension reduction must be the caller's options themselves. A numeric option must not be replaced because it is falsy. With verbosity off nothing is printed, with verbosity on something is. Defaults stated in the documentation must be the ones in the signature."
ASSUMPTIONS = ["dependence is structural: an option that enters a value is taken to influence it unless the terms are equal after normalisation", "ripser honours its documented arguments"]
MODES = ("direct", "exponential", "one-by-one")
MODEPARAM = "projective_dim_red_mode"
# parameters that only affect drawing
def effects_nodes(r):
    out = []
    for e in r.effects:
        if e.kind in ("mcall", "print", "libcall", "callv", "setfield", "store", "mutate"):
            out += [x for x, _ in e.path]
            if e.kind == "mcall": out += [e.data[1], e.data[2], e.data[3]]
            elif e.kind == "libcall" and isinstance(e.data[1], vg.Node): out.append(e.data[1])
            elif e.kind == "libcall": out += [a for a in (e.data[1] if isinstance(e.data[1], tuple) else ())]
            elif e.kind == "print": out.append(e.data)
    return out

def fields(ck, r):
    out = []
    for (oid, n), v in r.state.fields.items():
        try: out.append(ck.I.to_node(v, r.state))
        except Exception: pass
    return out

def closure(r, ns):
    d = set()
    for n in ns:
        for x in flat(n): d |= deps(r, x)
    return d

def flat(n):
    if isinstance(n, vg.Node): return [n]
    if isinstance(n, (tuple, list)): return [y for x in n for y in flat(x)]
    return []

def vanishes(ck, q, r, t, cls, f, p):
    """the parameter occurs in the result's value graph but not in its normal form"""
    if cls is not None and not f.static: return False
    if q.split(":")[1].startswith(("PlotUtils", "CohomologyUtils.make")): return False
    k = ("nf", q)
    if k not in ck.cache:
        ck.cache[k] = None
        try:
            n = r.node()
            comps = list(n.args) if n.op in ("tuple", "list") else [v for _, v in n.args] if n.op == "dict" else [n]
            c = Ctx(r, types=dict(t)); ps = []
            for m in comps:
                ty0 = c.ty(m); idx = ivars(ty0.shape, c)
                ps += [at(c, m, idx)] + [P(x) for x in ty0.shape]
            ck.cache[k] = (c, ps)
        except Exception: pass
    if ck.cache[k] is None: return False
    s = vg.sym(p)
    def mentions(a):
        if a.kind in ("v", "el", "opq") and a.args and a.args[0] == p: return True
        for b in a.args:
            if isinstance(b, vg.Node) and (b is s or s in deps(r, b)): return True
        return False
    if p in str(t.get(p, "")): return False
    c, ps = ck.cache[k]
    if t.get(p) is not None and t[p].rank > 0: return False
    return not atoms_of(tuple(ps), mentions) and not atoms_of(tuple(ps), lambda a: a.kind in ("fr", "opq"))

def influence(ck, q, cn, nm, f, cls, r, t, tag=""):
    ns = list(outcome(r)) if nm == "__init__" else [r.node()]
    drawing = cn == "PlotUtils"
    if nm == "__init__": ns += fields(ck, r)
    if nm == "reindex_cocycles": ns += [e.data for e in r.effects if e.kind == "store"]
    if drawing: ns += [e.data for e in r.effects if e.kind in ("mcall", "libcall")] + [[x for x, _ in e.path] for e in r.effects]
    ns = [n if isinstance(n, vg.Node) else flat(n) for n in ns]
    d = closure(r, ns)
    sd = closure(r, [e.data[1] for e in r.effects if e.kind == "libcall" and e.data[0] in SEEDERS])
    pr = closure(r, [[x for x, _ in e.path] for e in r.effects if e.kind == "print"])
    for p in sorted(r.params):
        if p == "self": continue
        s = vg.sym(p)
        key = "%s%s:%s has an effect" % (q, tag, p)
        if p == "verbose":
            if nm == "__init__" or s in pr or s in d: ck.ok(key, "print depends on it" if s in pr else "stored", r.site0)
            else: ck.bad(key, "verbose does not influence any output", r.site0)
            continue
        if s in d and vanishes(ck, q, r, t, cls, f, p): ck.bad(key, "%s cancels out of the result" % p, r.site0)
        elif s in d: ck.ok(key, "outcome depends on it", r.site0)
        elif any(is_draw(x) for x in d) and s in sd: ck.ok(key, "seeds the draws the outcome depends on", r.site0)
        elif any(isinstance(x, vg.Node) and x.op == "opaque" for x in d) and drawing is False and not ret_simple(r): ck.unk(key, "outcome partly opaque")
        else: ck.bad(key, "the outcome does not depend on %s%s" % (p, tag and " in mode %s" % tag), r.site0)

def ret_simple(r):
    return not any(x.op == "opaque" for x in deps(r, r.node()))

def falsy(ck, q, cn, nm, f, cls, r, t):
    """an explicit 0 must not be taken for an omitted argument"""
    d = closure(r, outcome(r) + (fields(ck, r) if nm == "__init__" else []))
    for p in sorted(r.params):
        ty0 = t.get(p)
        if p in ("seed",): num = True
        else: num = ty0 is not None and ty0.rank == 0 and ty0.dt in ("i", "f")
        if not num: continue
        s = vg.sym(p)
        hits = [x for x in d if x.op == "phi" and repl(x, s)]
        key = "%s:explicit %s=0 honoured" % (q, p)
        if hits: ck.bad(key, "a falsy %s is replaced by another value: %s" % (p, show(hits[0], 3)), r.site0)
        else: ck.ok(key, "no truth test selects a replacement", r.site0)

def repl(x, s):
    """phi(truth(s), s-dependent, s-free value) or mirrored, standing for `s or default`"""
    c = x.args[0]; neg = False
    while c.op == "not": c = c.args[0]; neg = not neg
    if not (c is s or c.op == "truth" and c.args[0] is s): return False
    a, b = (x.args[2], x.args[1]) if neg else (x.args[1], x.args[2])
    return a is s and s not in set(walk(b))

def subst_deep(n, m):
    try: return vg.subst(n, m)
    except Exception: return n

def feasible(path, m):
    for c, pol in path:
        v = subst_deep(c, m)
        b = truthy(v)
        if b is not None and b != pol: return False
    return True

def truthy(v):
    if isconst(v): return bool(v.args[0])
    if v.op == "truth": return truthy(v.args[0])
    if v.op == "not":
        b = truthy(v.args[0]); return None if b is None else not b
    if v.op in ("and", "or"):
        bs = [truthy(x) for x in v.args]
        if v.op == "and": return False if False in bs else (True if all(b is True for b in bs) else None)
        return True if True in bs else (False if all(b is False for b in bs) else None)
    return None

def verbosity(ck, q, cn, nm, f, cls, r, t):
    vs = [vg.sym(p) for p in ("verbose", "self.verbose")]
    prints = [e for e in r.effects if e.kind == "print" or e.kind == "libcall" and e.data[0] in ("sys.stdout.write", "builtins.print")]
    off = {v: vg.const(False) for v in vs}; on = {v: vg.const(True) for v in vs}
    if "verbose" in r.params or cls is not None and "_X" in str(cls.lookup("__init__")) or nm == "get_coordinates":
        loud = [e for e in prints if feasible(e.path, off)]
        key = "%s:silent unless verbose" % q
        if loud: ck.bad(key, "output is printed with verbosity off", loud[0].site)
        else: ck.ok(key, "%d print statements guarded" % len(prints), r.site0)
    if "verbose" in r.params and nm != "__init__":
        key = "%s:verbose prints" % q
        if any(feasible(e.path, on) for e in prints): ck.ok(key, "print reachable", r.site0)
        else: ck.bad(key, "verbosity on prints nothing", r.site0)
    if nm == "__init__" and "verbose" in r.params:
        key = "%s:verbose prints" % q
        if any(feasible(e.path, on) for e in prints): ck.ok(key, "print reachable", r.site0)
        else: ck.bad(key, "verbosity on prints nothing", r.site0)

def bare(n):
    """the option itself under conversions that keep its meaning"""
    while n.op == "call" and n.args[0] in ("builtins.int", "builtins.bool", "builtins.float") and n.args[1]: n = n.args[1][0][1]
    while n.op == "truth": n = n.args[0]
    return n

def shapes(n):
    """valid inputs with at least n points: (matrix?, shape)"""
    for N in range(max(n, 1), max(n, 1) + 3):
        for d in (1, 2, N + 2): yield (False, 0), (N, d)
        yield (True, 1), (N, N)
        yield (True, 1), (N, N + 2)

def inits(names):
    ch = dict(prime=(2, 3, 5, 41), maxdim=(1, 2, 3), verbose=(False, True))
    for e in grid([x for x in names], ch):
        for n in (1, 2, 5):
            for dm, sh in shapes(n):
                for d in dm: yield dict(e, n_landmarks=n, distance_matrix=d, X=Arr(*sh))

FN = Tok("partition")
def calls(names):
    ch = dict(perc=(0, 0.25, 0.5, 0.99, 1), cocycle_idx=(0, 1, 3), cocycle_idxs=([0], [1, 0], [0, 2, 3]), proj_dim=(1, 2, 5), complex_dim=(1, 2, 5), standard_range=(True, False), check_cocycle_condition=(True, False), partunity_fn=(FN,), **{MODEPARAM: MODES})
    ch["self.verbose"] = (True, False)
    ch["self._prime"] = (2, 3, 41)
    for e in grid(list(names) + ["self.verbose", "self._prime"], ch): yield e

def option(ck, key, v, p, envs, msg, site, r, flag=False):
    """v is the option p under every assignment of the options"""
    if bare(v) is vg.sym(p): ck.ok(key, "the option itself", site); return
    if flag: same = lambda x, y: bool(x) == bool(y) if not isinstance(x, (Arr, Tok)) else None
    else: same = lambda x, y: None if x is None else agree(x, y)
    d = deviation(v, p, envs, same)
    if d[0] == "ne":
        show_ = {k: x for k, x in d[1].items() if vg.sym(k) in deps(r, v) or k == p}
        ck.bad(key, "%s (with %s it is %s)" % (msg, ", ".join("%s=%s" % (k, x.shape if isinstance(x, Arr) else x.name if isinstance(x, Tok) else repr(x)) for k, x in sorted(show_.items())), d[2]), site)
    elif d[0] == "eq" : ck.ok(key, "equal to the option under %d assignments of the options" % d[1], site)
    elif isconst(v) or bare(v).op in ("sym", "func") or vg.sym(p) not in deps(r, v): ck.bad(key, msg, site)
    else: ck.unk(key, show(v, 3))

def constructor(ck, q, cn, nm, f, cls, r, t):
    calls = [e for e in r.effects if e.kind == "libcall" and e.data[0] == "ripser.ripser"]
    if not calls: ck.unk(q + ":ripser", "call not found"); return
    a = dict(calls[-1].data[1].args[1])
    site = calls[-1].site
    for arg, p in (("coeff", "prime"), ("maxdim", "maxdim"), ("n_perm", "n_landmarks"), ("distance_matrix", "distance_matrix")):
        if p not in r.params: continue
        key = "%s:%s reaches persistence" % (q, p)
        v = a.get(arg)
        if v is None: ck.bad(key, "ripser is called without %s" % arg, site)
        else: option(ck, key, v, p, inits(r.params), "ripser gets %s=%s instead of the option %s" % (arg, show(v, 3), p), site, r, flag=p == "distance_matrix")
    if not isconst(a.get("do_cocycles", vg.const(False)), True): ck.bad(q + ":cocycles requested", "ripser is called without do_cocycles", site)
    else: ck.ok(q + ":cocycles requested", "constant", site)
    vf = [x for (oid, n), v in r.state.fields.items() if n == "verbose" for x in [ck.I.to_node(v, r.state)]]
    for x in vf:
        if bare(x) is vg.sym("verbose"): ck.ok(q + ":verbose stored", "the option itself")
        else: ck.bad(q + ":verbose stored", "self.verbose is %s" % show(x, 2), r.site0)

LOOKS = dict(alpha=(0, 0.05, 0.5, 1), arrowcolor=("c", "r"), facecolor=("w", "k"))

def looks(ck, q, cn, nm, f, cls, r, t):
    """a drawing option reaches the drawing call unchanged"""
    for p in LOOKS:
        if p not in r.params: continue
        for e in r.effects:
            if e.kind != "mcall" or len(e.data) < 4: continue
            for v in list(e.data[2]) + [x for _, x in e.data[3]]:
                if not isinstance(v, vg.Node) or vg.sym(p) not in deps(r, v): continue
                key = "%s:%s reaches %s" % (q, p, e.data[0])
                d = deviation(v, p, grid(list(r.params), dict(LOOKS, n_parallels=(3, 10), n_meridians=(3, 20))))
                if bare(v) is vg.sym(p) or d[0] == "eq": ck.ok(key, "the option itself", e.site)
                elif d[0] == "ne": ck.bad(key, "%s draws with %s instead of the caller's %s" % (e.data[0], show(v, 3), p), e.site)

def coordinates(ck, q, cn, nm, f, cls, r, t):
    want = {"get_cover_radius": {"perc": "perc", "standard_range": "standard_range"}, "get_covering_partition": {"partunity_fn": "partunity_fn"}, "ppca": {"projective_dim_red_mode": MODEPARAM, "verbose": "self.verbose"}}
    seen = {}
    for x in r.calls_seen:
        seen[x[0].split(".")[-1]] = x
    for c, m in want.items():
        if c not in seen: continue
        args, site = seen[c][1], seen[c][5]
        for a, p in m.items():
            if a not in args: continue
            if not p.startswith("self.") and p not in r.params: continue
            v = args[a]
            if not isinstance(v, vg.Node): continue
            key = "%s:%s reaches %s" % (q, p, c)
            option(ck, key, v, p, calls(r.params), "%s is called with %s=%s instead of the caller's %s" % (c, a, show(v, 3), p), site, r, flag=p in ("standard_range", "self.verbose"))

def documented(ck, q, cn, nm, f, cls, r, t):
    """defaults and parameter names stated in the documentation"""
    doc = ast.get_docstring(f.node) or ""
    body = doc.split("Returns")[0].split("Return\n")[0]
    cur = None; text = {}
    names = [a.arg for a in f.node.args.args + f.node.args.kwonlyargs if a.arg != "self"]
    for l in body.splitlines():
        m = re.match(r"^(\w+)\s*:", l)
        if m: cur = m.group(1); text[cur] = l
        elif cur and (l.startswith(" ") or not l.strip()): text[cur] += " " + l.strip()
        elif l.strip(): cur = None
    for p, tx in sorted(text.items()):
        if p not in names: continue
        m = re.search(r"[Dd]efault(?: value)? (?:is|=)\s*([-+.\w\"']+)", tx)
        if m:
            v = m.group(1).rstrip(".").strip("\"'")
            dv = f.defaults.get(p)
            key = "%s:documented default of %s" % (q, p)
            if not isinstance(dv, vg.Node) or not isconst(dv): ck.unk(key, "default not constant"); continue
            ok = str(dv.args[0]) == v
            if not ok:
                try: ok = float(dv.args[0]) == float(v)
                except Exception: ok = False
            if ok: ck.ok(key, "default %s" % v, r.site0)
            else: ck.bad(key, "documentation says %s, the signature says %r" % (v, dv.args[0]), r.site0)
        if re.search(r"number of samples as a seed", tx) and "n_samples" in names and p == "seed":
            rr = ck.run(q, args=dict({x: vg.sym(x) for x in names}, seed=vg.const(None)), f=f)
            sd = [e for e in rr.effects if e.kind == "libcall" and e.data[0] in ("numpy.random.seed", "numpy.random.default_rng", "numpy.random.RandomState")]
            key = "%s:documented seed when omitted" % q
            vals = [v for e in sd for k, v in e.data[1].args[1] if k != "#"]
            if not vals: ck.unk(key, "no seeding")
            elif all(bare(v) is vg.sym("n_samples") for v in vals): ck.ok(key, "n_samples", r.site0)
            elif all(isconst(v) for v in vals): ck.bad(key, "documentation says the number of samples is the seed when omitted, the code uses %s" % show(vals[0], 2), r.site0)
            else: ck.unk(key, show(vals[0], 3))

def check(ck):
    for q in ("emcoords:EMCoords", "circularcoords:CircularCoords", "lenscoords:LensCoords", "utils:EquivariantPCA"): ck.fn(q)
    for q, cn, nm, f, cls, r, t in runs(ck):
        a = (ck, q, cn, nm, f, cls, r)
        if MODEPARAM in r.params:
            names = [x.arg for x in f.node.args.args if x.arg != "self"]
            for m in MODES:
                def go():
                    rr = ck.run(q, args=dict({p: vg.sym(p) for p in names}, **{MODEPARAM: vg.const(m)}), f=f, selfobj=vg.ObjV(cls, "self") if not f.static else None)
                    rr.params = dict(rr.params) if isinstance(rr.params, dict) else rr.params
                    influence_mode(ck, q, cn, nm, f, cls, rr, names, m)
                ck.guard("%s(%s)" % (q, m), go)
        for p, v in flags(f):
            ck.guard("%s(%s=%s)" % (q, p, v), influence_flag, *a, t, p, v)
        ck.guard(q + ":influence", influence, *a, t)
        ck.guard(q + ":falsy", falsy, *a, t)
        ck.guard(q + ":verbosity", verbosity, *a, t)
        ck.guard(q + ":documented", documented, *a, t)
        if cn == "PlotUtils": ck.guard(q + ":looks", looks, *a, t)
        if nm == "__init__" and cls is not None and dre_class(cls): ck.guard(q + ":constructor", constructor, *a, t)
        if nm == "get_coordinates": ck.guard(q + ":forwarding", coordinates, *a, t)

def influence_mode(ck, q, cn, nm, f, cls, r, names, m):
    d = closure(r, [r.node()])
    for p in names:
        if p in (MODEPARAM, "verbose"): continue
        key = "%s:%s has an effect in mode %s" % (q, p, m)
        if vg.sym(p) in d: ck.ok(key, "outcome depends on it", r.site0)
        else: ck.bad(key, "in mode %s the outcome does not depend on %s" % (m, p), r.site0)

def flags(f):
    """boolean options with a default"""
    for x in f.node.args.args:
        d = f.defaults.get(x.arg)
        if isinstance(d, vg.Node) and isconst(d) and isinstance(d.args[0], bool):
            for v in (True, False): yield x.arg, v

def influence_flag(ck, q, cn, nm, f, cls, r, t, p, v):
    """with a boolean option fixed, every other option still has an effect"""
    names = [x.arg for x in f.node.args.args if x.arg != "self"]
    rr = ck.run(q, args=dict({x: vg.sym(x) for x in names}, **{p: vg.const(v)}), f=f, selfobj=vg.ObjV(cls, "self") if not f.static else None, types=oracle(t))
    rr.params = [x for x in names if x != p]
    influence(ck, q + " [%s=%s]" % (p, v), cn, nm, f, cls, rr, t)

def dre_class(cls):
    if cls.name == "EMCoords": return True
    return any(isinstance(b, vg.ClassV) and dre_class(b) for b in cls.bases)

U = "dreimac/utils.py"; EM = "dreimac/emcoords.py"; TO = "dreimac/toroidalcoords.py"; CI = "dreimac/circularcoords.py"; LE = "dreimac/lenscoords.py"; PR = "dreimac/projectivecoords.py"; CP = "dreimac/complexprojectivecoords.py"
SELFTEST = [
    ("check always on", CI, "            check_cocycle_condition,\n        )[0]", "            check_cocycle_condition or True,\n        )[0]", "bad"),
    ("circular drops partunity", CI, "            partunity_fn,\n            standard_range,\n            check_cocycle_condition,\n        )[0]", "            standard_range=standard_range,\n            check_cocycle_condition=check_cocycle_condition,\n        )[0]", "bad"),
    ("circular drops check", CI, "            check_cocycle_condition,\n        )[0]", "        )[0]", "bad"),
    ("circular swaps flags", CI, "            standard_range,\n            check_cocycle_condition,\n        )[0]", "            check_cocycle_condition,\n            standard_range,\n        )[0]", "bad"),
    ("circular keywords", CI, "            perc,\n            [cocycle_idx],\n            partunity_fn,\n            standard_range,\n            check_cocycle_condition,\n        )[0]", "            cocycle_idxs=[cocycle_idx],\n            perc=perc,\n            partunity_fn=partunity_fn,\n            standard_range=standard_range,\n            check_cocycle_condition=check_cocycle_condition,\n        )[0]", "quiet"),
    ("circular super", CI, "        return ToroidalCoords.get_coordinates(\n            self,\n", "        return super().get_coordinates(\n", "quiet"),
    ("lens drops mode", LE, "complex_dim-1, projective_dim_red_mode, self.verbose)", "complex_dim-1, verbose=self.verbose)", "bad"),
    ("lens passes verbose as mode keyword", LE, "complex_dim-1, projective_dim_red_mode, self.verbose)", "complex_dim-1, projective_dim_red_mode=projective_dim_red_mode, verbose=self.verbose)", "quiet"),
    ("lens fixed prime", LE, "            prime=prime,", "            prime=3,", "bad"),
    ("lens drops maxdim", LE, "            maxdim=maxdim,", "            maxdim=1,", "bad"),
    ("lens verbose lost", LE, "            verbose=verbose,", "            verbose=False,", "bad"),
    ("perc falsy", TO, "        homological_dimension = 1\n", "        homological_dimension = 1\n        perc = perc or 0.5\n", "bad"),
    ("perc if falsy", TO, "        homological_dimension = 1\n", "        homological_dimension = 1\n        if not perc:\n            perc = 0.5\n", "bad"),
    ("perc None", TO, "        homological_dimension = 1\n", "        homological_dimension = 1\n        if perc is None:\n            perc = 0.5\n", "quiet"),
    ("ppca fixed dimension in exponential", U, "                X = _one_step_linear_reduction(\n                    X, total_dims_to_keep + to_keep_this_iter\n                )\n                to_keep_this_iter = to_keep_this_iter // 2\n            if X.shape[0] > total_dims_to_keep:\n                X = _one_step_linear_reduction(X, total_dims_to_keep)", "                X = _one_step_linear_reduction(\n                    X, n_dim // 2\n                )\n                to_keep_this_iter = 0\n", "quiet"),
    ("direct ignores proj_dim", U, "            XRet = _one_step_linear_reduction(X, total_dims_to_keep)\n", "            XRet = _one_step_linear_reduction(X, 3)\n", "bad"),
    ("exponential same as direct", U, '        if mode == "direct":', '        if mode == "direct" or mode == "exponential":', "quiet"),
    ("one mode for all", U, "        mode = projective_dim_red_mode\n", '        mode = "exponential"\n', "bad"),
    ("print always", EM, "        if verbose:\n            print(\"Elapsed", "        if True:\n            print(\"Elapsed", "bad"),
    ("print when quiet", EM, "        if verbose:\n            print(\"Elapsed", "        if not verbose:\n            print(\"Elapsed", "bad"),
    ("no verbose in ppca", U, "        if verbose:\n            print(\n                \"Doing ppca", "        if False:\n            print(\n                \"Doing ppca", "quiet"),
    ("trefoil width ignored when smooth", U, "            X[:, 1] = np.sin(u) + horizontal_width * np.sin(u)", "            X[:, 1] = np.sin(u) + 6 * np.sin(u)", "quiet"),
    ("width without noise", U, ["            X[:, 0] = np.cos(u) + horizontal_width * np.cos(u) * (", "            X[:, 1] = np.sin(u) + horizontal_width * np.sin(u) * ("], ["            X[:, 0] = np.cos(u) + 6 * np.cos(u) * (", "            X[:, 1] = np.sin(u) + 6 * np.sin(u) * ("], "bad"),
    ("offset ignored", U, "return (circle_map + offset * (2 * np.pi)) % (2 * np.pi)", "return (circle_map + 0 * offset * (2 * np.pi)) % (2 * np.pi)", "bad"),
    ("smoothing falsy", U, "        if smoothing == 0:", "        smoothing = smoothing or 0.25\n        if smoothing == 0:", "bad"),
    ("dim default", U, "def moving_dot(sqrt_num_images, sigma=3, dim=10)", "def moving_dot(sqrt_num_images, sigma=3, dim=12)", "bad"),
    ("seed default constant", U, "            seed = n_samples\n        np.random.seed(seed)\n        theta", "            seed = 0\n        np.random.seed(seed)\n        theta", "bad"),
    ("ripser coeff default", EM, "            coeff=prime,\n", "", "bad"),
    ("ripser n_perm dropped", EM, "            n_perm=n_landmarks,\n", "", "bad"),
    ("n_neighbors ignored", U, "spatial_tree.query(X, k=n_neighbors)", "spatial_tree.query(X, k=15)", "quiet"),
    ("center vector ignored", U, "centering_rotation = ProjectiveMapUtils.rotmat(center_vector)", "centering_rotation = np.eye(n)", "bad"),
    ("noise size ignored", U, "- 0.5) * noise_size", "- 0.5) * 0.2", "bad"),
    ("n_landmarks capped by dimension", EM, "n_perm=n_landmarks", "n_perm=min(n_landmarks, X.shape[1])", "bad"),
    ("n_landmarks capped by points", EM, "n_perm=n_landmarks", "n_perm=min(n_landmarks, len(X))", "quiet"),
    ("mode overridden", CP, "            projective_dim_red_mode,\n            self.verbose,", "            'exponential' if proj_dim > 1 else projective_dim_red_mode,\n            self.verbose,", "bad"),
    ("mode looked up", CP, "            projective_dim_red_mode,\n            self.verbose,", "            'direct' if projective_dim_red_mode == 'direct' else projective_dim_red_mode,\n            self.verbose,", "quiet"),
    ("prime for higher degree", CI, "            prime=prime,\n", "            prime=41 if maxdim > 1 else prime,\n", "bad"),
    ("maxdim floor", LE, "            maxdim=maxdim,\n", "            maxdim=max(maxdim, 1),\n", "quiet"),
    ("maxdim floor 2", LE, "            maxdim=maxdim,\n", "            maxdim=max(maxdim, 2),\n", "bad"),
    ("alpha floor", "dreimac/plotting_utils.py", 'color="black", alpha=alpha)', 'color="black", alpha=max(alpha, 0.1))', "bad"),
    ("csm_fn ignored", U, "thisds = csm_fn(X[idx, :][None, :], X).flatten()", "thisds = GeometryUtils.get_csm(X[idx, :][None, :], X).flatten()", "quiet"),
]
