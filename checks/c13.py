"""C13: no public function modifies its arguments; results do not depend on earlier calls."""
from .surface import *

TECHNIQUE = "static analysis: alias and mutation effect analysis of every public function (each in-place write is traced to the parameters, defaults, stored fields and globals its target may share memory with), and dataflow of mutable state into results"
EXPLANATION = "Every store, in-place operator, mutating method or library call reachable from a public function is resolved to the set of roots its target may alias (views, transposes, reshapes, asarray, list elements, out= arguments and the result parts of ripser that share memory with its input are followed; copies and fancy indexing cut the chain). A write whose target may alias a parameter, a default argument, a global or, outside constructors, a stored field is a violation. A result that depends on a field, default or global written by a method is a violation unless the stored value is a function of the key it is stored under."
ASSUMPTIONS = ["reindex_cocycles and axes-drawing functions modify the object they exist to modify", "numpy, scipy, ripser and numba modify only documented out/overwrite arguments", "of the result of ripser only dperm2all may share memory with the input"]
INPLACE_BY_PURPOSE = {("reindex_cocycles", "cocycles")}
MAY_ALIAS = {"dperm2all"}

def ripser_part(r, n, depth=0):
    """which parts of a ripser result the object n belongs to (set of keys, None = unknown)"""
    mus = {}
    for L in r.loops.values():
        for m, (a, b) in L.mu.items(): mus[m] = a
    out = set(); st = [n]; seen = set()
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x.op == "index":
            b = x.args[0]
            i = x.args[1]
            if len(i) == 1 and isconst(i[0]) and isinstance(i[0].args[0], str):
                y = b
                for _ in range(60):
                    if y.op in ("store", "viewset", "mutated", "fillwith"): y = y.args[0]
                    elif y.op == "final": y = y.args[1]
                    elif y.op == "mu": y = mus.get(y, vg.const(None))
                    else: break
                if y.op == "call" and y.args[0] == "ripser.ripser": out.add(i[0].args[0]); continue
            st.append(b)
        elif x.op in ("store", "viewset", "fillwith"): st.append(x.args[0])
        elif x.op == "final": st.append(x.args[1])
        elif x.op == "mu":
            if x not in mus: return None
            st.append(mus[x])
        elif x.op == "phi": st += [x.args[1], x.args[2]]
        elif x.op == "seq": st.append(x.args[2])
        elif x.op == "last": st.append(x.args[1])
        elif x.op in ("add", "sub", "mul", "div"): pass
        elif x.op == "call" and x.args[0] != "ripser.ripser":
            st += [v for _, v in x.args[1]]
        else: return None
    return out

def target(e):
    """object written by an effect"""
    if e.kind == "store": return e.data[0], e.data[4]
    if e.kind == "mutate": return e.data[1], None
    if e.kind == "augname": return e.data[2], None
    return None, None

def real_roots(ck, r, e):
    ref, content = target(e)
    roots = set(e.roots)
    if isinstance(ref, vg.Ref):
        b = ref
        while b.view is not None: b = b.view[0]
        if b.id in ck.prog.base.heap and not any(x.startswith("default:") for x in roots): roots.add("global")
    al = {x for x in roots if x.startswith("alias:")}
    if al:
        if content is None and isinstance(ref, vg.Ref):
            try: content = ck.I.cnode(ck.I.content(ref, r.state), r.state) if not isinstance(ck.I.content(ref, r.state), vg.Node) else ck.I.content(ref, r.state)
            except Exception: content = None
        p = ripser_part(r, content) if content is not None else None
        if p is not None and not (p & MAY_ALIAS): roots -= al
    return roots, content

def writes(e):
    if e.kind in ("store", "mutate", "augname"): return True
    return False

def overwriting(e):
    """library calls told to reuse an input's memory"""
    if e.kind != "libcall" or len(e.data) < 5: return None
    name, n, _, args, kw = e.data
    if not isinstance(n, vg.Node) or n.op != "call": return None
    for k, v in n.args[1]:
        if isinstance(k, str) and k.startswith("overwrite") and not isconst(v, False): return k
    return None

def effects(ck, q, cn, nm, f, cls, r, t):
    seen = set()
    params = {p for p in r.params}
    for e in r.effects:
        over = overwriting(e)
        dunder = e.kind == "mcall" and e.data and (e.data[0].startswith("__i") or e.data[0] in ("__setitem__", "__delitem__"))
        if not writes(e) and not over and not dunder: continue
        roots, content = real_roots(ck, r, e) if writes(e) else (set(e.roots), None)
        for ro in sorted(roots):
            kind, _, name = ro.rpartition(":")
            what = None
            if ro.startswith(("param:", "alias:param:", "elt:param:")) and not ro.startswith("elt:alias"):
                if name in AXES or (nm, name) in INPLACE_BY_PURPOSE: continue
                if ro.startswith("elt:") and not (e.kind == "store" and len(e.data[1]) >= 1 and False): continue
                if e.kind == "augname":
                    rk = e.data[3]
                    if rk == 0: continue
                    if rk is None:
                        ty0 = t.get(name)
                        if not (ty0 is not None and ty0.rank > 0) and name not in CONTAINERS: continue
                        if ty0 is None: pass
                what = "argument %s" % name
            elif ro.startswith("default:"):
                if e.kind == "augname" and e.data[3] == 0: continue
                what = "default argument %s" % name
            elif ro == "global": what = "a module-level or class-level object"
            elif ro.startswith("field:") and nm != "__init__":
                if keyed(ck, cls, r, e, name): ck.ok("%s:store %s" % (q, name), "value is a function of the key it is stored under"); continue
                if e.kind == "augname" and e.data[3] in (0, None): continue
                what = "stored %s" % name
            if what is None: continue
            if ro in ("global",) or ro.startswith("default:"):
                if keyed(ck, cls, r, e, None): continue
            key = "%s:modifies %s" % (q, what)
            if (key, e.site) in seen: continue
            seen.add((key, e.site))
            ck.bad(key, "%s is modified in place (%s)" % (what, over or e.kind), e.site)
    if not seen: ck.ok("%s:no argument, default, global or stored object modified" % q, "%d write effects resolved" % sum(writes(e) for e in r.effects), r.site0)

def keyed(ck, cls, r, e, name):
    """a keyed store: value depends on the arguments only through the key, and the container starts as an empty dict"""
    if e.kind != "store" or e.data[3]: return False
    idx, val = e.data[1], e.data[2]
    if len(idx) != 1: return False
    if name is not None:
        init = ctor_fields(ck, cls).get(name)
        if init is not None and not (init.op == "dict" and not init.args): return False
    parts = set()
    st = list(idx)
    while st:
        x = st.pop(); parts.add(x)
        if x.op in ("tuple", "list"): st += list(x.args)
        elif x.op == "call" and x.args[0] in ("builtins.float", "builtins.int", "builtins.tuple", "builtins.str", "builtins.bool"): st += [v for _, v in x.args[1]]
    d = deps(r, val, parts)
    ps = {vg.sym(p) for p in r.params}
    mut = {vg.sym("self." + f) for f in written(ck, cls)}
    mut.discard(vg.sym("self.%s" % name))
    return not (d & ps) and not (d & mut)

def ctor_fields(ck, cls):
    k = ("ctorf", cls.name if cls else None)
    if k in ck.cache: return ck.cache[k]
    out = {}
    for q, cn, nm, f, c, r, t in runs(ck):
        if c is cls and nm == "__init__":
            for (oid, n), v in r.state.fields.items():
                try: out[n] = ck.I.to_node(v, r.state)
                except Exception: pass
    ck.cache[k] = out
    return out

def written(ck, cls):
    """field -> set of methods other than the constructor that set it to something else"""
    k = ("written", cls.name if cls else None)
    if k in ck.cache: return ck.cache[k]
    out = {}
    for q, cn, nm, f, c, r, t in runs(ck):
        if c is not cls or cls is None or nm == "__init__": continue
        for e in r.effects:
            if e.kind == "setfield":
                o, name, v = e.data
                if not isinstance(o, vg.ObjV) or o.name != "self": continue
                try: n = ck.I.to_node(v, r.state)
                except Exception: n = None
                if n is not None and n is vg.sym("self." + name): continue
                out.setdefault(name, []).append((q, e, n, r))
    ck.cache[k] = out
    return out

def outcome(r):
    """values a call's outcome depends on: returned value, and what decides exceptions"""
    out = []
    try: out.append(r.node())
    except Exception: pass
    for e in r.effects:
        if e.kind in ("raise", "assert"): out += [n for n, _ in e.path]
        if e.kind == "assert": out += [x for x in (e.data if isinstance(e.data, (tuple, list)) else (e.data,)) if isinstance(x, vg.Node)]
    return out

def guarded_cache(ck, cls, r, F, d):
    """self.F is only used under a comparison of stored key(s) with values that determine it"""
    w = written(ck, cls)
    sF = vg.sym("self." + F)
    keys = {}
    for x in d:
        if x.op == "phi":
            conds = []
            st = [x.args[0]]
            while st:
                c = st.pop()
                if c.op in ("and", "or", "not", "truth"): st += [y for y in c.args if isinstance(y, vg.Node)]
                else: conds.append(c)
            for c in conds:
                if c.op in ("eq", "ne"):
                    for a, b in ((c.args[0], c.args[1]), (c.args[1], c.args[0])):
                        if a.op == "sym" and a.args[0].startswith("self.") and a.args[0][5:] in w: keys[a.args[0][5:]] = b
    if F in keys: return True             # a key compared with the current value: cannot influence the result by itself
    if not keys: return False
    for q, e, n, rr in w.get(F, []):
        if n is None: return False
        parts = set()
        for G in keys:
            for _, _, m, _ in w.get(G, []):
                if m is None: continue
                st = [m]
                while st:
                    x = st.pop(); parts.add(x)
                    if x.op in ("tuple", "list"): st += list(x.args)
        dd = deps(rr, n, parts | {sF})
        if dd & {vg.sym(p) for p in rr.params}: return False
        if dd & {vg.sym("self." + g) for g in w}: return False
    return True

def history(ck, q, cn, nm, f, cls, r, t):
    if cls is None or nm == "__init__": return
    w = written(ck, cls)
    d = set()
    for n in outcome(r): d |= deps(r, n)
    used = sorted(F for F in w if vg.sym("self." + F) in d)
    for F in used:
        key = "%s:result does not depend on %s left by an earlier call" % (q, F)
        if guarded_cache(ck, cls, r, F, d): ck.ok(key, "guarded by a key that determines it"); continue
        ck.bad(key, "the result depends on self.%s as an earlier call left it (set in %s)" % (F, ", ".join(sorted({fq for fq, _, _, _ in w[F]}))), w[F][0][1].site)
    if not used: ck.ok("%s:history" % q, "result reads only fields set by the constructor or earlier in the same call", r.site0)

def globals_(ck, q, cn, nm, f, cls, r, t):
    """results that read a global which functions rebind"""
    for e in r.effects:
        if e.kind in ("globalset", "libset", "libstore"):
            what = e.data[0] if e.kind != "globalset" else str(e.data[-1])
            if e.kind == "globalset": ck.bad("%s:rebinds %s" % (q, e.data[-1]), "a global or class attribute is rebound, so later calls can see it", e.site)
            else: ck.unk("%s:%s %s" % (q, e.kind, what), "library setting changed")

def check(ck):
    for q in ("emcoords:EMCoords", "toroidalcoords:ToroidalCoords", "utils:CohomologyUtils", "utils:GeometryUtils"): ck.fn(q)
    for a in runs(ck):
        ck.guard(a[0] + ":effects", effects, ck, *a)
        ck.guard(a[0] + ":history", history, ck, *a)
        ck.guard(a[0] + ":globals", globals_, ck, *a)

U = "dreimac/utils.py"; TO = "dreimac/toroidalcoords.py"; EM = "dreimac/emcoords.py"; CP = "dreimac/complexprojectivecoords.py"
SELFTEST = [
    ("lift in place", U, "        cocycle = cocycle.copy()\n", "", "bad"),
    ("lift asarray", U, "cocycle = cocycle.copy()", "cocycle = np.asarray(cocycle)", "bad"),
    ("lift with np.array", U, "cocycle = cocycle.copy()", "cocycle = np.array(cocycle)", "quiet"),
    ("lift through a view", U, "        cocycle = cocycle.copy()\n        cocycle[cocycle[:, -1] > (prime - 1) / 2, -1] -= prime", "        values = cocycle[:, -1]\n        values[values > (prime - 1) / 2] -= prime", "bad"),
    ("lift of copy through a view", U, "        cocycle = cocycle.copy()\n        cocycle[cocycle[:, -1] > (prime - 1) / 2, -1] -= prime", "        cocycle = cocycle.copy()\n        values = cocycle[:, -1]\n        values[values > (prime - 1) / 2] -= prime", "quiet"),
    ("northpole in place", U, "x = x / np.sqrt(magSqr)", "x /= np.sqrt(magSqr)", "bad"),
    ("dm minimum out", U, "ds = np.minimum(ds, D[idx, :])", "np.minimum(ds, D[idx, :], out=ds)", "bad"),
    ("pc minimum out", U, "            ds = np.minimum(ds, thisds)\n        Y =", "            np.minimum(ds, thisds, out=ds)\n        Y =", "quiet"),
    ("stereo flips input", U, "XX = ProjectiveMapUtils.rotmat(u).dot(X)", "XX = X", "bad"),
    ("hemisphere flips input", U, "X_ = X @ centering_rotation.T", "X_ = X", "quiet"),
    ("hemisphere reshape flips input", U, ["X_ = X @ centering_rotation.T", "Y = X_[X_[:, -1] >= 0, :]\n        Y[:, -1] *= -1"], ["X_ = X", "Y = X_\n        Y[:, -1] *= -1"], "bad"),
    ("rotmat ravel", U, "        a = a.flatten()\n        a = a / np.sqrt(np.sum(a**2))", "        a = a.ravel()\n        a /= np.sqrt(np.sum(a**2))", "bad"),
    ("rotmat flatten", U, "        a = a / np.sqrt(np.sum(a**2))", "        a /= np.sqrt(np.sum(a**2))", "quiet"),
    ("ppca in place", U, "X = class_map.T\n", "X = class_map.T\n        X[np.isnan(X)] = 0\n", "bad"),
    ("denominator in place", EM, "        varphi = phi / denom[None, :]", "        phi /= denom[None, :]\n        varphi = phi", "quiet"),
    ("distances in place", EM, "        U = dist_land_data < r_cover\n", "        U = dist_land_data < r_cover\n        dist_land_data[~U] = r_cover\n", "bad"),
    ("partition cached by radius", EM, ["        dist_land_data = self._dist_land_data\n", "        ball_indx = np.argmax(U, 0)\n"], ["        if r_cover in self._cover_cache:\n            return self._cover_cache[r_cover]\n        dist_land_data = self._dist_land_data\n", "        ball_indx = np.argmax(U, 0)\n        self._cover_cache[r_cover] = (varphi, ball_indx)\n"], "bad"),
    ("delta cached by threshold", TO, ["        delta0 = CohomologyUtils.make_delta0(\n            dist_land_land, rips_threshold, self._cns_lookup_table\n        )\n", "        self._cns_lookup_table ="], ["        if rips_threshold not in self._delta0_cache:\n            self._delta0_cache[rips_threshold] = CohomologyUtils.make_delta0(dist_land_land, rips_threshold, self._cns_lookup_table)\n        delta0 = self._delta0_cache[rips_threshold]\n", "        self._delta0_cache = {}\n        self._cns_lookup_table ="], "quiet"),
    ("delta cached by classes", TO, ["        delta0 = CohomologyUtils.make_delta0(\n            dist_land_land, rips_threshold, self._cns_lookup_table\n        )\n", "        self._cns_lookup_table ="], ["        if tuple(cocycle_idxs) not in self._delta0_cache:\n            self._delta0_cache[tuple(cocycle_idxs)] = CohomologyUtils.make_delta0(dist_land_land, rips_threshold, self._cns_lookup_table)\n        delta0 = self._delta0_cache[tuple(cocycle_idxs)]\n", "        self._delta0_cache = {}\n        self._cns_lookup_table ="], "bad"),
    ("last delta kept", TO, ["        delta0 = CohomologyUtils.make_delta0(\n            dist_land_land, rips_threshold, self._cns_lookup_table\n        )\n", "        self._cns_lookup_table ="], ["        if self._delta0_thr != rips_threshold:\n            self._delta0_thr = rips_threshold\n            self._delta0 = CohomologyUtils.make_delta0(dist_land_land, rips_threshold, self._cns_lookup_table)\n        delta0 = self._delta0\n", "        self._delta0_thr = None\n        self._delta0 = None\n        self._cns_lookup_table ="], "quiet"),
    ("last delta kept by perc", TO, ["        delta0 = CohomologyUtils.make_delta0(\n            dist_land_land, rips_threshold, self._cns_lookup_table\n        )\n", "        self._cns_lookup_table ="], ["        if self._delta0_thr != perc:\n            self._delta0_thr = perc\n            self._delta0 = CohomologyUtils.make_delta0(dist_land_land, rips_threshold, self._cns_lookup_table)\n        delta0 = self._delta0\n", "        self._delta0_thr = None\n        self._delta0 = None\n        self._cns_lookup_table ="], "bad"),
    ("delta kept", TO, ["        delta0 = CohomologyUtils.make_delta0(\n            dist_land_land, rips_threshold, self._cns_lookup_table\n        )\n", "        self._cns_lookup_table ="], ["        if self._delta0 is None:\n            self._delta0 = CohomologyUtils.make_delta0(dist_land_land, rips_threshold, self._cns_lookup_table)\n        delta0 = self._delta0\n", "        self._delta0 = None\n        self._cns_lookup_table ="], "bad"),
    ("class list sorted", TO, "        homological_dimension = 1\n", "        homological_dimension = 1\n        cocycle_idxs.sort()\n", "bad"),
    ("class list sorted copy", TO, "        homological_dimension = 1\n", "        homological_dimension = 1\n        cocycle_idxs = sorted(cocycle_idxs)\n", "quiet"),
    ("lifted cocycles stored", TO, "        # determine radius for balls\n", "        self._cocycles[1] = integer_cocycles\n", "bad"),
    ("corrected in place", TO, ["                    d1cocycle = delta1 @ cocycle_as_vector.T"], ["                    cocycle_as_vector = cocycle_as_vector.view()\n                    d1cocycle = delta1 @ cocycle_as_vector.T"], "quiet"),
    ("radius reused", EM, "        dist_land_data = self._dist_land_data\n", "        dist_land_data = self._dist_land_data\n        r_cover = self._r_cover\n", "bad"),
    ("lift memoised on the cocycles", TO, "            for cocycle in cocycles\n        ]", "            for cocycle in cocycles\n        ]\n        for c, ic in zip(cocycles, integer_cocycles):\n            c[:, -1] = ic[:, -1]\n", "bad"),
    ("constructor scales X", EM, "        self._X = X\n", "        self._X = X\n        X -= np.mean(X, axis=0)\n", "bad"),
    ("constructor clips distances", EM, "        self._coverage =", "        self._dist_land_data[self._dist_land_data < 0] = 0\n        self._coverage =", "bad"),
]
