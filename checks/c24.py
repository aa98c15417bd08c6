"""C24: index spaces of the stored arrays, for point clouds, square and rectangular distance matrices."""
from .common import *
from sa import scatter
from . import concrete
import random

TECHNIQUE = "static analysis: index-space typing of the constructor by case analysis over its value graph; each stored array is brought to a scalar term over an abstract distance function and compared entrywise with its specification"
EXPLANATION = "The constructor is analysed for a point cloud, a square and a rectangular distance matrix, each with every spelling of the distance_matrix option; branch conditions are decided from the case.  The result of ripser is an uninterpreted permutation idx and the matrix (i, j) -> d(idx[i], j) over the rows of the matrix handed to it.  Stored distances must be d(idx[i], b) with one column per data point, landmark distances d(idx[i], idx[j]), the matrix handed to ripser the candidate block, and stored vertex labels the position of the vertex in idx."
ASSUMPTIONS = ["ripser returns idx_perm (row numbers of its input) and dperm2all (distances from them to all rows of its input)", "a rectangular matrix has more columns than rows and row i is the point of column i", "distance matrices are symmetric"]
Q = "emcoords:EMCoords"
TRUTHY = [("True", vg.const(True)), ("1", vg.const(1)), ("numpy.True_", None)]
FALSY = [("False", vg.const(False)), ("0", vg.const(0)), ("None", vg.const(None)), ("numpy.False_", None)]
KINDS = {"point cloud": ("N D:f", "N", False), "square matrix": ("N N:f", "N", True), "rectangular matrix": ("C N:f", "C", True)}
DIMS = {"N": 6, "C": 4, "L": 3, "D": 2, "W": 4, "S": 5}

class Case:
    def __init__(self, ck, kind, dm, val, symtruth):
        self.ck, self.kind, self.dm, self.symtruth = ck, kind, dm, symtruth
        t, self.rows, _ = KINDS[kind]
        self.X = ty(t)
        cls = ck.fn(Q); init = cls.lookup("__init__"); so = vg.ObjV(cls, "self")
        f = init
        ps = [a.arg for a in f.node.args.args if a.arg != "self"]
        args = {p: vg.sym(p) for p in ps}
        args["distance_matrix"] = val if val is not None else vg.sym("distance_matrix")
        if "verbose" in args: args["verbose"] = vg.const(False)
        self.r = ck.run(Q + ".__init__", selfobj=so, f=init, args=args, types=oracle({"X": self.X}))
        self.fields = {}
        for (oid, nm), v in self.r.state.fields.items():
            if oid == so.id:
                try: self.fields[nm] = ck.I.to_node(v, self.r.state)
                except Exception: pass
    def truth(self, n):
        """value of a branch condition in this case, or None"""
        if isconst(n): return bool(n.args[0])
        if n.op == "not":
            v = self.truth(n.args[0]); return None if v is None else not v
        if n.op in ("and", "or"):
            vs = [self.truth(x) for x in n.args]
            if n.op == "and": return False if False in vs else (None if None in vs else True)
            return True if True in vs else (None if None in vs else False)
        sy = vg.sym("distance_matrix")
        if n.op == "truth" or n.op == "call" and n.args[0] == "builtins.bool":
            x = n.args[0] if n.op == "truth" else n.args[1][0][1]
            if x is sy: return self.symtruth
            return self.truth(x)
        if n is sy: return self.symtruth
        if n.op == "is" and sy in n.args: return False
        if n.op in ("eq", "ne") and sy in n.args:
            o = n.args[1] if n.args[0] is sy else n.args[0]
            if isconst(o): return (n.op == "eq") == (o.args[0] == self.symtruth)
            return None
        if n.op == "isinstance" and sy in n.args: return False
        try:
            c = self.ctx(); e = self.env()
            return bool(e.ev(c.cond(n)))
        except Exception: return None
    def resolve(self, n):
        """fix the branches of this case and name the parts of the ripser result"""
        for _ in range(200):
            ph = [x for x in walk(n) if x.op == "phi"]
            hit = None
            for x in ph:
                v = self.truth(x.args[0])
                if v is not None: hit = (x, x.args[1] if v else x.args[2]); break
            if hit is None: break
            if n is hit[0]: n = hit[1]
            else: n = vg.subst(n, {hit[0]: hit[1]})
        m = {}
        for x in walk(n):
            k = dre.base_key(x)
            if k in ("idx_perm", "dperm2all"): m[x] = vg.sym("ripser." + k)
        if n in m: return m[n]
        n = vg.subst(n, m) if m else n
        p = vg.sym("ripser.idx_perm"); m = {}
        for x in walk(n):
            if x.op == "call" and x.args[0] in ("numpy.sort", "builtins.sorted", "numpy.unique", "numpy.argsort") and len(x.args[1]) == 1 and x.args[1][0][1] is p: m[x] = vg.sym("ripser.idx_argsort" if "arg" in x.args[0] else "ripser.idx_sorted")
        return m.get(n) or (vg.subst(n, m) if m else n)
    def ctx(self):
        c = Ctx(self.r, types={"X": self.X, "ripser.idx_perm": ty("L:i"), "ripser.idx_sorted": ty("L:i"), "ripser.idx_argsort": ty("L:i"), "ripser.dperm2all": ty("L %s:f" % self.rows), "ripser.cocycle": ty("S W:i"), "prime": ty(":i"), "n_landmarks": ty(":i")})
        return c
    def env(self, t=0):
        rows = DIMS[self.rows]
        def idx(env, k):
            return sorted(range(rows), key=lambda x: cert.h01("perm", t, x))[int(k)]
        def d(env, i, j):
            a, b = sorted((int(i), int(j)))
            return 0 if a == b else 1 + env.u("dist", a, b)
        srt = sorted(range(DIMS["L"]), key=lambda k: idx(None, k))
        g = {"ripser.idx_sorted": lambda env, ix: idx(env, srt[int(ix[0])]), "ripser.idx_argsort": lambda env, ix: srt[int(ix[0])], "ripser.idx_perm": lambda env, ix: idx(env, ix[0]), "ripser.dperm2all": lambda env, ix: d(env, idx(env, ix[0]), ix[1])}
        if self.dm: g["X"] = lambda env, ix: d(env, *ix)
        g["ripser.cocycle"] = lambda env, ix: idx(env, int(DIMS["L"] * env.u("lab", *ix))) if ix[1] < DIMS["W"] - 1 else 1 + int(9 * env.u("val", ix[0]))
        e = cert.Env(("c24", t), g, dict(DIMS)); e.idx = lambda k: idx(e, k); e.d = lambda i, j: d(e, i, j)
        return e

def field(cs, role):
    for nm, ro in dre.DEFAULT_ROLES.items():
        if ro == role and nm in cs.fields: return nm, cs.fields[nm]
    return None, None

def entries(ck, key, cs, n, want_shape, want, msg, site):
    n = cs.resolve(n)
    c = cs.ctx()
    t = c.ty(n)
    e0 = cs.env()
    got = tuple(e0.integer(d, {}) for d in t.shape)
    ws = tuple(DIMS[d] for d in want_shape)
    if got != ws: ck.bad(key, "%s: its shape is %s instead of %s (%s)" % (msg, "x".join(map(str, t.shape)), "x".join(want_shape), cs.kind), site); return
    iv = ivars(t.shape, c); p = at(c, n, iv); A = [v.single()[1][0][0] for v in iv]
    bad = 0
    for s in range(4):
        e = cs.env(s); e.ctx = c
        import itertools
        for ix in itertools.product(*map(range, ws)):
            v = e.ev(p, dict(zip(A, ix)))
            if abs(v - want(e, *ix)) > 1e-9: bad += 1; w = (ix, v, want(e, *ix))
    if bad >= 2: ck.bad(key, "%s (%s): entry %s is not the specified one" % (msg, cs.kind, w[0]), site)
    else: ck.ok(key, "entrywise comparison", site)

def case(ck, kind, dm, name, val, full):
    cs = Case(ck, kind, dm, val, dm)
    key = "%s.%s" % (kind.replace(" ", "_"), name)
    site = cs.r.site0
    # the matrix handed to ripser
    calls = {}
    for e in cs.r.effects:
        if e.kind == "libcall" and e.data[0] == "ripser.ripser": calls[e.data[1]] = e
    if len(calls) != 1: ck.unk(key + ".persistence", "%d calls" % len(calls), site)
    else:
        call, e = next(iter(calls.items()))
        a = cargs(call)
        def arg():
            R = DIMS[cs.rows]
            if dm: entries(ck, key + ".persistence", cs, a["X"], (cs.rows, cs.rows), lambda e, i, j: e.d(i, j), "persistence is not computed on the distances between the candidate landmarks", e.site)
            else:
                n = cs.resolve(a["X"])
                if n is vg.sym("X"): ck.ok(key + ".persistence", "the point cloud itself", e.site)
                else: ck.unk(key + ".persistence", "input form", e.site)
            d = a.get("distance_matrix", vg.const(False))
            v = cs.truth(d)
            if v is None: ck.unk(key + ".metric", "option form", e.site)
            elif v != dm: ck.bad(key + ".metric", "with distance_matrix=%s persistence treats the input as %s" % (name, "a distance matrix" if v else "a point cloud"), e.site)
            else: ck.ok(key + ".metric", "option", e.site)
        ck.guard(key + ".persistence", arg)
    for role, nm in sorted((ro, nm) for nm, ro in dre.DEFAULT_ROLES.items() if nm in cs.fields):
        sets = [e for e in cs.r.effects if e.kind == "setfield" and e.data[1 if isinstance(e.data[0], vg.ObjV) else 0] == nm]
        if sets and all(any(cs.truth(q) == (not pol) for q, pol in e.path if isinstance(q, vg.Node)) for e in sets): ck.bad(key + "." + role, "for a %s the field %s is never set" % (kind, nm), site)
    nm, n = field(cs, "dist_land_data")
    if n is None: ck.unk(key + ".distances", "field")
    else: ck.guard(key + ".distances", entries, ck, key + ".distances", cs, n, ("L", "N"), lambda e, i, b: e.d(e.idx(i), b), "the stored distances are not those from landmark i to data point b", site)
    nm, n = field(cs, "dist_land_land")
    if n is None: ck.unk(key + ".landmarks", "field")
    else: ck.guard(key + ".landmarks", entries, ck, key + ".landmarks", cs, n, ("L", "L"), lambda e, i, j: e.d(e.idx(i), e.idx(j)), "the stored landmark distances are not those between landmarks i and j", site)
    nm, n = field(cs, "n_landmarks")
    if n is None: ck.unk(key + ".count", "field")
    else: ck.guard(key + ".count", entries, ck, key + ".count", cs, n, (), lambda e: DIMS["L"], "the stored number of landmarks is not the number of selected landmarks", site)
    if not full: return
    n = cs.fields.get("_coverage")
    if n is not None:
        def coverage():
            e_ = lambda e: max(min(e.d(e.idx(i), b) for i in range(DIMS["L"])) for b in range(DIMS["N"]))
            entries(ck, key + ".coverage", cs, n, (), e_, "the stored coverage is not the largest distance of a data point to its nearest landmark", site)
        ck.guard(key + ".coverage", coverage)
    ck.guard(key + ".labels", labels, ck, key + ".labels", cs)

def unslice(x):
    while True:
        if x.op == "index" and len(x.args[1]) == 1 and x.args[1][0].op == "slice": x = x.args[0]
        elif x.op == "call" and x.args[0] in ("builtins.list", "builtins.tuple", "copy.copy") and len(x.args[1]) == 1: x = x.args[1][0][1]
        else: return x

def labels(ck, key, cs):
    """the vertex columns of every cocycle are replaced by positions in the landmark list"""
    found = 0; at_ = []; lab = vg.sym("ripser.cocycle")
    raw = [s for s in scatter.sites(cs.r) if len(s.idx) == 2 and isinstance(s.val, vg.Node) and s.before is not None]
    for s in raw:
        b = s.before
        if s.aug is None:
            # a store that a later one builds upon is judged there
            own = vg.mk("store", b, s.idx, s.val)
            if any(o is not s and o.loops == s.loops and any(x is own for x in walk(o.before)) for o in raw): continue
        base = b
        while base.op in ("index", "store", "mutated") and dre.base_key(base) is None: base = base.args[0]
        if dre.base_key(base) != "cocycles": 
            if base.op not in ("mu", "final") or "cocycles" not in vg.show(s.val, 8): continue
        st = vg.mk("store", b, s.idx, s.val) if s.aug is None else None
        if st is None: continue
        st = cs.resolve(st)
        # one cocycle
        m = {}
        for x in walk(st):
            if x.op == "index" and unslice(x.args[0]).op == "index" and dre.base_key(unslice(unslice(x.args[0]).args[0])) == "cocycles" and len(x.args[1]) == 1 and x.args[1][0].op not in ("slice", "tuple"): m[x] = lab
        if not m: continue
        st = vg.subst(st, m)
        found += 1; at_.append(s)
        c = cs.ctx()
        i, j = ivars((dim("S"), dim("W")), c)
        p = at(c, st, (i, j)); A = [i.single()[1][0][0], j.single()[1][0][0]]
        e = cs.env(); short = None
        for x in walk(st):
            if x.op == "index" and len(x.args[1]) == 1 and any(y is lab for y in walk(x.args[1][0])) and not any(y is lab for y in walk(x.args[0])):
                try:
                    sh = c.ty(x.args[0]).shape
                    if len(sh) == 1 and e.integer(sh[0], {}) < DIMS[cs.rows]: short = sh[0]
                except (Unk, cert.NoVal): pass
        if short is not None: ck.bad(key, "vertices are relabelled through a table of length %s, smaller than the number of points persistence was computed on" % short, s.site); continue
        bad = {"label": 0, "value": 0}
        for t in range(4):
            e = cs.env(t); e.ctx = c
            inv = {e.idx(k): k for k in range(DIMS["L"])}
            for x in range(DIMS["S"]):
                for y in range(DIMS["W"]):
                    v = e.ev(p, {A[0]: x, A[1]: y})
                    old = e.gen["ripser.cocycle"](e, (x, y))
                    if y < DIMS["W"] - 1: bad["label"] += v != inv[old]
                    else: bad["value"] += v != old
        if bad["label"] >= 2: ck.bad(key, "the vertex labels of stored cocycles are not the positions of the vertices in the list of landmarks", s.site)
        elif bad["value"] >= 2: ck.bad(key, "relabelling changes the values of stored cocycles", s.site)
        else: ck.ok(key, "entrywise comparison", s.site)
    if found: ck.guard(key + ".complete", complete, ck, key + ".complete", cs, at_)
    if not found:
        # nothing that is stored anywhere but in a field of the object reads the landmark list
        wr = [e for e in cs.r.effects if e.kind in ("store", "augname", "mutate", "mcall", "libcall", "callv", "call", "jitcall", "libstore") and not (e.kind == "libcall" and e.data[0] == "ripser.ripser")]
        reads = [e for e in wr if any(isinstance(z, vg.Node) and any(dre.base_key(y) == "idx_perm" for y in walk(z)) for z in flat(e.data)) and e.kind not in ("libcall", "mcall")]
        if not reads: ck.bad(key, "the vertex labels of stored cocycles are not converted to positions in the list of landmarks", cs.r.site0)
        else: ck.unk(key, "relabelling not found", cs.r.site0)

def lists(m, t):
    """a result of persistent cohomology: lists of cocycles (with so many rows) of the dimensions 0..m"""
    rng = random.Random("%s %s" % (m, t)); big = t % 3 == 2
    return [[]] + [[concrete.Arr(rng.choice((1, 2, 5, 40 if big else 7)), d + 2) for _ in range(rng.choice((0, 1, 2, 3, 30 if big else 4)))] for d in range(1, m + 1)]

def complete(ck, key, cs, sites):
    """the cocycles of every positive dimension, all of them, are relabelled, and none of them twice"""
    miss = twice = tot = 0; why = None
    for m in (1, 2, 3, 4):
        for t in range(6):
            C = lists(m, t); seen = {}; env = {"maxdim": m}; bind = {}
            def hook(n, ev):
                if n in bind: return bind[n]
                if n.op != "iv" and dre.base_key(n) == "cocycles": return C
                if n.op == "attr" and n.args[1] in ("shape", "size"):
                    x = ev(n.args[0])
                    if isinstance(x, list): return [len(x)] if n.args[1] == "shape" else len(x)
                if n.op == "index" and len(n.args[1]) == 1 and n.args[1][0].op == "slice":
                    x = ev(n.args[0]); ix = [None if z is None or z.op == "const" and z.args[0] is None else ev(z) for z in n.args[1][0].args]
                    if isinstance(x, list): return x[slice(*ix)]
                if n.op == "slice" and isinstance(n.args[0], vg.Node) and dre.base_key(n.args[0]) is not None: return None
                if n.op == "call" and n.args[0] in ("builtins.list", "builtins.tuple", "copy.copy") and len(n.args[1]) == 1: return ev(n.args[1][0][1])
                if n.op in ("store", "mutated") and n.args[0].op != "mu": return ev(n.args[0])
                return None
            env[concrete.HOOK] = hook
            def nest(s, fl, q):
                if q == len(fl):
                    if not all(bool(concrete.value(c, env)) == pol for c, pol in s.conds): return
                    a = concrete.value(s.before, env)
                    if not isinstance(a, concrete.Arr): raise concrete.No
                    seen[id(a)] = seen.get(id(a), 0) + 1
                    return
                L = fl[q]
                if L.dom is None or L.dom.op != "range": raise concrete.No
                for z in range(*[concrete.value(x, env) for x in L.dom.args]):
                    bind[L.iv] = z
                    nest(s, fl, q + 1)
                    if any(bool(concrete.value(b, env)) for b in L.breaks): break
                bind.pop(L.iv, None)
            try:
                for s in sites:
                    if any(L.kind != "for" for L in s.loops): raise concrete.No
                    nest(s, list(s.loops), 0)
            except IndexError: continue
            except (concrete.No, TypeError, ValueError, AttributeError, KeyError) as e: why = str(e) or "domain of the relabelling"; continue
            for d in range(1, m + 1):
                for a in C[d]: tot += 1; miss += id(a) not in seen; twice += seen.get(id(a), 0) > 1
    if miss >= 2: ck.bad(key, "some cocycles keep the vertex labels of the data set (not every cocycle of every dimension is relabelled)", sites[0].site)
    elif twice >= 2: ck.bad(key, "some cocycles are relabelled twice", sites[0].site)
    elif tot and why is None: ck.ok(key, "every cocycle of every dimension is relabelled once, decided over the loops and conditions of the relabelling", sites[0].site)
    else: ck.unk(key, why or "no cocycles", sites[0].site)

def flat(x):
    if isinstance(x, (tuple, list)): return [z for y in x for z in flat(y)]
    if isinstance(x, dict): return [z for y in x.values() for z in flat(y)]
    return [x]

def check(ck):
    cls = ck.fn(Q)
    f = cls.lookup("__init__")
    ps = [a.arg for a in f.node.args.args]
    for kind, (t, rows, dm) in KINDS.items():
        for k, (name, val) in enumerate(TRUTHY if dm else FALSY):
            ck.guard("%s.%s" % (kind.replace(" ", "_"), name), case, ck, kind, dm, name, val, k == 0)

M, U = "dreimac/emcoords.py", "dreimac/utils.py"
SELFTEST = [
    ("relabel two degrees", M, "reindex_cocycles(self._cocycles,", "reindex_cocycles(self._cocycles[:2],", "bad"),
    ("relabel positive degrees", M, "reindex_cocycles(self._cocycles,", "reindex_cocycles(self._cocycles[1:],", "quiet"),
    ("relabel twenty", U, "            for c in ck:\n                c[:, 0:-1] = idx_map[c[:, 0:-1]]\n", '            for c in ck[:20]:\n                c[:, 0:-1] = idx_map[c[:, 0:-1]]\n', "bad"),
    ("relabel long only", U, "            for c in ck:\n                c[:, 0:-1] = idx_map[c[:, 0:-1]]\n", '            for c in ck:\n                if c.shape[0] < 2: continue\n                c[:, 0:-1] = idx_map[c[:, 0:-1]]\n', "bad"),
    ("relabel until long", U, "            for c in ck:\n                c[:, 0:-1] = idx_map[c[:, 0:-1]]\n", '            for c in ck:\n                c[:, 0:-1] = idx_map[c[:, 0:-1]]\n                if c.shape[0] > 10: break\n', "bad"),
    ("relabel nonempty", U, "            for c in ck:\n                c[:, 0:-1] = idx_map[c[:, 0:-1]]\n", '            for c in ck:\n                if c.shape[0] == 0: continue\n                c[:, 0:-1] = idx_map[c[:, 0:-1]]\n', "quiet"),
    ("relabel list", U, "            for c in ck:\n                c[:, 0:-1] = idx_map[c[:, 0:-1]]\n", '            for c in list(ck):\n                c[:, 0:-1] = idx_map[c[:, 0:-1]]\n', "quiet"),
    ("relabel by columns", U, "            for c in ck:\n                c[:, 0:-1] = idx_map[c[:, 0:-1]]\n", '            for c in ck:\n                c[:, 0] = idx_map[c[:, 0]]\n                c[:, 1:-1] = idx_map[c[:, 1:-1]]\n', "quiet"),
    ("relabel first column twice", U, "            for c in ck:\n                c[:, 0:-1] = idx_map[c[:, 0:-1]]\n", '            for c in ck:\n                c[:, 0] = idx_map[c[:, 0]]\n                c[:, 0:-1] = idx_map[c[:, 0:-1]]\n', "bad"),
    ("is True", M, "        if not distance_matrix:\n            ripser", "        if distance_matrix is not True:\n            ripser", "bad"),
    ("is False", M, "        if not distance_matrix:\n            self._dist", "        if distance_matrix is False:\n            self._dist", "bad"),
    ("bool", M, "        if not distance_matrix:\n            ripser", "        if not bool(distance_matrix):\n            ripser", "quiet"),
    ("block rows", M, "X[:,:X.shape[0]]", "X[:X.shape[0], :X.shape[0]]", "quiet"),
    ("last block", M, "X[:,:X.shape[0]]", "X[:,-X.shape[0]:]", "bad"),
    ("perm2all rect", M, "self._dist_land_data = X[self._idx_land,:]", "self._dist_land_data = res['dperm2all']", "bad"),
    ("first rows", M, "self._dist_land_data = X[self._idx_land,:]", "self._dist_land_data = X[:self._n_landmarks,:]", "bad"),
    ("land land", M, "self._dist_land_data[:, self._idx_land]", "self._dist_land_data[:, :self._n_landmarks]", "bad"),
    ("land land rect", M, "self._dist_land_land = self._dist_land_data[:, self._idx_land]", "self._dist_land_land = res['dperm2all'][:, self._idx_land]", "quiet"),
    ("ix", M, "X[self._idx_land,:]", "np.take(X, self._idx_land, axis=0)", "quiet"),
    ("sorted labels", U, "idx_map[idx_land] = np.arange(idx_land.size)", "idx_map[np.sort(idx_land)] = np.arange(idx_land.size)", "bad"),
    ("labels all cols", U, "c[:, 0:-1] = idx_map[c[:, 0:-1]]", "c[:, :] = idx_map[c[:, :]]", "bad"),
    ("labels not last", U, "c[:, 0:-1] = idx_map[c[:, 0:-1]]", "c[:, 0:2] = idx_map[c[:, 0:2]]", "bad"),
    ("inverse", U, "c[:, 0:-1] = idx_map[c[:, 0:-1]]", "c[:, 0:-1] = idx_land[c[:, 0:-1] % idx_land.size]", "bad"),
    ("metric", M, "distance_matrix=distance_matrix,", "distance_matrix=distance_matrix is True,", "bad"),
    ("count", M, "self._n_landmarks = len(self._idx_land)", "self._n_landmarks = n_landmarks", "bad"),
    ("shape count", M, "self._n_landmarks = len(self._idx_land)", "self._n_landmarks = self._idx_land.shape[0]", "quiet"),
    ("no relabelling", M, "        CohomologyUtils.reindex_cocycles(self._cocycles, self._idx_land, X.shape[0])\n", "", "bad"),
    ("short table", M, "self._idx_land, X.shape[0])", "self._idx_land, X.shape[1])", "bad"),
    ("long table", M, "self._idx_land, X.shape[0])", "self._idx_land, X.shape[0] + 1)", "quiet"),
    ("unset for rectangular", M, "            self._dist_land_data = X[self._idx_land,:]", "            pass", "bad"),
    ("unset for square", M, "        elif X.shape[0] == X.shape[1]:\n            self._dist_land_data = res[\"dperm2all\"]\n", "        elif X.shape[0] == X.shape[1]:\n            pass\n", "bad"),
    ("coverage axis", M, "np.max(np.min(self._dist_land_data, 0))", "np.max(np.min(self._dist_land_data, 1))", "bad"),
    ("coverage method", M, "np.max(np.min(self._dist_land_data, 0))", "self._dist_land_data.min(axis=0).max()", "quiet"),
    ("early rect", M, "        elif X.shape[0] == X.shape[1]:\n            self._dist_land_data = res[\"dperm2all\"]\n", "", "quiet"),
]
