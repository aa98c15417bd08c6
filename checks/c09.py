"""C09: classes are ordered by persistence and stay paired with their cocycles."""
from .common import *
from .c08 import gathered
from sa import scatter

NARROW = ("float16", "half", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "f2", "<f2")

TECHNIQUE = "static analysis: value-graph dataflow (one permutation reaches both stores; key monotonicity by identity testing); interprocedural argument provenance"
EXPLANATION = "The stores into the persistence result made by the constructor are extracted from the value graph: the loop must cover every positive dimension, the diagram and the cocycle list of a dimension must be gathered by the same argsort value, and its key must be a decreasing function of death minus birth. Every read of stored diagrams and cocycles from get_coordinates must use the class index parameter and the degree of the coordinate type, with birth in column 0 and death in column 1 of the same row."
ASSUMPTIONS = ["ripser returns cocycles[i][k] representing dgms[i][k]"]

E = "emcoords:EMCoords"

def dhook(ctx, n):
    if n.op == "index" and len(n.args[1]) == 1 and dre.base_key(n.args[0]) == "dgms" and n.args[1][0].op != "slice" and not (n.args[0].op == "index" and dre.base_key(n.args[0].args[0]) == "dgms"):
        return Ty((P(poly.atom("dim", "ndgm", n)), P(2)), "f")
    return None

def unsort(n):
    """node -> (argsort argument, reversed?)"""
    rev = False
    for _ in range(8):
        if n.op == "call" and n.args[0] == "numpy.argsort":
            a = cargs(n)
            if a.get("axis") is not None and not isconst(a["axis"], -1, 0): return None
            return a.get("a"), rev
        if n.op == "mcall" and n.args[0] == "argsort": return n.args[1], rev
        if n.op == "call" and n.args[0] == "numpy.lexsort":
            ks = list(cargs(n).values())[0]
            if ks.op in ("tuple", "list") and ks.args: return ks.args[-1], rev
            return None
        if n.op == "index" and len(n.args[1]) == 1 and n.args[1][0].op == "slice":
            lo, hi, st = (list(n.args[1][0].args) + [vg.const(None)] * 3)[:3]
            if isconst(lo, None) and isconst(hi, None) and isconst(st, -1): rev = not rev; n = n.args[0]; continue
            return None
        if n.op == "call" and n.args[0] in ("numpy.flip", "numpy.flipud"): rev = not rev; n = n.args[1][0][1]; continue
        if n.op == "call" and n.args[0] in ("numpy.array", "numpy.asarray", "builtins.list", "builtins.tuple"): n = n.args[1][0][1]; continue
        return None
    return None

def gather(n):
    """rows of X taken by S: X[S] / X[S, :] / take -> (X, S)"""
    if n.op == "index":
        ix = n.args[1]
        full = lambda x: x.op == "slice" and all(isconst(y, None) for y in x.args)
        if len(ix) == 1 and ix[0].op not in ("slice", "const"): return n.args[0], ix[0]
        if len(ix) == 2 and full(ix[1]) and ix[0].op not in ("slice", "const"): return n.args[0], ix[0]
    if n.op == "call" and n.args[0] == "numpy.take":
        a = list(n.args[1]); return a[0][1], a[1][1]
    if n.op == "call" and n.args[0] in ("numpy.array", "numpy.asarray", "numpy.copy", "builtins.list"): return gather(n.args[1][0][1])
    if n.op == "mcall" and n.args[0] == "copy": return gather(n.args[1])
    if n.op == "seq":
        dom, iv, el, cond = n.args[:4]
        if not isconst(cond, True) or el.op != "index" or len(el.args[1]) != 1: return None
        k = el.args[1][0]
        if k is iv and dom.op == "range": return el.args[0], None
        if k.op == "index" and k.args[1] == (iv,): return el.args[0], k.args[0]
        if iv.op == "iv" and k is iv and dom.op != "range": return el.args[0], dom
    return None

def skipped(ck, key, c, L, extra, s, k):
    """entries stored under a condition: is it false for some dimension with two or more classes?"""
    try:
        p = ONE
        for x, pol in extra: p = p * (c.cond(x) if pol else ONE - c.cond(x))
        p = c.close(p); iv = scatter.ivof(c, L)
    except (Unk, vg.AnalysisError) as e: ck.unk(key, str(e), s.site); return
    off = tot = 0; why = None
    for m_ in (1, 2, 3, 4):
        for t in range(8):
            e = cert.Env(("guard", m_, t), {"maxdim": lambda env, ix: m_}, {"ndgm": 2 + t}, ctx=c)
            try:
                a_, b_, s_ = [e.integer(c.val(z), {}) for z in L.dom.args]
                for z in range(a_, b_, s_):
                    if z > 0: tot += 1; off += not e.ev(p, {iv: z})
            except (cert.NoVal, ValueError, AttributeError, IndexError, TypeError) as ex: why = str(ex)
    if off >= 2: ck.bad(key, "the %s of some dimensions with several classes are left unsorted" % k, s.site)
    elif tot >= 20: ck.ok(key, "condition true for all dimensions with two or more classes", s.site)
    else: ck.unk(key, why or "stored under a condition", s.site)

def init_order(ck):
    rl, nodes, r = dre.roles(ck, E)
    c = Ctx(r, types={"maxdim": ty(":i"), "X": ty("N M:f")})
    c.hooks.append(dhook)
    stores = {"dgms": [], "cocycles": []}
    for s in scatter.sites(r):
        if len(s.idx) != 1 or s.aug is not None: continue
        k = None
        b = s.before
        if b is not None: k = dre.base_key(b)
        if k is None and b is not None and b.op == "mu": 
            i0 = scatter.init_of(r, b.args[1]); k = dre.base_key(i0) if i0 is not None else None
        if k in stores: stores[k].append(s)
    site = r.site0
    if not stores["dgms"] and not stores["cocycles"]:
        sorts = [x for x in every_node(r) if x.op == "call" and "sort" in x.args[0]]
        ck.unk("order", "no stores into the persistence result") if sorts else ck.bad("order", "the constructor does not order the classes by persistence", site)
        return
    for k in stores:
        if not stores[k]: ck.bad("order.lockstep", "only the %s are reordered by persistence" % ("diagrams" if k == "cocycles" else "cocycles"), site); return
    perms = {}
    for k in ("dgms", "cocycles"):
        s = stores[k][-1]
        fl = [l for l in s.loops if l.kind == "for"]
        if len(fl) != 1: ck.unk("order." + k, "%d loops" % len(fl), s.site); return
        L = fl[0]
        if L.dom.op == "range":
            lo, hi = c.val(L.dom.args[0]), c.val(L.dom.args[1])
            iv = scatter.ivof(c, L)
            ix = c.val(s.idx[0])
            off = (ix - P(iv))
            cs = off.const(); l = (lo + off).const()
            h = hi + off - (c.val(vg.sym("maxdim")) + 1)
            gone = None; seen_ = 0
            for m_ in (1, 2, 3, 4):
                e_ = cert.Env(("range", m_), {"maxdim": lambda env, ix: m_}, {}, ctx=c)
                try:
                    a_, b_, s_ = [e_.integer(c.val(z), {}) for z in L.dom.args]
                    e_ = {e_.integer(ix, {iv: z}) for z in range(a_, b_, s_)}
                    if gone is None and not set(range(1, m_ + 1)) <= e_: gone = "for maxdim=%d the %s of dimension %s are not sorted" % (m_, k, min(set(range(1, m_ + 1)) - e_))
                    seen_ += 1
                except (cert.NoVal, ValueError, AttributeError, IndexError, TypeError): pass
            if gone and not L.breaks: ck.bad("order.range." + k, gone, s.site); cs = "done"
            if cs == "done": pass
            elif L.breaks: ck.unk("order.range." + k, "loop form", s.site)
            elif cs is not None and l is not None and h.const() is not None:
                if l > 1 or h.const() < 0 or not isconst(L.dom.args[2], 1): ck.bad("order.range." + k, "the %s of dimension %s are not sorted (loop over %s)" % (k, "1" if l > 1 else "maxdim" if h.const() < 0 else "?", vg.show(L.dom, 3)), s.site)
                else: ck.ok("order.range." + k, "loop bounds", s.site)
            elif seen_ == 4: ck.ok("order.range." + k, "loop bounds evaluated for maxdim up to 4", s.site)
            else: ck.unk("order.range." + k, "bounds", s.site)
        else: ck.unk("order.range." + k, "loop domain", s.site)
        extra = [q for q in s.conds if q not in L.path]
        if extra: skipped(ck, "order.guard." + k, c, L, extra, s, k)
        g = gather(s.val)
        if g is None: ck.unk("order." + k, "stored value %s" % vg.show(s.val, 3), s.site); continue
        src, S = g
        if S is None: ck.bad("order." + k, "the %s are stored in their original order while the classes are renumbered" % k, s.site); continue
        # the source is the same entry of the result
        kk = dre.base_key(src.args[0]) if src.op == "index" else None
        if kk in stores and (kk != k or src.args[1] != s.idx): ck.bad("order.%s.source" % k, "the %s of a dimension are replaced by entries of another list or dimension: %s" % (k, vg.show(src, 3)), s.site)
        elif kk == k: ck.ok("order.%s.source" % k, "same entry", s.site)
        else: ck.unk("order.%s.source" % k, vg.show(src, 3), s.site)
        perms[k] = (S, s)
    if len(perms) < 2: return
    # key
    for k, (S, s) in perms.items():
        u = unsort(S)
        if u is None: ck.unk("order.%s.key" % k, vg.show(S, 4), s.site); continue
        key, rev = u
        w = next((x.args[0] for x in walk(key) if x.op in ("libref", "const") and str(x.args[0]).split(".")[-1] in NARROW), None) or next((x.args[0] for x in walk(key) if x.op == "call" and x.args[0] in ["numpy." + z for z in NARROW]), None)
        if w is not None: ck.bad("order.%s.key" % k, "the sort key passes through the type %s, which does not distinguish persistences that differ by less than one in a thousand" % w, s.site); continue
        try:
            i, = ivars(c.ty(key).shape[:1], c)
            p = at(c, key, (i,))
        except (Unk, ValueError) as e: ck.unk("order.%s.key" % k, str(e), s.site); continue
        bases = {a.args[0] for a in atoms_of(p, lambda a: a.kind == "el" and len(a.args[1]) >= 2 and a.args[1][1] in (ZERO, ONE))}
        if len(bases) != 1: ck.unk("order.%s.key" % k, "key %s" % poly.pstr(p)[:80], s.site); continue
        base = next(iter(bases))
        tails = {a.args[1][2:] for a in atoms_of(p, lambda a: a.kind == "el" and len(a.args[1]) >= 2 and a.args[1][1] in (ZERO, ONE))}
        if len(tails) != 1: ck.unk("order.%s.key" % k, "key form", s.site); continue
        tail = next(iter(tails))
        if atoms_of(p, lambda a: a.kind == "el" and len(a.args[1]) >= 2 and a.args[0] == base and a.args[1][1] == i and a.args[1][0].const() is not None): ck.bad("order.%s.key" % k, "the sort key mixes rows and columns of the diagram", s.site); continue
        rows = {a.args[1][0] for a in atoms_of(p, lambda a: a.kind == "el" and len(a.args[1]) >= 2 and a.args[1][1] in (ZERO, ONE))}
        if rows != {i}:
            st = atoms_of(tuple(rows), lambda a: a.kind == "el" and isinstance(a.args[0], vg.Node) and a.args[0].op == "call" and "sort" in a.args[0].args[0])
            if st: ck.bad("order.%s.key" % k, "the permutation is computed from a diagram that was already reordered", s.site)
            else: ck.unk("order.%s.key" % k, "row form", s.site)
            continue
        vals = []
        why = None
        for t in range(40):
            b = {}
            def leaf(env, idx, t=t):
                bb = 3 * env.u("b"); return bb if idx[1] == 0 else bb + (float("inf") if t % 10 == 4 else .1 + 2 * env.u("d") if t % 3 else .5 + 1e-5 * env.u("d"))
            env = cert.Env(("pers", t), {(base if isinstance(base, str) else poly.nodekey(base)): leaf})
            env.vals[i.single()[1][0][0]] = 0
            for z in tail:
                for y in z.atoms(): env.vals[y] = 1
            try: vals.append((env.num(p, {}), env.ev(P(poly.atom("el", base, (i, ONE) + tail, "f")) - P(poly.atom("el", base, (i, ZERO) + tail, "f")))))
            except (cert.NoVal, ValueError, OverflowError, ZeroDivisionError) as e: why = str(e)
        if len(vals) < 20: ck.unk("order.%s.key" % k, why or "", s.site); continue
        if rev: vals = [(-x, y) for x, y in vals]
        vals = [v for v in vals if v[0] == v[0]]
        wrong = sum((x1 < x2) != (y1 > y2) for n1, (x1, y1) in enumerate(vals) for x2, y2 in vals[:n1] if abs(y1 - y2) > 1e-9)
        if wrong > 2: ck.bad("order.%s.key" % k, "%s are not in non-increasing order of persistence: sort key %s%s" % (k, poly.pstr(p)[:160], " reversed" if rev else ""), s.site)
        else: ck.ok("order.%s.key" % k, "monotone key, identity test", s.site)
    (S1, s1), (S2, s2) = perms["dgms"], perms["cocycles"]
    if S1 is S2: ck.ok("order.lockstep", "same permutation value", s2.site)
    else:
        u1, u2 = unsort(S1), unsort(S2)
        if u1 and u2 and u1[0] is u2[0] and u1[1] != u2[1]: ck.bad("order.lockstep", "diagram and cocycles are sorted in opposite directions", s2.site)
        else:
            # both as functions of the common sort key, on all orders of four classes
            import itertools
            off = why = None; K = [u[0] for u in (u1, u2) if u and u[0] is not None and u[0].op not in ("sym", "const")]
            for k_ in K:
                why = None; m_ = {k_: vg.sym("key.")}
                a_, b_ = vg.subst(S1, m_), vg.subst(S2, m_)
                try:
                    for v in itertools.permutations((-3, -5, -8, -11)):
                        x, y = gathered(a_, "key.", v), gathered(b_, "key.", v)
                        if x != y: off = off or v
                    break
                except (Unk, TypeError, IndexError, ValueError) as e: why = str(e)
            if not K or why: ck.unk("order.lockstep", "two permutation values", s2.site)
            elif off: ck.bad("order.lockstep", "diagram and cocycles are not reordered by the same permutation", s2.site)
            else: ck.ok("order.lockstep", "terms evaluated on all orders of four classes", s2.site)

def rep(ck):
    """get_representative_cocycle(k, h): birth, death and cocycle of the same class and degree"""
    q = E + ".get_representative_cocycle"
    f = ck.fn(q)
    ps = [x.arg for x in f.node.args.args if x.arg != "self"]
    k, h = ps[0], ps[1]
    r = ck.run(q)
    n = r.node()
    rl = dre.roles(ck, E)[0]
    dg = {"self." + f for f, ro in rl.items() if ro == "dgms"}; co = {"self." + f for f, ro in rl.items() if ro == "cocycles"}
    for pos, what in ((0, "birth"), (1, "death")):
        x = item(n, pos)
        key = "representative." + what
        pth = path_of(x)
        if pth is None or pth[0] not in dg: ck.unk(key, vg.show(x, 4), r.site0); continue
        want = [("sym", h), ("sym", k), ("const", pos)]
        if pth[1] == want: ck.ok(key, "access path", r.site0)
        else: ck.bad(key, "%s of class %s in degree %s is read from %s" % (what, k, h, vg.show(x, 5)), r.site0)
    x = item(n, 2)
    pth = path_of(x)
    if pth is None or pth[0] not in co: ck.unk("representative.cocycle", vg.show(x, 4), r.site0)
    elif pth[1] == [("sym", h), ("sym", k)]: ck.ok("representative.cocycle", "access path", r.site0)
    else: ck.bad("representative.cocycle", "the cocycle of class %s in degree %s is read from %s" % (k, h, vg.show(x, 5)), r.site0)

def path_of(n):
    """chain of scalar indexings of a stored field -> (field, [indices])"""
    idx = []
    while True:
        if n.op == "index":
            if any(x.op == "slice" for x in n.args[1]): return None
            idx = list(n.args[1]) + idx; n = n.args[0]
        elif n.op == "call" and n.args[0] in ("numpy.array", "numpy.asarray", "numpy.copy", "builtins.float", "numpy.float64") and n.args[1]: n = n.args[1][0][1]
        elif n.op == "mcall" and n.args[0] == "copy": n = n.args[1]
        else: break
    if n.op != "sym": return None
    out = []
    for x in idx:
        if x.op == "sym": out.append(("sym", x.args[0]))
        elif isconst(x): out.append(("const", x.args[0]))
        else: out.append(("node", x))
    return n.args[0], out

DEG = {"toroidalcoords:ToroidalCoords": 1, "circularcoords:CircularCoords": 1, "complexprojectivecoords:ComplexProjectiveCoords": 2, "lenscoords:LensCoords": 1, "projectivecoords:ProjectiveCoords": 1}

def uses(ck, q):
    nm = q.split(":")[1]
    f = ck.fn(q + ".get_coordinates")
    names = [a.arg for a in f.node.args.args]
    r = ck.run(q + ".get_coordinates")
    rl = dre.roles(ck, q)[0]
    dg = {"self." + f for f, ro in {**dre.DEFAULT_ROLES, **rl}.items() if ro in ("dgms", "cocycles")}
    seen = {}
    for x in every_node(r):
        if x.op != "index": continue
        p = path_of(x)
        if p is None or p[0] not in dg or len(p[1]) < 2: continue
        seen[(p[0], p[1][0], p[1][1])] = x
    if not seen: ck.unk(nm + ".class", "no read of the stored classes"); return
    for n, ((fld, h, k), x) in enumerate(sorted(seen.items(), key=lambda t: vg.show(t[1], 4))):
        key = "%s.read%d" % (nm, n)
        what = vg.show(x, 5)
        if h[0] == "const" and h[1] != DEG[q]: ck.bad(key + ".degree", "%s: degree %s is used instead of %d: %s" % (nm, h[1], DEG[q], what), r.site0); continue
        ck.ok(key + ".degree", "access path", r.site0) if h[0] == "const" else ck.unk(key + ".degree", what)
        if k[0] == "sym" and k[1] in ("cocycle_idx",): ck.ok(key + ".class", "access path", r.site0)
        elif k[0] == "const": ck.bad(key + ".class", "%s: class %s is used whatever the caller asked for: %s" % (nm, k[1], what), r.site0)
        elif k[0] == "node":
            z = k[1]
            if z.op == "index" and z.args[0].op == "sym" and z.args[0].args[0] == "cocycle_idxs" and len(z.args[1]) == 1:
                j = z.args[1][0]
                if j.op == "iv" and j.args[0].op == "range" and isconst(j.args[0].args[0], 0) and vg.show(j.args[0].args[1], 3) in ("cocycle_idxs.shape[0]",): ck.ok(key + ".class", "element of the list", r.site0)
                elif isconst(j): ck.bad(key + ".class", "%s: only element %s of the list of classes is used: %s" % (nm, j.args[0], what), r.site0)
                elif j.op == "iv" and j.args[0].op == "range" and isconst(j.args[0].args[0]) and j.args[0].args[0].args[0] != 0: ck.bad(key + ".class", "%s: the first classes of the list are skipped: %s" % (nm, what), r.site0)
                else: ck.unk(key + ".class", what, r.site0)
            elif z.op in ("add", "sub") and any(y.op == "sym" and y.args[0] == "cocycle_idx" for y in z.args) and any(isconst(y) for y in z.args): ck.bad(key + ".class", "%s: class index %s is used" % (nm, vg.show(z, 3)), r.site0)
            else: ck.unk(key + ".class", what, r.site0)
        else: ck.unk(key + ".class", what, r.site0)
    # the representative-cocycle call also receives the caller's class
    reps = [x for x in r.calls_seen if x[0].split(".")[-1] == "get_representative_cocycle"]
    ck.ok(nm + ".calls", "%d calls" % len(reps), r.site0)

def check(ck):
    ck.fn(E + ".get_representative_cocycle")
    ck.guard("order", init_order, ck)
    ck.guard("representative", rep, ck)
    for q in DEG: ck.guard(q, uses, ck, q)

M, T, C, CC, LN = ["dreimac/%s.py" % x for x in ("emcoords", "toroidalcoords", "complexprojectivecoords", "circularcoords", "lenscoords")]
SELFTEST = [
    ("cocycles by inverse", M, "self._cocycles[i] = [self._cocycles[i][idx] for idx in idxs]", "self._cocycles[i] = [self._cocycles[i][idx] for idx in np.argsort(idxs)]", "bad"),
    ("cocycles by double inverse", M, "self._cocycles[i] = [self._cocycles[i][idx] for idx in idxs]", "self._cocycles[i] = [self._cocycles[i][idx] for idx in np.argsort(np.argsort(idxs))]", "quiet"),
    ("infinite last", M, "np.argsort(self._dgms[i][:, 0] - self._dgms[i][:, 1])", "np.argsort(np.nan_to_num(self._dgms[i][:, 0] - self._dgms[i][:, 1], neginf=0))", "bad"),
    ("infinite first", M, "np.argsort(self._dgms[i][:, 0] - self._dgms[i][:, 1])", "np.argsort(np.nan_to_num(self._dgms[i][:, 0] - self._dgms[i][:, 1], neginf=-1e30))", "quiet"),
    ("coarse key", M, "np.argsort(self._dgms[i][:, 0] - self._dgms[i][:, 1])", "np.argsort(np.round(self._dgms[i][:, 0] - self._dgms[i][:, 1], 3))", "bad"),
    ("long cocycle lists unsorted", M, "            self._cocycles[i] = [self._cocycles[i][idx] for idx in idxs]\n", "            if i == 1 or len(idxs) < 20:\n                self._cocycles[i] = [self._cocycles[i][idx] for idx in idxs]\n", "bad"),
    ("only if several", M, "            self._cocycles[i] = [self._cocycles[i][idx] for idx in idxs]\n", "            if len(idxs) > 1:\n                self._cocycles[i] = [self._cocycles[i][idx] for idx in idxs]\n", "quiet"),
    ("only positive degrees", M, "            self._cocycles[i] = [self._cocycles[i][idx] for idx in idxs]\n", "            if i > 0:\n                self._cocycles[i] = [self._cocycles[i][idx] for idx in idxs]\n", "quiet"),
    ("ascending", M, "np.argsort(self._dgms[i][:, 0] - self._dgms[i][:, 1])", "np.argsort(self._dgms[i][:, 1] - self._dgms[i][:, 0])", "bad"),
    ("by death", M, "np.argsort(self._dgms[i][:, 0] - self._dgms[i][:, 1])", "np.argsort(-self._dgms[i][:, 1])", "bad"),
    ("by ratio", M, "np.argsort(self._dgms[i][:, 0] - self._dgms[i][:, 1])", "np.argsort(self._dgms[i][:, 0] / self._dgms[i][:, 1])", "bad"),
    ("reversed", M, "np.argsort(self._dgms[i][:, 0] - self._dgms[i][:, 1])", "np.argsort(self._dgms[i][:, 1] - self._dgms[i][:, 0])[::-1]", "quiet"),
    ("lifetime var", M, "idxs = np.argsort(self._dgms[i][:, 0] - self._dgms[i][:, 1])", "birth = self._dgms[i][:, 0]\n            lifetime = self._dgms[i][:, 1] - birth\n            idxs = (-lifetime).argsort()", "quiet"),
    ("range short", M, "for i in range(1, maxdim+1):", "for i in range(1, maxdim):", "bad"),
    ("range two", M, "for i in range(1, maxdim+1):", "for i in range(2, maxdim+1):", "bad"),
    ("range empty", M, "for i in range(1, maxdim+1):", "for i in range(maxdim+1, 1):", "bad"),
    ("range down", M, "for i in range(1, maxdim+1):", "for i in range(maxdim, 0, -1):", "quiet"),
    ("range step", M, "for i in range(1, maxdim+1):", "for i in range(1, maxdim+1, 2):", "bad"),
    ("row key", M, "self._dgms[i][:, 0] - self", "self._dgms[i][0, :] - self", "bad"),
    ("col key", M, "self._dgms[i][:, 1])", "self._dgms[i][:, -1])", "quiet"),
    ("cocycles not", M, "self._cocycles[i] = [self._cocycles[i][idx] for idx in idxs]", "pass", "bad"),
    ("cocycles enumerate", M, "[self._cocycles[i][idx] for idx in idxs]", "[self._cocycles[i][idx] for idx, _ in enumerate(idxs)]", "bad"),
    ("cocycles resorted", M, "[self._cocycles[i][idx] for idx in idxs]", "[self._cocycles[i][idx] for idx in np.argsort(self._dgms[i][:, 0] - self._dgms[i][:, 1])]", "bad"),
    ("rep swap", M, "dgm[cohomology_class, 0],\n            dgm[cohomology_class, 1],", "dgm[cohomology_class, 1],\n            dgm[cohomology_class, 0],", "bad"),
    ("rep degree", M, "cocycles = self._cocycles[homological_dimension]", "cocycles = self._cocycles[1]", "bad"),
    ("rep dgm_", M, "dgm = self._dgms[homological_dimension]", "dgm = self.dgms_[homological_dimension]", "quiet"),
    ("cp degree", C, "homological_dimension = 2", "homological_dimension = 1", "bad"),
    ("circular idx", CC, "[cocycle_idx]", "[0]", "bad"),
    ("toroidal first", T, "self.get_representative_cocycle(cohomology_class, homological_dimension)\n                for cohomology_class in cocycle_idxs", "self.get_representative_cocycle(k, homological_dimension)\n                for k, _ in enumerate(cocycle_idxs)", "bad"),
]
