"""Facts about the simplex-indexed loops of the code base, shared by the checkers of C06, C07 and C08."""
from .common import *
from sa import scatter
from sa.scatter import number, face_number, binom

GEN = {"dist_mat": scatter.dist_gen, "threshold": scatter.thr_gen, "self._dist_land_land": scatter.dist_gen}
OPS = {"make_delta0": (2, "full"), "make_delta1": (3, "full"), "make_delta1_compact": (3, "compact"), "make_delta2_compact": (4, "compact")}

def pnames(ck, qual):
    f = ck.fn(qual)
    a = f.node.args
    return [x.arg for x in a.posonlyargs + a.args]

def roles_of(ck, qual, want):
    """parameter name by role: distance matrix, threshold, lookup table, cochain.. by documented position / name"""
    out = {}
    for nm in pnames(ck, qual):
        l = nm.lower()
        if "dist" in l: out.setdefault("dist", nm)
        elif "thr" in l or "filtration" in l: out.setdefault("thr", nm)
        elif "table" in l or "lookup" in l: out.setdefault("table", nm)
        else: out.setdefault("rest", []).append(nm)
    return out

def rips_ctx(ck, qual, extra=None):
    """evaluator for a function of (.., distances, threshold, table)"""
    r = ck.run(qual)
    ro = roles_of(ck, qual, None)
    t = {}; sp = {}; sy = []
    if "dist" in ro: t[ro["dist"]] = ty("L L:f"); sy.append(ro["dist"])
    if "thr" in ro: t[ro["thr"]] = ty(":f")
    if "table" in ro: t[ro["table"]] = Ty((dim("L") + 1, P(5)), "i"); sp[ro["table"]] = dre.comb_entry
    for k, v in (extra or {}).items(): t[k] = ty(v) if isinstance(v, str) else v
    c = Ctx(r, types=t, symmetric=sy, special=sp)
    g = {ro.get("dist"): scatter.dist_gen, ro.get("thr"): scatter.thr_gen}
    return r, c, ro, g

def pathterm(c, path):
    g = ONE
    for n, pol in path:
        q = c.cond(n)
        g = g * (q if pol else ONE - q)
    return g

class Inc:
    """incidence table of one operator"""

def counter(c, r, n):
    """index node -> (counter mu node, offset) with the counter's per-iteration increment"""
    off = 0
    while n.op in ("add", "sub") and (isconst(n.args[1]) or n.op == "add" and isconst(n.args[0])):
        if isconst(n.args[1]): off += n.args[1].args[0] if n.op == "add" else -n.args[1].args[0]; n = n.args[0]
        else: off += n.args[0].args[0]; n = n.args[1]
    if n.op == "mu": return n, off
    return None, off

def incidence(ck, nm):
    """extract the incidence table of CohomologyUtils.<nm>: every obligation is (key, status, msg, site)"""
    k = ("inc", nm)
    if k in ck.cache: return ck.cache[k]
    I = Inc(); I.nm = nm; I.notes = []; I.vec = None; I.ok = False
    ck.cache[k] = I
    m, form = OPS[nm]
    qual = "utils:CohomologyUtils." + nm
    try:
        r, c, ro, g = rips_ctx(ck, qual)
        I.site = r.site0
        dist, thr = vg.sym(ro["dist"]), vg.sym(ro["thr"])
        L = dim("L")
        n = r.node()
        if n.op != "call" or "sparse" not in n.args[0] and "csr" not in n.args[0]: raise Unk("not a sparse constructor")
        a = cargs(n)
        src = a.get("arg1") or a.get("A") or list(a.values())[0]
        if src.op != "tuple" or len(src.args) != 2 or src.args[1].op != "tuple": raise Unk("sparse constructor arguments")
        data, (rows, cols) = src.args[0], src.args[1].args
        refs = [scatter.ref_of(x) for x in (data, rows, cols)]
        if None in refs or len(set(refs)) != 3: raise Unk("index buffers")
        shape = a.get("shape")
        I.shape = [c.val(x) for x in shape.args] if shape is not None and shape.op == "tuple" else None
        I.nfaces = binom(L, m - 1); I.nsimp = binom(L, m)
        # entries
        groups = {}
        for s in scatter.sites(r):
            key = "r%d" % s.ref.id if hasattr(s.ref, "id") else None
            if key not in refs: continue
            if len(s.idx) != 1 or s.aug is not None: raise Unk("store form")
            mu, off = counter(c, r, s.idx[0])
            if mu is None: raise Unk("position of an entry is not a running counter")
            if off != int(off): raise Unk("offset")
            gk = (mu, tuple(l.uid for l in s.loops), s.conds)
            groups.setdefault(gk, {}).setdefault(int(off), {}).setdefault(refs.index(key), []).append(s)
        if not groups: raise Unk("no entries found")
        I.groups = []
        for (mu, lu, conds), offs in groups.items():
            s0 = next(iter(next(iter(offs.values())).values()))[0]
            dom = scatter.Domain(c, s0.loops, s0.conds)
            mt = scatter.match(c, dom, m, dist, thr, L, g, {"L": 6 if m > 3 else 5})
            I.groups.append((mu, dom, mt, offs, s0))
        I.guard = [mt for _, _, mt, _, _ in I.groups]
        I.c, I.r, I.m, I.form = c, r, m, form
        I.bufs = [scatter.init_of(r, x) for x in refs]
        I.refs = refs; I.srcs = (data, rows, cols)
        if len(I.groups) != 1: raise Unk("several loop nests")
        mu, dom, mt, offs, s0 = I.groups[0]
        if mt.status != "ok": I.why = mt.msg; return I
        vs = mt.perm
        fn = [face_number(vs, t) for t in range(m)]
        I.offsets = sorted(offs)
        I.double = [o for o, d in offs.items() if any(len(x) > 1 for x in d.values())]
        I.missing = [o for o, d in offs.items() if set(d) != {0, 1, 2}]
        I.entries = []
        I.mu = mu
        Lp = r.loops[mu.args[0]]
        nx = c.val(Lp.mu[mu][1]) - c.val(mu)
        G = ONE
        for q in dom.conds: G = G * q
        outerg = pathterm(c, Lp.path)
        I.guardterm = G; I.inc = nx * outerg
        vec = [ZERO] * m; I.colbad = []; I.rowbad = []; I.rowkind = None
        num = number(vs)
        rown = set()
        where = lambda env: True
        for o in I.offsets:
            d = offs[o]
            if set(d) != {0, 1, 2}: continue
            dv, rv, cv = (d[i][-1].val for i in range(3))
            col = c.val(cv); val = c.val(dv)
            site = d[2][-1].site
            hit = [t for t in range(m) if poly.equal(col, fn[t])]
            if not hit:
                vds = [decide(c, col, fn[t]) for t in range(m)]
                hit = [t for t in range(m) if vds[t].kind == "eq"]
                if not hit:
                    I.colbad.append((o, "bad" if all(v.kind == "ne" for v in vds) else "unk", col, site)); continue
            vec[hit[0]] = vec[hit[0]] + val
            I.entries.append((o, hit[0], val, site))
            muR, offR = counter(c, r, rv)
            if form == "compact" and muR is not None: rown.add((muR, offR)); continue
            row = c.val(rv)
            v = decide(c, row, num)
            I.rowbad.append((o, v, row, d[1][-1].site))
        if rown:
            I.rowkind = "counter" if len(rown) == 1 else "mixed"
            mr, orr = next(iter(rown))
            Lr = r.loops[mr.args[0]]
            I.rowinc = (c.val(Lr.mu[mr][1]) - c.val(mr)) * pathterm(c, Lr.path)
            I.rowmu = mr; I.rowoff = {o for _, o in rown}
        I.vec = vec
        I.ok = not I.colbad
        I.vs = vs
    except (Unk, vg.AnalysisError, cert.NoVal) as e: I.why = "%s" % e
    return I

def emit(ck, I, keys):
    """raise the obligations of one operator that belong to the asking property"""
    nm = I.nm
    site = getattr(I, "site", nm)
    if not hasattr(I, "guard"): ck.unk(nm + ".extract", getattr(I, "why", "?"), site); return
    if "guard" in keys:
        for j, mt in enumerate(I.guard):
            k = nm + ".simplices" + ("" if j == 0 else str(j))
            if mt.status == "ok": ck.ok(k, mt.how, site)
            elif mt.status == "bad": ck.bad(k, "%s: %s" % (nm, mt.msg), site)
            else: ck.unk(k, mt.msg, site)
    if I.vec is None:
        if all(g.status == "ok" for g in I.guard): ck.unk(nm + ".extract", getattr(I, "why", "?"), site)
        return
    if "faces" in keys:
        for o, st, col, s in I.colbad:
            if st == "bad": ck.bad(nm + ".face%d" % o, "%s: entry %d of a simplex refers to column %s, which is the number of none of its faces" % (nm, o, poly.pstr(col)), s)
            else: ck.unk(nm + ".face%d" % o, "column", s)
        for o, t, v, s in I.entries: ck.ok(nm + ".face%d" % o, "normal form", s)
        if len({t for _, t, _, _ in I.entries}) < I.m and not I.colbad and not I.missing:
            ck.bad(nm + ".faces", "%s: a simplex has entries for the faces omitting vertices %s only" % (nm, sorted({t for _, t, _, _ in I.entries})), site)
        b = I.bufs[0] if I.bufs else None
        if b is not None and b.op == "call" and any(getattr(v, "const", lambda: None)() is None or v.const() < 0 for _, _, v, _ in I.entries):
            dt = cargs(b).get("dtype"); dt = vg.show(dt, 2) if dt is not None else ""
            if "uint" in dt or "bool" in dt: ck.bad(nm + ".values", "%s: the values are kept in a buffer of type %s, which has no negative numbers" % (nm, dt), site)
            else: ck.ok(nm + ".values", "dtype", site)
    if "rows" in keys:
        for o, v, row, s in I.rowbad:
            ck.verdict(nm + ".row%d" % o, v, "%s: row %s is not the number of the simplex" % (nm, poly.pstr(row)), s)
        if I.rowkind:
            k = nm + ".rowcounter"
            if len(I.rowoff) > 1 or I.rowkind == "mixed": ck.bad(k, "%s: the entries of one simplex are put in different rows" % nm, site)
            else: ck.verdict(k, decide(I.c, I.rowinc, I.guardterm, gen=GEN, dims={"L": 6}), "%s: the row counter does not advance by one per simplex" % nm, site)
    if "counter" in keys:
        m = len(I.offsets)
        if I.double: ck.bad(nm + ".overwrite", "%s: two entries are written to the same position" % nm, site)
        elif I.missing: ck.bad(nm + ".lockstep", "%s: row, column and value arrays are not filled in lockstep (offset %s)" % (nm, I.missing), site)
        elif I.offsets != list(range(I.offsets[0], I.offsets[0] + m)) or I.offsets[0] != 0: ck.bad(nm + ".positions", "%s: entries of a simplex are written at offsets %s of the running position" % (nm, I.offsets), site)
        else: ck.ok(nm + ".positions", "counter offsets", site)
        ck.verdict(nm + ".advance", decide(I.c, I.inc, I.guardterm * m, gen=GEN, dims={"L": 6}), "%s: the running position does not advance by the %d entries written" % (nm, m), site)
        ck.guard(nm + ".slice", slices, ck, I)
    if "capacity" in keys:
        for b, what in zip(I.bufs, ("values", "rows", "columns")):
            k = nm + ".capacity." + what
            def go():
                if b is None: raise Unk("buffer")
                d, = I.c.ty(b).shape
                need = I.nsimp * len(I.offsets)
                if poly.equal(d, need): ck.ok(k, "normal form", site); return
                worst = None
                for N in range(0, 13):
                    env = cert.Env(("cap", N), None, {"L": N})
                    x, y = env.ev(d), env.ev(need)
                    if x < y - 1e-6: worst = (N, x, y); break
                if worst: ck.bad(k, "%s: the %s buffer has room for %g entries but %g are needed with %d landmarks" % (nm, what, worst[1], worst[2], worst[0]), site)
                else: ck.ok(k, "identity test", site)
            ck.guard(k, go)
            k2 = nm + ".width." + what
            if b is not None and b.op == "call" and what != "values":
                dt = vg.show(cargs(b).get("dtype"), 2) if cargs(b).get("dtype") is not None else "numpy.float64"
                if any(x in dt for x in ("int8", "int16", "float16", "bool")): ck.bad(k2, "%s: the %s buffer of type %s cannot hold simplex numbers" % (nm, what, dt), site)
                else: ck.ok(k2, "dtype", site)
    if "shape" in keys and I.shape is not None:
        v = decide(I.c, I.shape[1], I.nfaces, dims=None)
        ck.verdict(nm + ".ncols", v, "%s: number of columns is not the number of faces" % nm, site)
        if I.form == "full": ck.verdict(nm + ".nrows", decide(I.c, I.shape[0], I.nsimp), "%s: number of rows is not the number of simplices" % nm, site)
        elif I.rowkind == "counter":
            sh = cargs(I.r.node())["shape"].args[0]
            root = outer(I.r, I.rowmu)
            if sh.op == "final" and sh.args[1] is root or sh is I.r.loops and False: ck.ok(nm + ".nrows", "final value of the row counter", site)
            elif sh.op == "final" and sh.args[1].op == "mu" and same_counter(I, sh.args[1], root): ck.ok(nm + ".nrows", "final value of an equal counter", site)
            else:
                v = decide(I.c, I.shape[0], I.nsimp)
                if v.kind == "eq": ck.ok(nm + ".nrows", "all simplices", site)
                else: ck.unk(nm + ".nrows", "row count", site)

def outer(r, mu):
    """outermost loop-carried version of an inner counter"""
    for _ in range(20):
        L = r.loops.get(mu.args[0])
        if L is None or mu not in L.mu: return mu
        i = L.mu[mu][0]
        if i.op != "mu": return mu
        mu = i
    return mu

def same_counter(I, a, b):
    return False

def slices(ck, I):
    """the three arrays are cut at the final value of the running position"""
    root = outer(I.r, I.mu)
    ends = []
    for x in I.srcs:
        if x.op == "index" and len(x.args[1]) == 1 and x.args[1][0].op == "slice":
            lo, hi, st = (list(x.args[1][0].args) + [vg.const(None)] * 3)[:3]
            ends.append((lo, hi, st))
        else: ends.append(None)
    k = I.nm + ".slice"
    if all(e is not None for e in ends) and len(set(ends)) == 1:
        lo, hi, st = ends[0]
        if hi.op == "final" and hi.args[1] is root and (isconst(lo, None) or isconst(lo, 0)): ck.ok(k, "final position", I.site); return
    if all(e is not None for e in ends) and len({e[1] for e in ends}) > 1:
        his = [e[1] for e in ends]
        for h in his[1:]:
            if decide(I.c, I.c.val(his[0]), I.c.val(h)).kind == "ne": ck.bad(k, "%s: row, column and value arrays are cut at different positions" % I.nm, I.site); return
    if all(e is not None for e in ends):
        hi = ends[0][1]
        if hi.op in ("add", "sub") and isconst(hi.args[1]) and hi.args[0].op == "final" and hi.args[0].args[1] is root and hi.args[1].args[0] != 0:
            ck.bad(k, "%s: the arrays are cut %s %s entries from the last one written" % (I.nm, hi.op, hi.args[1].args[0]), I.site); return
    if all(e is None for e in ends) and all(b is not None and b.op == "call" and b.args[0] == "numpy.empty" for b in I.bufs):
        ck.bad(k, "%s: uninitialised buffer positions are used as entries" % I.nm, I.site); return
    ck.unk(k, "slice", I.site)
