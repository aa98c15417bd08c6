"""Helpers shared by the property checkers."""
import os
from fractions import Fraction
from sa import vg, tnf, poly, cert, dre
from sa.tnf import Ctx, Ty, dim, Unk
from sa.poly import P, ZERO, ONE, Poly
from sa.vg import isconst, cargs, walk, show
from sa.cert import decide, Verdict

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def ty(s):
    """'N d:f' -> Ty"""
    sh, dt = s.rsplit(":", 1)
    return Ty([P(int(x)) if x.isdigit() else dim(x) for x in sh.split()], dt)

def types(d): return {k: (v if isinstance(v, Ty) else ty(v)) for k, v in d.items()}

def spec(ck):
    if "spec" not in ck.cache:
        ck.prog.add_module("zz_ref", open(os.path.join(HERE, "spec", "ref.py")).read())
        ck.cache["spec"] = True

def oracle(t):
    def f(n):
        if n.op == "sym" and n.args[0] in t: return t[n.args[0]].rank
        return None
    return f

class An:
    """one analysed function: value graph + scalar evaluator"""
    def __init__(self, ck, qual, t=None, facts=None, special=None, symmetric=(), args=None, prims=None, selfobj=None, hooks=()):
        self.ck, self.qual = ck, qual
        t = types(t or {})
        self.r = ck.run(qual, args=args, selfobj=selfobj) if args is not None or selfobj is not None else ck.run(qual)
        self.site = getattr(self.r, "site0", qual)
        self.t = t
        self.kw = dict(types=t, facts=facts or {}, special=special, symmetric=symmetric, prims=prims)
        self.c = Ctx(self.r, types=t, facts=facts, special=special, symmetric=symmetric, prims=prims)
        self.c.hooks += list(hooks)
        self.node = self.r.node()
        self.hooks = hooks
    def refacts(self, facts):
        kw = dict(self.kw); kw["facts"] = facts
        c = Ctx(self.r, **kw); c.hooks += list(self.hooks)
        return c

def item(n, k):
    """k-th component of a returned tuple / list, or value of a key of a returned dict"""
    if n.op in ("tuple", "list") and isinstance(k, int): return n.args[k]
    if n.op == "phi": return vg.mk("phi", n.args[0], item(n.args[1], k), item(n.args[2], k))
    if n.op == "dict":
        for kk, v in n.args:
            if isconst(kk, k): return v
        raise Unk("no key %r" % (k,))
    return vg.mk_index(n, (vg.const(k),))

_vn = [0]
def ivars(shape, *ctxs):
    out = []
    for d in shape:
        _vn[0] += 1
        v = ctxs[0].var("q%d" % _vn[0], 0, d)
        a = v.single()[1][0][0]
        for c in ctxs[1:]: c.ranges[a] = ctxs[0].ranges[a]
        out.append(v)
    return tuple(out)

def at(c, n, idx): return c.close(c.at(n, tuple(idx)))

def samedims(s1, s2):
    """True / False (definitely different) / None"""
    if len(s1) != len(s2): return False
    r = True
    for a, b in zip(s1, s2):
        if poly.equal(a, b): continue
        d = (P(a) - P(b)).const()
        v = decide(None, P(a), P(b))
        if v.kind == "ne": return False
        r = None
    return r

def same(ck, key, c1, n1, c2, n2, msg, site, **kw):
    """the two array values agree in shape and in every entry"""
    t1, t2 = c1.ty(n1), c2.ty(n2)
    sd = samedims(t1.shape, t2.shape)
    if sd is False:
        ck.bad(key, "%s: shape %s instead of %s" % (msg, tuple(map(str, t1.shape)), tuple(map(str, t2.shape))), site); return False
    if sd is None: ck.unk(key, "shape", site); return None
    idx = ivars(t1.shape, c1, c2)
    v = decide(c1, at(c1, n1, idx), at(c2, n2, idx), **kw)
    ck.verdict(key, v, msg, site)
    return v.kind == "eq"

def against(ck, key, qual, specname, t, msg, facts=None, **kw):
    spec(ck)
    a = An(ck, qual, t, facts=facts); b = An(ck, "zz_ref:" + specname, t)
    return same(ck, key, a.c, a.node, b.c, b.node, msg, a.site, **kw)

def phis(n):
    """phi conditions a value depends on at top level (through constructors)"""
    out = []
    for x in walk(n):
        if x.op == "phi" and x.args[0] not in out: out.append(x.args[0])
    return out

def cases(ck, an, n=None):
    """evaluators with one top-level branch condition of the returned value fixed, both ways"""
    n = n or an.node
    conds = []
    st = [n]; seen = set()
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x.op == "phi":
            if x.args[0] not in conds: conds.append(x.args[0])
            st += [x.args[1], x.args[2]]
        elif x.op in ("tuple", "list"): st += list(x.args)
        elif x.op == "call" and x.args[0] in ("numpy.array", "numpy.asarray", "numpy.transpose", "numpy.mod", "builtins.list", "builtins.tuple", "numpy.stack", "numpy.vstack"): st += [v for _, v in x.args[1]]
        elif x.op == "index": st.append(x.args[0])
    return conds

SOLVERS = {"scipy.sparse.linalg.lsqr", "scipy.sparse.linalg.lsmr", "numpy.linalg.lstsq", "scipy.linalg.lstsq", "scipy.sparse.linalg.spsolve"}

def solver_leaf(a):
    """leaf atom reading an entry of a least-squares solution"""
    if a.kind != "el" or not isinstance(a.args[0], vg.Node): return False
    n = a.args[0]
    if n.op == "index" and n.args[0].op == "call" and n.args[0].args[0] in SOLVERS: return isconst(n.args[1][0], 0)
    return n.op == "call" and n.args[0] == "scipy.sparse.linalg.spsolve"

def atoms_of(p, pred):
    """atoms anywhere inside p (under binders too) satisfying pred"""
    out = set(); st = [p]; seen = set()
    while st:
        x = st.pop()
        if isinstance(x, Poly):
            for m in x.t:
                for a, e in m: st.append(a)
        elif isinstance(x, tuple): st += list(x)
        elif isinstance(x, poly.Atom):
            if x in seen: continue
            seen.add(x)
            if pred(x): out.add(x)
            if x.kind == "Sum":
                st.append(x.args[0])
                for a, e in x.args[1]: st.append(a)
            else: st += [y for y in x.args if isinstance(y, (Poly, tuple, poly.Atom))]
    return out

def valuations(c, ps, gen=None, n=24, dims=None, fns=None, seed="val", bnode=None, where=None, opq=None):
    """values of several terms at common pseudo-random valuations"""
    fv = set()
    for p in ps: fv |= cert.free_ivs(p)
    out = []; why = None
    for t in range(n * cert.BOOST):
        env = cert.Env((seed, t), gen, dims, fns=fns, bnode=bnode, ctx=c, **({'opq': opq} if opq else {}))
        try:
            for v in sorted(fv, key=lambda a: (a.args[0], a.sortkey())):
                r = c.ranges.get(v)
                if r is None: raise cert.NoVal("range of index")
                lo, hi = env.integer(r[0], {}), env.integer(r[1], {})
                if hi <= lo: raise cert.NoVal("empty range")
                env.vals[v] = lo + int(env.u("iv", t, poly.astr(v), len(env.vals)) * (hi - lo))
            if where is not None and not where(env): continue
            out.append(tuple(env.ev(p) for p in ps))
        except (cert.NoVal, OverflowError, ZeroDivisionError, ValueError) as e: why = str(e)
    return out, why

def every_node(r):
    """every value node of an analysed function, including loop bodies, guards, stored values and call arguments"""
    seen = set(); st = []
    def push(x):
        if isinstance(x, vg.Node):
            if x not in seen: seen.add(x); st.append(x)
        elif isinstance(x, (tuple, list)):
            for y in x: push(y)
    try: push(r.node())
    except Exception: pass
    for e in r.effects:
        push(e.data); push([n for n, _ in e.path])
    for L in r.loops.values():
        push(L.dom); push(L.cond)
        for m, (a, b) in L.mu.items(): push(m); push(a); push(b)
        for b in (L.breaks or ()):
            push(b if isinstance(b, (tuple, list, vg.Node)) else None)
    while st:
        x = st.pop()
        yield x
        push(x.args)

def compiled(ck, site):
    """does this (file, line, ..) lie in the body of a function compiled by numba?"""
    import ast
    if not (isinstance(site, tuple) and len(site) >= 2): return False
    key = ("jit", site[0])
    if key not in ck.cache:
        spans = []
        for m in ck.prog.modules.values() if hasattr(ck.prog, "modules") else []:
            if getattr(m, "file", None) != site[0]: continue
            tree = m.tree
            names = set()
            for x in ast.walk(tree):
                if isinstance(x, ast.ImportFrom) and (x.module or "").split(".")[0] == "numba": names |= {a.asname or a.name for a in x.names}
                if isinstance(x, ast.Import): names |= {a.asname or a.name for a in x.names if a.name.split(".")[0] == "numba"}
            for x in ast.walk(tree):
                if isinstance(x, ast.FunctionDef):
                    for d in x.decorator_list:
                        if any(isinstance(y, ast.Name) and y.id in names for y in ast.walk(d)): spans.append((x.lineno, x.end_lineno))
        ck.cache[key] = spans
    return any(a <= site[1] <= b for a, b in ck.cache[key])
