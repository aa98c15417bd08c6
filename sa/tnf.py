"""Pointwise ("tensor") normal form of value-graph nodes.

`Ctx.ty(node)` infers rank, symbolic shape and element type; `Ctx.at(node, idx)` gives the element of an array node at a
symbolic index as a canonical scalar term (poly.Poly).  Array operations are modelled by their index maps, in-place stores and
masks by Iverson brackets, reductions by Sum/Red terms, and loops by closed forms (accumulations, index-pinned stores, boolean
folds).  Anything outside that vocabulary raises Unk (or yields an `opq` atom when it is a value the client may still compare
structurally)."""
import sys
from fractions import Fraction
from . import vg, poly
from .poly import P, ZERO, ONE, atom, fn, ite, lt, le, eq, Sum, Red, subst_p, Poly
from .vg import isconst, cargs

MULTI = {"numpy.meshgrid", "numpy.mgrid", "numpy.nonzero", "numpy.where", "numpy.linalg.eigh", "numpy.linalg.svd", "scipy.sparse.linalg.lsqr", "scipy.sparse.linalg.lsmr", "numpy.linalg.lstsq", "numpy.histogram", "scipy.optimize.milp"}

class Unk(Exception):
    pass

class Ty:
    __slots__ = ("shape", "dt")
    def __init__(self, shape, dt): self.shape, self.dt = tuple(shape), dt
    @property
    def rank(self): return len(self.shape)
    def __repr__(self): return "Ty(%s,%s)" % (list(map(str, self.shape)), self.dt)

def dim(name): return P(atom("dim", name)) if isinstance(name, str) else P(name)

DT_RANK = {"b": 0, "i": 1, "f": 2, "c": 3}
def join(a, b):
    if a is None or b is None: return None
    if a not in DT_RANK or b not in DT_RANK: return a if a == b else None
    return a if DT_RANK[a] >= DT_RANK[b] else b

DTYPES = {
    "builtins.int": "i", "builtins.float": "f", "builtins.complex": "c", "builtins.bool": "b", "numpy.bool_": "b", "numpy.bool": "b", "numpy.complex_": "c", "numpy.cdouble": "c",
    "numpy.float64": "f", "numpy.float32": "f", "numpy.double": "f", "numpy.float_": "f", "numpy.complex128": "c", "numpy.complex64": "c", "numpy.longdouble": "f", "numpy.float16": "f",
    "numpy.int64": "i", "numpy.int32": "i", "numpy.int16": "i", "numpy.int8": "i", "numpy.intp": "i", "numpy.int_": "i", "numpy.uint8": "i", "numpy.uint32": "i", "numpy.uint64": "i", "numpy.uint16": "i", "numpy.integer": "i", "numpy.single": "f",
}
STRDT = {"float": "f", "float64": "f", "float32": "f", "int": "i", "int64": "i", "int32": "i", "complex": "c", "complex128": "c", "bool": "b", "f8": "f", "i8": "i", "c16": "c", "d": "f", "f": "f", "i": "i", "D": "c", "f4": "f", "i4": "i", "intp": "i", "complex64": "c", "?": "b"}

EW1 = {"sqrt", "exp", "sin", "cos", "tan", "abs", "conjugate", "real", "imag", "floor", "ceil", "rint", "trunc", "angle", "arccos", "arcsin", "arctan", "log", "sign", "isnan", "isfinite", "isinf", "square", "round", "nan_to_num", "reciprocal", "log1p", "expm1", "sinh", "cosh", "tanh", "log2", "log10", "exp2", "degrees", "radians", "deg2rad", "rad2deg", "negative", "positive", "cbrt"}
EW2 = {"minimum", "maximum", "fmin", "fmax", "arctan2", "hypot", "fmod"}
COPY = {"numpy.asarray", "numpy.ascontiguousarray", "numpy.asanyarray", "numpy.copy", "builtins.list", "builtins.tuple", "numpy.broadcast_arrays", "sparse.toarray", "sparse.tocsr", "sparse.tocsc", "sparse.tocoo", "numpy.require", "ndarray.tolist", "builtins.iter"}
RED = {"numpy.sum": "sum", "numpy.prod": "prod", "numpy.mean": "mean", "numpy.max": "max", "numpy.min": "min", "numpy.any": "any", "numpy.all": "all", "numpy.argmax": "argmax", "numpy.argmin": "argmin", "numpy.linalg.norm": "norm",
       "numpy.count_nonzero": "count", "builtins.sum": "sum", "numpy.nansum": "sum", "builtins.any": "any", "builtins.all": "all", "numpy.add.reduce": "sum", "numpy.nanmean": "mean"}

class Ctx:
    def __init__(self, res, types=None, prims=None, symmetric=(), facts=None, no_exc=True, pointwise=True, special=None):
        self.special = special or {}      # input name -> function(idx) -> Poly
        self.hooks = []                   # node -> Ty or None : nodes treated as abstract leaves
        self.res = res; self.loops = res.loops if res is not None else {}
        self.types = {}
        for k, v in (types or {}).items():
            self.types[k] = v if isinstance(v, Ty) else Ty([dim(d) for d in v[0]], v[1])
        self.prims = prims or {}          # call name -> function(ctx, node) -> Ty (leaf elements)
        self.symmetric = set(symmetric)   # names of symmetric 2-d inputs
        self.facts = dict(facts or {})
        self.no_exc = no_exc; self.pointwise = pointwise
        self.tm, self.am = {}, {}
        self.ranges = {}
        self.over = {}                    # node -> Ty override (abstract leaf)
        self.slotted = False; self.slots = {}
        self.alias = {}                   # node -> (leaf, axis permutation): an overridden node that is a rearranged leaf
        self.busy = set()
        self.prov = {}                    # type of a loop-carried value while its next value is being typed
        self.mucl = {}
        poly.RANGE_OK[0] = self.inrange

    # ------------------------------------------------------------------ small helpers
    def var(self, name, lo, hi, depth=500):
        a = atom("iv", depth, name)
        self.ranges[a] = (P(lo), P(hi))
        return P(a)
    def ivatom(self, n):
        a = atom("iv", n.args[1], n)
        if a not in self.ranges:
            d = n.args[0]
            if d.op == "range":
                try:
                    lo, hi, st = [self.val(x) for x in d.args]
                    if st.const() == 1: self.ranges[a] = (lo, hi)
                    elif st.const() == -1: self.ranges[a] = (hi + 1, lo + 1)
                except Unk: pass
        return a
    def dims(self, n):
        return self.ty(n).shape

    # ---- sign reasoning over index terms
    def bound(self, p, up, depth=6):
        """replace index variables by the end of their range that makes p largest (up) / smallest"""
        for _ in range(depth):
            ivs = [a for a in p.atoms() if a.kind == "iv" and a in self.ranges]
            if not ivs: return p
            ivs.sort(key=lambda a: -poly.ivorder(a)[0])
            v = ivs[0]
            lo, hi = self.ranges[v]
            # affine in v?
            c = ZERO; rest = ZERO
            for m, k in p.t.items():
                d = dict(m)
                if v in d:
                    if d[v] != 1: return None
                    d.pop(v)
                    c = c + Poly({tuple(sorted(d.items(), key=lambda t: t[0].sortkey())): k})
                else: rest = rest + Poly({m: k})
            if poly.occurs_p(v, c) or poly.occurs_p(v, rest): return None
            if self.coef_nonneg(c): p = rest + c * ((hi - 1) if up else lo)
            elif self.coef_nonneg(-c): p = rest + c * (lo if up else (hi - 1))
            else: return None
        return None
    def coef_nonneg(self, p):
        """polynomial in dims (>= 1) and 0/1 or non-negative atoms"""
        q = ZERO
        sub = {}
        for a in p.atoms():
            if a.kind == "dim": sub[a] = P(a) + 1
            elif a.kind == "iv":
                r = self.ranges.get(a)
                if r is None or not (r[0].const() is not None and r[0].const() >= 0): return False
            elif not poly.nonneg_atom(a): return False
        q = subst_p(p, sub) if sub else p
        return all(c >= 0 for c in q.t.values())
    def nonneg(self, p):
        c = p.const()
        if c is not None: return c >= 0
        b = self.bound(p, False)
        return b is not None and self.coef_nonneg(b)
    def inrange(self, val, lo, hi):
        return self.nonneg(val - lo) and self.nonneg(hi - 1 - val)
    def blt(self, a, b):
        """[a < b] simplified with index ranges (integers)"""
        d = b - a
        if poly.is_int(d):
            if self.nonneg(d - 1): return ONE
            if self.nonneg(-d): return ZERO
        return lt(a, b)
    def ble(self, a, b): return ONE - self.blt(b, a)
    def beq(self, a, b):
        d = a - b
        if d.const() is None and poly.is_int(d) and (self.nonneg(d - 1) or self.nonneg(-d - 1)): return ZERO
        return eq(a, b)

    # ------------------------------------------------------------------ types
    def ty(self, n):
        t = self.tm.get(n)
        if t is None:
            if n not in self.over and n.op in ("index", "call", "attr", "mcall", "callv", "final", "mu", "sub", "add"):
                for h in self.hooks:
                    t0 = h(self, n)
                    if t0 is not None: self.over[n] = t0; break
            if n in self.over: t = self.over[n]
            else:
                if ("t", n) in self.busy:
                    if n in self.prov: return self.prov[n]
                    if n.op == "mu":
                        x = n
                        while x.op == "mu" and x.args[0] in self.loops and x in self.loops[x.args[0]].mu: x = self.loops[x.args[0]].mu[x][0]
                        if x.op != "mu" and ("t", x) not in self.busy: return self.ty(x)
                    raise Unk("recursive type")
                self.busy.add(("t", n))
                try: t = self._ty(n)
                finally: self.busy.discard(("t", n))
            self.tm[n] = t
        return t
    def rank(self, n): return self.ty(n).rank

    def dtype_of(self, d):
        if d is None or isconst(d, None): return None
        if d.op == "libref": return DTYPES.get(d.args[0])
        if d.op == "const" and isinstance(d.args[0], str): return STRDT.get(d.args[0])
        if d.op == "attr" and d.args[1] == "dtype":
            try: return self.ty(d.args[0]).dt
            except Unk: return None
        if d.op == "call" and d.args[0] == "numpy.result_type":
            r = "b"
            for _, x in d.args[1]:
                q = self.dtype_of(x) if x.op in ("libref", "attr") else self.ty(x).dt
                r = join(r, q)
            return r
        if d.op == "call" and d.args[0] in ("numpy.promote_types",):
            r = "b"
            for _, x in d.args[1]: r = join(r, self.dtype_of(x))
            return r
        if d.op == "phi":
            a, b = self.dtype_of(d.args[1]), self.dtype_of(d.args[2])
            return a if a == b else None
        return None

    def shape_arg(self, s):
        """node of a shape argument -> tuple of dims"""
        if s.op in ("tuple", "list"): return tuple(self.val(x) for x in s.args)
        if s.op == "attr" and s.args[1] == "shape": return self.ty(s.args[0]).shape
        if s.op == "index" and s.args[0].op == "attr" and s.args[0].args[1] == "shape" and len(s.args[1]) == 1 and s.args[1][0].op == "slice":
            sh = self.ty(s.args[0].args[0]).shape
            a, b, c = s.args[1][0].args
            if all(isconst(x) for x in (a, b, c)): return sh[slice(a.args[0], b.args[0], c.args[0])]
        t = self.ty(s)
        if t.rank == 0: return (self.val(s),)
        if s.op == "add" :
            return self.shape_arg(s.args[0]) + self.shape_arg(s.args[1])
        raise Unk("shape " + vg.show(s, 3))

    def bshape(self, shapes):
        r = max(len(s) for s in shapes)
        out = []
        for k in range(r):
            ds = [s[len(s) - r + k] for s in shapes if len(s) - r + k >= 0]
            nz = [d for d in ds if d != ONE]
            out.append(nz[0] if nz else ONE)
        return tuple(out)

    def _ty(self, n):
        op = n.op
        if op == "const":
            v = n.args[0]
            return Ty((), "b" if isinstance(v, bool) else "i" if isinstance(v, int) else "c" if isinstance(v, complex) else "s" if isinstance(v, str) else "o" if v is None else "f")
        if op == "sym":
            if n.args[0] in self.types: return self.types[n.args[0]]
            raise Unk("type of " + n.args[0])
        if op == "libref":
            if n.args[0] in ("numpy.pi", "numpy.e", "numpy.nan", "numpy.inf", "math.pi", "math.inf", "math.nan", "math.e"): return Ty((), "f")
            raise Unk("libref " + n.args[0])
        if op == "iv":
            return Ty((), "i")
        if op in ("add", "sub", "mul", "div", "floordiv", "mod", "pow"):
            a, b = n.args
            if op == "add" and a.op in ("list", "tuple", "seq") and b.op in ("list", "tuple", "seq"):
                ta, tb = self.ty(a), self.ty(b)
                return Ty((ta.shape[0] + tb.shape[0],) + ta.shape[1:], join(ta.dt, tb.dt))
            if op == "mul" and ((a.op in ("list", "seq") and self.ty(b).rank == 0) or (b.op in ("list", "seq") and self.ty(a).rank == 0)):
                l, k = (a, b) if a.op in ("list", "seq") else (b, a)
                tl = self.ty(l)
                return Ty((tl.shape[0] * self.val(k),) + tl.shape[1:], tl.dt)
            ta, tb = self.ty(a), self.ty(b)
            if "s" in (ta.dt, tb.dt): return Ty((), "s")
            dt = join(ta.dt, tb.dt)
            if op == "div" and dt in ("b", "i"): dt = "f"
            if op != "div" and dt == "b": dt = "i"
            if op == "pow" and ta.dt == "i" and tb.dt == "i":
                if isconst(n.args[1]) and n.args[1].args[0] < 0: dt = "f"
            return Ty(self.bshape([ta.shape, tb.shape]), dt)
        if op == "neg":
            t = self.ty(n.args[0]); return Ty(t.shape, "i" if t.dt == "b" else t.dt)
        if op == "not": return Ty(self.ty(n.args[0]).shape, "b")
        if op in ("lt", "le", "eq", "ne", "and", "or"):
            try: return Ty(self.bshape([self.ty(x).shape for x in n.args]), "b")
            except Unk:
                if op in ("and", "or", "eq", "ne"): return Ty((), "b")
                raise
        if op in ("is", "in", "truth", "isinstance", "inloop", "exccond"): return Ty((), "b")
        if op == "phi":
            c = self.try_cond(n.args[0])
            if c == ONE: return self.ty(n.args[1])
            if c == ZERO: return self.ty(n.args[2])
            ta = tb = None
            try: ta = self.ty(n.args[1])
            except Unk: pass
            try: tb = self.ty(n.args[2])
            except Unk: pass
            if ta is None and tb is None: raise Unk("phi")
            if ta is None or tb is None:
                t = ta or tb
                return t
            if ta.rank != tb.rank:
                if ta.dt == "o" and ta.rank == 0: return tb
                if tb.dt == "o" and tb.rank == 0: return ta
                raise Unk("phi of different ranks")
            if ta.dt == "o" and isconst(n.args[1], None): return tb
            if tb.dt == "o" and isconst(n.args[2], None): return ta
            return Ty([x if x == y else self.phidim(n.args[0], x, y) for x, y in zip(ta.shape, tb.shape)], join(ta.dt, tb.dt))
        if op in ("list", "tuple"):
            if not n.args: return Ty((ZERO,), "f")
            ts = [self.ty(x) for x in n.args]
            r = max(t.rank for t in ts)
            if any(t.rank != r for t in ts): raise Unk("ragged")
            dt = ts[0].dt
            for t in ts[1:]: dt = join(dt, t.dt)
            return Ty((P(len(n.args)),) + ts[0].shape, dt)
        if op == "seq":
            dom, ivn, elem, cond = n.args
            t = self.ty(elem)
            if not isconst(cond, True):
                return Ty((P(atom("dim", "filter", n)),) + t.shape, t.dt)
            return Ty((self.domlen(dom),) + t.shape, t.dt)
        if op == "flatseq":
            reg = self.regular(n)
            if reg is not None:
                t = self.ty(n.args[2])
                return Ty((reg[0] * reg[1],) + t.shape[1:], t.dt)
            return Ty((P(atom("dim", "flat", n)),) + self.ty(n.args[1] if len(n.args) > 1 else n.args[0]).shape, None)
        if op == "range": return Ty((self.domlen(n),), "i")
        if op == "enum": raise Unk("enumerate object")
        if op == "store": return self.ty(n.args[0])
        if op == "viewset": return self.ty(n.args[0])
        if op == "fillwith": return self.ty(n.args[0])
        if op == "mu":
            L = self.loops.get(n.args[0])
            if L is None or n not in L.mu: raise Unk("mu")
            t = self.ty(L.mu[n][0])
            sh = list(t.shape)
            self.prov[n] = t
            try:
                self.tm[n] = t
                try: t2 = self.ty(L.mu[n][1])
                except Unk as e:
                    if str(e) != "recursive type": raise
                    t2 = t
                if t.dt == "o" and t.rank == 0 and isconst(L.mu[n][0], None) and t2.dt != "o":
                    self.tm.pop(n, None); return t2
                if t2.rank != t.rank: 
                    self.tm.pop(n, None); raise Unk("loop-carried rank")
                dt = join(t.dt, t2.dt)
                return Ty([a if a == b else P(atom("dim", "mu%d" % k, n)) for k, (a, b) in enumerate(zip(sh, t2.shape))], dt)
            except Unk:
                self.tm.pop(n, None)
                raise
        if op == "final":
            L = self.loops.get(n.args[0])
            t = self.ty(n.args[1])
            if any(any(a.kind == "dim" and len(a.args) > 1 and a.args[1] is n.args[1] for a in d.atoms()) for d in t.shape):
                nx = self.ty(L.mu[n.args[1]][1])
                sh = []
                for k, d in enumerate(t.shape):
                    if any(a.kind == "dim" and len(a.args) > 1 and a.args[1] is n.args[1] for a in d.atoms()):
                        sh.append(P(atom("dim", "final%d" % k, n)))
                    else: sh.append(d)
                return Ty(sh, t.dt)
            return t
        if op == "last": return self.ty(n.args[1])
        if op == "attr":
            b, nm = n.args
            if nm == "shape": return Ty((P(self.ty(b).rank),), "i")
            if nm in ("size", "ndim", "nnz"): return Ty((), "i")
            if nm == "x" : return self.prim_field(b, "x", n)
            raise Unk("attr " + nm)
        if op == "matmul":
            a, b = self.ty(n.args[0]), self.ty(n.args[1])
            dt = join(a.dt, b.dt)
            if a.rank == 1 and b.rank == 1: return Ty((), dt)
            if a.rank == 2 and b.rank == 1: return Ty((a.shape[0],), dt)
            if a.rank == 1 and b.rank == 2: return Ty((b.shape[1],), dt)
            if a.rank == 2 and b.rank == 2: return Ty((a.shape[0], b.shape[1]), dt)
            if a.rank == 0 or b.rank == 0: return Ty(a.shape or b.shape, dt)
            raise Unk("matmul rank")
        if op == "index": return self.ty_index(n)
        if op == "call": return self.ty_call(n)
        if op == "callv":
            if self.pointwise and n.args[1]:
                sh = []
                for k, x in n.args[1]:
                    try: sh.append(self.ty(x).shape)
                    except Unk: pass
                if sh: return Ty(self.bshape(sh), "f")
            raise Unk("call of unknown function")
        if op == "str": return Ty((), "s")
        raise Unk("type of " + op)

    def phidim(self, c, x, y):
        try:
            cp = self.cond(c)
            return ite(cp, x, y)
        except Unk:
            return P(atom("dim", "phi", c, x, y))

    def domlen(self, d):
        if d.op == "range":
            lo, hi, st = [self.val(x) for x in d.args]
            s = st.const()
            if s == 1: return hi - lo
            if s == -1: return lo - hi
            if s is not None and s > 0: return fn("ceil", (hi - lo) * P(Fraction(1) / s))
            return fn("ceil", (hi - lo) / st)
        raise Unk("domain " + d.op)

    def prim_field(self, b, nm, n):
        raise Unk("field " + nm)

    # ---- index typing
    def parse_index(self, n):
        """-> (base, items, out) ; items per base axis; out list describing output axes"""
        base, idxs = n.args
        tb = self.ty(base)
        return base, tb, self.parse_idx(tb, idxs)

    def parse_idx(self, tb, idxs):
        """list of ('new',) | ('s', start, step, len, axis) | ('i', value poly, axis) | ('a', node, ty, axis) | ('m', node, rank, axis)"""
        used = 0
        kinds = []
        for i in idxs:
            if i.op == "const" and i.args[0] is None: kinds.append(("new",)); continue
            if i.op == "ellipsis": kinds.append(("ell",)); continue
            if i.op == "slice": kinds.append(("slice", i)); used += 1; continue
            if isconst(i) and isinstance(i.args[0], bool): raise Unk("bool index")
            if i.op in ("libref", "func"): raise Unk("index by object")
            t = self.ty(i)
            if t.rank == 0 and t.dt != "b":
                if t.dt in ("s", "o"): raise Unk("key index")
                kinds.append(("int", i)); used += 1; continue
            if t.dt == "b":
                if t.rank == 0: raise Unk("scalar mask")
                kinds.append(("mask", i, t)); used += t.rank; continue
            kinds.append(("arr", i, t)); used += 1
        if not any(k[0] == "ell" for k in kinds): kinds.append(("ell",))
        out = []; ax = 0
        for k in kinds:
            if k[0] == "new": out.append(("new",))
            elif k[0] == "ell":
                for _ in range(tb.rank - used):
                    out.append(("s", ZERO, 1, tb.shape[ax], ax, True)); ax += 1
            elif k[0] == "slice":
                out.append(self.slice_item(k[1], tb.shape[ax], ax)); ax += 1
            elif k[0] == "int":
                out.append(("i", self.wrap_index(self.val(k[1]), tb.shape[ax]), ax)); ax += 1
            elif k[0] == "mask":
                out.append(("m", k[1], k[2].rank, ax)); ax += k[2].rank
            else:
                out.append(("a", k[1], k[2], ax)); ax += 1
        if ax > tb.rank: raise Unk("too many indices")
        return out

    def wrap_index(self, v, d):
        c = v.const()
        if c is not None: return v if c >= 0 else d + v
        ub = self.bound(v, True)
        if ub is not None and self.coef_nonneg(-ub - 1): return d + v
        # sizes and option values are taken to be non-negative: -(k + 1) counts from the end
        if v.t and all(x < 0 for x in v.t.values()) and all(a.kind in ("dim", "v") or (a.kind == "el" and not a.args[1]) for m in v.t for a, e in m): return d + v
        return v

    def slice_item(self, s, d, ax):
        a, b, c = s.args
        step = 1
        if not isconst(c, None):
            st = self.val(c).const()
            if st is None or st.denominator != 1 or st == 0: raise Unk("slice step")
            step = int(st)
        if step < 0:
            start = d - 1 if isconst(a, None) else self.wrap_index(self.val(a), d)
            if isconst(b, None): stop = P(-1)
            else: stop = self.wrap_index(self.val(b), d)
            n = (start - stop) if step == -1 else fn("ceil", (start - stop) * P(Fraction(1, -step)))
            return ("s", start, step, n, ax, False)
        start = ZERO if isconst(a, None) else self.wrap_index(self.val(a), d)
        stop = d if isconst(b, None) else self.wrap_index(self.val(b), d)
        full = isconst(a, None) and isconst(b, None) and step == 1
        if not isconst(b, None) and not self.nonneg(d - stop) and stop != d:
            stop = self.clip_stop(stop, d)
        n = stop - start
        if step != 1: n = fn("ceil", n * P(Fraction(1, step)))
        return ("s", start, step, n, ax, full)

    def clip_stop(self, stop, d):
        if d.const() is not None and stop.const() is not None: return P(min(d.const(), stop.const()))
        if stop.const() is not None and stop.const() >= 16: return fn("min", stop, d)
        return stop

    def adv_shape(self, items):
        shapes = [it[2].shape for it in items if it[0] == "a"]
        ms = [it for it in items if it[0] == "m"]
        for m in ms: shapes.append((P(atom("dim", "mask", m[1])),))
        # integers take part in advanced indexing only as scalars
        return self.bshape(shapes) if shapes else ()

    def ty_index(self, n):
        base, idxs = n.args
        if len(idxs) == 1 and isconst(idxs[0]) and isinstance(idxs[0].args[0], str) or (base.op == "call" and base.args[0] in self.prims and not self.is_array_prim(base)):
            return self.prim_ty(n)
        if base.op == "index" and self.is_prim_path(base): return self.prim_ty(n)
        if base.op == "attr" and base.args[1] == "shape" and len(idxs) == 1 and idxs[0].op != "slice": return Ty((), "i")
        if base.op == "tuple" or base.op == "list":
            if len(idxs) == 1 and idxs[0].op == "slice" and all(isconst(x) for x in idxs[0].args):
                return self.ty(vg.mk(base.op, *base.args[slice(*[x.args[0] for x in idxs[0].args])]))
        if base.op == "mcall": return self.prim_ty(n)
        if base.op == "call" and base.args[0] in MULTI and len(idxs) == 1: return self.prim_ty(n)
        tb = self.ty(base)
        items = self.parse_idx(tb, idxs)
        sh = self.out_shape(items)
        return Ty(sh, tb.dt)

    def out_shape(self, items):
        adv = [k for k, it in enumerate(items) if it[0] in ("a", "m")]
        ash = self.adv_shape(items)
        advk = [k for k, it in enumerate(items) if it[0] in ("a", "m", "i")] if adv else []
        contiguous = not advk or advk == list(range(advk[0], advk[-1] + 1))
        sh = []
        if adv and not contiguous: sh += list(ash)
        done = False
        for k, it in enumerate(items):
            if it[0] == "new": sh.append(ONE)
            elif it[0] == "s": sh.append(it[3])
            elif adv and it[0] in ("a", "m", "i") and contiguous and not done:
                sh += list(ash); done = True
        return sh

    def is_array_prim(self, b):
        r = self.prims.get(b.args[0])
        return r is not None and getattr(r, "array", False)
    def is_prim_path(self, n):
        while n.op == "index": n = n.args[0]
        return n.op == "call" and n.args[0] in self.prims and not self.is_array_prim(n) and n.args[0] in ("ripser.ripser",)

    def prim_ty(self, n):
        base, idxs = n.args
        if base.op == "call":
            nm = base.args[0]; a = cargs(base)
            if nm == "numpy.linalg.eigh" and len(idxs) == 1 and isconst(idxs[0]):
                t = self.ty(a["a"])
                return Ty((t.shape[0],), "f") if idxs[0].args[0] == 0 else t
            if nm == "numpy.linalg.svd" and len(idxs) == 1 and isconst(idxs[0]):
                t = self.ty(a["a"])
                k = idxs[0].args[0]
                if k == 0: return Ty((t.shape[0], t.shape[0]), t.dt)
                if k == 1: return Ty((t.shape[0],), "f")
                return Ty((t.shape[1], t.shape[1]), t.dt)
            if nm in ("scipy.sparse.linalg.lsqr", "numpy.linalg.lstsq", "scipy.sparse.linalg.lsmr") and isconst(idxs[0], 0):
                return Ty((self.ty(a["A"] if "A" in a else a["a"]).shape[1],), "f")
            if nm == "scipy.optimize.milp" and isconst(idxs[0], "x"): return Ty((self.ty(a["c"]).shape[0],), "f")
            if nm == "scipy.optimize.milp" and isconst(idxs[0], "success"): return Ty((), "b")
            if nm == "numpy.histogram" and isconst(idxs[0]):
                b = self.val(a["bins"]) if "bins" in a else P(10)
                return Ty((b if idxs[0].args[0] == 0 else b + 1,), "i" if idxs[0].args[0] == 0 else "f")
            if nm == "numpy.meshgrid" and isconst(idxs[0]):
                xs = [v for k, v in sorted(a.items()) if k.isdigit()]
                ss = [self.ty(x).shape[0] for x in xs]
                if isconst(a.get("indexing", vg.const("xy")), "xy") and len(ss) == 2: ss = [ss[1], ss[0]]
                return Ty(ss, self.ty(xs[idxs[0].args[0]]).dt)
            if nm == "numpy.mgrid" and isconst(idxs[0]):
                return Ty([self.grid(x)[0] for _, x in base.args[1]], "f")
            if nm in ("numpy.nonzero", "numpy.where") and len(a) == 1:
                return Ty((P(atom("dim", "nz", base)),), "i")
            if nm in self.prims: return self.prims[nm](self, n)
        if base.op == "index" or base.op == "mcall":
            b = base
            while b.op == "index": b = b.args[0]
            nm = b.args[0] if b.op == "call" else "." + b.args[0] if b.op == "mcall" else None
            if nm in self.prims: return self.prims[nm](self, n)
        raise Unk("element of " + vg.show(n, 2))

    def regular(self, n):
        """(outer count, inner count) of a nested comprehension whose inner length does not depend on the outer index"""
        if len(n.args) != 4 or not isconst(n.args[3], True) or n.args[0].op != "range" or n.args[2].op not in ("seq", "flatseq"): return None
        try:
            if n.args[2].op == "seq" and not isconst(n.args[2].args[3], True): return None
            if n.args[2].op == "flatseq" and self.regular(n.args[2]) is None: return None
            m = self.ty(n.args[2]).shape[0]
        except Unk: return None
        if self.ivatom(n.args[1]) in m.atoms(): return None
        return self.domlen(n.args[0]), m
    def grid(self, sl):
        """(count, start, step) of one axis of numpy.mgrid; an imaginary step is a number of points"""
        if sl.op != "slice": raise Unk("mgrid")
        lo, hi, st = sl.args
        lo = ZERO if isconst(lo, None) else self.val(lo)
        hi = self.val(hi)
        num = None
        if isconst(st) and isinstance(st.args[0], complex): num = P(int(abs(st.args[0])))
        elif st.op == "mul" and any(isconst(x) and isinstance(x.args[0], complex) for x in st.args):
            k = [x for x in st.args if isconst(x) and isinstance(x.args[0], complex)]
            o = [x for x in st.args if x not in k]
            if len(o) != 1 or k[0].args[0] != 1j: raise Unk("mgrid step")
            num = self.val(o[0])
        if num is not None: return num, lo, (hi - lo) / (num - 1)
        st = ONE if isconst(st, None) else self.val(st)
        if not poly.equal(st, ONE) or not poly.is_int(lo) or not poly.is_int(hi): raise Unk("mgrid step")
        return hi - lo, lo, ONE

    # ---- call typing
    def axis_of(self, a, t, default=None):
        ax = a.get("axis")
        if ax is None or isconst(ax, None): return default
        if ax.op == "tuple":
            r = []
            for x in ax.args:
                c = self.val(x).const()
                r.append(int(c) % t.rank)
            return tuple(r)
        c = self.val(ax).const()
        if c is None: raise Unk("axis")
        return int(c) % t.rank if t.rank else 0

    def ty_call(self, n):
        nm = n.args[0]; a = cargs(n)
        short = nm.split(".")[-1]
        if nm in self.prims:
            return self.prims[nm](self, n)
        if nm in RED:
            arg = a.get("a", a.get("x", a.get("0")))
            if arg is None: raise Unk(nm)
            t = self.ty(arg)
            ax = self.axis_of(a, t)
            if nm == "numpy.linalg.norm" and ax is None and t.rank > 2: raise Unk("norm")
            kind = RED[nm]
            dt = {"any": "b", "all": "b", "argmax": "i", "argmin": "i", "norm": "f", "count": "i", "mean": "f" if t.dt != "c" else "c"}.get(kind, t.dt)
            if kind in ("sum", "prod") and dt == "b": dt = "i"
            kd = "keepdims" in a and isconst(a["keepdims"], True)
            if nm == "builtins.sum" and t.rank > 1: ax = 0
            if ax is None: return Ty([ONE] * t.rank if kd else (), dt)
            axs = ax if isinstance(ax, tuple) else (ax,)
            return Ty([(ONE if k in axs else d) for k, d in enumerate(t.shape) if kd or k not in axs], dt)
        if nm.startswith("numpy.") and short in EW1 and nm.count(".") == 1:
            t = self.ty(a.get("x", a.get("val", a.get("z", a.get("a", a.get("0"))))))
            dt = t.dt
            if short in ("abs", "real", "imag", "angle") and dt == "c": dt = "f"
            elif short in ("isnan", "isfinite", "isinf"): dt = "b"
            elif short not in ("abs", "conjugate", "real", "imag", "sign", "square", "negative", "positive") and dt in ("i", "b"): dt = "f"
            return Ty(t.shape, dt)
        if nm.startswith("numpy.") and short in EW2:
            ts = [self.ty(a[k]) for k in ("x1", "x2")]
            dt = join(ts[0].dt, ts[1].dt)
            if short in ("arctan2", "hypot") and dt != "c": dt = "f"
            return Ty(self.bshape([t.shape for t in ts]), dt)
        if nm in ("builtins.min", "builtins.max"):
            ts = [self.ty(x) for x in a["args"].args]
            dt = ts[0].dt
            for t in ts: dt = join(dt, t.dt)
            if any(t.rank for t in ts): raise Unk("min of arrays")
            return Ty((), dt)
        if nm == "numpy.clip":
            t = self.ty(a["a"]); dt = t.dt
            for k in ("a_min", "a_max"):
                if k in a and not isconst(a[k], None): dt = join(dt, self.ty(a[k]).dt)
            return Ty(t.shape, dt)
        if nm in ("numpy.zeros", "numpy.ones", "numpy.empty", "numpy.full"):
            dt = self.dtype_of(a.get("dtype")) if "dtype" in a else ("f" if nm != "numpy.full" else self.ty(a["fill_value"]).dt)
            return Ty(self.shape_arg(a["shape"]), dt)
        if nm in ("numpy.zeros_like", "numpy.ones_like", "numpy.empty_like", "numpy.full_like"):
            t = self.ty(a["a"])
            return Ty(self.shape_arg(a["shape"]) if "shape" in a else t.shape, self.dtype_of(a["dtype"]) if "dtype" in a else t.dt)
        if nm in ("numpy.eye", "numpy.identity"):
            r = self.val(a["N"]); c = self.val(a["M"]) if "M" in a else r
            return Ty((r, c), self.dtype_of(a["dtype"]) if "dtype" in a else "f")
        if nm in ("numpy.array", "numpy.asarray", "numpy.asanyarray", "numpy.ascontiguousarray", "numpy.astype"):
            t = self.ty(a.get("object", a.get("a")))
            if "ndmin" in a: raise Unk("ndmin")
            return Ty(t.shape, self.dtype_of(a["dtype"]) if "dtype" in a and not isconst(a["dtype"], None) else t.dt)
        if nm in COPY: return self.ty(a.get("a", next(iter(a.values()))))
        if nm in ("builtins.float",): return Ty((), "f")
        if nm in ("builtins.int",): return Ty((), "i")
        if nm in ("builtins.complex",): return Ty((), "c")
        if nm == "numpy.arange":
            st = self.val(a["start"]) if "start" in a else ZERO
            en = self.val(a["stop"]); sp = self.val(a["step"]) if "step" in a else ONE
            ln = (en - st) if sp == ONE else fn("ceil", (en - st) / sp)
            dt = self.dtype_of(a["dtype"]) if "dtype" in a else None
            if dt is None:
                dt = "i"
                for k in ("start", "stop", "step"):
                    if k in a: dt = join(dt, self.ty(a[k]).dt)
            return Ty((ln,), dt)
        if nm == "numpy.linspace": return Ty((self.val(a["num"]) if "num" in a else P(50),), "f")
        if nm == "numpy.transpose":
            t = self.ty(a["a"])
            if "axes" in a:
                p = [int(self.val(x).const()) for x in a["axes"].args]
                return Ty([t.shape[k] for k in p], t.dt)
            return Ty(t.shape[::-1], t.dt)
        if nm == "numpy.matrix_transpose":
            t = self.ty(a["a"]); return Ty(t.shape[:-2] + (t.shape[-1], t.shape[-2]), t.dt)
        if nm == "numpy.swapaxes":
            t = self.ty(a["a"]); i, j = int(self.val(a["axis1"]).const()) % t.rank, int(self.val(a["axis2"]).const()) % t.rank
            s = list(t.shape); s[i], s[j] = s[j], s[i]
            return Ty(s, t.dt)
        if nm in ("numpy.flatten", "numpy.ravel"):
            t = self.ty(a["a"])
            p = ONE
            for d in t.shape: p = p * d
            return Ty((p,), t.dt)
        if nm == "numpy.reshape":
            t = self.ty(a["a"])
            sh = list(self.shape_arg(a["shape"]))
            tot = ONE
            for d in t.shape: tot = tot * d
            neg = [k for k, d in enumerate(sh) if d.const() == -1]
            if neg:
                o = ONE
                for k, d in enumerate(sh):
                    if k != neg[0]: o = o * d
                sh[neg[0]] = tot / o if o != ONE else tot
            return Ty(sh, t.dt)
        if nm == "numpy.expand_dims":
            t = self.ty(a["a"]); k = int(self.val(a["axis"]).const()) % (t.rank + 1)
            return Ty(t.shape[:k] + (ONE,) + t.shape[k:], t.dt)
        if nm == "numpy.squeeze":
            t = self.ty(a["a"]); ax = self.axis_of(a, t)
            if ax is None: return Ty([d for d in t.shape if d != ONE], t.dt)
            return Ty([d for k, d in enumerate(t.shape) if k != ax], t.dt)
        if nm in ("numpy.flip", "numpy.fliplr", "numpy.flipud", "numpy.sort", "numpy.cumsum"): return self.ty(a.get("a", a.get("m")))
        if nm == "numpy.argsort":
            t = self.ty(a["a"]); return Ty(t.shape, "i")
        if nm == "numpy.stack":
            l = a["arrays"]
            t = self.ty(l)
            ax = int(self.val(a["axis"]).const()) if "axis" in a else 0
            s = list(t.shape[1:]); ax = ax % t.rank
            s.insert(ax, t.shape[0])
            return Ty(s, t.dt)
        if nm in ("numpy.concatenate", "numpy.vstack", "numpy.hstack", "numpy.column_stack"):
            parts = self.parts(n)
            ax = self.concat_axis(n, parts)
            ts = [t for _, t in parts]
            tot = ZERO
            dt = ts[0].dt
            for t in ts:
                tot = tot + t.shape[ax]; dt = join(dt, t.dt)
            s = list(ts[0].shape); s[ax] = tot
            return Ty(s, dt)
        if nm == "numpy.outer":
            x, y = self.ty(a["a"]), self.ty(a["b"])
            return Ty((self.prod(x.shape), self.prod(y.shape)), join(x.dt, y.dt))
        if nm in ("numpy.inner", "numpy.vdot"):
            x, y = self.ty(a["a"]), self.ty(a["b"])
            if x.rank == y.rank == 1: return Ty((), join(x.dt, y.dt))
            if nm == "numpy.inner" and x.rank == y.rank == 2: return Ty((x.shape[0], y.shape[0]), join(x.dt, y.dt))
        if nm == "numpy.diag":
            t = self.ty(a["v"])
            return Ty((t.shape[0], t.shape[0]), t.dt) if t.rank == 1 else Ty((t.shape[0],), t.dt)
        if nm == "numpy.diagonal":
            t = self.ty(a["a"]); return Ty((t.shape[0],), t.dt)
        if nm == "numpy.take":
            t, i = self.ty(a["a"]), self.ty(a["indices"])
            ax = self.axis_of(a, t)
            if ax is None:
                if t.rank != 1: raise Unk("take")
                ax = 0
            return Ty(t.shape[:ax] + i.shape + t.shape[ax + 1:], t.dt)
        if nm == "numpy.where" and len(a) == 3:
            ts = [self.ty(a[k]) for k in ("condition", "x", "y")]
            return Ty(self.bshape([t.shape for t in ts]), join(ts[1].dt, ts[2].dt))
        if nm == "numpy.broadcast_to": return Ty(self.shape_arg(a["shape"]), self.ty(a["a"]).dt)
        if nm == "numpy.nan_to_num": return self.ty(a["x"])
        if nm in ("numpy.triu", "numpy.tril"): return self.ty(a["m"])
        if nm == "numpy.atleast_2d":
            t = self.ty(a["a"])
            return t if t.rank >= 2 else Ty((ONE,) * (2 - t.rank) + t.shape, t.dt)
        if nm == "numpy.atleast_1d":
            t = self.ty(a["a"])
            return t if t.rank >= 1 else Ty((ONE,), t.dt)
        if nm == "numpy.tile" and self.ty(a["A"]).rank == 1 and self.ty(a["reps"]).rank == 0:
            t = self.ty(a["A"]); return Ty((t.shape[0] * self.val(a["reps"]),), t.dt)
        if nm == "numpy.repeat" and self.ty(a["a"]).rank == 1 and self.ty(a["repeats"]).rank == 0:
            t = self.ty(a["a"]); return Ty((t.shape[0] * self.val(a["repeats"]),), t.dt)
        if nm.startswith("scipy.sparse.c") and nm.split(".")[-1] in ("csr_array", "csr_matrix", "coo_array", "coo_matrix", "csc_array", "csc_matrix"):
            if "shape" in a: return Ty(self.shape_arg(a["shape"]), "f")
            if a["arg1"].op != "tuple": return self.ty(a["arg1"])
        if nm == "numpy.linalg.cholesky": return self.ty(a["a"])
        if nm == "numpy.linalg.matrix_power": return self.ty(a["a"])
        if nm in ("numpy.random.random", "numpy.random.rand", "numpy.random.randn", "numpy.random.uniform", "numpy.random.normal", "numpy.random.standard_normal"):
            return self.ty_random(nm, a)
        if nm in ("numpy.linalg.inv", "numpy.linalg.pinv"):
            t = self.ty(a.get("a", a.get("0"))); return Ty(t.shape[::-1], t.dt)
        if nm == "builtins.len" or nm == "scipy.special.comb": return Ty((), "i")
        if nm == "numpy.ndim" or nm == "numpy.size": return Ty((), "i")
        if nm == "numpy.setdiff1d": return Ty((P(atom("dim", "setdiff", n)),), "i")
        if nm == "builtins.isinstance" or nm == "builtins.bool": return Ty((), "b")
        if nm in ("numpy.isclose",): return Ty(self.bshape([self.ty(a["a"]).shape, self.ty(a["b"]).shape]), "b")
        if nm in ("numpy.allclose", "numpy.issubdtype", "numpy.array_equal"): return Ty((), "b")
        if nm == "numpy.einsum":
            return self.ty_einsum(n)
        if nm == "builtins.sorted": return self.ty(a["a"])
        raise Unk("call " + nm)

    def prod(self, s):
        p = ONE
        for d in s: p = p * d
        return p

    def ty_random(self, nm, a):
        pos = [v for k, v in sorted(a.items()) if k.isdigit()]
        if nm in ("numpy.random.rand", "numpy.random.randn"):
            if not pos: return Ty((), "f")
            return Ty([self.val(x) for x in pos], "f")
        sz = a.get("size")
        if sz is None:
            if nm in ("numpy.random.random", "numpy.random.standard_normal") and pos: sz = pos[0]
            elif len(pos) > 2: sz = pos[2]
        if sz is None or isconst(sz, None): return Ty((), "f")
        return Ty(self.shape_arg(sz), "f")

    def einsum_parse(self, n):
        a = cargs(n)
        s = a["subscripts"]
        if not isconst(s) or not isinstance(s.args[0], str): raise Unk("einsum")
        spec = s.args[0].replace(" ", "")
        ops = [v for k, v in sorted(a.items()) if k.isdigit()]
        ins, out = spec.split("->") if "->" in spec else (spec, None)
        ins = ins.split(",")
        if "." in spec or len(ins) != len(ops): raise Unk("einsum spec")
        if out is None:
            cnt = {}
            for c in "".join(ins): cnt[c] = cnt.get(c, 0) + 1
            out = "".join(sorted(c for c in cnt if cnt[c] == 1))
        ext = {}
        for l, o in zip(ins, ops):
            for c, d in zip(l, self.ty(o).shape):
                if c not in ext or ext[c] == ONE: ext[c] = d
        return ins, ops, out, ext
    def ty_einsum(self, n):
        ins, ops, out, ext = self.einsum_parse(n)
        dt = "b"
        for o in ops: dt = join(dt, self.ty(o).dt)
        return Ty([ext[c] for c in out], dt)

    def parts(self, n):
        a = cargs(n)
        l = a.get("arrays", a.get("tup"))
        if l.op not in ("list", "tuple"): raise Unk("concatenate of " + l.op)
        nm = n.args[0]
        out = []
        for x in l.args:
            t = self.ty(x)
            if nm == "numpy.vstack" and t.rank == 1: t = Ty((ONE,) + t.shape, t.dt)
            elif nm == "numpy.column_stack" and t.rank == 1: t = Ty(t.shape + (ONE,), t.dt)
            out.append((x, t))
        return out
    def concat_axis(self, n, parts):
        nm = n.args[0]; r = parts[0][1].rank
        if nm == "numpy.vstack": return 0
        if nm == "numpy.column_stack": return 1
        if nm == "numpy.hstack": return 0 if r == 1 else 1
        ax = cargs(n).get("axis")
        return 0 if ax is None else int(self.val(ax).const()) % r

    # ------------------------------------------------------------------ conditions
    def try_cond(self, c):
        try: return self.cond(c)
        except Unk: return None
    def cond(self, c):
        if c in self.facts: return P(self.facts[c])
        op = c.op
        if op == "const": return ONE if c.args[0] else ZERO
        if op == "not": return ONE - self.cond(c.args[0])
        if op == "and":
            x = self.cond(c.args[0])
            return ZERO if x == ZERO else x * self.cond(c.args[1])
        if op == "or": return poly.b_or(self.cond(c.args[0]), self.cond(c.args[1]))
        if op == "exccond":
            if self.no_exc: return ZERO
            return P(atom("b", "exc", c))
        if op == "phi":
            return ite(self.cond(c.args[0]), self.cond(c.args[1]), self.cond(c.args[2]))
        if op == "inloop":
            L = self.loops.get(c.args[0])
            if L is None or L.kind != "for" or L.breaks or L.iv is None or L.dom.op != "range": raise Unk(op)
            iv = self.ivatom(L.iv)
            q = self.cond(c.args[1])
            if iv not in self.ranges or any(self.mu_of(a, L) for a in self.deep_atoms(q)) or any(a.kind == "b" and a.args[0] == "c" for a in self.deep_atoms(q)): raise Unk(op)
            return ONE - Red("all", iv, self.ranges[iv][0], self.ranges[iv][1], ONE - q)
        if op == "opaque": raise Unk(op)
        if op in ("lt", "le", "eq", "ne"):
            try:
                if self.ty(c).rank == 0:
                    ta, tb = self.ty(c.args[0]), self.ty(c.args[1])
                    if ta.dt in ("s", "o") or tb.dt in ("s", "o"): return P(atom("b", "c", c))
                    return self.val(c)
            except Unk: pass
            return P(atom("b", "c", c))
        if op == "truth":
            try:
                t = self.ty(c.args[0])
                if t.rank == 0 and t.dt == "b": return self.val(c.args[0])
                if t.rank == 0 and t.dt in ("i", "f"): return ONE - eq(self.val(c.args[0]), ZERO)
            except Unk: pass
            return P(atom("b", "c", c.args[0]))
        if op == "is" and c.args[1].op == "const" and isinstance(c.args[1].args[0], bool):
            try:
                t = self.ty(c.args[0])
                if t.rank == 0 and t.dt == "b": return self.val(c.args[0]) if c.args[1].args[0] else ONE - self.val(c.args[0])
            except Unk: pass
        if op in ("index", "call", "final", "mu", "store", "sym"):
            try:
                if self.ty(c).rank == 0: return self.val(c)
            except Unk: pass
        return P(atom("b", "c", c))

    # ------------------------------------------------------------------ elements
    def val(self, n): return self.at(n, ())

    def at(self, n, idx):
        k = (n, idx)
        r = self.am.get(k)
        if r is None:
            if k in self.busy: raise Unk("recursive value")
            self.busy.add(k)
            try: r = self._at(n, idx)
            finally: self.busy.discard(k)
            self.am[k] = r
        return r

    def free_ivs(self, n):
        """index variables a node depends on (its own bound ones excluded)"""
        c = self.__dict__.setdefault("_fiv", {})
        r = c.get(n)
        if r is None:
            r = c[n] = tuple(sorted({self.ivatom(x) for x in self.fset(n)}, key=lambda a: (a.args[0], a.sortkey())))
        return r
    def fset(self, n):
        memo = self.__dict__.setdefault("_fset", {})
        loops = self.__dict__.setdefault("_floop", {})
        def go(x):
            if isinstance(x, tuple):
                r = frozenset()
                for y in x: r |= go(y)
                return r
            if not isinstance(x, vg.Node): return frozenset()
            if x in memo: return memo[x]
            if x.op == "iv": r = frozenset((x,))
            elif x.op == "seq": r = go(x.args[0]) | ((go(x.args[2]) | go(x.args[3])) - {x.args[1]})
            elif x.op in ("mu", "final", "last", "inloop"):
                r = loop(x.args[0])
                if x.op == "last": r |= go(x.args[1]) - {self.loops[x.args[0]].iv} if x.args[0] in self.loops else go(x.args[1])
                if x.op == "mu": return r
            else:
                r = go(x.args)
            memo[x] = r
            return r
        def loop(uid):
            if uid in loops: return loops[uid]
            L = self.loops.get(uid)
            if L is None: return frozenset()
            loops[uid] = frozenset()
            r = frozenset()
            for i, x in L.mu.values(): r |= go(i) | go(x)
            if isinstance(L.dom, vg.Node): r |= go(L.dom)
            if isinstance(L.cond, vg.Node): r |= go(L.cond)
            if isinstance(L.iv, vg.Node): r -= {L.iv}
            loops[uid] = r
            return r
        return go(n)
    def leaf(self, n, idx, dt=None, kind="el"):
        if dt is None:
            try: dt = self.ty(n).dt
            except Unk: dt = "f"
        if n.op == "sym":
            if not idx: return P(atom("v", n.args[0], dt or "f"))
            if n.args[0] in self.symmetric and len(idx) == 2: idx = tuple(sorted(idx, key=poly.pstr))
            return P(atom(kind, n.args[0], tuple(idx), dt or "f"))
        iv = tuple(P(a) for a in self.free_ivs(n)) if n.op not in ("mu",) else ()
        return P(atom(kind, n, tuple(idx) + iv, dt or "f"))

    def bidx(self, t, idx, r=None):
        """index of a broadcast operand"""
        k = len(idx) - t.rank
        if k < 0: raise Unk("rank mismatch")
        return tuple(ZERO if d == ONE else i for d, i in zip(t.shape, idx[k:]))
    def op_at(self, n, idx):
        return self.at(n, self.bidx(self.ty(n), idx))

    def _at(self, n, idx):
        op = n.op
        if n not in self.over and self.hooks and n not in self.tm and n.op in ("index", "call", "attr", "mcall", "callv", "final", "mu", "sub", "add"):
            try: self.ty(n)
            except Unk: pass
        if n in self.alias:
            b, pm = self.alias[n]
            return self.at(b, tuple(idx[k] for k in pm))
        if n in self.over: return self.leaf(n, idx, self.over[n].dt)
        if op == "const":
            v = n.args[0]
            if isinstance(v, (bool, int, float, complex)): return P(v)
            if isinstance(v, Fraction): return P(v)
            raise Unk("constant %r" % (v,))
        if op == "sym":
            if n.args[0] in self.special: return self.special[n.args[0]](idx)
            return self.leaf(n, idx, self.ty(n).dt)
        if op == "libref":
            return {"numpy.pi": P(poly.PI), "math.pi": P(poly.PI), "numpy.nan": P(poly.NAN), "math.nan": P(poly.NAN), "numpy.inf": P(poly.INF), "math.inf": P(poly.INF), "numpy.e": fn("exp", ONE), "math.e": fn("exp", ONE)}[n.args[0]]
        if op == "iv": return P(self.ivatom(n))
        if op == "phi":
            c = self.cond(n.args[0])
            if c == ONE: return self.at(n.args[1], idx)
            if c == ZERO: return self.at(n.args[2], idx)
            if isconst(n.args[1], None): return self.at(n.args[2], idx)
            if isconst(n.args[2], None): return self.at(n.args[1], idx)
            br = []; fail = 0
            for x in n.args[1:]:
                try: br.append(self.at(x, idx))
                except Unk:
                    fail += 1
                    if fail == 2: raise
                    t = self.ty(n)
                    if len(idx) != t.rank: raise
                    br.append(self.leaf(x, idx, t.dt, "opq"))
            return ite(c, br[0], br[1])
        if op in ("add", "mul") and (n.args[0].op in ("list", "tuple", "seq") or n.args[1].op in ("list", "tuple", "seq")):
            r = self.list_arith(n, idx)
            if r is not None: return r
        if op in ("add", "sub", "mul", "div", "floordiv", "mod", "pow"):
            a, b = self.op_at(n.args[0], idx), self.op_at(n.args[1], idx)
            if op == "add": return a + b
            if op == "sub": return a - b
            if op == "mul": return a * b
            if op == "div": return a / b
            if op == "floordiv": return fn("floor", a / b)
            if op == "mod": return b * fn("frac", a / b)
            return poly.power(a, b)
        if op == "neg": return -self.at(n.args[0], idx)
        if op == "not": return ONE - self.bool_at(n.args[0], idx)
        if op == "inloop": return self.cond(n)
        if op in ("and", "or"):
            a, b = self.bool_op(n.args[0], idx), self.bool_op(n.args[1], idx)
            return a * b if op == "and" else poly.b_or(a, b)
        if op in ("lt", "le", "eq", "ne"):
            a, b = self.op_at(n.args[0], idx), self.op_at(n.args[1], idx)
            if op == "lt": return self.blt(a, b)
            if op == "le": return self.ble(a, b)
            e = self.beq(a, b)
            return e if op == "eq" else ONE - e
        if op in ("is", "in", "truth", "isinstance"): return self.cond(n)
        if op in ("list", "tuple"):
            k = idx[0].const()
            if k is not None:
                k = int(k)
                if not -len(n.args) <= k < len(n.args): raise Unk("list index")
                return self.at(n.args[k], idx[1:])
            r = self.at(n.args[-1], idx[1:])
            for j in range(len(n.args) - 2, -1, -1):
                r = ite(eq(idx[0], P(j)), self.at(n.args[j], idx[1:]), r)
            return r
        if op == "seq":
            dom, ivn, elem, cond = n.args
            if not isconst(cond, True): return self.leaf(n, idx, None, "opq")
            lo, st = self.val(dom.args[0]), self.val(dom.args[2])
            return subst_p(self.close(self.at(elem, idx[1:])), {self.ivatom(ivn): lo + st * idx[0]})
        if op == "flatseq":
            reg = self.regular(n)
            if reg is None: raise Unk("flatseq")
            q = idx[0] / reg[1]; k = q - fn("frac", q)
            lo, st = self.val(n.args[0].args[0]), self.val(n.args[0].args[2])
            return subst_p(self.close(self.at(n.args[2], (idx[0] - reg[1] * k,) + tuple(idx[1:]))), {self.ivatom(n.args[1]): lo + st * k})
        if op == "range":
            return self.val(n.args[0]) + self.val(n.args[2]) * idx[0]
        if op == "attr":
            b, nm = n.args
            if nm == "shape": 
                k = idx[0].const()
                if k is None: raise Unk("shape index")
                return self.ty(b).shape[int(k)]
            if nm == "size": return self.prod(self.ty(b).shape)
            if nm == "ndim": return P(self.ty(b).rank)
            raise Unk("attr " + nm)
        if op == "fillwith":
            t = self.ty(n.args[1])
            return self.conv(self.at(n.args[1], self.bidx(t, idx)), t.dt, self.ty(n.args[0]).dt)
        if op == "store": return self.at_store(n, idx)
        if op == "matmul": return self.at_matmul(n, idx)
        if op == "index": return self.at_index(n, idx)
        if op == "call": return self.at_call(n, idx)
        if op == "callv":
            args = []
            for k, x in n.args[1]:
                args.append(self.op_at(x, idx))
            return P(atom("f", "fn:" + vg.show(n.args[0], 3), tuple(args)))
        if op == "mu":
            return self.leaf(n, idx)
        if op == "final": return self.at_final(n, idx)
        if op == "last":
            L = self.loops.get(n.args[0])
            if L is not None and L.iv is not None:
                v = self.close(self.at(n.args[1], idx))
                a = self.ivatom(L.iv)
                if any(self.mu_of(x, L) for x in self.deep_atoms(v)): return self.leaf(n, idx, None, "opq")
                lo, hi = self.ranges.get(a, (None, None))
                if lo is not None: return subst_p(v, {a: lo if L.rev else hi - 1})
            return self.leaf(n, idx, None, "opq")
        raise Unk("value of " + op)

    def list_arith(self, n, idx):
        a, b = n.args
        if n.op == "add" and a.op in ("list", "tuple", "seq") and b.op in ("list", "tuple", "seq"):
            na = self.ty(a).shape[0]
            k = idx[0].const(); m = na.const()
            if k is not None and m is not None: return self.at(a, idx) if k < m else self.at(b, (idx[0] - na,) + idx[1:])
            return ite(lt(idx[0], na), self.at(a, idx), self.at(b, (idx[0] - na,) + idx[1:]))
        if n.op == "mul":
            l, k = (a, b) if a.op in ("list", "seq") else (b, a)
            if l.op in ("list", "seq") and self.ty(k).rank == 0:
                if self.ty(l).shape[0] == ONE: return self.at(l, (ZERO,) + idx[1:])
                raise Unk("list repetition")
        return None

    def bool_at(self, n, idx):
        t = self.ty(n)
        v = self.at(n, idx)
        return v if t.dt == "b" else ONE - eq(v, ZERO)
    def bool_op(self, n, idx):
        return self.bool_at(n, self.bidx(self.ty(n), idx))

    # ---- dtype conversion on store
    def conv(self, v, src, dst):
        if src is None or dst is None or src == dst: return v
        if dst == "i" and src == "f": return fn("trunc", v)
        if dst in ("f", "i") and src == "c": return fn("real", v)
        if dst == "b" and src != "b": return ONE - eq(v, ZERO)
        return v

    # ---- stores
    def at_store(self, n, idx):
        base, sidx, val = n.args
        tb = self.ty(base)
        items = self.parse_idx(tb, sidx)
        old = lambda: self.at(base, idx)
        tv = self.ty(val)
        c = ONE
        vidx = []
        adv_done = False
        advs = [it for it in items if it[0] in ("a", "m")]
        advk = [k for k, it in enumerate(items) if it[0] in ("a", "m", "i")] if advs else []
        contiguous = not advk or advk == list(range(advk[0], advk[-1] + 1))
        adv_index = None
        if advs:
            ms = [it for it in advs if it[0] == "m"]; as_ = [it for it in advs if it[0] == "a"]
            if ms and as_: raise Unk("mixed advanced store")
            if ms:
                if len(ms) > 1: raise Unk("several masks")
                m = ms[0]
                pos = idx[m[3]:m[3] + m[2]]
                c = c * self.at(m[1], pos)
                adv_index = (P(atom("mk", m[1], pos)),)
            else:
                nd = max(it[2].rank for it in as_)
                if nd != 1: raise Unk("advanced store rank")
                key = tuple(it[1] for it in as_)
                targets = tuple(idx[it[3]] for it in as_)
                if any(it[0] == "i" for it in items): raise Unk("mixed store")
                # single constant lists are expanded
                if all(it[1].op in ("list", "tuple") for it in as_) and tv.rank == 0:
                    L = len(as_[0][1].args); cc = ZERO
                    for j in range(L):
                        e = ONE
                        for it, tg in zip(as_, targets): e = e * self.beq(self.wrap_index(self.val(it[1].args[j]), tb.shape[it[3]]), tg)
                        cc = poly.b_or(cc, e)
                    c = c * cc; adv_index = ()
                else:
                    ln = self.adv_shape(items)[0]
                    c = c * P(atom("b", "hit", (vg.mk("tuple", *key),), targets))
                    k = atom("f", "pre", targets + tuple()) 
                    k = atom("pre", vg.mk("tuple", *key), targets, "i")
                    self.ranges.setdefault(k, (ZERO, ln))
                    adv_index = (P(k),)
            if not contiguous: vidx += list(adv_index); adv_done = True
        for kk, it in enumerate(items):
            if it[0] == "new": vidx.append(ZERO); continue
            if it[0] == "i":
                c = c * self.beq(idx[it[2]], it[1])
                if advs and contiguous and not adv_done: vidx += list(adv_index); adv_done = True
            elif it[0] == "s":
                start, step, ln, ax, full = it[1:]
                if full: vidx.append(idx[ax]); continue
                if step == 1:
                    loc = idx[ax] - start
                    c = c * self.ble(start, idx[ax]) * self.blt(loc, ln)
                elif step == -1:
                    loc = start - idx[ax]
                    c = c * self.ble(ZERO, loc) * self.blt(loc, ln)
                else:
                    q = (idx[ax] - start) * P(Fraction(1, step))
                    c = c * self.beq(fn("frac", q), ZERO) * self.ble(start, idx[ax])
                    k = idx[ax].const(); s0 = start.const()
                    if k is not None and s0 is not None and (k - s0) % step: c = ZERO
                    loc = fn("floor", q)
                vidx.append(loc)
            elif it[0] in ("a", "m"):
                if contiguous and not adv_done: vidx += list(adv_index); adv_done = True
        if c == ZERO: return old()
        if tv.rank > len(vidx):
            # extra leading ones in the value
            extra = tv.rank - len(vidx)
            if all(d == ONE for d in tv.shape[:extra]): vi = (ZERO,) * extra + tuple(vidx)
            else: raise Unk("store rank")
        else: vi = tuple(vidx)
        v = self.at(val, self.bidx(tv, vi))
        v = self.conv(v, tv.dt, tb.dt)
        if c == ONE: return v
        return ite(c, v, old())

    # ---- matrix product
    def at_matmul(self, n, idx):
        A, B = n.args
        a, b = self.ty(A), self.ty(B)
        if a.rank == 0 or b.rank == 0: return self.op_at(A, idx) * self.op_at(B, idx)
        k = poly.fresh()
        ln = a.shape[-1]
        ln2 = b.shape[0]
        self.ranges[k] = (ZERO, ln)
        kp = P(k)
        x = self.at(A, (idx[0], kp) if a.rank == 2 else (kp,))
        y = self.at(B, (kp, idx[-1]) if b.rank == 2 else (kp,))
        return self.sum_over(k, ln if ln.const() is not None or ln2.const() is None else ln2, x * y)

    def sum_over(self, k, ln, body):
        c = ln.const()
        if c is not None and c <= 8:
            r = ZERO
            for j in range(int(c)): r = r + subst_p(body, {k: P(j)})
            return r
        s = ln.single()
        if s and s[0] == 1 and len(s[1]) == 1 and s[1][0][1] == 1 and s[1][0][0].kind == "dim" and s[1][0][0].args[0] == "mask":
            m = s[1][0][0].args[1]
            try: tm = self.ty(m)
            except Unk: tm = None
            if tm is not None and tm.rank == 1:
                # the selected positions, each counted once: sum over the axis of the mask
                k2 = poly.fresh(); self.ranges[k2] = (ZERO, tm.shape[0])
                b2 = subst_p(body, {atom("mpos", m, 0, P(k), "i"): P(k2)})
                if not poly.occurs_p(k, b2):
                    return Sum(k2, ZERO, tm.shape[0], b2 * self.at(m, (P(k2),)))
        return Sum(k, ZERO, ln, body)

    # ---- indexing
    def at_index(self, n, idx):
        base, idxs = n.args
        if base.op == "attr" and base.args[1] == "shape" and len(idxs) == 1 and idxs[0].op != "slice":
            t = self.ty(base.args[0])
            k = self.val(idxs[0]).const()
            if k is None or not -t.rank <= k < t.rank: raise Unk("shape index")
            return t.shape[int(k)]
        if len(idxs) == 1 and isconst(idxs[0]) and isinstance(idxs[0].args[0], str): 
            return self.leaf(n, idx, self.prim_ty(n).dt)
        if base.op == "call" and base.args[0] == "numpy.mgrid" and len(idxs) == 1 and isconst(idxs[0]) and len(base.args[1]) > 1:
            j = idxs[0].args[0]
            if not isinstance(j, int) or not 0 <= j < len(base.args[1]): raise Unk("mgrid")
            num, lo, st = self.grid(base.args[1][j][1])
            return lo + st * idx[j]
        if base.op == "call" and base.args[0] == "numpy.meshgrid" and len(idxs) == 1:
            a = cargs(base)
            xs = [v for k, v in sorted(a.items()) if k.isdigit()]
            j = idxs[0].args[0]
            xy = isconst(a.get("indexing", vg.const("xy")), "xy")
            if len(xs) == 2: return self.at(xs[j], (idx[1 - j] if xy else idx[j],))
            raise Unk("meshgrid")
        if base.op == "mcall" or (base.op == "call" and base.args[0] in self.prims and not self.is_array_prim(base)) or (base.op == "index" and self.is_prim_path(base)):
            return self.leaf(n, idx, self.prim_ty(n).dt)
        if base.op == "call" and base.args[0] in MULTI and len(idxs) == 1 and isconst(idxs[0]):
            return self.leaf(n, idx, self.prim_ty(n).dt)
        if base.op in ("tuple", "list") and len(idxs) == 1 and idxs[0].op == "slice" and all(isconst(x) for x in idxs[0].args):
            return self.at(vg.mk(base.op, *base.args[slice(*[x.args[0] for x in idxs[0].args])]), idx)
        tb = self.ty(base)
        items = self.parse_idx(tb, idxs)
        bi = [None] * tb.rank
        advs = [it for it in items if it[0] in ("a", "m")]
        advk = [k for k, it in enumerate(items) if it[0] in ("a", "m", "i")] if advs else []
        contiguous = not advk or advk == list(range(advk[0], advk[-1] + 1))
        ash = self.adv_shape(items)
        pos = 0
        aidx = None
        if advs and not contiguous: aidx = idx[:len(ash)]; pos = len(ash)
        for k, it in enumerate(items):
            if it[0] == "new": pos += 1
            elif it[0] == "s":
                bi[it[4]] = it[1] + idx[pos] * P(it[2]); pos += 1
            elif it[0] == "i":
                if advs and contiguous and aidx is None: aidx = idx[pos:pos + len(ash)]; pos += len(ash)
                bi[it[2]] = it[1]
            else:
                if aidx is None: aidx = idx[pos:pos + len(ash)]; pos += len(ash)
                if it[0] == "a":
                    v = self.at(it[1], self.bidx(it[2], aidx))
                    bi[it[3]] = self.wrap_index(v, tb.shape[it[3]])
                else:
                    kx = aidx[-1].single()
                    if kx and kx[0] == 1 and len(kx[1]) == 1 and kx[1][0][0].kind == "mk" and kx[1][0][0].args[0] is it[1]:
                        for j, q in enumerate(kx[1][0][0].args[1]): bi[it[3] + j] = q
                    else:
                        for j in range(it[2]): bi[it[3] + j] = P(atom("mpos", it[1], j, aidx[-1], "i"))
        return self.at(base, tuple(bi))

    # ---- calls
    def at_call(self, n, idx):
        nm = n.args[0]; a = cargs(n)
        short = nm.split(".")[-1]
        if nm in self.prims: return self.leaf(n, idx, self.ty(n).dt)
        if nm in RED: return self.at_red(n, idx)
        if nm.startswith("numpy.") and short in EW1 and nm.count(".") == 1:
            arg = a.get("x", a.get("val", a.get("z", a.get("a", a.get("0")))))
            if "where" in a: raise Unk("where=")
            if short == "angle" and "deg" in a: raise Unk("angle deg")
            if short == "round" and "decimals" in a and isinstance(self.val(a["decimals"]).const(), (int, Fraction)):
                k_ = Fraction(10) ** int(self.val(a["decimals"]).const())
                return fn("rint", self.at(arg, idx) * P(k_)) * P(1 / k_)
            if short == "round" and "decimals" in a: return P(atom("f", "roundto", (self.at(arg, idx), self.val(a["decimals"]))))
            v = self.at(arg, idx)
            if short == "nan_to_num" and any(k in a and not isconst(a[k], None) for k in ("posinf", "neginf", "nan")):
                big = P(Fraction(sys.float_info.max))
                opt = lambda k, d: self.val(a[k]) if k in a and not isconst(a[k], None) else d
                return P(atom("f", "nan3", (v, opt("nan", ZERO), opt("posinf", big), opt("neginf", -big))))
            return self.ew1(short, v, self.ty(arg).dt)
        if nm.startswith("numpy.") and short in EW2:
            if "where" in a: raise Unk("where=")
            x, y = self.op_at(a["x1"], idx), self.op_at(a["x2"], idx)
            if short in ("minimum", "fmin"): return fn("min", x, y)
            if short in ("maximum", "fmax"): return fn("max", x, y)
            if short == "hypot": return fn("sqrt", x * x + y * y)
            if short == "fmod": return P(atom("f", "fmod", (x, y)))
            return P(atom("f", short, (x, y)))
        if nm in ("builtins.min", "builtins.max"):
            return fn(nm.split(".")[1], *[self.val(x) for x in a["args"].args])
        if nm == "numpy.clip":
            v = self.at(a["a"], idx)
            if "a_min" in a and not isconst(a["a_min"], None): v = fn("max", v, self.op_at(a["a_min"], idx))
            if "a_max" in a and not isconst(a["a_max"], None): v = fn("min", v, self.op_at(a["a_max"], idx))
            return v
        if nm in ("numpy.zeros", "numpy.zeros_like"): return ZERO
        if nm in ("numpy.ones", "numpy.ones_like"): return ONE
        if nm in ("numpy.empty", "numpy.empty_like"): return self.leaf(n, idx, self.ty(n).dt, "opq")
        if nm in ("numpy.full", "numpy.full_like"): return self.conv(self.op_at(a["fill_value"], idx), self.ty(a["fill_value"]).dt, self.ty(n).dt)
        if nm in ("numpy.eye", "numpy.identity"):
            if "k" in a: return self.beq(idx[0] + self.val(a["k"]), idx[1])
            return self.beq(idx[0], idx[1])
        if nm in ("numpy.array", "numpy.asarray", "numpy.asanyarray", "numpy.ascontiguousarray", "numpy.astype"):
            src = a.get("object", a.get("a"))
            return self.conv(self.at(src, idx), self.ty(src).dt, self.ty(n).dt)
        if nm in COPY: return self.at(a.get("a", next(iter(a.values()))), idx)
        if nm == "builtins.float": return self.val(a.get("x", next(iter(a.values()))))
        if nm == "builtins.int":
            x = next(iter(a.values()))
            v = self.val(x)
            return v if poly.is_int(v) else fn("trunc", v)
        if nm == "builtins.complex": return sum((self.val(v) * (P(poly.I) if k == "1" else ONE) for k, v in a.items()), ZERO)
        if nm == "numpy.arange":
            st = self.val(a["start"]) if "start" in a else ZERO
            sp = self.val(a["step"]) if "step" in a else ONE
            return st + sp * idx[0]
        if nm == "numpy.linspace":
            s, e = self.val(a["start"]), self.val(a["stop"])
            num = self.val(a["num"]) if "num" in a else P(50)
            ep = a.get("endpoint")
            if ep is not None and not isconst(ep): raise Unk("endpoint")
            div = num if ep is not None and not ep.args[0] else num - 1
            return s + idx[0] * (e - s) / div
        if nm == "numpy.transpose":
            if "axes" in a:
                p = [int(self.val(x).const()) for x in a["axes"].args]
                bi = [None] * len(p)
                for k, q in enumerate(p): bi[q] = idx[k]
                return self.at(a["a"], tuple(bi))
            return self.at(a["a"], tuple(reversed(idx)))
        if nm == "numpy.matrix_transpose": return self.at(a["a"], idx[:-2] + (idx[-1], idx[-2]))
        if nm == "numpy.swapaxes":
            r = len(idx); i, j = int(self.val(a["axis1"]).const()) % r, int(self.val(a["axis2"]).const()) % r
            l = list(idx); l[i], l[j] = l[j], l[i]
            return self.at(a["a"], tuple(l))
        if nm in ("numpy.flatten", "numpy.ravel"): return self.at(a["a"], self.unravel(self.ty(a["a"]).shape, idx[0]))
        if nm == "numpy.reshape":
            src = self.ty(a["a"]).shape; dst = self.ty(n).shape
            s2 = [k for k, d in enumerate(src) if d != ONE]; d2 = [k for k, d in enumerate(dst) if d != ONE]
            if [src[k] for k in s2] == [dst[k] for k in d2]:
                bi = [ZERO] * len(src)
                for i, j in zip(s2, d2): bi[i] = idx[j]
                return self.at(a["a"], tuple(bi))
            k = ZERO
            for d, i in zip(dst, idx): k = k * d + i
            return self.at(a["a"], self.unravel(src, k))
        if nm == "numpy.expand_dims":
            t = self.ty(a["a"]); k = int(self.val(a["axis"]).const()) % (t.rank + 1)
            return self.at(a["a"], idx[:k] + idx[k + 1:])
        if nm == "numpy.squeeze":
            t = self.ty(a["a"]); ax = self.axis_of(a, t)
            it = iter(idx)
            return self.at(a["a"], tuple(ZERO if (d == ONE if ax is None else k == ax) else next(it) for k, d in enumerate(t.shape)))
        if nm in ("numpy.fliplr", "numpy.flipud", "numpy.flip"):
            m = a.get("m", a.get("a"))
            t = self.ty(m)
            axs = (1,) if nm == "numpy.fliplr" else (0,) if nm == "numpy.flipud" else self.axis_of(a, t, tuple(range(t.rank)))
            if not isinstance(axs, tuple): axs = (axs,)
            return self.at(m, tuple(t.shape[k] - 1 - i if k in axs else i for k, i in enumerate(idx)))
        if nm == "numpy.stack":
            t = self.ty(a["arrays"])
            ax = int(self.val(a["axis"]).const()) % t.rank if "axis" in a else 0
            return self.at(a["arrays"], (idx[ax],) + idx[:ax] + idx[ax + 1:])
        if nm in ("numpy.concatenate", "numpy.vstack", "numpy.hstack", "numpy.column_stack"):
            parts = self.parts(n); ax = self.concat_axis(n, parts)
            off = ZERO; pieces = []
            for x, t in parts:
                pieces.append((off, t.shape[ax], x, t)); off = off + t.shape[ax]
            def el(x, t, o):
                bi = idx[:ax] + (idx[ax] - o,) + idx[ax + 1:]
                tx = self.ty(x)
                if tx.rank < t.rank: bi = bi[1:] if nm == "numpy.vstack" else bi[:1]
                return self.at(x, bi)
            r = None
            for o, ln, x, t in reversed(pieces):
                if r is None: 
                    if self.nonneg(idx[ax] - o): return el(x, t, o)
                    r = (o, el(x, t, o))
                else:
                    c = self.blt(idx[ax], o + ln)
                    if c == ONE and self.nonneg(idx[ax] - o): return el(x, t, o)
                    r = (o, r[1] if c == ZERO else ite(c, el(x, t, o), r[1]))
            return r[1]
        if nm == "numpy.outer":
            x, y = self.ty(a["a"]), self.ty(a["b"])
            return self.at(a["a"], self.unravel(x.shape, idx[0])) * self.at(a["b"], self.unravel(y.shape, idx[1]))
        if nm in ("numpy.inner", "numpy.vdot"):
            x, y = self.ty(a["a"]), self.ty(a["b"])
            k = poly.fresh(); self.ranges[k] = (ZERO, x.shape[-1])
            p = self.at(a["a"], ((idx[0],) if x.rank == 2 else ()) + (P(k),))
            q = self.at(a["b"], ((idx[-1],) if y.rank == 2 else ()) + (P(k),))
            if nm == "numpy.vdot": p = poly.conj(p)
            return self.sum_over(k, x.shape[-1], p * q)
        if nm == "numpy.einsum":
            ins, ops, out, ext = self.einsum_parse(n)
            m = {c: i for c, i in zip(out, idx)}
            extra = []
            for c in ext:
                if c not in m:
                    k = poly.fresh(); self.ranges[k] = (ZERO, ext[c]); m[c] = P(k); extra.append((k, ext[c]))
            r = ONE
            for l, o in zip(ins, ops): r = r * self.at(o, tuple(ZERO if d == ONE else m[c] for c, d in zip(l, self.ty(o).shape)))
            for k, d in extra: r = self.sum_over(k, d, r)
            return r
        if nm == "numpy.diag":
            if self.ty(a["v"]).rank == 1: return self.beq(idx[0], idx[1]) * self.at(a["v"], (idx[0],))
            return self.at(a["v"], (idx[0], idx[0]))
        if nm == "numpy.diagonal": return self.at(a["a"], (idx[0], idx[0]))
        if nm == "numpy.take":
            t, i = self.ty(a["a"]), self.ty(a["indices"])
            ax = self.axis_of(a, t) or 0
            v = self.at(a["indices"], idx[ax:ax + i.rank])
            return self.at(a["a"], idx[:ax] + (self.wrap_index(v, t.shape[ax]),) + idx[ax + i.rank:])
        if nm == "numpy.where" and len(a) == 3:
            return ite(self.bool_op(a["condition"], idx), self.op_at(a["x"], idx), self.op_at(a["y"], idx))
        if nm == "numpy.broadcast_to": return self.op_at(a["a"], idx)
        if nm in ("numpy.triu", "numpy.tril"):
            k = self.val(a["k"]) if "k" in a else ZERO
            v = self.at(a["m"], idx)
            return v * (self.ble(idx[0] + k, idx[1]) if nm == "numpy.triu" else self.ble(idx[1], idx[0] + k))
        if nm in ("numpy.atleast_2d", "numpy.atleast_1d"):
            t = self.ty(a["a"]); return self.at(a["a"], idx[len(idx) - t.rank:] if t.rank else ())
        if nm == "numpy.tile":
            d = self.ty(a["A"]).shape[0]
            return self.at(a["A"], (d * fn("frac", idx[0] / d),))
        if nm == "numpy.repeat": return self.at(a["a"], (fn("floor", idx[0] / self.val(a["repeats"])),))
        if nm in ("numpy.random.random", "numpy.random.rand"): return self.leaf(n, idx, "f")
        if nm in ("numpy.random.randn", "numpy.random.uniform", "numpy.random.normal", "numpy.random.standard_normal"): return self.leaf(n, idx, "f")
        if nm in ("numpy.size",): return self.prod(self.ty(a["a"]).shape)
        if nm == "numpy.ndim": return P(self.ty(a["a"]).rank)
        if nm == "scipy.special.comb": return P(atom("f", "comb", (self.val(a["N"]), self.val(a["k"]))))
        if nm == "numpy.linalg.matrix_power": return P(atom("mp", a["a"], idx, tuple(P(x) for x in self.free_ivs(a["a"])), self.val(a["n"]), self.ty(n).dt))
        if nm in ("numpy.linalg.cholesky", "numpy.argsort", "numpy.setdiff1d") or nm.startswith("scipy.sparse."):
            if nm.startswith("scipy.sparse.") and "arg1" in a and a["arg1"].op != "tuple": return self.at(a["arg1"], idx)
            return self.leaf(n, idx, self.ty(n).dt)
        if nm == "builtins.bool": return self.cond(next(iter(a.values())))
        self.ty(n)
        return self.leaf(n, idx, None, "opq")

    def unravel(self, shape, k):
        if len(shape) == 1: return (k,)
        nz = [i for i, d in enumerate(shape) if d != ONE]
        out = [ZERO] * len(shape)
        if len(nz) <= 1:
            if nz: out[nz[0]] = k
            return tuple(out)
        rest = k
        for pos in reversed(nz[1:]):
            d = shape[pos]
            out[pos] = d * fn("frac", rest / d)
            rest = fn("floor", rest / d)
        out[nz[0]] = rest
        return tuple(out)

    def ew1(self, short, v, dt):
        if short == "conjugate": return poly.conj(v) if dt == "c" or dt is None else v
        if short == "real": return fn("real", v) if dt == "c" or dt is None else v
        if short == "imag": return fn("imag", v) if dt == "c" or dt is None else ZERO
        if short == "nan_to_num": return fn("nan0", v)
        if short == "reciprocal": return poly.power(v, -1)
        if short == "negative": return -v
        if short == "positive": return v
        if short in ("deg2rad", "radians"): return v * P(poly.PI) * P(Fraction(1, 180))
        if short == "sign": return lt(ZERO, v) - lt(v, ZERO)
        if short == "exp2": return poly.gpow(P(2), v)
        if short == "expm1": return fn("exp", v) - 1
        if short == "log1p": return fn("log", v + 1)
        if short in ("isnan", "isfinite", "isinf"): return P(atom("b", short, v))
        return fn(short, v)

    # ---- reductions
    def at_red(self, n, idx):
        nm = n.args[0]; a = cargs(n)
        kind = RED[nm]
        arg = a.get("a", a.get("x", a.get("0")))
        for k in a:
            if k not in ("a", "x", "0", "axis", "keepdims", "ord", "dtype", "start"): raise Unk("%s=%s" % (nm, k))
        if arg.op == "seq" and not isconst(arg.args[3], True) or (arg.op == "seq" and not a.get("axis")):
            dom, ivn, elem, cond = arg.args
            if self.ty(elem).rank == 0 or nm == "builtins.sum":
                v = self.ivatom(ivn)
                body = self.close(self.at(elem, idx if nm == "builtins.sum" else ()))
                c = self.cond(cond)
                if dom.op != "range": raise Unk("domain")
                lo, hi = self.ranges.get(v, (None, None))
                if lo is None: raise Unk("range step")
                if kind in ("sum", "count"):
                    st = self.val(a["start"]) if "start" in a else ZERO
                    return st + Sum(v, lo, hi, body * c)
                if c == ONE: return Red(kind, v, lo, hi, body)
                if kind == "all": return Red("all", v, lo, hi, ONE - c * (ONE - body))
                if kind == "any": return Red("any", v, lo, hi, c * body)
                raise Unk("filtered reduction")
        t = self.ty(arg)
        ax = self.axis_of(a, t)
        if nm == "builtins.sum" and t.rank > 1: ax = 0
        axs = tuple(range(t.rank)) if ax is None else (ax if isinstance(ax, tuple) else (ax,))
        kd = "keepdims" in a and isconst(a["keepdims"], True)
        vs = []
        bi = []
        pos = 0
        for k, d in enumerate(t.shape):
            if k in axs:
                if kd: pos += 1
                if d == ONE: bi.append(ZERO); vs.append((None, d)); continue
                v = poly.fresh(); self.ranges[v] = (ZERO, d)
                vs.append((v, d)); bi.append(P(v))
            else:
                bi.append(idx[pos]); pos += 1
        if kind == "argmax" and nm == "numpy.argmax" or kind == "argmin":
            if len(vs) > 1: raise Unk("flat argmax")
            body = self.close(self.at(arg, tuple(bi)))
            if vs[0][0] is None: return ZERO
            return Red(kind, vs[0][0], ZERO, vs[0][1], body)
        x = self.close(self.at(arg, tuple(bi)))
        if nm == "numpy.nansum": x = fn("nanz", x)
        if nm == "numpy.nanmean": raise Unk("nanmean")
        if kind == "norm":
            o = a.get("ord"); one = False
            if o is not None and len(vs) == 1 and (isconst(o, 1) or o.op == "libref" and o.args[0] == "numpy.inf" or o.op == "const" and o.args[0] == float("inf")):
                one = True; x = fn("abs", x)
            elif o is not None and not isconst(o, None, 2, "fro"): raise Unk("norm ord")
            if o is not None and isconst(o, 2) and len(vs) == 2: raise Unk("spectral norm")
            if not one: x = x * (poly.conj(x) if t.dt == "c" or t.dt is None else x)
            kind2 = "sum" if not one or isconst(o, 1) else "max"
        elif kind == "count": x = x if t.dt == "b" else ONE - eq(x, ZERO); kind2 = "sum"
        elif kind == "mean": kind2 = "sum"
        else: kind2 = kind
        r = x
        for v, d in reversed(vs):
            if v is None: continue
            if kind2 == "sum": r = self.sum_over(v, d, r)
            else:
                if kind2 in ("any", "all") and t.dt != "b": r = ONE - eq(r, ZERO)
                r = Red(kind2, v, ZERO, d, r)
        if kind == "norm": return r if one else fn("sqrt", r)
        if kind == "mean":
            return r / self.prod([d for _, d in vs])
        if "start" in a: r = r + self.val(a["start"])
        return r

    # ---- loops
    def deep_atoms(self, p, seen=None):
        seen = set() if seen is None else seen
        st = [p]
        while st:
            x = st.pop()
            if isinstance(x, Poly):
                for m in x.t:
                    for at_, e in m: st.append(at_)
            elif isinstance(x, tuple): st.extend(x)
            elif isinstance(x, poly.Atom):
                if x in seen: continue
                seen.add(x); st.extend(x.args)
        return seen
    def mu_of(self, a, L):
        return a.kind in ("el", "opq") and isinstance(a.args[0], vg.Node) and any(x.op == "mu" and x.args[0] == L.uid for x in ([a.args[0]] if a.args[0].op == "mu" else vg.walk(a.args[0])))

    def close(self, p, depth=4):
        """substitute closed forms of loop counters"""
        for _ in range(depth):
            m = {}
            for a in self.deep_atoms(p):
                if a.kind == "el" and isinstance(a.args[0], vg.Node) and a.args[0].op == "mu" and not a.args[1] and a.args[-1] == "i":
                    c = self.mu_closed(a)
                    if c is not None: m[a] = c
            if not m: return p
            p = subst_p(p, m)
        return p
    def mu_closed(self, a):
        if a in self.mucl: return self.mucl[a]
        self.mucl[a] = None
        n = a.args[0]
        L = self.loops.get(n.args[0])
        r = None
        if L is not None and L.kind == "for" and not L.breaks and n in L.mu and L.iv is not None:
            try:
                init, nx = L.mu[n]
                e = self.close(self.at(nx, ())) - P(a)
                iv = self.ivatom(L.iv)
                if iv in self.ranges and not any(self.mu_of(x, L) for x in self.deep_atoms(e)) and not poly.occurs_p(iv, e) and not L.rev:
                    lo, hi = self.ranges[iv]
                    r = self.close(self.at(init, ())) + e * (P(iv) - lo)
            except Unk: pass
        self.mucl[a] = r
        return r

    def at_final(self, n, idx):
        uid, m = n.args
        L = self.loops.get(uid)
        if L is None or m not in L.mu: raise Unk("final")
        if L.kind != "for" or L.breaks or L.iv is None or L.dom.op != "range": return self.leaf(n, idx, None, "opq")
        init, nx = L.mu[m]
        t = self.ty(m)
        iv = self.ivatom(L.iv)
        if iv not in self.ranges: return self.leaf(n, idx, None, "opq")
        lo, hi = self.ranges[iv]
        sa = self.leaf(m, idx, t.dt).single()[1][0][0]
        try: x = self.close(self.at(nx, idx))
        except Unk: return self.leaf(n, idx, None, "opq")
        x0 = self.at(init, idx)
        y = self.fold(L, iv, lo, hi, sa, x, x0)
        if y is None and not self.slotted and t.rank == 2 and t.shape[0] == t.shape[1] and self.slots.get(m, 0) < 3:
            # the old entry as one scalar, so that rewriting under index equations does not disguise it
            self.slotted = True; self.slots[m] = self.slots.get(m, 0) + 1
            dep = self.reaching(m)
            memo, self.am = self.am, {k: v for k, v in self.am.items() if not dep(k[0])}
            sv = atom("v", "slot of loop %s" % uid, t.dt)
            self.am[(m, idx)] = P(sv)
            try: x = self.close(self.at(nx, idx))
            except Unk: x = None
            finally: self.am = memo; self.slotted = False
            if x is not None: y = self.fold(L, iv, lo, hi, sv, x, x0)
        return self.leaf(n, idx, None, "opq") if y is None else y

    def reaching(self, m):
        memo = {}
        def go(n):
            if n is m: return True
            if not isinstance(n, vg.Node): return any(go(y) for y in n) if isinstance(n, tuple) else False
            if n not in memo:
                memo[n] = False
                memo[n] = any(go(y) for y in n.args)
            return memo[n]
        return go

    def fold(self, L, iv, lo, hi, sa, x, x0):
        others = [a for a in self.deep_atoms(x) if a is not sa and self.mu_of(a, L)]
        if others: return None
        B = subst_p(x, {sa: ZERO}); A = subst_p(x, {sa: ONE}) - B
        if A * P(sa) + B == x and not poly.occurs_p(sa, A) and not poly.occurs_p(sa, B):
            if A == ONE: return x0 + Sum(iv, lo, hi, B)
            if not A.t and not poly.occurs_p(iv, B) : return B
            c = ONE - A
            for e in sorted(c.atoms(), key=lambda q: q.sortkey()):
                if e.kind == "b" and e.args[0] == "eq0" and poly.occurs(iv, e):
                    sb = solve_for(e.args[1], iv)
                    if sb is not None and c * P(e) == c and B * P(e) == B:
                        return Sum(iv, lo, hi, B) + (ONE - Sum(iv, lo, hi, c)) * x0
            if not B.t and A * A == A: return x0 * Red("all", iv, lo, hi, A)
            if not B.t and not poly.occurs_p(iv, A): return None
            # flag set to 1 when c: next = A*s + B with B = 1-A
            if B == ONE - A and A * A == A: return ONE - (ONE - x0) * Red("all", iv, lo, hi, A)
            # last assignment wins: next = A*s + B with a 0/1 coefficient
            if A * A == A and not L.rev:
                u = poly.fresh(); self.ranges[u] = (P(iv) + 1, hi)
                keep = lambda a, q: Red("all", a[0], a[1], a[2], q)
                later = keep((u, P(iv) + 1, hi), subst_p(A, {iv: P(u)})) if A.t else eq(P(iv) + 1, hi)
                return x0 * (keep((iv, lo, hi), A) if A.t else ONE - lt(lo, hi)) + Sum(iv, lo, hi, B * later)
        sg = x.single()
        if sg and sg[0] == 1 and len(sg[1]) == 1 and sg[1][0][1] == 1 and sg[1][0][0].kind == "f" and sg[1][0][0].args[0] in ("min", "max"):
            k = sg[1][0][0].args[0]
            args = [q for q in sg[1][0][0].args[1] if q != P(sa)]
            if len(args) < len(sg[1][0][0].args[1]) and not any(poly.occurs_p(sa, q) for q in args):
                return fn(k, x0, *[Red(k, iv, lo, hi, q) for q in args])
        # lowered (raised) under a condition: the other iterations contribute the neutral element
        ms = [a for a in x.atoms() if a.kind == "f" and a.args[0] in ("min", "max") and P(sa) in a.args[1]]
        if len(ms) == 1:
            k = ms[0].args[0]
            args = [q for q in ms[0].args[1] if q != P(sa)]
            z = subst_p(x, {ms[0]: P(atom("v", "extremum", "f"))})
            G = subst_p(z, {atom("v", "extremum", "f"): ONE, sa: ZERO})
            if all(a.kind == "b" for a in G.atoms()) and G * G == G and G * P(ms[0]) + (ONE - G) * P(sa) == x and not poly.occurs_p(sa, G) and args and not any(poly.occurs_p(sa, q) for q in args):
                far = P(poly.INF) if k == "min" else -P(poly.INF)
                on = lt(P(iv), hi)
                return fn(k, x0, Red(k, iv, lo, hi + 1, on * G * (fn(k, *args) if len(args) > 1 else args[0]) + (ONE - on * G) * far))
        return None

def solve_for(p, v):
    vm = ((v, Fraction(1)),)
    if vm in p.t and abs(p.t[vm]) == 1:
        val = -(p - Poly({vm: p.t[vm]})) * P(1 / p.t[vm])
        if not poly.occurs_p(v, val): return val
    return None
