"""Sound bounds of floating-point values: every rule holds for the rounded results, not only for exact arithmetic.

Bounds are propagated through the operations in the order in which the source performs them (rounding to nearest is monotone, so
an interval whose end points are computed with the same rounding encloses the rounded result).  `UNKNOWN` leaves are counted, so that a
caller can tell "unbounded because the source does not bound it" from "unbounded because this construct is not modelled"."""
import math
from . import vg
from .vg import isconst, walk

INF = math.inf
TOP = (-INF, INF)
POS = (0.0, INF)

def num(n):
    if n.op == "const" and isinstance(n.args[0], (int, float)) and not isinstance(n.args[0], bool):
        try: return float(n.args[0])
        except OverflowError: return None
    if n.op == "const" and isinstance(n.args[0], bool): return float(n.args[0])
    if n.op == "libref":
        return {"numpy.pi": math.pi, "numpy.e": math.e, "numpy.inf": INF, "math.pi": math.pi}.get(n.args[0])
    if n.op == "const":
        try:
            from fractions import Fraction
            if isinstance(n.args[0], Fraction): return float(n.args[0])
        except Exception: pass
    return None

def hull(*bs):
    return (min(b[0] for b in bs), max(b[1] for b in bs))
def meet(a, b):
    lo, hi = max(a[0], b[0]), min(a[1], b[1])
    return (lo, hi) if lo <= hi else a

def pm(x, y):
    if x == 0 or y == 0: return 0.0
    return x * y
def imul(a, b):
    c = [pm(x, y) for x in a for y in b]
    return (min(c), max(c))
def iadd(a, b): return (a[0] + b[0] if not (a[0] == -INF or b[0] == -INF) else -INF, a[1] + b[1] if not (a[1] == INF or b[1] == INF) else INF)
def ineg(a): return (-a[1], -a[0])
def idiv(a, b):
    if b[0] > 0 or b[1] < 0:
        inv = (0.0 if b[1] == INF else 1 / b[1], 1 / b[0] if b[0] != -INF else 0.0) if b[0] > 0 else (1 / b[1], 0.0 if b[0] == -INF else 1 / b[0])
        r = []
        for x in a:
            for y in b:
                if math.isinf(x) and math.isinf(y): r += [0.0, math.copysign(INF, x) * math.copysign(1, y)]
                else: r.append(x / y)
        return (min(r), max(r))
    if b[0] >= 0 and a[0] >= 0: return POS
    if b[0] >= 0 and a[1] <= 0: return (-INF, 0.0)
    return TOP

ELEM = {"numpy.transpose", "numpy.reshape", "numpy.ravel", "numpy.flatten", "numpy.squeeze", "numpy.asarray", "numpy.array", "numpy.copy", "numpy.ascontiguousarray", "numpy.flip", "numpy.fliplr", "numpy.flipud", "numpy.sort", "numpy.diag", "numpy.diagonal",
        "numpy.max", "numpy.min", "numpy.expand_dims", "numpy.atleast_1d", "numpy.atleast_2d", "numpy.broadcast_to", "numpy.tile", "numpy.repeat", "numpy.swapaxes", "numpy.moveaxis", "numpy.real_if_close", "numpy.unique", "numpy.median", "numpy.take", "numpy.roll", "numpy.rot90", "numpy.matrix_transpose", "builtins.float", "numpy.float64", "numpy.asanyarray", "numpy.nanmax", "numpy.nanmin", "numpy.delete", "ndarray.item", "ndarray.tolist", "numpy.concatenate", "numpy.vstack", "numpy.hstack", "numpy.stack", "numpy.column_stack", "builtins.list", "builtins.tuple"}
ARG1 = ("a", "x", "object", "m", "v", "arr", "arrays", "tup", "0", "A", "array")
UNBOUNDED = {"numpy.dot", "numpy.inner", "numpy.outer", "numpy.einsum", "numpy.tensordot", "numpy.cross", "numpy.linalg.inv", "numpy.linalg.solve", "numpy.linalg.eigh", "numpy.linalg.eigvalsh", "numpy.linalg.eig", "numpy.linalg.eigvals", "numpy.linalg.qr", "numpy.linalg.cholesky", "numpy.linalg.det", "numpy.log", "numpy.tan", "numpy.diff",
             "numpy.random.randn", "numpy.random.standard_normal", "numpy.random.normal", "scipy.sparse.linalg.lsqr", "numpy.linalg.lstsq", "numpy.vdot", "numpy.trace", "numpy.angle", "numpy.arctan2", "numpy.linalg.matrix_power"}

class FB:
    def __init__(self, r, ty=None, syms=None, nonneg=()):
        self.r, self.tyf, self.syms, self.nonneg = r, ty, syms or {}, set(nonneg)
        self.mus = {}
        for L in r.loops.values():
            for m, (a, b) in L.mu.items(): self.mus[m] = (a, b)
        self.hyp = {}
        self.unknown = set()
    def rank(self, n):
        try: return len(self.tyf(n).shape) if self.tyf else None
        except Exception: return None
    def dt(self, n):
        try: return self.tyf(n).dt if self.tyf else None
        except Exception: return None
    def unk(self, n):
        self.unknown.add(n); return TOP
    # conditions: [(node, polarity)]
    def strip(self, n, conds):
        """element-wise view of a value selected by a mask known to hold"""
        while True:
            if n.op == "index" and len(n.args[1]) == 1 and any(c is n.args[1][0] and p for c, p in conds): n = n.args[0]
            elif n.op == "call" and n.args[0] in ("numpy.asarray", "numpy.copy", "builtins.float", "numpy.float64") and n.args[1]: n = n.args[1][0][1]
            else: return n
    def atoms(self, conds):
        out = []
        st = list(conds)
        while st:
            c, p = st.pop()
            if c.op == "not": st.append((c.args[0], not p))
            elif c.op == "truth": st.append((c.args[0], p))
            elif c.op == "and" and p: st += [(x, True) for x in c.args if isinstance(x, vg.Node)]
            elif c.op == "or" and not p: st += [(x, False) for x in c.args if isinstance(x, vg.Node)]
            elif c.op in ("lt", "le"): out.append((c.op, c.args[0], c.args[1]) if p else ("le" if c.op == "lt" else "lt", c.args[1], c.args[0]))
            elif c.op == "eq" and p: out += [("le", c.args[0], c.args[1]), ("le", c.args[1], c.args[0])]
        return out
    def b(self, n, conds=(), depth=0):
        s = self.strip(n, conds)
        r = self.raw(s, conds, depth)
        for op, x, y in self.atoms(conds):
            x, y = self.strip(x, conds), self.strip(y, conds)
            if x is s and (k := num(y)) is not None: r = meet(r, (-INF, k))
            elif x is s and y is not s and depth < 6:
                r = meet(r, (-INF, self.quiet(y, conds, depth)[1]))
            if y is s and (k := num(x)) is not None: r = meet(r, (k, INF))
            elif y is s and x is not s and depth < 6:
                r = meet(r, (self.quiet(x, conds, depth)[0], INF))
        return r
    def quiet(self, n, conds, depth):
        save = set(self.unknown)
        v = self.raw(n, (), depth + 3)
        self.unknown = save
        return v
    def ordered(self, x, y, conds):
        """y <= x is known"""
        for op, a, b in self.atoms(conds):
            if self.strip(a, conds) is y and self.strip(b, conds) is x: return True
        return False
    def raw(self, n, conds, depth):
        if depth > 60: return self.unk(n)
        k = num(n)
        if k is not None: return (k, k)
        o = n.op; A = n.args
        if o == "libref" and A[0] in ("numpy.nan", "math.nan"): return (INF, -INF)
        go = lambda x: self.b(x, conds, depth + 1)
        if o == "sym":
            if A[0] in self.syms: return self.syms[A[0]]
            if A[0] in self.nonneg: return POS
            if self.rank(n) not in (0, None): return TOP
            return self.unk(n)
        if n in self.hyp: return self.hyp[n]
        if o == "neg": return ineg(go(A[0]))
        if o == "add": return iadd(go(A[0]), go(A[1]))
        if o == "sub":
            x, y = self.strip(A[0], conds), self.strip(A[1], conds)
            if x is y: return (0.0, 0.0)
            r = iadd(go(A[0]), ineg(go(A[1])))
            if self.ordered(x, y, conds): r = meet(r, POS)
            return r
        if o == "mul":
            if self.strip(A[0], conds) is self.strip(A[1], conds) and self.real(A[0]):
                a, b = go(A[0]); m = max(abs(a), abs(b)); return (0.0, m * m)
            if self.conj(A[0], A[1]): return POS
            return imul(go(A[0]), go(A[1]))
        if o == "div": 
            return idiv(go(A[0]), go(A[1]))
        if o == "pow":
            e = num(A[1])
            a, b = go(A[0])
            if e is None: return POS if a >= 0 else self.unk(n)
            if e == int(e) and int(e) % 2 == 0 and e > 0 and self.real(A[0]):
                lo = 0.0 if a <= 0 <= b else min(abs(a), abs(b)) ** e
                try: return (lo, max(abs(a), abs(b)) ** e)
                except OverflowError: return (lo, INF)
            if e == int(e) and e > 0:
                try: return (a ** int(e), b ** int(e))
                except OverflowError: return TOP
            return POS
        if o == "floordiv": return POS if go(A[0])[0] >= 0 and go(A[1])[0] >= 0 else TOP
        if o == "mod":
            m = go(A[1])
            return (0.0, m[1]) if m[0] >= 0 else TOP
        if o == "matmul":
            if A[0] is A[1] and self.rank(A[0]) == 1 and self.real(A[0]): return POS
            if self.conj(A[0], A[1]) and self.rank(A[0]) == 1: return POS
            a, b = go(A[0]), go(A[1])
            return POS if (a[0] >= 0 and b[0] >= 0) else TOP
        if o == "phi":
            c = A[0]
            return hull(self.b(A[1], tuple(conds) + ((c, True),), depth + 1), self.b(A[2], tuple(conds) + ((c, False),), depth + 1))
        if o == "index":
            base = A[0]
            if base.op == "call" and base.args[0] == "numpy.linalg.svd" and isconst(A[1][0], 1): return POS
            if base.op == "attr" and base.args[1] == "shape" or base.op == "call" and base.args[0] == "numpy.shape": return POS
            if base.op == "call" and base.args[0] == "numpy.histogram" and isconst(A[1][0], 0): return POS
            return go(base)
        if o == "store":
            base, idx, val = A[0], A[1], A[2]
            if len(idx) == 1 and idx[0].op in ("lt", "le", "not", "and", "or", "eq", "ne", "gt", "ge"):
                m = idx[0]
                return hull(self.b(base, tuple(conds) + ((m, False),), depth + 1), self.b(val, tuple(conds) + ((m, True),), depth + 1))
            return hull(go(base), go(val))
        if o in ("viewset", "fillwith"):
            xs = [x for x in A if isinstance(x, vg.Node)]
            return hull(*[go(x) for x in xs]) if xs else self.unk(n)
        if o in ("tuple", "list"):
            return hull(*[go(x) for x in A]) if A else TOP
        if o == "seq": return go(A[2])
        if o == "iv":
            d = A[0]
            if d.op == "range": return hull(go(d.args[0]), go(d.args[1])) if num(d.args[2]) and num(d.args[2]) > 0 else self.unk(n)
            return go(d)
        if o == "range": return hull(go(A[0]), go(A[1]))
        if o == "mu" and n in self.mus:
            i, nx = self.mus[n]
            bi = self.b(i, (), depth + 1)
            for cand in ((0.0, 1.0), POS, TOP):
                if not (bi[0] >= cand[0] and bi[1] <= cand[1]): continue
                self.hyp[n] = cand
                try: bn = self.b(nx, (), depth + 1)
                finally: self.hyp.pop(n, None)
                if bn[0] >= cand[0] and bn[1] <= cand[1]: return cand
            return TOP
        if o in ("final", "last"):
            xs = [x for x in A if isinstance(x, vg.Node)]
            return go(xs[-1]) if xs else self.unk(n)
        if o in ("lt", "le", "eq", "ne", "not", "and", "or", "truth", "isinstance", "is", "in"): return (0.0, 1.0)
        if o == "attr":
            if A[1] in ("size", "ndim", "shape"): return POS
            return self.unk(n)
        if o == "call": return self.call(n, conds, depth)
        return self.unk(n)
    def real(self, n):
        d = self.dt(n)
        if d is not None: return d != "c"
        for x in walk(n):
            if x.op == "const" and isinstance(x.args[0], complex): return False
            if x.op == "sym" and self.dt(x) == "c": return False
        return True
    def conj(self, a, b):
        for x, y in ((a, b), (b, a)):
            if x.op == "call" and x.args[0] == "numpy.conjugate" and x.args[1][0][1] is y: return True
        return False
    def call(self, n, conds, depth):
        nm = n.args[0]; d = dict(n.args[1])
        go = lambda x: self.b(x, conds, depth + 1)
        def arg(*ks):
            for k in ks + ARG1:
                if k in d: return d[k]
            return None
        a = arg()
        if nm in ("numpy.abs", "numpy.linalg.norm", "numpy.exp", "numpy.square", "numpy.std", "numpy.var", "numpy.count_nonzero", "builtins.len", "numpy.size", "numpy.hypot"):
            if nm == "numpy.abs" and a is not None and self.real(a):
                x = go(a); m = max(abs(x[0]), abs(x[1]))
                return (0.0 if x[0] <= 0 <= x[1] else min(abs(x[0]), abs(x[1])), m)
            if nm == "numpy.square" and a is not None and not self.real(a): return TOP
            return POS
        if nm == "numpy.sqrt":
            x = go(a)
            return (math.sqrt(max(x[0], 0.0)), INF if x[1] == INF else math.sqrt(max(x[1], 0.0)))
        if nm in ("numpy.sin", "numpy.cos", "numpy.sign", "numpy.tanh"): return (-1.0, 1.0)
        if nm == "numpy.arccos": return (0.0, math.pi)
        if nm in ("numpy.angle", "numpy.arctan2"): return (-math.pi, math.pi)
        if nm in ("numpy.arcsin", "numpy.arctan"): return (-math.pi / 2, math.pi / 2)
        if nm in ("numpy.real", "numpy.imag"):
            if nm == "numpy.real" and a is not None:
                if a.op in ("mul", "matmul") and self.conj(a.args[0], a.args[1]) and (a.op == "mul" or self.rank(a.args[0]) == 1): return POS
                if self.real(a): return go(a)
            return TOP
        if nm in ("numpy.maximum", "numpy.fmax", "numpy.minimum", "numpy.fmin", "builtins.max", "builtins.min", "numpy.max", "numpy.min"):
            xs = None
            if "args" in d and d["args"].op in ("tuple", "list"): xs = list(d["args"].args)
            elif nm in ("numpy.maximum", "numpy.fmax", "numpy.minimum", "numpy.fmin"): xs = [v for k, v in n.args[1] if k in ("x1", "x2", "0", "1")]
            elif a is not None and a.op in ("tuple", "list"): xs = list(a.args)
            if xs:
                bs = [go(x) for x in xs]
                if nm.endswith(("maximum", "fmax", "max")): return (max(x[0] for x in bs), max(x[1] for x in bs))
                return (min(x[0] for x in bs), min(x[1] for x in bs))
            return go(a) if a is not None else self.unk(n)
        if nm == "numpy.clip":
            x = go(d["a"]) if "a" in d else TOP
            lo = d.get("a_min", d.get("min")); hi = d.get("a_max", d.get("max"))
            lo = None if lo is None or isconst(lo, None) else go(lo)
            hi = None if hi is None or isconst(hi, None) else go(hi)
            if lo: x = (max(x[0], lo[0]), max(x[1], lo[1]))
            if hi: x = (min(x[0], hi[0]), min(x[1], hi[1]))
            return x
        if nm == "numpy.where" and "x" in d and "y" in d:
            c = d["condition"]
            return hull(self.b(d["x"], tuple(conds) + ((c, True),), depth + 1), self.b(d["y"], tuple(conds) + ((c, False),), depth + 1))
        if nm in ("numpy.sum", "numpy.cumsum", "builtins.sum", "numpy.nansum", "numpy.prod", "numpy.add.reduce"):
            x = go(a) if a is not None else TOP
            return POS if x[0] >= 0 else (-INF, 0.0) if x[1] <= 0 and nm != "numpy.prod" else TOP
        if nm in ("numpy.mean", "numpy.nanmean", "numpy.average"):
            x = go(a)
            return POS if x[0] >= 0 else TOP
        if nm in ("numpy.zeros", "numpy.zeros_like"): return (0.0, 0.0)
        if nm in ("numpy.ones", "numpy.ones_like"): return (1.0, 1.0)
        if nm in ("numpy.eye", "numpy.identity"): return (0.0, 1.0)
        if nm in ("numpy.full", "numpy.full_like"): return go(d["fill_value"])
        if nm in ("numpy.random.random", "numpy.random.rand"): return (0.0, 1.0)
        if nm == "numpy.random.uniform":
            lo = go(d.get("low", d.get("0"))) if ("low" in d or "0" in d) else (0.0, 0.0)
            hi = go(d.get("high", d.get("1"))) if ("high" in d or "1" in d) else (1.0, 1.0)
            return hull(lo, hi)
        if nm == "numpy.linspace": return hull(go(d["start"]), go(d["stop"]))
        if nm == "numpy.arange":
            lo = go(d["start"]) if "start" in d else (0.0, 0.0)
            return hull(lo, go(d["stop"])) if "stop" in d else POS if lo[0] >= 0 else TOP
        if nm in ("numpy.floor", "numpy.ceil", "numpy.round", "numpy.rint", "numpy.trunc", "builtins.int"):
            x = go(a) if a is not None else TOP
            f = lambda v, g: v if math.isinf(v) else float(g(v))
            return (f(x[0], math.floor), f(x[1], math.ceil))
        if nm == "numpy.einsum":
            ops = [v for k, v in n.args[1] if k in ("0", "1", "2")]
            sub = d.get("subscripts")
            if len(ops) == 2 and ops[0] is ops[1] and sub is not None and isconst(sub):
                l = str(sub.args[0]).replace(" ", "").split("->")[0].split(",")
                if len(l) == 2 and l[0] == l[1] and self.real(ops[0]): return POS
            return TOP
        if nm in ("numpy.vdot", "numpy.inner", "numpy.dot"):
            vs = [v for k, v in n.args[1]]
            if len(vs) == 2 and (vs[0] is vs[1]) and self.rank(vs[0]) == 1: return POS
            return TOP
        if nm == "numpy.nan_to_num": 
            return hull(go(a), (0.0, 0.0)) if a is not None else TOP
        if nm == "numpy.meshgrid" or nm in ELEM:
            if a is not None: return go(a)
            vs = [v for k, v in n.args[1] if isinstance(v, vg.Node)]
            return hull(*[go(v) for v in vs]) if vs else TOP
        if nm == "numpy.astype" : return go(a)
        if nm == "numpy.linalg.svd": return TOP
        if nm == "numpy.arange": return POS
        if nm == "ripser.ripser": return TOP
        if nm in UNBOUNDED: return TOP
        return self.unk(n)
