"""Value of a closed term in binary64 arithmetic, in the order of operations of the code.

The normal forms of sa.tnf decide identities of real numbers.  Where a property depends on rounding (cancellation, thresholds), the
unnormalised term is evaluated with the rounding of every operation."""
import math, cmath, itertools
from sa import vg
from sa.vg import isconst

class No(Exception): pass

class A:
    __slots__ = ("shape", "data")
    def __init__(self, shape, data): self.shape, self.data = tuple(shape), list(data)
    def __getitem__(self, ix): return self.data[self.off(ix)]
    def off(self, ix):
        o = 0
        for i, n in zip(ix, self.shape):
            if not -n <= i < n: raise No("index")
            o = o * n + i % n
        return o

def arr(rows):
    if not isinstance(rows, list): return A((), [rows])
    xs = [arr(x) for x in rows]
    return A((len(xs),) + (xs[0].shape if xs else ()), [v for x in xs for v in x.data])

def wrap(x): return x if isinstance(x, A) else A((), [x])
def size(sh):
    n = 1
    for k in sh: n *= k
    return n
def idxs(sh): return itertools.product(*map(range, sh))

def bshape(*shs):
    r = max(map(len, shs)); out = []
    for k in range(r):
        d = {s[len(s) - r + k] for s in shs if len(s) - r + k >= 0} - {1}
        if len(d) > 1: raise No("shapes")
        out.append(d.pop() if d else 1)
    return tuple(out)

def pick(x, ix):
    k = len(ix) - len(x.shape)
    return x[tuple(0 if n == 1 else i for i, n in zip(ix[k:], x.shape))]

def ew(f, *xs):
    xs = [wrap(x) for x in xs]
    sh = bshape(*(x.shape for x in xs))
    return A(sh, [f(*(pick(x, i) for x in xs)) for i in idxs(sh)])

def div(x, y):
    if y == 0: return math.nan if x == 0 or x != x else (x * math.inf if not isinstance(x, complex) else complex(math.nan))
    return x / y
def root(x):
    if isinstance(x, complex): return cmath.sqrt(x)
    return math.sqrt(x) if x >= 0 else math.nan
def power(x, y):
    if isinstance(x, int) and isinstance(y, int) and y < 0: x = float(x)
    try: return x * x if y == 2 else x ** y
    except ZeroDivisionError: return math.inf
def acos(x): return math.acos(x) if -1 <= x <= 1 else math.nan
BIN = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "div": div, "pow": power, "lt": lambda a, b: a < b, "le": lambda a, b: a <= b, "eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b, "mod": lambda a, b: a % b, "floordiv": lambda a, b: a // b}
def c1(f, g=None): return lambda x: (g or f)(x) if isinstance(x, complex) else f(float(x))
UN = {"sqrt": root, "abs": abs, "absolute": abs, "exp": c1(math.exp, cmath.exp), "sin": c1(math.sin, cmath.sin), "cos": c1(math.cos, cmath.cos), "tan": c1(math.tan), "arccos": acos, "arcsin": lambda x: math.asin(x) if -1 <= x <= 1 else math.nan, "arctan": c1(math.atan), "conjugate": lambda x: complex(x).conjugate() if isinstance(x, complex) else x, "conj": lambda x: x.conjugate() if isinstance(x, complex) else x, "real": lambda x: x.real if isinstance(x, complex) else x, "imag": lambda x: x.imag if isinstance(x, complex) else 0.0, "angle": lambda x: cmath.phase(x), "sign": lambda x: (x > 0) - (x < 0), "floor": c1(math.floor), "square": lambda x: x * x, "isnan": lambda x: x != x, "isfinite": lambda x: x == x and abs(x) != math.inf}
BIN2 = {"minimum": lambda a, b: a if a != a or a < b else b, "maximum": lambda a, b: a if a != a or a > b else b, "arctan2": lambda a, b: math.atan2(a, b), "hypot": lambda a, b: math.hypot(a, b), "multiply": BIN["mul"], "add": BIN["add"], "subtract": BIN["sub"], "divide": div, "true_divide": div, "power": power, "mod": BIN["mod"], "remainder": BIN["mod"], "less": BIN["lt"]}

def fold(f, init):
    def go(x, axis, keep):
        x = wrap(x)
        if axis is None:
            t = init
            for v in x.data: t = v if t is None else f(t, v)
            if t is None: raise No("empty")
            return A((1,) * len(x.shape) if keep else (), [t])
        ax = axis % len(x.shape); n = x.shape[ax]
        sh = x.shape[:ax] + x.shape[ax + 1:]; out = []
        for ix in idxs(sh):
            t = init
            for k in range(n):
                v = x[ix[:ax] + (k,) + ix[ax:]]; t = v if t is None else f(t, v)
            if t is None: raise No("empty")
            out.append(t)
        return A(x.shape[:ax] + (1,) + x.shape[ax + 1:] if keep else sh, out)
    return go
SUM = fold(lambda a, b: a + b, 0); PROD = fold(lambda a, b: a * b, 1)
MIN = fold(BIN2["minimum"], None); MAX = fold(BIN2["maximum"], None)
ALL = fold(lambda a, b: bool(a) and bool(b), True); ANY = fold(lambda a, b: bool(a) or bool(b), False)
RED = {"sum": SUM, "prod": PROD, "min": MIN, "max": MAX, "amin": MIN, "amax": MAX, "all": ALL, "any": ANY}

def matmul(x, y):
    x, y = wrap(x), wrap(y)
    if len(x.shape) > 2 or len(y.shape) > 2 or not x.shape or not y.shape: raise No("product")
    a = A((1,) + x.shape, x.data) if len(x.shape) == 1 else x
    b = A(y.shape + (1,), y.data) if len(y.shape) == 1 else y
    if a.shape[1] != b.shape[0]: raise No("product")
    out = []
    for i in range(a.shape[0]):
        for j in range(b.shape[1]):
            t = 0
            for k in range(a.shape[1]): t = t + a[i, k] * b[k, j]
            out.append(t)
    sh = (() if len(x.shape) == 1 else (a.shape[0],)) + (() if len(y.shape) == 1 else (b.shape[1],))
    return A(sh, out)

def transpose(x, axes=None):
    x = wrap(x); r = len(x.shape); axes = axes or list(range(r))[::-1]
    sh = tuple(x.shape[k] for k in axes)
    def src(ix):
        o = [0] * r
        for k, i in zip(axes, ix): o[k] = i
        return tuple(o)
    return A(sh, [x[src(ix)] for ix in idxs(sh)])

class Eval:
    def __init__(self, env): self.env, self.memo = env, {}
    def num(self, n):
        v = self.ev(n)
        if isinstance(v, A):
            if v.shape not in ((), (1,)): raise No("scalar expected")
            return v.data[0]
        return v
    def __call__(self, n): return wrap(self.ev(n))
    def ev(self, n):
        if n not in self.memo: self.memo[n] = self.step(n)
        return self.memo[n]
    def axes(self, x, ix):
        """list of (kind, positions) per subscript"""
        out = []; k = 0
        cnt = sum(1 for s in ix if not isconst(s, None) and not (s.op == "const" and s.args[0] is Ellipsis))
        for s in ix:
            if isconst(s, None): out.append(("new", None)); continue
            if s.op == "const" and s.args[0] is Ellipsis:
                for _ in range(len(x.shape) - cnt): out.append(("all", list(range(x.shape[k])))); k += 1
                continue
            if k >= len(x.shape): raise No("too many subscripts")
            if s.op == "slice":
                a = [None if isconst(t, None) else int(self.num(t)) for t in s.args]
                out.append(("all", list(range(*slice(*a).indices(x.shape[k])))))
            else:
                v = wrap(self.ev(s))
                if v.shape == ():
                    i = v.data[0]
                    if isinstance(i, bool) or int(i) != i or not -x.shape[k] <= i < x.shape[k]: raise No("subscript")
                    out.append(("one", [int(i) % x.shape[k]]))
                elif len(v.shape) == 1 and v.data and all(isinstance(i, bool) for i in v.data) and len(v.data) == x.shape[k]: out.append(("adv", [i for i, t in enumerate(v.data) if t]))
                elif len(v.shape) == 1 and all(isinstance(i, int) and not isinstance(i, bool) for i in v.data): out.append(("adv", [i % x.shape[k] for i in v.data]))
                else: raise No("subscript form")
            k += 1
        while k < len(x.shape): out.append(("all", list(range(x.shape[k])))); k += 1
        if sum(1 for a, _ in out if a == "adv") > 1: raise No("several index arrays")
        return out
    def sel(self, x, ix):
        ax = self.axes(x, ix)
        sh = []; it = []
        for k, p in ax:
            if k == "new": sh.append(1)
            elif k != "one": sh.append(len(p))
        pos = []
        for jx in idxs(sh):
            j = list(jx); o = []
            for k, p in ax:
                if k == "new": j.pop(0)
                elif k == "one": o.append(p[0])
                else: o.append(p[j.pop(0)])
            pos.append(x.off(tuple(o)))
        return tuple(sh), pos
    def step(self, n):
        op, a = n.op, n.args
        ev = self.ev
        if op == "const": return a[0]
        if op == "sym":
            if a[0] in self.env: return self.env[a[0]]
            raise No("free " + str(a[0]))
        if op == "libref":
            k = {"numpy.pi": math.pi, "math.pi": math.pi, "numpy.inf": math.inf, "numpy.newaxis": None, "numpy.e": math.e}
            if a[0] in k: return k[a[0]]
            raise No(a[0])
        if op in BIN and len(a) == 2: return ew(BIN[op], ev(a[0]), ev(a[1]))
        if op == "neg": return ew(lambda x: -x, ev(a[0]))
        if op == "matmul": return matmul(ev(a[0]), ev(a[1]))
        if op == "truth": return bool(self.num(a[0]))
        if op == "not": return not self.num(a[0])
        if op == "and":
            v = True
            for x in a:
                v = self.num(x)
                if not v: return False
            return bool(v)
        if op == "or":
            for x in a:
                if self.num(x): return True
            return False
        if op == "phi": return ev(a[1]) if self.num(a[0]) else ev(a[2])
        if op == "is":
            x, y = ev(a[0]), ev(a[1])
            if y is None or x is None: return x is y
            raise No("is")
        if op in ("tuple", "list"): return arr([v.data[0] if v.shape == () else self.nest(v) for v in (wrap(ev(x)) for x in a)])
        if op == "attr":
            x = wrap(ev(a[0]))
            if a[1] == "T": return transpose(x)
            if a[1] == "shape": return A((len(x.shape),), x.shape)
            if a[1] == "size": return size(x.shape)
            if a[1] == "ndim": return len(x.shape)
            if a[1] in ("real", "imag"): return ew(UN[a[1]], x)
            raise No(a[1])
        if op == "index":
            x = wrap(ev(a[0])); sh, pos = self.sel(x, a[1])
            return A(sh, [x.data[p] for p in pos])
        if op in ("store", "viewset") and len(a) >= 3 and isinstance(a[1], tuple):
            x = wrap(ev(a[0])); sh, pos = self.sel(x, a[1]); v = wrap(ev(a[2]))
            while len(v.shape) > len(sh) and v.shape[0] == 1: v = A(v.shape[1:], v.data)
            d = list(x.data)
            for p, ix in zip(pos, idxs(sh)): d[p] = pick(v, ix)
            return A(x.shape, d)
        if op == "call": return self.call(a[0], dict(a[1]))
        raise No(op)
    def nest(self, x):
        if not x.shape: return x.data[0]
        k = size(x.shape[1:])
        return [self.nest(A(x.shape[1:], x.data[i * k:(i + 1) * k])) for i in range(x.shape[0])]
    def call(self, nm, kw):
        lib, _, f = nm.rpartition(".")
        ev = self.ev; v = list(kw.values())
        if lib not in ("numpy", "math", "builtins", "ndarray", "numpy.linalg", "cmath"): raise No(nm)
        if lib == "numpy.linalg":
            if f == "norm" and set(kw) <= {"x", "axis", "keepdims"}:
                x = ev(kw["x"]); ax = int(self.num(kw["axis"])) if "axis" in kw else None
                return ew(root, SUM(ew(lambda t: abs(t) ** 2, x), ax, "keepdims" in kw and bool(self.num(kw["keepdims"]))))
            raise No(nm)
        if lib == "builtins" and f in ("max", "min"):
            xs = wrap(ev(kw["args"])) if "args" in kw else wrap(ev(v[0]))
            return (max if f == "max" else min)(xs.data)
        if f in RED and ("a" in kw or "x" in kw) and set(kw) <= {"a", "axis", "keepdims"}:
            ax = None if "axis" not in kw or isconst(kw["axis"], None) else int(self.num(kw["axis"]))
            return RED[f](ev(kw["a"]), ax, "keepdims" in kw and bool(self.num(kw["keepdims"])))
        if f in UN and len(v) == 1: return ew(UN[f], ev(v[0]))
        if f in BIN2 and len(v) == 2: return ew(BIN2[f], *(ev(kw[k]) for k in sorted(kw)))
        if f == "len": return wrap(ev(v[0])).shape[0]
        if f in ("float", "int", "bool") and lib == "builtins": return {"float": float, "int": int, "bool": bool}[f](self.num(v[0]))
        if f == "clip":
            x = ev(kw["a"])
            if "a_min" in kw and not isconst(kw["a_min"], None): x = ew(BIN2["maximum"], x, ev(kw["a_min"]))
            if "a_max" in kw and not isconst(kw["a_max"], None): x = ew(BIN2["minimum"], x, ev(kw["a_max"]))
            return x
        if f == "where" and len(v) == 3: return ew(lambda c, x, y: x if c else y, ev(kw["condition"]), ev(kw["x"]), ev(kw["y"]))
        if f in ("zeros", "ones", "full", "empty"):
            s = wrap(ev(kw["shape"])); sh = tuple(int(k) for k in s.data)
            t = {"zeros": 0.0, "ones": 1.0, "empty": math.nan}.get(f)
            return A(sh, [self.num(kw["fill_value"]) if f == "full" else t] * size(sh))
        if f in ("zeros_like", "ones_like"):
            x = wrap(ev(kw["a"])); return A(x.shape, [0.0 if f[0] == "z" else 1.0] * size(x.shape))
        if f in ("eye", "identity"):
            k = int(self.num(kw.get("N", kw.get("n")))); return A((k, k), [1.0 if i == j else 0.0 for i in range(k) for j in range(k)])
        if f in ("flatten", "ravel"):
            x = wrap(ev(v[0])); return A((size(x.shape),), x.data)
        if f in ("array", "asarray", "copy", "atleast_1d"):
            x = wrap(ev(v[0])); return A((1,), x.data) if f == "atleast_1d" and not x.shape else x
        if f in ("argmin", "argmax") and set(kw) == {"a"}:
            x = wrap(ev(kw["a"])); return (min if f == "argmin" else max)(range(len(x.data)), key=lambda i: x.data[i])
        if f == "transpose" and set(kw) == {"a"}: return transpose(ev(kw["a"]))
        if f == "outer":
            x, y = (wrap(ev(t)) for t in (kw["a"], kw["b"])); return A((size(x.shape), size(y.shape)), [p * q for p in x.data for q in y.data])
        if f in ("dot", "inner", "vdot") and len(v) == 2:
            x, y = (wrap(ev(t)) for t in v)
            if f == "vdot": x = ew(UN["conjugate"], x)
            return matmul(x, y) if x.shape and y.shape else ew(BIN["mul"], x, y)
        if f == "isclose" or f == "allclose":
            x, y = ev(kw["a"]), ev(kw["b"])
            at = self.num(kw["atol"]) if "atol" in kw else 1e-8; rt = self.num(kw["rtol"]) if "rtol" in kw else 1e-5
            z = ew(lambda p, q: abs(p - q) <= at + rt * abs(q), x, y)
            return ALL(z, None, False) if f == "allclose" else z
        if f == "reshape":
            x = wrap(ev(kw["a"])); s = wrap(ev(kw.get("shape", kw.get("newshape"))))
            sh = [int(k) for k in s.data]
            if -1 in sh: sh[sh.index(-1)] = size(x.shape) // max(1, -size(sh))
            return A(sh, x.data)
        if f in ("concatenate", "hstack") and "axis" not in kw:
            x = kw.get("arrays", kw.get("tup", v[0]))
            if x.op in ("tuple", "list"):
                xs = [wrap(ev(t)) for t in x.args]
                if all(len(t.shape) == 1 for t in xs): return A((sum(t.shape[0] for t in xs),), [d for t in xs for d in t.data])
        raise No(nm)
