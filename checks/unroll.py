"""Constant propagation through the loop recurrences of a value graph: small concrete arguments are folded into the terms, loops are unrolled.

fold(r, n, env) gives the value of node n of result r when the parameters have the given values (numbers, strings, nested lists for arrays), or raises No
when the term contains an operation that is not modelled."""
import math
from sa import vg
from sa.vg import isconst, cargs
from .concrete import No
LIMIT = 200000

BIN = {"eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "lt": lambda a, b: a < b, "le": lambda a, b: a <= b, "add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "div": lambda a, b: a / b, "floordiv": lambda a, b: a // b, "mod": lambda a, b: a % b, "pow": lambda a, b: a ** b}
class Out(No):
    """an access outside an array of which the folded value is known"""
CONST = {"numpy.inf": math.inf, "math.inf": math.inf, "numpy.pi": math.pi, "math.pi": math.pi}
SPARSE = {"scipy.sparse.%s_%s" % (a, b) for a in ("csr", "csc", "coo") for b in ("array", "matrix")}
SAME = {"builtins.tuple", "builtins.list", "numpy.array", "numpy.asarray", "numpy.ascontiguousarray", "numpy.copy", "builtins.int", "builtins.float", "builtins.bool", "builtins.abs", "numpy.abs"}

def shape(x):
    s = []
    while isinstance(x, list):
        s.append(len(x))
        if not x: break
        x = x[0]
    return s
def full(s, v): return [full(s[1:], v) for _ in range(s[0])] if s else v
def copy(x): return [copy(y) for y in x] if isinstance(x, list) else x
def each(f, *xs):
    ls = [len(x) for x in xs if isinstance(x, list)]
    if not ls: return f(*xs)
    d = max(len(shape(x)) for x in xs)
    if len(set(ls)) != 1 or any(isinstance(x, list) and len(shape(x)) != d for x in xs): raise No("broadcast")
    return [each(f, *[x[i] if isinstance(x, list) else x for x in xs]) for i in range(ls[0])]
def truth(x):
    if isinstance(x, list): raise No("truth of an array")
    return bool(x)

class Sparse:
    """a sparse matrix given by its entries"""
    def __init__(self, rows, cols, vals, shape):
        if len(shape) != 2 or not len(rows) == len(cols) == len(vals): raise No("sparse form")
        self.d = full(list(shape), 0)
        for i, j, v in zip(rows, cols, vals):
            if isinstance(v, list) or v is None or not 0 <= i < shape[0] or not 0 <= j < shape[1]: raise No("sparse entry")
            self.d[int(i)][int(j)] += v

class Fold:
    def __init__(self, r, env): self.r, self.env, self.mu, self.iv, self.memo, self.n = r, env, {}, {}, {}, 0
    def __call__(self, n):
        if n in self.memo: return self.memo[n]
        self.n += 1
        if self.n > LIMIT: raise No("too long")
        v = self.memo[n] = self.ev(n)
        return v
    def bounds(self, d):
        if d.op != "range": raise No("domain")
        return range(*[self.integer(x) for x in d.args])
    def integer(self, n):
        x = self(n)
        if isinstance(x, (list, str)) or x is None or x != int(x): raise No("not an integer")
        return int(x)
    def item(self, x, ix):
        if not ix: return x
        i = ix[0]
        if isinstance(x, str) or not isinstance(x, list): raise No("index")
        if i.op == "slice":
            s = slice(*[None if y is None or isconst(y, None) else self(y) if isinstance(y, vg.Node) else y for y in i.args])
            return [self.item(y, ix[1:]) for y in x[s]]
        j = self(i)
        if isinstance(j, list):
            if len(ix) > 1: raise No("gather")
            if any(isinstance(k, bool) for k in j): return [y for y, k in zip(x, j) if k]
            return [x[self.pos(k, x)] for k in j]
        return self.item(x[self.pos(j, x)], ix[1:])
    def pos(self, j, x):
        if isinstance(j, (bool, list, str)) or j is None or j != int(j): raise No("position")
        if not -len(x) <= j < len(x): raise Out("position %d of %d" % (j, len(x)))
        return int(j)
    def put(self, x, ix, v):
        i = ix[0]
        if i.op == "slice" or not isinstance(x, list): raise No("store form")
        j = self.pos(self(i), x)
        x = list(x)
        if len(ix) > 1: x[j] = self.put(x[j], ix[1:], v)
        else:
            if isinstance(v, list) != isinstance(x[j], list): raise No("store form")
            x[j] = v
        return x
    def loop(self, uid):
        L = self.r.loops.get(uid)
        if L is None: raise No("loop")
        cur = {m: self(a) for m, (a, b) in L.mu.items()}
        saved = self.mu, self.iv, self.memo
        self.mu = {**self.mu, **cur}
        def step(z):
            self.memo = {}
            if z is not None: self.iv = {**self.iv, L.iv: z}
            if L.kind == "while" and not truth(self(L.cond)): return False
            nx = {m: self(b) for m, (a, b) in L.mu.items()}
            stop = any(truth(self(b)) for b in L.breaks)
            self.mu = {**self.mu, **nx}
            return not stop
        try:
            if L.kind == "while":
                k = 0
                while step(None):
                    k += 1
                    if k > 10000: raise No("loop does not end")
            elif L.kind == "for" and L.dom is not None:
                zs = list(self.bounds(L.dom))
                for z in reversed(zs) if L.rev else zs:
                    if not step(z): break
            else: raise No("loop form")
            return {m: self.mu[m] for m in L.mu}
        finally: self.mu, self.iv, self.memo = saved
    def ev(self, n):
        op, a = n.op, n.args
        if op == "const":
            return a[0]
        if op == "libref" and a[0] in CONST: return CONST[a[0]]
        if op == "sym":
            if a[0] in self.env: return self.env[a[0]]
            raise No("symbol %s" % a[0])
        if op == "mu":
            if n in self.mu: return self.mu[n]
            raise No("carried value")
        if op == "iv":
            if n in self.iv: return self.iv[n]
            raise No("index")
        if op == "final":
            fin = self.loop(a[0])
            L = self.r.loops[a[0]]
            for m, v in fin.items(): self.memo[vg.mk("final", a[0], m)] = v
            if a[1] not in fin: raise No("final")
            return fin[a[1]]
        if op == "seq":
            if len(a) < 4: raise No("sequence")
            saved = self.iv, self.memo
            out = []
            try:
                for z in self.bounds(a[0]):
                    self.iv = {**saved[0], a[1]: z}; self.memo = {}
                    if isconst(a[3], True) or truth(self(a[3])): out.append(self(a[2]))
            finally: self.iv, self.memo = saved
            return out
        if op == "truth": return truth(self(a[0]))
        if op == "not": return not truth(self(a[0]))
        if op == "and": return all(truth(self(x)) for x in a)
        if op == "or": return any(truth(self(x)) for x in a)
        if op == "phi": return self(a[1]) if truth(self(a[0])) else self(a[2])
        if op == "in":
            x, y = self(a[0]), self(a[1])
            if not isinstance(y, list) or isinstance(x, list): raise No("membership")
            return x in y
        if op in BIN and len(a) == 2: return each(BIN[op], self(a[0]), self(a[1]))
        if op == "neg": return each(lambda x: -x, self(a[0]))
        if op in ("list", "tuple"): return [self(x) for x in a]
        if op == "attr" and a[1] in ("shape", "size", "ndim"):
            s = shape(self(a[0]))
            return s if a[1] == "shape" else len(s) if a[1] == "ndim" else math.prod(s)
        if op == "attr" and a[1] == "T":
            x = self(a[0])
            if len(shape(x)) == 1: return x
            if len(shape(x)) == 2: return [list(y) for y in zip(*x)]
            raise No("transpose")
        if op == "index": return self.item(self(a[0]), a[1])
        if op == "store": return self.put(self(a[0]), a[1], self(a[2]))
        if op == "mcall": return self.method(a[1] if isinstance(a[1], vg.Node) else a[0], a[0] if isinstance(a[0], str) else a[1], a)
        if op == "call": return self.call(n)
        raise No("operation %s" % op)
    def method(self, recv, nm, a):
        x = self(recv)
        if isinstance(x, Sparse):
            if nm in ("copy", "tocsr", "tocsc", "tocoo", "astype"): return x
            raise No("method of a sparse matrix")
        if nm in ("copy", "tolist"): return copy(x)
        if nm == "astype": return x
        if nm == "argsort" and len(a) >= 3 and not a[2] and not a[3]: return self.argsort(x)
        if nm == "sum" and not a[2] and not a[3] and isinstance(x, list): return sum(self.flat(x))
        raise No("method %s" % nm)
    def argsort(self, x):
        if len(shape(x)) != 1: raise No("argsort")
        return sorted(range(len(x)), key=lambda i: x[i])
    def flat(self, x): return [z for y in x for z in self.flat(y)] if isinstance(x, list) else [x]
    def call(self, n):
        nm, m = n.args[0], dict(n.args[1])
        ks = [x for x in m if x not in ("dtype", "copy", "order", "kind")]
        if nm in SAME and len(ks) == 1:
            x = self(m[ks[0]])
            if nm in ("builtins.int",): return each(int, x) if not isinstance(x, list) else self.no()
            if nm in ("builtins.abs", "numpy.abs"): return each(abs, x)
            if nm == "builtins.bool": return truth(x)
            return copy(x)
        if nm == "numpy.argsort" and ks == ["a"]: return self.argsort(self(m["a"]))
        if nm in ("numpy.sort", "builtins.sorted") and len(ks) == 1:
            x = self(m[ks[0]])
            if len(shape(x)) != 1: raise No("sort")
            return sorted(x)
        if nm in ("builtins.len",) and len(ks) == 1: return len(self(m[ks[0]]))
        if nm in SPARSE and set(ks) == {"arg1", "shape"}:
            x = self(m["arg1"])
            if not isinstance(x, list) or len(x) != 2 or len(x[1]) != 2: raise No("sparse form")
            return Sparse(x[1][0], x[1][1], x[0], self(m["shape"]))
        if nm in SPARSE and len(ks) == 1 and isinstance(self(m[ks[0]]), Sparse): return self(m[ks[0]])
        if nm in ("numpy.zeros", "numpy.ones", "numpy.full", "numpy.empty"):
            s = self(m["shape"]); s = s if isinstance(s, list) else [s]
            return full(s, None if nm.endswith("empty") else 0 if nm.endswith("zeros") else 1 if nm.endswith("ones") else self(m["fill_value"]))
        if nm in ("numpy.arange", "builtins.range") and len(ks) == 1: return list(range(self.integer(m[ks[0]])))
        if nm in ("builtins.sum", "numpy.sum", "builtins.min", "builtins.max", "numpy.min", "numpy.max", "builtins.any", "builtins.all", "numpy.any", "numpy.all", "numpy.prod", "math.prod") and len(ks) == 1:
            x = self(m[ks[0]])
            if not isinstance(x, list): raise No("reduction")
            f = nm.split(".")[1]
            if nm.startswith("numpy"): x = self.flat(x)
            elif any(isinstance(y, list) for y in x):
                if len(x) == 1 and f in ("min", "max", "sum"): x = x[0]
                else: raise No("reduction")
            return {"sum": sum, "min": min, "max": max, "any": any, "all": all, "prod": math.prod}[f](x)
        if nm in ("numpy.minimum", "numpy.maximum") and len(ks) == 2: return each(min if "min" in nm else max, *[self(m[k]) for k in ks])
        if nm in ("math.comb", "scipy.special.comb") and "k" in m and not set(m) - {"n", "N", "k", "exact", "repetition"}:
            if "repetition" in m and not isconst(m["repetition"], False): raise No("repetition")
            return math.comb(self.integer(m["N"] if "N" in m else m["n"]), self.integer(m["k"]))
        raise No("call %s" % nm)
    def no(self): raise No("form")

def fold(r, n, env):
    try: return Fold(r, dict(env))(n)
    except (TypeError, ValueError, ZeroDivisionError, OverflowError, KeyError, AttributeError, IndexError, RecursionError) as e: raise No(repr(e))
