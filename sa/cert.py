"""Identity testing for scalar terms (random interpretation in the sense of Gulwani and Necula).

An equality obligation p == q between two canonical terms derived from the source is decided in two steps: equal normal forms are
equal terms; different normal forms are compared at pseudo-random valuations of their leaves.  A valuation at which the two terms
differ is a certificate that the two formulas are different functions of their inputs; agreement at all valuations counts as
equality (up to the error probability of identity testing).  Terms containing a leaf without a meaning (`opq`, loop-carried
values, unmodelled library calls with structure) have no valuation and stay undecided.  Nothing of the analysed program is run."""
import hashlib, math, cmath
from fractions import Fraction
from . import poly, vg
from .poly import Poly, P

class NoVal(Exception): pass

def h01(*key):
    d = hashlib.sha256(repr(key).encode()).digest()
    return int.from_bytes(d[:7], "big") / float(1 << 56)

def rnd(x):
    if isinstance(x, complex):
        return (rnd(x.real), rnd(x.imag)) if abs(x.imag) > 1e-12 else rnd(x.real)
    if isinstance(x, float):
        if math.isnan(x) or math.isinf(x): return str(x)
        return round(x, 7) + 0.0
    return round(float(x), 7) + 0.0

_split = {}
NAN = ("isnan", "isfinite", "isinf")
def split(p):
    """[(other factors, positive 0/1 factors, coefficient)]"""
    k = id(p)
    x = _split.get(k)
    if x is None or x[0] is not p:
        out = []
        for m, c in p.t.items():
            out.append((tuple(ae for ae in m if not (ae[0].kind == "b" and ae[1] > 0)), tuple(ae[0] for ae in m if ae[0].kind == "b" and ae[1] > 0), c))
        if len(_split) > 200000: _split.clear()
        x = _split[k] = (p, out)
    return x[1]

MEMO = {"Sum", "Red", "f", "pow", "P", "b", "cj"}
_free = {}
def frees(a):
    """sorted free index variables of an atom; None when it has a condition that is not a term"""
    r = _free.get(a, 0)
    if r == 0:
        s = fset(a)
        r = _free[a] = None if s is None else tuple(sorted(s, key=lambda v: v.id))
    return r
_fs = {}
def fset(x):
    if isinstance(x, poly.Atom):
        if x in _fs: return _fs[x]
        _fs[x] = None
        if x.kind == "iv": r = frozenset([x])
        elif x.kind == "b" and x.args[0] in ("c", "hit") or x.kind in ("pre", "mpos", "mk"): r = None
        elif x.kind == "Sum":
            r = fset((x.args[0], x.args[1]))
            if r is not None: r = r - {d[0] for d in x.args[0]}
        elif x.kind == "Red" or x.kind == "b" and x.args[0] == "all":
            r = fset((x.args[1], x.args[2]))
            if r is not None: r = r - {d[0] for d in x.args[1]}
        else: r = fset(x.args)
        _fs[x] = r
        return r
    if isinstance(x, Poly): x = tuple(a for m in x.t for a, e in m)
    if isinstance(x, tuple):
        out = frozenset()
        for y in x:
            z = fset(y)
            if z is None: return None
            out |= z
        return out
    return frozenset()

# three in eight valuations draw its leaves close together, close (or very close) to the lower end of their range, or from three values only, so that
# code that depends on leaves being close, small or equal is not missed
PROFILE = {3: "cluster", 5: "small", 7: "ties"}
RAW = {"iv", "dim", "ex", "rng"}
SIZEGUARD = {}
def sizeguard(p):
    """p = k * (combination of array sizes and integer parameters + C) with a constant C no small example reaches -> (rest, C, sign of k) or False"""
    c0 = p.t.get((), 0)
    if not c0 or len(p.t) < 2: return False
    co = []
    for m, k in p.t.items():
        if m == (): continue
        co.append(abs(k))
        for a, e in m:
            if not (a.kind in ("dim", "iv") or a.kind == "v" and len(a.args) > 1 and a.args[1] == "i"): return False
    if not all(isinstance(x, (int, Fraction)) for x in co + [c0]): return False
    k = max(co)
    C = c0 / Fraction(k)
    if abs(C) < 16: return False
    return (p - P(c0)) * P(Fraction(1) / k), C

class Env:
    """gen: leaf name -> function(env, idx tuple)->value ; dims: name -> int ; vals: atom -> value"""
    def __init__(self, seed, gen=None, dims=None, fix=None, opq=False, fns=None, bnode=None, ctx=None):
        self.seed, self.gen, self.dimv = seed, gen or {}, dict(dims or {})
        self.ctx = ctx; self.budget = None; self.maskn = {}; self.strict = False; self.exact = False; self.tol = 1e-11; self.vals = dict(fix or {}); self.memo = {}; self.opq = opq; self.fns = fns or {}; self.bnode = bnode
        self.profile = PROFILE.get(seed[-1] % 8) if isinstance(seed, tuple) and seed and isinstance(seed[-1], int) and not isinstance(seed[-1], bool) else None
    def u(self, *k):
        x = h01(self.seed, *k)
        if self.profile is None or k and k[0] in RAW: return x
        if self.profile == "cluster": return .5 + (x - .5) * .01
        if self.profile == "small": return x * (2e-4 if self.seed[-1] % 16 == 13 else .02)
        if self.profile == "ties": return (math.floor(3 * x) + .5) / 3
        return x
    def raw(self, *k): return h01(self.seed, *k)
    def leafkey(self, b): return b if isinstance(b, str) else poly.nodekey(b)
    def typed(self, dt, *k):
        x = self.u(*k)
        if dt == "b": return 1 if x < .5 else 0
        if dt == "i": return int(x * 5)
        if dt == "c": return complex(2 * x - 1, 2 * self.u("im", *k) - 1)
        return 0.2 + 1.6 * x
    def ev(self, p, bind=()):
        """value of a Poly under bound-variable binding (dict)"""
        r = 0
        b = dict(bind)
        # monomials that differ by 0/1 factors only are added first, so that guarded terms which cancel are not evaluated
        groups = {}; off = {}
        for rest, bs, c in split(p):
            on = True; err = None
            for a in bs:
                try:
                    if self.at(a, b) == 0: on = False; break
                except NoVal as ex: err = ex
            if on and err is not None: raise err
            if on: groups[rest] = groups.get(rest, 0) + c
            elif self.strict == 2: off[rest, frozenset(a for a in bs if a.args[0] not in NAN)] = off.get((rest, frozenset(a for a in bs if a.args[0] not in NAN)), 0) + (c if self.nanon(bs, b) else 0)
            elif self.strict:
                for a2, e2 in rest:
                    if e2 < 0:
                        try: v2 = self.at(a2, b)
                        except NoVal: continue
                        if v2 != v2: r = float("nan")
        # terms switched off by a factor that is zero still hand on their not-a-numbers, unless a test for those switches them off
        for (rest, _), c in off.items():
            if c == 0: continue
            for a2, e2 in rest:
                try: v2 = self.at(a2, b)
                except NoVal: continue
                if v2 != v2: r = float("nan")
        for ms, c in groups.items():
            if c == 0: continue
            t = c if self.exact else c.numerator / c.denominator if c.denominator != 1 else c.numerator
            for a, e in ms:
                v = self.at(a, b)
                if e == 1: t = t * v
                elif e.denominator == 1:
                    if v == 0 and e < 0: raise NoVal("division by zero")
                    t = t * v ** int(e)
                else:
                    if isinstance(v, complex) and abs(v.imag) < 1e-9: v = v.real
                    if isinstance(v, (int, float)) and v < 0:
                        if v > -1e-9: v = 0.0
                        else: t = float("nan"); break
                    if v == 0 and e < 0: raise NoVal("division by zero")
                    t = t * self.root(v, e)
            r = r + t
        return r
    def nanon(self, bs, b):
        for a in bs:
            if a.args[0] in NAN:
                try:
                    if self.at(a, b) == 0: return False
                except NoVal: pass
        return True
    def root(self, v, e):
        if self.exact and isinstance(v, (int, Fraction)) and v >= 0 and e.denominator == 2:
            f = Fraction(v)
            n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if n * n == f.numerator and d * d == f.denominator: return Fraction(n, d) ** e.numerator
        return v ** float(e) if not isinstance(v, Fraction) else float(v) ** float(e)
    def num(self, p, b):
        v = self.ev(p, b)
        if isinstance(v, complex):
            if abs(v.imag) > 1e-9: raise NoVal("complex in real position")
            v = v.real
        return v
    def integer(self, p, b):
        v = self.num(p, b)
        if abs(v - round(v)) > 1e-9: raise NoVal("non-integer index")
        return int(round(v))
    def at(self, a, b):
        if a in b: return b[a]
        if a in self.vals: return self.vals[a]
        if not b:
            r = self.memo.get(a)
            if r is None: r = self.memo[a] = self._at(a, b)
            return r
        if a.kind in MEMO:
            fv = frees(a)
            if fv is not None:
                k = (a, tuple([b[v] if v in b else None for v in fv]))
                r = self.memo.get(k)
                if r is None:
                    r = self._at(a, b)
                    if len(self.memo) < 400000: self.memo[k] = r
                return r
        return self._at(a, b)
    def _at(self, a, b):
        k = a.kind
        if k == "pi": return math.pi
        if k == "I": return 1j
        if k == "nan": return float("nan")
        if k == "inf": return float("inf")
        if k == "div0": raise NoVal("division by zero")
        if k == "dim":
            if len(a.args) == 1:
                if a.args[0] not in self.dimv: self.dimv[a.args[0]] = 3 + int(self.u("dim", a.args[0]) * 2)
                return self.dimv[a.args[0]]
            if a.args[0] == "mask" and self.ctx is not None:
                if a not in self.maskn:
                    try:
                        t = self.ctx.ty(a.args[1])
                        if t.rank != 1: raise NoVal("derived dimension")
                        q = self.ctx.var("maskq", 0, t.shape[0]); p = self.ctx.close(self.ctx.at(a.args[1], (q,)))
                    except NoVal: raise
                    except Exception: raise NoVal("derived dimension")
                    qa = q.single()[1][0][0]
                    self.maskn[a] = sum(1 for x in range(self.integer(t.shape[0], b)) if abs(self.ev(p, {**dict(b), qa: x})) > 1e-11)
                return self.maskn[a]
            if a.args[0] in self.dimv: return self.dimv[a.args[0]]
            if a.args[0] in ("nsupp", "ndgm", "nedges"): return 3 + int(self.u("dim", poly.astr(a)) * 4)
            raise NoVal("derived dimension")
        if k == "iv":
            raise NoVal("free index")
        if k == "v":
            nm, dt = a.args
            if nm in self.gen: return self.gen[nm](self, ())
            return self.typed(dt, "v", nm)
        if k == "el":
            base, idx, dt = a.args
            key = self.leafkey(base)
            if not isinstance(base, str) and base.op in ("mu", "final", "last") and not self.free(base) and key not in self.gen: raise NoVal("loop value")
            vals = tuple(rnd(self.ev(x, b)) for x in idx)
            if not isinstance(base, str) and base.op == "call" and base.args[0] in ("numpy.random.random", "numpy.random.rand") and key not in self.gen: return self.u("rng", key, vals)
            if key in self.gen: return self.gen[key](self, tuple(int(v) if float(v).is_integer() else v for v in vals))
            return self.typed(dt, "el", key, vals)
        if k == "pre":
            r = self.preimage(a.args[0], a.args[1], b)
            if r is None: raise NoVal("no preimage")
            return r
        if k == "mk":
            pos = self.positions(a.args[0], b)
            ix = tuple(self.integer(q, b) for q in a.args[1])
            if ix not in pos: raise NoVal("position outside a mask")
            return pos.index(ix)
        if k == "mpos":
            pos = self.positions(a.args[0], b)
            i = self.integer(a.args[2], b)
            if not -len(pos) <= i < len(pos): raise NoVal("position in a mask")
            return pos[i][a.args[1]]
        if k == "opq" and isinstance(a.args[0], vg.Node) and self.leafkey(a.args[0]) in self.gen: return self.gen[self.leafkey(a.args[0])](self, tuple(rnd(self.ev(x, b)) for x in a.args[1]))
        if k == "opq" and self.free(a.args[0]): return self.typed(a.args[2] if len(a.args) > 2 and isinstance(a.args[2], str) else "f", "opq", self.leafkey(a.args[0]), tuple(rnd(self.ev(x, b)) for x in a.args[1]))
        if k == "cj": 
            v = self.at(a.args[0], b)
            return v.conjugate() if isinstance(v, complex) else v
        if k == "P": return self.ev(a.args[0], b)
        if k == "pow":
            x, e = self.ev(a.args[0], b), self.num(a.args[1], b)
            if x == 0 and e < 0: raise NoVal("division by zero")
            if isinstance(x, (int, float)) and x < 0 and e != int(e): return float("nan")
            return x ** (int(e) if float(e).is_integer() else e)
        if k == "b": return self.boolat(a, b)
        if k == "mp": return self.matpow(a, b)
        if k == "Sum": return self.summ(a, b)
        if k == "Red": return self.red(a.args[0], a.args[1], a.args[2], b)
        if k == "f": return self.fun(a.args[0], a.args[1], b)
        raise NoVal(k)
    def free(self, n):
        """may a node without a meaning stand for any value (`opq` is True, or a predicate on nodes)?"""
        return bool(self.opq(n)) if callable(self.opq) and isinstance(n, vg.Node) else self.opq is True
    def guard_value(self, p, b):
        """a size compared with a large constant: sizes are small here, so the constant is scaled down into their range and both sides
        of the comparison are reached (a property that holds for every size holds wherever the code switches between two ways)"""
        g = SIZEGUARD.get(p)
        if g is None: g = SIZEGUARD[p] = sizeguard(p)
        if g is False: return None
        rest, C = g
        for m in rest.t:
            for a, e in m:
                if a.kind != "iv": continue
                # a position: its range must come from sizes, not from constants of the same order
                r = self.ctx.ranges.get(a) if self.ctx is not None else None
                if r is None or any(abs(x.t.get((), 0)) >= 16 or not all(y.kind in ("dim", "iv", "v") for y in x.atoms()) for x in map(P, r[:2])): return None
        v = self.num(rest, b)
        if abs(C) <= max([abs(v)] + [x for x in self.dimv.values() if isinstance(x, (int, float))]): return None
        K = 1 + int(self.u("sizeguard", str(abs(C))) * (max([abs(v)] + [x for x in self.dimv.values() if isinstance(x, (int, float))]) + 1))
        return v + (K if C > 0 else -K)
    def capped(self, args, xs, b):
        """sizes capped by a large constant: the cap is scaled down as in guard_value"""
        if len(xs) < 2 or any(isinstance(x, complex) for x in xs): return xs
        ps = [P(q) for q in args]
        key = tuple(ps)
        if key not in SIZEGUARD:
            ref = min(range(len(ps)), key=lambda i: abs(ps[i].t.get((), 0)) if isinstance(ps[i].t.get((), 0), (int, Fraction)) else 1e9)
            SIZEGUARD[key] = (ref, [sizeguard(q - ps[ref]) if i != ref else False for i, q in enumerate(ps)])
        ref, gs = SIZEGUARD[key]
        if not any(gs): return xs
        return [xs[ref] + self.guard_value(ps[i] - ps[ref], b) * abs(self.scale_of(ps[i] - ps[ref])) if g else x for i, (x, g) in enumerate(zip(xs, gs))]
    def scale_of(self, p): return max(abs(k) for m, k in p.t.items() if m != ())
    def boolat(self, a, b):
        k = a.args[0]
        if k in ("lt0", "eq0"):
            v = self.guard_value(a.args[1], b)
            if v is None: v = self.num(a.args[1], b)
            if v != v: return 0
            if k == "lt0": return 1 if v < -self.tol else 0
            return 1 if abs(v) <= self.tol else 0
        if k == "all": return self.red("all", a.args[1], a.args[2], b)
        if k == "c":
            if self.bnode is not None:
                r = self.bnode(self, a.args[1], b)
                if r is not None: return r
            raise NoVal("condition")
        if k in ("isnan", "isfinite", "isinf"):
            v = self.ev(a.args[1], b)
            f = {"isnan": cmath.isnan, "isfinite": cmath.isfinite, "isinf": cmath.isinf}[k]
            return 1 if f(v) else 0
        if k == "hit": return 1 if self.preimage(a.args[1][0], a.args[2], b) is not None else 0
        raise NoVal("bool " + str(k))
    def matpow(self, a, b):
        """entry of a power of a small square matrix"""
        node, idx, ivs, n, dt = a.args
        c = self.ctx
        if c is None: raise NoVal("matrix power")
        cache = c.__dict__.setdefault("_mpow", {})
        try:
            if node not in cache:
                t = c.ty(node)
                if t.rank != 2 or t.shape[0].const() is None: raise NoVal("matrix power of an unknown size")
                d = int(t.shape[0].const())
                cache[node] = [[c.close(c.at(node, (P(i), P(j)))) for j in range(d)] for i in range(d)]
        except NoVal: raise
        except Exception as e: raise NoVal("matrix power: %s" % e)
        M = [[self.ev(p, b) for p in r] for r in cache[node]]
        e = self.integer(n, b); d = len(M)
        if not 0 <= e <= 200: raise NoVal("exponent")
        R = [[1 if i == j else 0 for j in range(d)] for i in range(d)]
        for _ in range(e): R = [[sum(R[i][l] * M[l][j] for l in range(d)) for j in range(d)] for i in range(d)]
        i, j = (self.integer(q, b) for q in idx)
        if not (0 <= i < d and 0 <= j < d): raise NoVal("index")
        return R[i][j]
    def positions(self, m, b):
        """index tuples at which a boolean array holds, in order"""
        import itertools
        c = self.ctx
        if c is None: raise NoVal("mask")
        k = ("mpos", m)
        if k not in self.maskn:
            try:
                t = c.ty(m); qs = [c.var("mposq%d" % j, 0, d) for j, d in enumerate(t.shape)]
                self.maskn[k] = (t.shape, [q.single()[1][0][0] for q in qs], c.close(c.at(m, tuple(qs))))
            except Exception as e: raise NoVal("mask: %s" % e)
        sh, qa, p = self.maskn[k]
        if ("closed", m) not in self.maskn:
            self.maskn["closed", m] = not ((free_ivs(p) | set().union(*[free_ivs(d) for d in sh])) - set(qa))
        if self.maskn["closed", m]:
            if ("pos", m) not in self.maskn: self.maskn["pos", m] = self.positions_at(sh, qa, p, {})
            return self.maskn["pos", m]
        return self.positions_at(sh, qa, p, b)
    def positions_at(self, sh, qa, p, b):
        import itertools
        return [ix for ix in itertools.product(*[range(self.integer(d, b)) for d in sh]) if abs(self.ev(p, {**dict(b), **dict(zip(qa, ix))})) > 1e-11]
    def preimage(self, key, targets, b):
        """last position at which the index arrays of a scattered store equal the target index"""
        c = self.ctx
        if c is None: raise NoVal("scattered store")
        k = ("pre", key)
        if k not in self.maskn:
            try:
                n = None
                for x in key.args:
                    t = c.ty(x)
                    if t.rank == 1: n = t.shape[0]
                q = c.var("preq", 0, n); qa = q.single()[1][0][0]
                self.maskn[k] = (n, qa, [c.close(c.at(x, (q,)) if c.ty(x).rank else c.val(x)) for x in key.args])
            except Exception as e: raise NoVal("scattered store: %s" % e)
        n, qa, ps = self.maskn[k]
        tv = [self.integer(x, b) for x in targets]
        for j in range(self.integer(n, b) - 1, -1, -1):
            if all(self.integer(p, {**dict(b), qa: j}) == y for p, y in zip(ps, tv)): return j
        return None
    def rng(self, dims, b):
        if not dims:
            yield b; return
        (v, lo, hi) = dims[0]
        for i in range(self.integer(lo, b), self.integer(hi, b)):
            if self.budget is not None:
                self.budget -= 1
                if self.budget < 0: raise NoVal("too many terms")
            b2 = dict(b); b2[v] = i
            yield from self.rng(dims[1:], b2)
    def summ(self, a, b):
        body = Poly({a.args[1]: Fraction(1)})
        r = 0
        # outer variables have the more negative number and may bound the inner ones: iterate until all bounds are closed
        dims = list(a.args[0])
        order = []
        rest = dims[:]
        names = {d[0] for d in dims}
        while rest:
            for d in rest:
                if not any(poly.occurs_p(o[0], d[1]) or poly.occurs_p(o[0], d[2]) for o in rest if o is not d):
                    order.append(d); rest.remove(d); break
            else: raise NoVal("bounds")
        for bb in self.rng(order, b): r = r + self.ev(body, bb)
        return r
    def red(self, kind, dims, body, b):
        vs = [self.ev(body, bb) for bb in self.rng(list(dims), b)]
        if kind == "all": return 1 if all(abs(v) > 1e-11 for v in vs) else 0
        if kind == "prod":
            r = 1
            for v in vs: r = r * v
            return r
        if not vs: raise NoVal("empty reduction")
        vs = [v.real if isinstance(v, complex) else v for v in vs]
        if kind == "max": return max(vs)
        if kind == "argmax":
            return self.integer(dims[0][1], b) + vs.index(max(vs))
        raise NoVal(kind)
    def fun(self, name, args, b):
        xs = [self.ev(x, b) for x in args]
        xs = [x.real if isinstance(x, complex) and abs(x.imag) < 1e-12 else x for x in xs]
        if name in self.fns: return self.fns[name](self, *xs)
        x = xs[0]
        if name.startswith("fn:"): return self.typed("f", name, tuple(rnd(x) for x in xs))
        if name == "nanz": return 0 if x != x else x
        if name == "nan0": return 0 if x != x else math.copysign(1.7976931348623157e308, x) if isinstance(x, float) and math.isinf(x) else x
        if name == "nan3": return xs[1] if x != x else x if not (isinstance(x, float) and math.isinf(x)) else xs[2] if x > 0 else xs[3]
        if any(isinstance(y, float) and math.isnan(y) for y in xs): return float("nan")
        c = isinstance(x, complex)
        try:
            if name == "exp": return cmath.exp(x) if c else math.exp(x)
            if name == "cos": return cmath.cos(x) if c else math.cos(x)
            if name == "sin": return cmath.sin(x) if c else math.sin(x)
            if name == "tan": return cmath.tan(x) if c else math.tan(x)
            if name == "abs": return abs(x)
            if name == "log": return math.log(x)
            if name == "frac": return x - math.floor(x + 1e-12) if not c else _no()
            if name == "arccos": return math.acos(max(-1, min(1, x))) if abs(x) < 1 + 1e-9 else float("nan")
            if name == "arcsin": return math.asin(max(-1, min(1, x))) if abs(x) < 1 + 1e-9 else float("nan")
            if name == "arctan": return math.atan(x)
            if name == "arctan2": return math.atan2(xs[0], xs[1])
            if name == "angle": return cmath.phase(x)
            if name in ("min", "max"):
                xs = self.capped(args, xs, b)
                return min(xs) if name == "min" else max(xs)
            if name == "rint": return float(round(x))
            if name == "trunc": return math.trunc(x + (1e-12 if x > 0 else -1e-12))
            if name == "sinh": return math.sinh(x)
            if name == "cosh": return math.cosh(x)
            if name == "tanh": return math.tanh(x)
            if name == "fmod": return math.fmod(*xs)
            if name == "comb": return math.comb(int(round(x)), int(round(xs[1])))
        except (ValueError, OverflowError, TypeError):
            raise NoVal("domain of " + name)
        raise NoVal("function " + name)

def plain(*a, **k):
    """environment without special valuations, for leaves with structure of their own (bases, Gram matrices)"""
    e = Env(*a, **k); e.profile = None
    return e

def _no(): raise NoVal("frac of complex")

def free_ivs(p):
    out = set()
    st = [(p, frozenset())]
    seen = set()
    while st:
        x, bd = st.pop()
        if isinstance(x, Poly):
            for m in x.t:
                for a, e in m: st.append((a, bd))
        elif isinstance(x, tuple):
            for y in x: st.append((y, bd))
        elif isinstance(x, poly.Atom):
            if (x, bd) in seen: continue
            seen.add((x, bd))
            if x.kind == "iv":
                if x not in bd: out.add(x)
            elif x.kind == "Sum":
                nb = bd | {d[0] for d in x.args[0]}
                st += [(x.args[0], nb), (Poly({x.args[1]: Fraction(1)}), nb)]
            elif x.kind == "Red" or (x.kind == "b" and x.args[0] == "all"):
                nb = bd | {d[0] for d in x.args[1]}
                st += [(x.args[1], nb), (x.args[2], nb)]
            elif x.kind in ("el", "opq"): st.append((x.args[1], bd))
            else: st.extend((y, bd) for y in x.args if isinstance(y, (Poly, tuple, poly.Atom)))
    return out

class Verdict:
    def __init__(self, kind, how="", witness=None): self.kind, self.how, self.witness = kind, how, witness
    def __repr__(self): return "%s(%s)" % (self.kind, self.how)

def differ(x, y):
    xn = isinstance(x, (int, float, complex)) and x != x
    yn = isinstance(y, (int, float, complex)) and y != y
    if xn or yn: return xn != yn
    if x == y: return False
    try: return abs(x - y) > 1e-6 * max(1, abs(x), abs(y))
    except OverflowError: return True

BOOST = 1      # thorough tier: more valuations

def decide(ctx, p, q, gen=None, dims=None, trials=24, where=None, seed=1, fns=None, bnode=None, need=6, fixiv=None):
    """-> Verdict eq / ne / unk.  where(env, ivvals)->bool filters valuations (preconditions)."""
    p, q = P(p), P(q)
    if poly.equal(p, q): return Verdict("eq", "normal form")
    fv = sorted(free_ivs(p) | free_ivs(q), key=lambda a: (a.args[0], a.sortkey()))
    good = 0; why = None; bad = None; t = -1; trials *= BOOST; lim = trials
    while t + 1 < lim:
        t += 1
        env = Env((seed, t), gen, dims, fns=fns, bnode=bnode, ctx=ctx)
        try:
            ok = True
            for v in fv:
                r = ctx.ranges.get(v) if ctx is not None else None
                if r is None: raise NoVal("range of index")
                lo, hi = env.integer(r[0], {}), env.integer(r[1], {})
                if hi <= lo: ok = False; break
                env.vals[v] = lo + int(env.u("iv", v.args[0], t, poly.astr(v), len(env.vals)) * (hi - lo))
            if not ok: continue
            if where is not None and not where(env): continue
            x, y = env.ev(p), env.ev(q)
        except NoVal as e:
            why = str(e); continue
        except (OverflowError, ZeroDivisionError, ValueError) as e:
            why = str(e); continue
        if differ(x, y):
            if bad is None:
                bad = t; lim = trials * 6
                continue
            return Verdict("ne", "differs at a valuation", {"valuation": t, "left": str(x), "right": str(y), "left_term": poly.pstr(p)[:600], "right_term": poly.pstr(q)[:600]})
        good += 1
    if bad is not None: return Verdict("unk", "a single valuation differs")
    if good >= need:
        cs = sizes(p, q) if sizes_on else []
        for d, n in cs:
            off = 0
            for t in range(8):
                env = Env((seed, "size", t), gen, {**(dims or {}), d: n}, fns=fns, bnode=bnode, ctx=ctx); env.budget = 60000
                try:
                    ok = True
                    for v in fv:
                        lo, hi = env.integer(ctx.ranges[v][0], {}), env.integer(ctx.ranges[v][1], {})
                        if hi <= lo: ok = False; break
                        env.vals[v] = lo + int(env.u("iv", v.args[0], t, poly.astr(v), len(env.vals)) * (hi - lo))
                    if not ok or where is not None and not where(env): continue
                    x, y = env.ev(p), env.ev(q)
                except (NoVal, OverflowError, ZeroDivisionError, ValueError, KeyError): continue
                if differ(x, y):
                    off += 1
                    if off >= 2: return Verdict("ne", "differs when %s is %d" % (d, n), {"valuation": "%s = %d" % (d, n), "left": str(x), "right": str(y), "left_term": poly.pstr(p)[:600], "right_term": poly.pstr(q)[:600]})
                elif not off and t >= 3: break
        return Verdict("eq", "identity test, %d valuations" % good + (", sizes " + ", ".join("%s=%d" % c for c in cs) if cs else ""))
    return Verdict("unk", why or "no valuation")

sizes_on = True

def sizes(*ps):
    """sizes at which a comparison between an array length and a constant, in one of the terms, changes: [(dimension, value)]"""
    out = []; seen = set(); st = list(ps)
    def add(l):
        ds = [a for a in l.atoms()]
        if not ds or not all(a.kind == "dim" and len(a.args) == 1 for a in ds): return
        for a in ds:
            if poly.occurs_p(a, l - poly.P(a) * l.t.get(((a, Fraction(1)),), 0)): continue
            k = l.t.get(((a, Fraction(1)),), 0)
            if not k: continue
            rest = poly.subst_p(l, {b: poly.P(0 if b is a else 4) for b in ds}).const()
            if rest is None: continue
            x = -rest / k
            f = math.floor(x)
            for c in (f + 1, f, f - 1, f + 2):
                if 6 <= c <= 400 and (a.args[0], c) not in out: out.append((a.args[0], c))
    while st:
        x = st.pop()
        if isinstance(x, Poly):
            for m in x.t:
                for a, e in m: st.append(a)
        elif isinstance(x, tuple): st += list(x)
        elif isinstance(x, poly.Atom):
            if x in seen: continue
            seen.add(x)
            if x.kind == "b" and x.args[0] in ("lt0", "eq0") and isinstance(x.args[1], Poly): add(x.args[1])
            if x.kind == "f" and x.args[0] in ("min", "max"):
                fl = list(x.args[1])
                for i in range(len(fl)):
                    for j in range(i): add(fl[i] - fl[j])
            st += [y for y in x.args if isinstance(y, (Poly, tuple, poly.Atom))]
    return out[:8]
