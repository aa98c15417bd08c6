"""Canonical scalar terms: polynomials with rational coefficients over hash-consed atoms.

Atoms carry rational exponents; Iverson brackets are idempotent 0/1 atoms; sums over index ranges are atoms with
canonically named bound variables; I*I = -1; pi is symbolic.  Two terms are equal iff their canonical forms coincide
(after clearing denominators, see `equal`)."""
from fractions import Fraction
import itertools, math

_AT = {}
_ctr = itertools.count(1)

class Atom:
    __slots__ = ("kind", "args", "id", "_s")
    def __repr__(self): return astr(self)
    def __hash__(self): return self.id
    def __eq__(self, o): return self is o
    def __lt__(self, o): return self.sortkey() < o.sortkey()
    def sortkey(self):
        if self._s is None: self._s = akey(self)
        return self._s

def atom(kind, *args):
    k = (kind,) + tuple(("T", tuple(args_key(y) for y in x)) if isinstance(x, tuple) else args_key(x) for x in args)
    a = _AT.get(k)
    if a is None:
        a = Atom(); a.kind, a.args, a.id, a._s = kind, args, next(_ctr), None
        _AT[k] = a
    return a

def args_key(x):
    if isinstance(x, tuple): return ("T",) + tuple(args_key(y) for y in x)
    if isinstance(x, (Poly, Atom)): return x
    return (type(x).__name__, x)

def akey(a):
    """structural sort key (stable across runs: no ids)"""
    return (a.kind, skey(a.args))
def skey(x):
    if isinstance(x, tuple): return "(" + ",".join(skey(y) for y in x) + ")"
    if isinstance(x, Poly): return pstr(x)
    if isinstance(x, Atom): return astr(x)
    return repr(x) if not hasattr(x, "op") else nodekey(x)
def nodekey(n):
    from . import vg
    return vg.show(n, 4)

class Poly:
    __slots__ = ("t", "_h", "_str")
    def __init__(self, t):
        self.t = t; self._h = None; self._str = None
    def __hash__(self):
        if self._h is None: self._h = hash(frozenset(self.t.items()))
        return self._h
    def __eq__(self, o): return isinstance(o, Poly) and self.t == o.t
    def __add__(self, o):
        o = P(o)
        if not self.t: return o
        if not o.t: return self
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m, 0) + c
            if v == 0: r.pop(m, None)
            else: r[m] = v
        return Poly(r)
    __radd__ = __add__
    def __neg__(self): return Poly({m: -c for m, c in self.t.items()})
    def __sub__(self, o): return self + (-P(o))
    def __rsub__(self, o): return P(o) - self
    def __mul__(self, o):
        o = P(o)
        r = {}
        extra = None
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                q = mmul(m1, m2)
                for m, c in q.t.items():
                    v = r.get(m, 0) + c * c1 * c2
                    if v == 0: r.pop(m, None)
                    else: r[m] = v
        return Poly(r)
    __rmul__ = __mul__
    def __pow__(self, e): return power(self, e)
    def __truediv__(self, o): return self * power(P(o), -1)
    def __repr__(self): return pstr(self)
    def is_const(self): return all(m == () for m in self.t)
    def const(self):
        if not self.t: return Fraction(0)
        if self.is_const(): return self.t[()]
        return None
    def atoms(self):
        s = set()
        for m in self.t:
            for a, e in m: s.add(a)
        return s
    def single(self):
        """(coeff, monomial) if one term"""
        if len(self.t) == 1: return next(iter(((c, m) for m, c in self.t.items())))
        return None

def P(x):
    if isinstance(x, Poly): return x
    if isinstance(x, Atom): return Poly({((x, Fraction(1)),): Fraction(1)})
    if isinstance(x, bool): return Poly({(): Fraction(1)} if x else {})
    if isinstance(x, (int, Fraction)): return Poly({(): Fraction(x)} if x else {})
    if isinstance(x, float): return fconst(x)
    if isinstance(x, complex): return fconst(x.real) + fconst(x.imag) * P(I)
    raise TypeError(repr(x))

ZERO = Poly({}); ONE = Poly({(): Fraction(1)})
I = atom("I"); PI = atom("pi"); NAN = atom("nan"); INF = atom("inf")
HALF = Fraction(1, 2)

def fconst(x):
    if x != x: return P(NAN)
    if x in (float("inf"),): return P(INF)
    if x == float("-inf"): return -P(INF)
    if x != 0:
        q = Fraction(x / math.pi).limit_denominator(48)
        if q != 0 and abs(float(q) * math.pi - x) <= 1e-13 * abs(x) and Fraction(x).denominator > 2**20:
            return P(PI) * P(q)
    f = Fraction(x)
    g = f.limit_denominator(10**6)
    if f != g and abs(float(g) - x) <= 1e-16 * abs(x): f = g
    elif float(g) == x: f = g
    return Poly({(): f}) if f else ZERO

def mono(m): return Poly({m: Fraction(1)})

def mmul(m1, m2):
    """product of two monomials as Poly (reductions applied)"""
    if not m1: return mono(m2)
    if not m2: return mono(m1)
    d = {}
    for a, e in m1: d[a] = e
    for a, e in m2: d[a] = d.get(a, 0) + e
    return normmono(d)

def normmono(d):
    coef = Fraction(1)
    extra = []
    out = []
    for a, e in d.items():
        if e == 0: continue
        if a is I and e.denominator == 1:
            k = int(e) % 4
            if k == 0: continue
            if k == 2: coef = -coef; continue
            if k == 3: coef = -coef
            out.append((a, Fraction(1))); continue
        if a.kind == "b" and e > 0:
            out.append((a, Fraction(1))); continue
        if a.kind == "P" and e.denominator == 1 and e > 0:
            extra.append(ipow(a.args[0], int(e))); continue
        if a.kind == "P" and e >= 1:
            k = int(e); extra.append(ipow(a.args[0], k)); r = e - k
            if r: out.append((a, r))
            continue
        if a.kind == "f" and a.args[0] == "sin" and e.denominator == 1 and e >= 2:
            k = int(e) // 2
            c = P(atom("f", "cos", a.args[1]))
            extra.append(ipow(ONE - c * c, k))
            if int(e) % 2: out.append((a, Fraction(1)))
            continue
        if a.kind == "f" and a.args[0] == "abs" and e.denominator == 1 and e >= 2:
            x = a.args[1][0]
            k = int(e) // 2
            extra.append(ipow(x * conj(x), k))
            if int(e) % 2: out.append((a, Fraction(1)))
            continue
        if a.kind == "f" and a.args[0] == "abs" and e.denominator == 1 and e <= -2:
            x = a.args[1][0]
            k = int(-e) // 2
            extra.append(power(x * conj(x), -k))
            if int(-e) % 2: out.append((a, Fraction(-1)))
            continue
        out.append((a, e))
    # exp(a)*exp(b)
    ex = [(a, e) for a, e in out if a.kind == "f" and a.args[0] == "exp"]
    if len(ex) > 1 or (ex and ex[0][1] != 1):
        s = ZERO
        for a, e in ex: s = s + a.args[1][0] * P(e)
        out = [x for x in out if not (x[0].kind == "f" and x[0].args[0] == "exp")]
        extra.append(fexp(s))
    # powers with the same base: pow(b,x)*pow(b,y)
    pw = {}
    for a, e in out:
        if a.kind == "pow": pw.setdefault(a.args[0], []).append((a, e))
    for b, l in pw.items():
        if len(l) > 1 or l[0][1] != 1:
            s = ZERO
            for a, e in l: s = s + a.args[1] * P(e)
            out = [x for x in out if not (x[0].kind == "pow" and x[0].args[0] == b)]
            extra.append(gpow(b, s))
    out.sort(key=lambda t: t[0].sortkey())
    # delta substitution: [x == v] lets us rewrite v := x elsewhere in the monomial (v bound variable)
    r = Poly({tuple(out): coef})
    for x in extra: r = r * x
    return delta(r) if any(a.kind == "b" for a, _ in out) else r

def delta(p):
    """[x==v]*m(v) -> [x==v]*m(x) for loop variables v"""
    r = None
    for m, c in p.t.items():
        m2 = None
        for a, e in m:
            if a.kind == "b" and a.args[0] == "eq0":
                sg = a.args[1].single()
                if sg is not None and len(sg[1]) == 1 and sg[1][0][0].kind != "iv":
                    if any(b is sg[1][0][0] and f > 0 for b, f in m): m2 = ZERO; break
                    continue
                s = solve_bound(a.args[1])
                if s is None: continue
                v, val = s
                rest = [(b, f) for b, f in m if b is not a]
                w, wal = solve_bound(a.args[1], -1)
                if any(occurs(w if is_state(b) else v, b) for b, _ in rest):
                    q = P(a)
                    for b, f in rest: q = q * power_at(subst_atom(b, {w: wal} if is_state(b) else {v: val}), f)
                    m2 = q * P(c) if True else None
                    break
        if m2 is not None:
            if r is None: r = Poly({k: x for k, x in p.t.items()})
            r = r - Poly({m: c}) + m2
    return r if r is not None else p

def is_state(b):
    """leaf reading the loop-carried value itself: its index is rewritten towards the queried one so that folds recognise it"""
    return b.kind in ("el", "opq") and getattr(b.args[0], "op", None) == "mu"

def power_at(p, f):
    return power(p, f)

def solve_bound(p, sense=1):
    """p == 0 solved for a loop variable: (var atom, value Poly) choosing the innermost loop variable"""
    best = None
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "iv" and abs(c) == 1:
            v = m[0][0]
            val = -(p - Poly({m: c})) * P(1 / c)
            if occurs_p(v, val): continue
            if best is None or (ivorder(v) > ivorder(best[0])) == (sense > 0): best = (v, val)
    return best

def ivorder(v):
    return (v.args[0] if v.args and isinstance(v.args[0], int) else 0, v.sortkey())

def ipow(p, k):
    r = ONE
    for _ in range(k): r = r * p
    return r

def power(p, e):
    e = Fraction(e) if not isinstance(e, Poly) else e
    if isinstance(e, Poly):
        c = e.const()
        if c is None: return gpow(p, e)
        e = c
    if e == 0: return ONE
    if e == 1: return p
    if not p.t: return ZERO if e > 0 else P(atom("div0"))
    if e.denominator == 1 and e > 0: return ipow(p, int(e))
    s = p.single()
    if s is not None:
        c, m = s
        if e.denominator == 1:
            d = {a: x * e for a, x in m}
            if any(a is I for a in d):
                pass
            return P(c ** int(e)) * normmono(d)
        # fractional: pull out positive rational square roots and known non-negative atoms
        if e.denominator == 2 and c > 0:
            r = Fraction(math.isqrt(c.numerator), math.isqrt(c.denominator))
            out = ONE; rest = {}
            cc = c
            if r * r == c: out = P(r ** int(e * 2)) if int(e*2) >= 0 else P((1 / r) ** int(-e * 2)); cc = Fraction(1)
            for a, x in m:
                if nonneg_atom(a): out = out * normmono({a: x * e})
                else: rest[a] = x
            if not rest and cc == 1: return out
            core = P(cc) * normmono(rest) if rest else P(cc)
            return out * Poly({((atom("P", core), e),): Fraction(1)})
        return Poly({((atom("P", p), e),): Fraction(1)})
    # several terms: content
    lead = min(p.t, key=lambda m: tuple((a.sortkey(), x) for a, x in m))
    c = abs(p.t[lead]) if e.denominator != 1 else p.t[lead]
    # common monomial factor
    common = None
    for m in p.t:
        d = dict(m)
        if common is None: common = d
        else: common = {a: min(x, d[a]) for a, x in common.items() if a in d}
    common = {a: x for a, x in (common or {}).items() if a.kind != "b" and (e.denominator == 1 or nonneg_atom(a))}
    inv = Poly({tuple(sorted(((a, -x) for a, x in common.items()), key=lambda t: t[0].sortkey())): Fraction(1)}) if common else ONE
    core = p * P(1 / c) * inv
    out = ONE
    if e.denominator == 1: out = P(c ** int(e))
    elif c != 1: out = power(P(c), e)
    if common: out = out * normmono({a: x * e for a, x in common.items()})
    return out * Poly({((atom("P", core), e),): Fraction(1)})

def nonneg_atom(a):
    if a.kind in ("pi", "b", "dim"): return True
    if a.kind == "f" and a.args[0] in ("abs", "exp", "arccos", "frac", "sqrt"): return a.args[0] != "exp" or is_real(a.args[1][0])
    if a.kind == "P": return False
    return False

def gpow(b, e):
    """b ** e with symbolic exponent"""
    c = e.const()
    if c is not None: return power(b, c)
    bc = b.const()
    if bc == 1: return ONE
    s = b.single()
    if s is not None and len(s[1]) == 1 and s[1][0][0].kind == "f" and s[1][0][0].args[0] == "exp" and s[0] == 1:
        return fexp(s[1][0][0].args[1][0] * P(s[1][0][1]) * e)
    if bc is not None and bc == -1:
        # (-1)**k : only parity of integer k matters; (-1)**(-k) = (-1)**k
        e2 = e if not neg_lead(e) else -e
        return P(atom("pow", b, e2))
    return P(atom("pow", b, e))

def neg_lead(p):
    if not p.t: return False
    lead = min(p.t, key=lambda m: tuple((a.sortkey(), x) for a, x in m))
    return p.t[lead] < 0

def fexp(p):
    if not p.t: return ONE
    # exp(i*pi*q)
    s = p.single()
    if s is not None:
        c, m = s
        d = dict(m)
        if set(d) == {I, PI} and d[I] == 1 and d[PI] == 1:
            q = c % 2
            tab = {Fraction(0): ONE, Fraction(1): -ONE, Fraction(1, 2): P(I), Fraction(3, 2): -P(I)}
            if q in tab: return tab[q]
            return P(atom("f", "exp", (P(I) * P(PI) * P(q),)))
    return P(atom("f", "exp", (p,)))

def fn(name, *args):
    """function application with light normalisation"""
    args = tuple(P(a) for a in args)
    x = args[0]
    if name == "exp": return fexp(x)
    if name == "sqrt": return power(x, HALF)
    if name == "square": return x * x
    if name in ("sin", "cos", "tan"):
        c = x.const()
        if c == 0: return ZERO if name != "cos" else ONE
        s = x.single()
        if s is not None and s[1] == ((PI, Fraction(1)),):
            q = s[0] % 2
            t = {"cos": {Fraction(0): 1, Fraction(1): -1, HALF: 0, Fraction(3, 2): 0, Fraction(1, 3): HALF, Fraction(2, 3): -HALF, Fraction(4, 3): -HALF, Fraction(5, 3): HALF},
                 "sin": {Fraction(0): 0, Fraction(1): 0, HALF: 1, Fraction(3, 2): -1, Fraction(1, 6): HALF, Fraction(5, 6): HALF, Fraction(7, 6): -HALF, Fraction(11, 6): -HALF}}.get(name, {})
            if q in t: return P(t[q])
        # reduce multiples of pi in the argument
        pm = ((PI, Fraction(1)),)
        if pm in x.t and len(x.t) > 1:
            c = x.t[pm]
            k = math.floor(c * 2)
            if k:
                y = x - Poly({pm: Fraction(k, 2)})
                k %= 4
                if name == "sin": return [fn("sin", y), fn("cos", y), -fn("sin", y), -fn("cos", y)][k]
                if name == "cos": return [fn("cos", y), -fn("sin", y), -fn("cos", y), fn("sin", y)][k]
        if neg_lead(x):
            return fn("cos", -x) if name == "cos" else -fn(name, -x)
        return P(atom("f", name, (x,)))
    if name == "abs":
        c = x.const()
        if c is not None: return P(abs(c))
        s = x.single()
        if s is not None:
            out = P(abs(s[0])); rest = {}
            for a, e in s[1]:
                if a is I: continue
                if nonneg_atom(a): out = out * normmono({a: e})
                elif a.kind == "f" and a.args[0] == "exp" and imag_only(a.args[1][0]): continue
                elif a.kind == "f" and a.args[0] == "abs": out = out * normmono({a: e})
                else: rest[a] = e
            if not rest: return out
            core = Poly({tuple(sorted(rest.items(), key=lambda t: t[0].sortkey())): Fraction(1)})
            if len(rest) == 1:
                (a, e), = rest.items()
                if e.denominator == 1 and e != 1:
                    return out * power(P(atom("f", "abs", (P(a),))), e)
                if a.kind == "pow" and a.args[0].const() == -1: return out
                if a.kind == "cj": return out * P(atom("f", "abs", (P(a.args[0]),)))
            return out * P(atom("f", "abs", (core,)))
        if neg_lead(x): x = -x
        return P(atom("f", "abs", (x,)))
    if name == "frac":
        x = drop_integers(x)
        c = x.const()
        if c is not None: return P(c - math.floor(c))
        return P(atom("f", "frac", (x,)))
    if name == "floor": return x - fn("frac", x)
    if name == "ceil": return -fn("floor", -x)
    if name == "conj": return conj(x)
    if name == "real": return (x + conj(x)) * P(HALF)
    if name == "imag": return (x - conj(x)) * P(HALF) * P(I) * P(-1)
    if name in ("min", "max"):
        fl = []
        for a in args:
            s = a.single()
            if s is not None and s[0] == 1 and len(s[1]) == 1 and s[1][0][1] == 1 and s[1][0][0].kind == "f" and s[1][0][0].args[0] == name:
                fl += list(s[1][0][0].args[1])
            else: fl.append(a)
        cs = [a.const() for a in fl if a.const() is not None]
        fl = [a for a in fl if a.const() is None]
        if cs: fl.append(P(min(cs) if name == "min" else max(cs)))
        fl = sorted(set(fl), key=pstr)
        if len(fl) == 1: return fl[0]
        return P(atom("f", name, tuple(fl)))
    if name in ("rint", "trunc", "round"):
        if is_int(x): return x
        return P(atom("f", "rint" if name == "round" else name, args))
    return P(atom("f", name, args))

def imag_only(p):
    return conj(p) == -p

# -- integrality / reality
INT_ATOMS = set()
def is_int(p):
    for m, c in p.t.items():
        if c.denominator != 1: return False
        for a, e in m:
            if e < 0 or e.denominator != 1 or not int_atom(a): return False
    return True

def int_atom(a):
    if a.kind in ("b", "iv", "dim", "bv"): return True
    if a in INT_ATOMS: return True
    if a.kind in ("v", "el"):
        return a.args[-1] in ("i", "b")
    if a.kind == "f": return a.args[0] in ("rint", "trunc", "sign_int", "argmax", "argmin") or (a.args[0] in ("min", "max", "abs") and all(is_int(x) for x in a.args[1]))
    if a.kind == "Sum": return all(int_atom(b) and e > 0 for b, e in a.args[1]) if isinstance(a.args[1], tuple) else False
    if a.kind == "pow": return a.args[0].const() == -1
    return False

def drop_integers(p):
    r = {}
    for m, c in p.t.items():
        if m == ():
            c = c - math.floor(c)
            if c: r[m] = c
            continue
        if c.denominator == 1 and is_int(Poly({m: c})): continue
        r[m] = c
    return Poly(r)

def is_real(p):
    return conj(p) == p

def conj(p):
    r = ZERO
    for m, c in p.t.items():
        q = P(c)
        for a, e in m:
            q = q * power(conj_atom(a), e)
        r = r + q
    return r

def conj_atom(a):
    if a is I: return -P(I)
    if a.kind == "cj": return P(a.args[0])
    if a.kind in ("pi", "b", "iv", "dim", "bv", "nan", "inf"): return P(a)
    if a.kind in ("v", "el"):
        return P(atom("cj", a)) if a.args[-1] == "c" else P(a)
    if a.kind == "opq":
        return P(atom("cj", a)) if a.args[-1] == "c" else P(a)
    if a.kind == "f":
        if a.args[0] in ("abs", "angle", "frac", "rint", "trunc", "min", "max", "argmax", "argmin", "arctan2", "sign"): return P(a)
        if a.args[0] == "conj": return a.args[1][0]
        return fn(a.args[0], *[conj(x) for x in a.args[1]])
    if a.kind == "P": return power(conj(a.args[0]), 1) if False else P(atom("P", conj(a.args[0])))
    if a.kind == "Sum": return msum(a.args[0], conj(mono(a.args[1])))
    if a.kind == "pow": return gpow(conj(a.args[0]), conj(a.args[1]))
    if a.kind in ("Red",): return P(a)
    return P(a)

# -- booleans
def b_not(p): return ONE - p
def b_and(p, q): return p * q
def b_or(p, q): return p + q - p * q

def sign_norm(p):
    """canonical scaling by a positive rational"""
    if not p.t: return p
    lead = min(p.t, key=lambda m: tuple((a.sortkey(), x) for a, x in m))
    return p * P(1 / abs(p.t[lead]))

def lt(a, b):
    d = P(a) - P(b)          # d < 0
    c = d.const()
    if c is not None: return ONE if c < 0 else ZERO
    d = sign_norm(d)
    if is_int(d):
        # integers: d < 0  <=>  not (-d-1 < 0) ; canonical: leading coefficient positive
        if neg_lead(d):
            return ONE - P(atom("b", "lt0", -d - 1)) if is_int(d) else None
    return P(atom("b", "lt0", d))

def le(a, b):
    return ONE - lt(b, a)

def eq(a, b):
    d = P(a) - P(b)
    c = d.const()
    if c is not None: return ONE if c == 0 else ZERO
    d = sign_norm(d)
    if neg_lead(d): d = -d
    return P(atom("b", "eq0", d))

def ite(c, a, b):
    """c: 0/1 poly"""
    if a == b: return a
    if c == ONE: return a
    if c == ZERO: return b
    s = c.single()
    if s is not None and s[0] == 1 and len(s[1]) == 1 and s[1][0][0].kind == "b" and s[1][0][0].args[0] == "lt0":
        d = s[1][0][0].args[1]      # d < 0
        if matches_scale(a - b, d): return fn("min", a, b)
        if matches_scale(b - a, d): return fn("max", a, b)
    t = (ONE - c).single()
    if t is not None and t[0] == 1 and len(t[1]) == 1 and t[1][0][0].kind == "b" and t[1][0][0].args[0] == "lt0":
        d = t[1][0][0].args[1]      # c = not (d<0)
        if matches_scale(b - a, d): return fn("min", a, b)
        if matches_scale(a - b, d): return fn("max", a, b)
    return b + c * (a - b)

def matches_scale(p, d):
    return bool(p.t) and sign_norm(p) == sign_norm(d)

# -- substitution
def occurs(v, a, memo=None):
    if a is v: return True
    if v.kind == "iv": return v in ivs_of(a)
    return any(occ(v, x) for x in a.args)
_ivs = {}
def ivs_of(a):
    """index variables occurring anywhere in an atom (cached: atoms are interned)"""
    r = _ivs.get(a)
    if r is None:
        r = frozenset([a]) if a.kind == "iv" else _ivs_any(a.args)
        _ivs[a] = r
    return r
def _ivs_any(x):
    if isinstance(x, Atom): return ivs_of(x)
    if isinstance(x, Poly): x = tuple(a for m in x.t for a, e in m)
    if isinstance(x, tuple):
        out = frozenset()
        for y in x:
            s = _ivs_any(y)
            if s: out = out | s
        return out
    return frozenset()
def occ(v, x):
    if isinstance(x, Poly): return occurs_p(v, x)
    if isinstance(x, Atom): return occurs(v, x)
    if isinstance(x, tuple): return any(occ(v, y) for y in x)
    return False
def occurs_p(v, p):
    return any(occurs(v, a) for m in p.t for a, e in m)

def subst_p(p, m):
    r = ZERO
    for mo, c in p.t.items():
        q = P(c)
        for a, e in mo:
            q = q * power(subst_atom(a, m), e)
        r = r + q
    return r

def sub_any(x, m):
    if isinstance(x, Poly): return subst_p(x, m)
    if isinstance(x, Atom):
        p = subst_atom(x, m)
        s = p.single()
        return s[1][0][0] if s and s[0] == 1 and len(s[1]) == 1 and s[1][0][1] == 1 else p
    if isinstance(x, tuple): return tuple(sub_any(y, m) for y in x)
    return x

def subst_atom(a, m):
    if a in m: return m[a]
    if not a.args or not any(occ_any(m, x) for x in a.args): return P(a)
    k = a.kind
    if k == "f": return fn(a.args[0], *[subst_p(x, m) for x in a.args[1]])
    if k == "P": return P(subst_p(a.args[0], m)) if True else None
    if k == "cj": return conj(subst_atom(a.args[0], m))
    if k == "Red":
        (v, lo, hi), = a.args[1]
        t = fresh(); q = subst_p(a.args[2], {v: P(t)})          # never substitute under a binder without renaming it
        return Red(a.args[0], t, subst_p(lo, m), subst_p(hi, m), subst_p(q, m))
    if k == "b":
        d = subst_p(a.args[1], m) if isinstance(a.args[1], Poly) else sub_any(a.args[1], m)
        if a.args[0] == "lt0": return lt(d, ZERO)
        if a.args[0] == "eq0": return eq(d, ZERO)
        if a.args[0] == "all":
            (v, lo, hi), = a.args[1]
            t = fresh(); q = subst_p(a.args[2], {v: P(t)})
            return Red("all", t, subst_p(lo, m), subst_p(hi, m), subst_p(q, m))
        return P(atom("b", a.args[0], d, *[sub_any(x, m) for x in a.args[2:]]))
    if k == "pow": return gpow(subst_p(a.args[0], m), subst_p(a.args[1], m))
    if k == "Sum":
        ren = {v: P(fresh()) for v, _, _ in a.args[0]}
        q = subst_p(mono(a.args[1]), ren)
        dims = tuple((ren[v].single()[1][0][0], subst_p(subst_p(lo, ren), m), subst_p(subst_p(hi, ren), m)) for v, lo, hi in a.args[0])
        return msum(dims, subst_p(q, m))
    return P(atom(k, *[sub_any(x, m) for x in a.args]))

def occ_any(m, x):
    return any(occ(v, x) for v in m)

# -- sums
_fresh = itertools.count(1)
def fresh():
    return atom("iv", 10**6 + next(_fresh))

def Sum(v, lo, hi, body):
    """sum over v in [lo, hi) of body"""
    return msum(((v, P(lo), P(hi)),), P(body))

def msum(dims, body):
    """sum over several bound variables; body arbitrary Poly"""
    r = ZERO
    for m, c in body.t.items():
        r = r + P(c) * msum1(list(dims), m)
    return r

def msum1(dims, m):
    # contract deltas
    for i, (v, lo, hi) in enumerate(dims):
        for a, e in m:
            if a.kind == "b" and a.args[0] == "eq0" and occurs(v, a):
                d = a.args[1]
                vm = ((v, Fraction(1)),)
                if vm in d.t and abs(d.t[vm]) == 1:
                    c = d.t[vm]
                    val = -(d - Poly({vm: c})) * P(1 / c)
                    if not occurs_p(v, val):
                        rest = ONE
                        for b, f in m:
                            if b is not a: rest = rest * power(subst_atom(b, {v: val}), f)
                        dims2 = [(w, subst_p(l, {v: val}), subst_p(h, {v: val})) for j, (w, l, h) in enumerate(dims) if j != i]
                        rng = ONE if inrange(val, lo, hi) else le(lo, val) * lt(val, hi)
                        body = rest * rng
                        return msum(dims2, body) if dims2 else body
    # pull out nested sums into one multi-sum
    flat = []
    changed = False
    for a, e in m:
        if a.kind == "Sum" and e == 1 and any(occurs(v, a) for v, _, _ in dims):
            ren = {}
            nd = []
            for (w, l, h) in a.args[0]:
                nw = fresh(); ren[w] = P(nw)
                nd.append((nw, l, h))
            nd = [(nw, subst_p(l, ren), subst_p(h, ren)) for nw, l, h in nd]
            inner = subst_p(mono(a.args[1]), ren)
            dims = list(dims) + nd
            flat.append(inner); changed = True
        else: flat.append(Poly({((a, e),): Fraction(1)}))
    if changed:
        q = ONE
        for x in flat: q = q * x
        return msum(dims, q)
    # factors independent of all bound variables
    out, inn = [], []
    for a, e in m:
        (inn if any(occurs(v, a) for v, _, _ in dims) else out).append((a, e))
    pre = Poly({tuple(out): Fraction(1)}) if out else ONE
    # bound variables that do not occur
    keep = []
    used_in_dims = lambda v: any(occurs_p(v, l) or occurs_p(v, h) for _, l, h in dims)
    for (v, lo, hi) in dims:
        if not any(occurs(v, a) for a, _ in inn) and not used_in_dims(v):
            pre = pre * (hi - lo)
        else: keep.append((v, lo, hi))
    if not keep: return pre * (Poly({tuple(inn): Fraction(1)}) if inn else ONE)
    return pre * P(canon_sum(keep, tuple(inn)))

RANGE_OK = [lambda val, lo, hi: False]
def inrange(val, lo, hi):
    c, l, h = val.const(), lo.const(), hi.const()
    if c is not None and l is not None and h is not None: return l <= c < h
    return RANGE_OK[0](val, lo, hi)

_MB = {}
def maxb(x):
    """largest number of a binder inside x (free canonical names do not count)"""
    if isinstance(x, Poly): return max([0] + [maxb(a) for m in x.t for a, e in m])
    if isinstance(x, tuple): return max([0] + [maxb(y) for y in x])
    if isinstance(x, Atom):
        r = _MB.get(x)
        if r is None:
            r = max([0] + [maxb(y) for y in x.args if not isinstance(y, str)])
            if x.kind == "Sum": r = max([r] + [bnum(v) for v, _, _ in x.args[0]])
            elif x.kind == "Red" or x.kind == "b" and x.args[0] == "all": r = max([r] + [bnum(v) for v, _, _ in x.args[1]])
            _MB[x] = r
        return r
    return 0
def bnum(v): return -v.args[0] if isinstance(v.args[0], int) and v.args[0] < 0 else 0

def canon_sum(dims, m, kind="Sum"):
    """choose canonical names for the bound variables (minimal over orders); numbers exceed those of nested binders"""
    best = None
    n = len(dims)
    h = 0
    for a, e in m: h = max(h, maxb(a))
    for _, lo, hi in dims: h = max(h, maxb(lo), maxb(hi))
    perms = itertools.permutations(range(n)) if n <= 3 else [tuple(range(n))]
    tmp = {d[0]: P(fresh()) for d in dims}
    own = {d[0] for d in dims}
    while any(nm not in own and (any(occurs(nm, a) for a, _ in m) or any(occurs_p(nm, lo) or occurs_p(nm, hi) for _, lo, hi in dims)) for nm in (atom("iv", -1 - h - k) for k in range(n))): h += 1
    m1 = ONE
    for a, e in m: m1 = m1 * power(subst_atom(a, tmp), e)
    for p in perms:
        ren = {}
        for j in range(n):
            (t,), = [list(mm)[0][:1] for mm in tmp[dims[j][0]].t]
            ren[t] = P(atom("iv", -1 - h - p[j]))
        body = subst_p(m1, ren)
        s = body.single()
        if s is None or s[0] != 1: continue
        nd = tuple(sorted(((atom("iv", -1 - h - p[j]), subst_p(subst_p(dims[j][1], tmp), ren), subst_p(subst_p(dims[j][2], tmp), ren)) for j in range(n)), key=lambda t: -t[0].args[0]))
        a = atom("Sum", nd, s[1])
        k = a.sortkey()
        if best is None or k < best[0]: best = (k, a)
    return best[1] if best else atom("Sum", tuple(dims), m)

def Red(kind, v, lo, hi, body):
    """non-linear reduction (max, min, any, all, argmax, argmin, prod) over one index"""
    lo, hi, body = P(lo), P(hi), P(body)
    l, h = lo.const(), hi.const()
    if kind in ("any", "all", "prod", "max", "min") and l is not None and h is not None and 0 < h - l <= 6:
        vals = [subst_p(body, {v: P(l + k)}) for k in range(int(h - l))]
        if kind in ("max", "min"): return fn(kind, *vals)
        r = ZERO if kind == "any" else ONE
        for x in vals: r = b_or(r, x) if kind == "any" else r * x
        return r
    if not occurs_p(v, body) and kind in ("max", "min"): return body
    if not occurs_p(v, body) and kind in ("any", "all"):
        if l == 0 and len(hi.t) == 1 and all(a.kind == "dim" for a in hi.atoms()): return body      # array dimensions are positive
        if l is not None and h is not None and h <= l: return ONE if kind == "all" else ZERO
        return ONE - (ONE - body) * lt(lo, hi) if kind == "all" else body * lt(lo, hi)
    if kind == "argmin": return Red("argmax", v, lo, hi, -body)
    if kind == "any": return ONE - Red("all", v, lo, hi, ONE - body)
    if kind == "argmax":
        s = body.const()
        if s is not None: return lo
        if len(body.t) >= 1 and not any(a.kind == "b" for a in body.atoms()): body = body * P(1 / max(abs(c) for c in body.t.values()))
    if kind == "min": return -Red("max", v, lo, hi, -body)
    hgt = max(maxb(body), maxb(lo), maxb(hi))
    w = atom("iv", -1 - hgt)
    while w is not v and (occurs_p(w, body) or occurs_p(w, lo) or occurs_p(w, hi)):
        hgt += 1; w = atom("iv", -1 - hgt)
    t = fresh()
    body = subst_p(subst_p(body, {v: P(t)}), {t: P(w)})
    return P(atom("b" if kind == "all" else "Red", kind, ((w, lo, hi),), body))

# -- equality with denominators
def clear(p, limit=6):
    """multiply away P(..)^-k atoms and expand"""
    for _ in range(limit):
        den = {}
        for m in p.t:
            for a, e in m:
                if a.kind == "P" and e < 0 and e.denominator == 1:
                    den[a] = max(den.get(a, 0), int(-e))
        if not den: return p
        a = sorted(den, key=lambda x: x.sortkey())[0]
        k = den[a]
        r = ZERO
        for m, c in p.t.items():
            d = dict(m)
            e = d.pop(a, Fraction(0)) + k
            q = Poly({tuple(sorted(d.items(), key=lambda t: t[0].sortkey())): c})
            if e.denominator == 1 and e >= 0: q = q * ipow(a.args[0], int(e))
            else: q = q * Poly({((a, e),): Fraction(1)})
            r = r + q
        p = r
    return p

def equal(p, q):
    d = p - q
    if not d.t: return True
    return not clear(d).t

# -- printing
def astr(a):
    k = a.kind
    if k in ("pi", "I", "nan", "inf"): return k
    if k == "v": return str(a.args[0])
    if k == "iv": return "i%s" % (a.args[0],) if a.args else "iv"
    if k == "dim": return "|%s|%s" % (a.args[0], a.args[1] if len(a.args) > 1 else "")
    if k == "el": return "%s[%s]" % (a.args[0] if isinstance(a.args[0], str) else nodekey(a.args[0]), ",".join(pstr(x) if isinstance(x, Poly) else str(x) for x in a.args[1]))
    if k == "f": return "%s(%s)" % (a.args[0], ",".join(pstr(x) for x in a.args[1]))
    if k == "b": return "[%s]" % (pstr(a.args[1]) + {"lt0": "<0", "eq0": "=0"}.get(a.args[0], ":" + str(a.args[0])) if isinstance(a.args[1], Poly) else "%s %s" % (a.args[0], skey(a.args[1])))
    if k == "P": return "(%s)" % pstr(a.args[0])
    if k == "cj": return "conj(%s)" % astr(a.args[0])
    if k == "Sum": return "Sum{%s}(%s)" % (";".join("%s in %s..%s" % (astr(v), pstr(l), pstr(h)) for v, l, h in a.args[0]), mstr(a.args[1]))
    if k == "pow": return "(%s)**(%s)" % (pstr(a.args[0]), pstr(a.args[1]))
    return "%s(%s)" % (k, ",".join(skey(x) for x in a.args))

def mstr(m):
    return "*".join(astr(a) + ("" if e == 1 else "^%s" % e) for a, e in m) or "1"

def pstr(p):
    if p._str is None:
        ts = sorted(((mstr(m), c) for m, c in p.t.items()))
        p._str = " + ".join((m if c == 1 else "%s" % c if m == "1" else "%s*%s" % (c, m)) for m, c in ts) or "0"
    return p._str
