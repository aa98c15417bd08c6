"""Simplex-indexed stores: which vertices a loop nest ranges over, under which guard, and what is stored where.

`sites(r, c)` turns every store of a value graph into a Site: the index variables of the enclosing loops, their domain, the guard, and
the index / value terms.  `match(site, m)` compares domain and guard with the indicator of the m-vertex simplices of the Rips complex
{v1 < ... < vm, all pairwise distances < threshold} and renames the loop variables to v1 < ... < vm."""
import itertools
from fractions import Fraction
from . import vg, poly, cert, tnf
from .tnf import Unk
from .poly import P, ZERO, ONE, Poly
from .vg import isconst

class Site:
    def __init__(s, ref, idx, val, aug, conds, loops, site, stack, before):
        s.ref, s.idx, s.val, s.aug, s.conds, s.loops, s.site, s.stack, s.before = ref, idx, val, aug, conds, loops, site, stack, before

def sites(r):
    out = []
    for e in r.effects:
        if e.kind != "store": continue
        ref, idx, val, aug, content = e.data[:5]
        out.append(Site(ref, idx, val, aug, tuple(e.path), tuple(e.loops), e.site, e.stack, content))
    return out

def ref_of(n):
    """name under which the loops track the array a value is read from ('r23'), or None"""
    for _ in range(60):
        if n.op == "mu": return n.args[1]
        if n.op in ("final",): n = n.args[1]
        elif n.op in ("index", "store", "viewset", "mutated"): n = n.args[0]
        elif n.op == "phi":
            a, b = ref_of(n.args[1]), ref_of(n.args[2])
            return a if a == b else None
        elif n.op == "call" and n.args[0] in ("numpy.array", "numpy.asarray", "numpy.copy"): n = n.args[1][0][1]
        elif n.op == "mcall" and n.args[0] in ("copy", "astype"): n = n.args[1]
        else: return None
    return None

def init_of(r, key):
    """value of a tracked array before the outermost loop that changes it"""
    for u in sorted(r.loops):
        for m, (init, nx) in r.loops[u].mu.items():
            if m.args[1] == key and init.op not in ("mu", "store", "final"): return init
    return None

def ivof(c, loop):
    p = c.val(loop.iv)
    s = p.single()
    if s is None or s[0] != 1 or len(s[1]) != 1: raise Unk("loop variable")
    return s[1][0][0]

DIST = ("dist_mat", "self._dist_land_land")

class Domain:
    """loop variables + guard of a site as scalar terms"""
    def __init__(self, c, loops, conds):
        self.c = c
        self.ivs = []; self.ranges = []
        for l in loops:
            if l.kind != "for" or l.iv is None or l.breaks: raise Unk("loop form")
            a = ivof(c, l)
            if a in c.ranges: self.ivs.append(a); self.ranges.append(c.ranges[a])
            else: raise Unk("loop range")
        self.conds = []
        for n, pol in conds:
            q = c.cond(n)
            self.conds.append(q if pol else ONE - q)
    def key(self): return (tuple(self.ivs), tuple(self.conds))

def pairs(vs): return list(itertools.combinations(vs, 2))

def dist_gen(env, idx):
    i, j = sorted(idx)
    if i == j: return 0
    u = env.u("dist", i, j)
    return 1 if u < .78 else (2 if u < .93 else 3)
def thr_gen(env, idx): return 2

def rips_ok(env, vs, dist=dist_gen, thr=2):
    """indicator of the simplex at integer vertices"""
    if any(b <= a for a, b in zip(vs, vs[1:])): return False
    return all(dist(env, (a, b)) < thr for a, b in pairs(vs))

def subst_ivs(p, m): return poly.subst_p(p, m)

class Match:
    def __init__(self, status, perm=None, how="", msg=""): self.status, self.perm, self.how, self.msg = status, perm, how, msg

def dist_term(c, dist, a, b):
    i, j = P(a), P(b)
    return c.at(dist, (i, j))

def match(c, dom, m, dist, thr, n, gen, dims):
    """dist, thr: nodes; n: Poly, the number of vertices"""
    if len(dom.ivs) != m: return Match("unk", msg="%d loop variables for %d vertices" % (len(dom.ivs), m))
    base = c.val(thr)
    # proof: canonical ranges and exactly the pair conditions
    for perm in itertools.permutations(range(m)):
        vs = [dom.ivs[i] for i in perm]
        ok = True
        for k, i in enumerate(perm):
            lo, hi = dom.ranges[i]
            inner_lo = poly.equal(lo, P(vs[k - 1]) + 1) if k else poly.equal(lo, ZERO)
            inner_hi = poly.equal(hi, P(vs[k + 1])) if k + 1 < m else poly.equal(hi, n)
            up = inner_lo and poly.equal(hi, n); dn = inner_hi and poly.equal(lo, ZERO)
            mid = inner_lo and inner_hi
            if not (up or dn or mid): ok = False; break
        if not ok: continue
        # consecutive order must be enforced by one of the two neighbours
        for k in range(m - 1):
            a, b = perm[k], perm[k + 1]
            if not (poly.equal(dom.ranges[b][0], P(vs[k]) + 1) or poly.equal(dom.ranges[a][1], P(vs[k + 1]))): ok = False
        if not ok: continue
        want = ONE
        for a, b in pairs(vs): want = want * tnf.lt(dist_term(c, dist, a, b), base)
        got = ONE
        for q in dom.conds: got = got * q
        if poly.equal(want, got): return Match("ok", vs, "normal form")
    # identity test of the two indicators over integer points
    best = None; why = None
    for perm in itertools.permutations(range(m)):
        vs = [dom.ivs[i] for i in perm]
        mism = 0; good = 0; pos = 0; w = None
        for t in range(260):
            big = {a.args[0]: m + 1 + t % 2 for a in n.atoms() if a.kind == "dim" and len(a.args) == 1} if t % 4 > 1 else {}
            env = cert.plain(("dom", t), gen, {**(dims or {}), **big})
            try:
                N = env.integer(n, {})
                pt = [int(env.u("pt", k) * (N + 1)) - (1 if env.u("neg", k) < .03 else 0) for k in range(m)]
                if t % 2: pt = sorted(pt)
                if t % 4 == 3: pt = sorted(range(N), key=lambda x: env.u("pick", x))[:m]; pt.sort()
                for v, x in zip(vs, pt): env.vals[v] = x
                inside = all(env.num(lo, {}) <= x < env.num(hi, {}) for (lo, hi), x in ((dom.ranges[perm[k]], pt[k]) for k in range(m)))
                code = inside and all(env.num(q, {}) for q in dom.conds)
                ref = all(0 <= x < N for x in pt) and rips_ok(env, pt)
            except (cert.NoVal, ZeroDivisionError, OverflowError, ValueError) as e: why = str(e); continue
            good += 1; pos += ref
            if bool(code) != bool(ref): mism += 1; w = (pt, bool(code), bool(ref), {str(p): dist_gen(env, p) for p in pairs(pt)})
        if good < 100 or pos < 8: continue
        if not mism: return Match("ok", vs, "identity test")
        if best is None or mism < best[0]: best = (mism, w, vs)
    if best is None: return Match("unk", msg=why or "no valuation")
    if best[0] < 2: return Match("unk", msg="one mismatch")
    return Match("bad", msg="simplices used differ from those with all pairwise distances strictly below the filtration value: vertices %s stored: %s, in the complex: %s, distances %s (threshold 2)" % best[1])

def fact(k): return 1 if k < 2 else k * fact(k - 1)
def binom(p, k):
    r = ONE
    for j in range(k): r = r * (P(p) - j)
    return r * P(Fraction(1, fact(k)))

def number(vs):
    """number of the simplex v1 < ... < vm in the combinatorial number system"""
    r = ZERO
    for k, v in enumerate(vs): r = r + binom(P(v), k + 1)
    return r

def face_number(vs, t): return number([v for i, v in enumerate(vs) if i != t])
