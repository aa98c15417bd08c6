"""C23: the map utilities are well defined on projective and lens spaces."""
import math, cmath
from .surface import *
from .c18 import unsafe
from . import ieee

TECHNIQUE = "static analysis: the returned arrays are reduced to entrywise algebraic terms over the parameters' entries (value graph + tensor normal form), and the defining identities (unit norm, invariance under a phase, sign or root of unity, orthogonality, image of the first direction) are decided by identity testing of those terms under substitutions, with every branch of the source represented by its indicator; truncations of quantities that are identically integers are found by the same identity test"
EXPLANATION = "The terms of hopf_map, rotmat, get_stereo_proj_codim1, circle_to_3dnorthpole, stereographic_projection_hemispheres and lens_3D_to_disk_3D are compared with their transforms: hopf(x e^{i a}) = hopf(x), <hopf(x), hopf(y)> = 2|<x,y>|^2 - 1; R^T R = I and R a/|a| = b/|b| for generic, parallel and antipodal directions (in exact rational arithmetic, so that the branch taken there is the one the source takes); stereographic projections have radius sqrt((1-|t|)/(1+|t|)), t the height over the chosen pole, do not see the sign of the point, and the hemisphere version uses one disk per hemisphere; the lens projection is invariant under the diagonal action of the q-th roots of unity and stays in the unit ball; the clipped circle point is the first part of a unit vector with non-negative last coordinate. In addition no floor, truncation, integer cast or floor division may be applied to a quantity that equals an integer identically but is computed with rounding."
ASSUMPTIONS = ["identity testing at pseudo-random points; a deviation at two points is required for a violation", "numpy's elementwise functions compute their mathematical functions"]

PM = "utils:ProjectiveMapUtils."
LM = "utils:LensMapUtils."

class Sub:
    """one utility with entrywise terms of its result"""
    def __init__(self, ck, q, t, defaults=(), consts=None, pick=None):
        f = ck.fn(q)
        args = dict(consts or {})
        for d in defaults:
            if d in f.defaults: args[d] = f.defaults[d]
        tt = types(t)
        self.r = ck.run(q, f=f, args=args or None, types=oracle(tt))
        self.c = Ctx(self.r, types=tt)
        n = self.r.node()
        if pick is not None: n = pick(n)
        self.n = n
        self.ty = self.c.ty(n)
        self.idx = ivars(self.ty.shape, self.c)
        self.p = at(self.c, n, self.idx)
        self.site = self.r.site0
        self.A = [v.single()[1][0][0] for v in self.idx]
        self.params = set(self.r.params)
    def env(self, seed, gen, dims=None, exact=False):
        e = cert.Env(seed, gen, dims or {}, ctx=self.c, bnode=self.bnode)
        e.exact = exact
        return e
    def bnode(self, env, n, b):
        if n.op == "is" and isconst(n.args[1], None): return 0
        if n.op == "eq" and isconst(n.args[1], 0) and show(n.args[0], 2).endswith(".size"): return 0
        return None
    def matrix(self, e, dims):
        out = {}
        import itertools
        for ix in itertools.product(*[range(d) for d in dims]): out[ix] = e.ev(self.p, dict(zip(self.A, ix)))
        return out
    def shape(self, e): return tuple(e.integer(s, {}) for s in self.ty.shape)

class Tally:
    """a violation needs two deviating valuations, a pass needs several agreeing ones"""
    def __init__(self): self.good = self.bad = 0; self.why = None; self.first = None
    def add(self, ok, what=""):
        if ok: self.good += 1
        else:
            self.bad += 1; self.first = self.first or what
    def close(self, ck, key, msg, site, need=4):
        if self.bad >= 2: ck.bad(key, msg + (" (%s)" % self.first if self.first else ""), site)
        elif self.bad: ck.unk(key, "a single valuation deviates", site)
        elif self.good >= need: ck.ok(key, "%d valuations" % self.good, site)
        else: ck.unk(key, self.why or "no valuation", site)

def near(x, y, tol=1e-7):
    if x != x or y != y: return False
    if x == y: return True
    if cmath.isinf(x) or cmath.isinf(y): return False
    return abs(x - y) <= tol * max(1, abs(x), abs(y))

def vec(u, *k): return [2 * u(*k, i) - 1 for i in range(k[-1])]

def unitvec(e, name, n, d, cplx=False):
    """n pseudo-random unit rows"""
    out = []
    if e.profile == "ties": e.profile = None      # vectors whose coordinates coincide or vanish are boundary cases
    for i in range(n):
        v = [complex(2 * e.u(name, i, j) - 1, 2 * e.u(name, "im", i, j) - 1) if cplx else 2 * e.u(name, i, j) - 1 for j in range(d)]
        if e.profile == "cluster": v = [x + .4 + .3 * j for j, x in enumerate(v)]
        t = math.sqrt(sum(abs(x) ** 2 for x in v))
        out.append([x / t for x in v])
    return out

def table(rows): return lambda env, idx: rows[int(idx[0])][int(idx[1])]
def line(row): return lambda env, idx: row[int(idx[0])]

FAIL = (cert.NoVal, OverflowError, ZeroDivisionError, ValueError, IndexError)

def shape_is(ck, key, s, want, site):
    sd = samedims(s.ty.shape, want)
    if sd is False: ck.bad(key, "the result has shape (%s)" % ", ".join(poly.pstr(x) for x in s.ty.shape), site); return False
    if sd is None: ck.unk(key, "shape", site); return False
    ck.ok(key, "shape", site); return True

def hopf(ck):
    s = Sub(ck, PM + "hopf_map", {"X": "N 2:c"})
    if not shape_is(ck, "hopf.shape", s, (dim("N"), P(3)), s.site): return
    unit, phase, iso = Tally(), Tally(), Tally()
    for t in range(16 * cert.BOOST):
        e0 = cert.Env(("hopf", t))
        X = unitvec(e0, "X", 4, 2, True)
        if t == 3: X[0] = [1j, 0j]
        if t == 4: X[1] = [0j, -1 + 0j]
        ph = [cmath.exp(2j * math.pi * e0.u("ph", i)) for i in range(4)]
        try:
            H = s.matrix(s.env(("h", t), {"X": table(X)}, {"N": 4}), (4, 3))
            G = s.matrix(s.env(("h", t), {"X": table([[z * p for z in x] for x, p in zip(X, ph)])}, {"N": 4}), (4, 3))
        except FAIL as ex:
            unit.why = phase.why = iso.why = str(ex); continue
        for i in range(4):
            h = [H[i, k] for k in range(3)]
            unit.add(near(sum(abs(x) ** 2 for x in h), 1), "length %s" % math.sqrt(sum(abs(x) ** 2 for x in h)))
            phase.add(all(near(H[i, k], G[i, k]) for k in range(3)))
            for j in range(i):
                ip = sum(a.conjugate() * b for a, b in zip(X[i], X[j]))
                iso.add(near(sum(H[i, k] * H[j, k] for k in range(3)), 2 * abs(ip) ** 2 - 1))
    unit.close(ck, "hopf.unit", "the image of a unit vector is not a unit vector", s.site)
    phase.close(ck, "hopf.phase", "the image depends on the common phase of the coordinates", s.site)
    iso.close(ck, "hopf.classes", "the image does not determine the point of the projective line (inner products of images are not 2|<x,y>|^2 - 1)", s.site)

def frac(*xs): return [Fraction(x) for x in xs]

def directions(d, t, e):
    """(label, a, b) with rational coordinates"""
    r = lambda *k: Fraction(int(e.u(*k) * 19) - 9, 7)
    a = [r("a", i) for i in range(d)]; b = [r("b", i) for i in range(d)]
    if not any(a): a[0] = Fraction(1)
    if not any(b): b[-1] = Fraction(1)
    pyth = {2: [(3, 4), (0, 5), (-5, 12)], 3: [(1, 2, 2), (0, 0, 3), (2, -3, 6), (0, -4, 3)], 4: [(1, 1, 1, 1), (0, 0, 0, 2), (2, 4, 5, -6), (0, 3, 4, 0)], 1: [(1,), (-2,)]}[d]
    v = [Fraction(x) for x in pyth[t % len(pyth)]]
    axis = [Fraction(3 if i == t % d else 0) for i in range(d)]
    return [("generic", a, b), ("parallel", [2 * x for x in v], [Fraction(x, 3) for x in v]), ("antipodal", [-2 * x for x in v], v), ("antipodal", [-x for x in axis], axis), ("parallel", axis, axis), ("orthogonal", [v[1], -v[0]] + [Fraction(0)] * (d - 2) if d > 1 else v, v)]

def rot(ck):
    for deflt in (False, True):
        tag = "rotation" + (".default" if deflt else "")
        f = ck.fn(PM + "rotmat")
        ps = [a.arg for a in f.node.args.args]
        if deflt and (len(ps) < 2 or ps[1] not in f.defaults): continue
        s = Sub(ck, PM + "rotmat", {"a": "d:f", "b": "d:f"}, defaults=("b",) if deflt else ())
        if not shape_is(ck, tag + ".shape", s, (dim("d"), dim("d")), s.site): continue
        T = {}
        for t in range(16 * cert.BOOST):
            for d in (2, 3, 4):
                e0 = cert.plain(("rot", t, d))
                for lab, a, b in directions(d, t, e0):
                    if deflt:
                        b = [Fraction(0)] * (d - 1) + [Fraction(1)]
                        if lab == "parallel": a = [2 * x for x in b]
                        elif lab == "antipodal": a = [-x for x in b]
                    if not any(a): continue
                    o, m = T.setdefault(lab, (Tally(), Tally()))
                    na, nb = math.sqrt(sum(x * x for x in a)), math.sqrt(sum(x * x for x in b))
                    try: R = s.matrix(s.env(("r", t, d), {"a": line(a), "b": line(b)}, {"d": d}, exact=True), (d, d))
                    except FAIL as ex:
                        if "division by zero" in str(ex): o.add(False, "division by zero")
                        else: o.why = m.why = str(ex)
                        continue
                    o.add(all(near(sum(R[k, i] * R[k, j] for k in range(d)), 1 if i == j else 0, 1e-6) for i in range(d) for j in range(d)), "a=%s b=%s" % (", ".join(map(str, a)), ", ".join(map(str, b))))
                    m.add(all(near(sum(R[i, j] * float(a[j]) / na for j in range(d)), float(b[i]) / nb, 1e-6) for i in range(d)), "a=%s b=%s" % (", ".join(map(str, a)), ", ".join(map(str, b))))
        for lab, (o, m) in T.items():
            o.close(ck, "%s.orthogonal.%s" % (tag, lab), "the matrix returned for %s directions is not orthogonal" % lab, s.site)
            m.close(ck, "%s.image.%s" % (tag, lab), "the matrix returned for %s directions does not send the first direction to the second" % lab, s.site)

def rounding(ck):
    """directions at a small angle from (anti)parallel, with the rounding of every operation"""
    f = ck.fn(PM + "rotmat")
    ps = [a.arg for a in f.node.args.args]
    r = ck.run(PM + "rotmat", types=oracle(types({"a": "d:f", "b": "d:f"})))
    for lab, sg in (("almost parallel", 1), ("almost antipodal", -1)):
        o, m = Tally(), Tally()
        for k in range(1, 18):
            for t in range(4 * cert.BOOST):
                e = cert.plain(("ro", lab, k, t)); d = 2 + (k + t) % 3
                b = [2 * e.u("b", i) - 1 for i in range(d)]; a = [sg * (1 + e.u("l")) * x + 10.0 ** -k * (2 * e.u("a", i) - 1) for i, x in enumerate(b)]
                try: R = ieee.Eval({ps[0]: ieee.arr(a), ps[1]: ieee.arr(b)})(r.node())
                except (ieee.No, OverflowError, ZeroDivisionError, ValueError, TypeError) as ex: o.why = m.why = "rounding: %s" % ex; continue
                if R.shape != (d, d): o.why = m.why = "shape"; continue
                na, nb = math.sqrt(sum(x * x for x in a)), math.sqrt(sum(x * x for x in b))
                w = "a=%s b=%s" % (", ".join("%.17g" % x for x in a), ", ".join("%.17g" % x for x in b))
                o.add(all(near(sum(R[q, i] * R[q, j] for q in range(d)), 1 if i == j else 0, 1e-6) for i in range(d) for j in range(d)), w)
                m.add(all(near(sum(R[i, j] * a[j] / na for j in range(d)), b[i] / nb, 1e-6) for i in range(d)), w)
        o.close(ck, "rotation.orthogonal.%s" % lab, "the matrix returned for %s directions is not orthogonal: rounding errors are amplified" % lab, r.site0)
        m.close(ck, "rotation.image.%s" % lab, "the matrix returned for %s directions does not send the first direction to the second" % lab, r.site0)

def eigs(s):
    """eigenvector matrices the result is built from"""
    out = []
    for x in every_node(s.r):
        if x.op == "index" and x.args[0].op == "call" and x.args[0].args[0] in ("numpy.linalg.eigh", "numpy.linalg.svd", "scipy.linalg.eigh"): out.append(x)
    return out

def stereo(ck):
    for deflt in (False, True):
        tag = "stereographic" + (".default" if deflt else "")
        s = Sub(ck, PM + "get_stereo_proj_codim1", {"pX": "N d:f", "u": "d:f"}, defaults=("u",) if deflt else ())
        if not shape_is(ck, tag + ".shape", s, (dim("N"), dim("d") - P(1)), s.site): continue
        ball, sign, rad = Tally(), Tally(), Tally()
        for t in range(16 * cert.BOOST):
            d = 3 + t % 2; n = 4
            e0 = cert.Env(("st", t))
            X = unitvec(e0, "X", n, d); u = unitvec(e0, "u", 1, d)[0]
            if t == 2 and not deflt: X[0] = list(u)
            if t == 3 and not deflt: u = [0.0] * (d - 1) + [1.0]
            Q = orth(e0, d)
            g = {"u": line(u)}
            for x in eigs(s): g[poly.nodekey(x)] = table(Q)
            Y = [[-v for v in x] if e0.u("s", i) < .7 else x for i, x in enumerate(X)]
            try:
                S = s.matrix(s.env(("s", t), {**g, "pX": table(X)}, {"N": n, "d": d}), (n, d - 1))
                Z = s.matrix(s.env(("s", t), {**g, "pX": table(Y)}, {"N": n, "d": d}), (n, d - 1))
            except FAIL as ex: ball.why = sign.why = rad.why = str(ex); continue
            for i in range(n):
                q = sum(abs(S[i, k]) ** 2 for k in range(d - 1))
                ball.add(q <= 1 + 1e-7, "radius %.3g" % math.sqrt(q) if q == q else "nan")
                sign.add(all(near(S[i, k], Z[i, k]) for k in range(d - 1)))
                if not deflt:
                    h = abs(sum(a * b for a, b in zip(X[i], u)))
                    rad.add(near(q, (1 - h) / (1 + h), 1e-6))
        ball.close(ck, tag + ".ball", "a projected point lies outside the unit ball", s.site)
        sign.close(ck, tag + ".sign", "the projection of a point and of its antipode differ", s.site)
        if not deflt: rad.close(ck, tag + ".pole", "the distance of a projected point from the origin is not the one of the stereographic projection with the given pole in the centre", s.site)

def orth(e, d):
    cols = []
    for j in range(d):
        v = [2 * e.u("Q", i, j) - 1 for i in range(d)]
        for w in cols:
            k = sum(a * b for a, b in zip(v, w)); v = [a - k * b for a, b in zip(v, w)]
        t = math.sqrt(sum(a * a for a in v)); cols.append([a / t for a in v])
    return [[cols[j][i] for j in range(d)] for i in range(d)]

def pole(ck):
    q = PM + "circle_to_3dnorthpole"
    x = Sub(ck, q, {"x": "2:f"}, pick=lambda n: item(n, 0))
    u = Sub(ck, q, {"x": "2:f"}, pick=lambda n: item(n, 1))
    if not shape_is(ck, "northpole.shape", u, (P(3),), u.site) or not shape_is(ck, "northpole.shape2", x, (P(2),), x.site): return
    unit, up, keep, part = Tally(), Tally(), Tally(), Tally()
    for t in range(24 * cert.BOOST):
        e0 = cert.plain(("np", t))
        v = [Fraction(int(e0.u("x", i) * 41) - 20, 13) for i in range(2)]
        if t == 0: v = frac(1, 0)
        if t == 1: v = [Fraction(3, 5), Fraction(-4, 5)]
        if t == 2: v = frac(0, 0)
        if t == 3: v = frac(3, -4)
        n = math.sqrt(sum(a * a for a in v))
        w = [float(a) / max(n, 1.0) for a in v]
        try:
            U = u.matrix(u.env(("u", t), {"x": line(v)}, exact=True), (3,)); X = x.matrix(x.env(("u", t), {"x": line(v)}, exact=True), (2,))
        except FAIL as ex: unit.why = up.why = keep.why = part.why = str(ex); continue
        lab = "x=(%s, %s)" % (v[0], v[1])
        unit.add(near(sum(abs(U[i,]) ** 2 for i in range(3)), 1), lab)
        up.add(float(U[2,]) >= -1e-9 if not isinstance(U[2,], complex) else False, lab)
        keep.add(all(near(X[i,], w[i]) for i in range(2)), lab)
        part.add(all(near(U[i,], X[i,]) for i in range(2)), lab)
    unit.close(ck, "northpole.unit", "the returned direction is not a unit vector", u.site)
    up.close(ck, "northpole.upper", "the returned direction is not on the upper hemisphere", u.site)
    keep.close(ck, "northpole.clip", "the returned point is not the input clipped to the disk", u.site)
    part.close(ck, "northpole.lift", "the returned direction does not lie above the returned point", u.site)

def hemispheres(ck):
    for deflt in (False, True):
        tag = "hemispheres" + (".default" if deflt else "")
        s = Sub(ck, PM + "stereographic_projection_hemispheres", {"X": "N d:f", "center_vector": "d:f"}, defaults=("center_vector",) if deflt else ())
        if not shape_is(ck, tag + ".shape", s, (dim("N"), dim("d") - P(1)), s.site): continue
        disk, rad, rim = Tally(), Tally(), Tally()
        side = {}
        for t in range(16 * cert.BOOST):
            d, n = 3, 5
            e0 = cert.Env(("he", t))
            X = unitvec(e0, "X", n, d); u = unitvec(e0, "u", 1, d)[0] if not deflt else [0.0, 0.0, 1.0]
            # the last two points lie on both sides of the equator, next to each other
            h = sum(a * b for a, b in zip(X[3], u)); w = [a - h * b for a, b in zip(X[3], u)]; nw = math.sqrt(sum(a * a for a in w)); w = [a / nw for a in w]
            X[3], X[4] = ([a + sg * 1e-9 * b for a, b in zip(w, u)] for sg in (1, -1))
            try: S = s.matrix(s.env(("s", t), {"center_vector": line(u), "X": table(X)}, {"N": n, "d": d}), (n, d - 1))
            except FAIL as ex: disk.why = rad.why = rim.why = str(ex); continue
            rim.add(any(all(near(S[3, k] - S[4, k], o * (1 if k == 0 else 0), 1e-5) for k in range(d - 1)) for o in (2.5, -2.5)), "point (%.3f, %.3f, %.3f)" % tuple(X[3]))
            for i in range(n):
                h = sum(a * b for a, b in zip(X[i], u))
                if abs(h) < 1e-3: continue
                q = [math.sqrt(sum(abs(S[i, k] - o * (1 if k == 0 else 0)) ** 2 for k in range(d - 1))) for o in (0, 2.5)]
                which = [k for k in (0, 1) if q[k] <= 1 + 1e-7]
                ok = len(which) == 1 and side.setdefault(h > 0, which[0]) == which[0] and side.get(h < 0) != which[0]
                disk.add(ok, "height %.3f" % h)
                if which: rad.add(near(q[which[0]] ** 2, (1 - abs(h)) / (1 + abs(h)), 1e-6))
        disk.close(ck, tag + ".disks", "points of one hemisphere do not lie in the unit disk of that hemisphere", s.site)
        rim.close(ck, tag + ".equator", "a point of the equator has different positions in the two disks", s.site)
        rad.close(ck, tag + ".radius", "the distance from the centre of the disk is not the one of the stereographic projection", s.site)

def lens(ck):
    q = LM + "lens_3D_to_disk_3D"
    s = Sub(ck, q, {"X": "N 2:c", "q": ":i"})
    if not shape_is(ck, "lens.shape", s, (dim("N"), P(3)), s.site): return
    ball, inv = Tally(), Tally()
    for t in range(16 * cert.BOOST):
        p = (2, 3, 5, 7, 11, 17)[t % 6]; n = 4
        e0 = cert.Env(("le", t))
        X = unitvec(e0, "X", n, 2, True)
        if t == 7: X[0] = [1 + 0j, 0j]
        w = [cmath.exp(2j * math.pi * int(1 + e0.u("k", i) * (p - 1)) / p) for i in range(n)]
        Y = [[z * a for z in x] for x, a in zip(X, w)]
        try:
            S = s.matrix(s.env(("l", t), {"X": table(X), "q": lambda e, i, p=p: p}, {"N": n}), (n, 3))
            Z = s.matrix(s.env(("l", t), {"X": table(Y), "q": lambda e, i, p=p: p}, {"N": n}), (n, 3))
        except FAIL as ex: ball.why = inv.why = str(ex); continue
        for i in range(n):
            r = sum(abs(S[i, k]) ** 2 for k in range(3))
            ball.add(r <= 1 + 1e-7, "q=%d radius %.3g" % (p, math.sqrt(r) if r == r else r))
            if t == 7 and i == 0: continue
            inv.add(all(near(S[i, k], Z[i, k], 1e-6) for k in range(3)), "q=%d" % p)
    ball.close(ck, "lens.ball", "a projected point lies outside the unit ball", s.site)
    inv.close(ck, "lens.class", "equivalent points of the lens space are projected to different points", s.site)

TRUNC = {"numpy.floor", "numpy.trunc", "numpy.fix", "numpy.ceil", "builtins.int", "math.floor", "math.trunc", "math.ceil", "numpy.floor_divide"}
EXACT_OPS = {"numpy.rint", "numpy.round", "numpy.around", "numpy.floor", "numpy.ceil", "numpy.trunc", "builtins.int", "builtins.round", "builtins.len"}

def rounds(n, c):
    """may the computation of this value round?"""
    for x in walk(n):
        if x.op == "div": return True
        if x.op == "call" and x.args[0] in ("numpy.sin", "numpy.cos", "numpy.exp", "numpy.angle", "numpy.arctan2", "numpy.log", "numpy.arccos", "numpy.arctan", "numpy.tan", "numpy.linalg.norm"): return True
    return False

def truncations(ck, q, t):
    f = ck.fn(q, must=False)
    if f is None: return
    tt = types(t)
    r = ck.run(q, f=f, types=oracle(tt))
    seen = set(); k = 0
    sites = {}
    for e in r.effects:
        if e.kind == "libcall" and isinstance(e.data[1], vg.Node): sites[e.data[1]] = e.site
    for n in every_node(r):
        a = None
        if n in seen: continue
        seen.add(n)
        if n.op == "call" and n.args[0] in TRUNC and n.args[1]: a = n.args[1][0][1]
        elif n.op == "call" and n.args[0] == "numpy.astype" and "int" in show(dict(n.args[1]).get("dtype", vg.const(0)), 2): a = dict(n.args[1]).get("a", n.args[1][0][1])
        elif n.op == "floordiv": a = n
        if a is None: continue
        key = "truncation.%s#%d" % (q.split(":")[1], k); k += 1
        c = Ctx(r, types=tt)
        try:
            if a.op == "floordiv":
                ty1 = c.ty(a.args[0]); ty2 = c.ty(a.args[1])
                if "i" in (ty1.dt, ty2.dt) and ty1.dt in "bi" and ty2.dt in "bi": ck.ok(key, "integers", sites.get(n, r.site0)); continue
                if not (rounds(a.args[0], c) or rounds(a.args[1], c)): ck.ok(key, "exact", sites.get(n, r.site0)); continue
                a = vg.mk("div", a.args[0], a.args[1])
            ta = c.ty(a)
            if ta.dt in ("i", "b"): ck.ok(key, "an integer already", sites.get(n, r.site0)); continue
            if not rounds(a, c): ck.ok(key, "exact", sites.get(n, r.site0)); continue
            idx = ivars(ta.shape, c)
            p = at(c, a, idx)
        except (Unk, vg.AnalysisError) as ex: ck.unk(key, str(ex), r.site0); continue
        gen = {"q": lambda e, i: (3, 5, 7, 11)[int(e.u("q") * 4)]}
        vs, why = valuations(c, [p], gen=gen, n=16)
        vs = [v[0] for v in vs if not isinstance(v[0], complex) and v[0] == v[0]]
        if len(vs) < 6: ck.unk(key, why or "no valuation", r.site0); continue
        if all(abs(v - round(v)) < 1e-9 for v in vs) and len({round(v) for v in vs}) > 1:
            ck.bad(key, "a quantity that is always an integer is computed with rounding and then truncated, so that it can come out one too small", sites.get(n, r.site0))
        else: ck.ok(key, "not an integer identically", sites.get(n, r.site0))

def check(ck):
    for name, f in (("hopf", hopf), ("rotation", rot), ("rounding", rounding), ("stereographic", stereo), ("northpole", pole), ("hemispheres", hemispheres), ("lens", lens)):
        ck.guard(name, f, ck)
    for m, t in T.items():
        if m.startswith(("ProjectiveMapUtils.", "LensMapUtils.")): ck.guard("truncation." + m, truncations, ck, "utils:" + m, t)

U = "dreimac/utils.py"
HY = "        Y = np.zeros((2 * X.shape[1], X.shape[0]))\n        Y[::2, :] = np.real(X).T\n        Y[1::2, :] = np.imag(X).T\n        return np.array(\n            [\n                2 * (np.prod(Y[[0, 2], :], axis=0) + np.prod(Y[[1, 3], :], axis=0)),\n                2 * (np.prod(Y[[1, 2], :], axis=0) - np.prod(Y[[0, 3], :], axis=0)),\n                np.sum(Y[[0, 1], :] ** 2, axis=0) - np.sum(Y[[2, 3], :] ** 2, axis=0),\n            ]\n        ).T\n"
ROT = "            np.eye(d)\n            - (1 - lam) * (c[:, None].dot(c[None, :]))\n            - (1 - lam) * (b[:, None].dot(b[None, :]))\n            + beta * (b[:, None].dot(c[None, :]) - c[:, None].dot(b[None, :]))\n"
ANTI = "            if np.sum(b * a) > 0 or d == 1:\n                return np.eye(d)\n"
ANTI2 = ANTI + "            # If a is numerically antipodal to b, rotate by half a turn in any plane containing b\n            c = np.zeros(d)\n            c[np.argmin(np.abs(b))] = 1\n            c = c - np.sum(b * c) * b\n"
HEMI = "        res[X_[:, -1] < 0, :] = _stereo(X_[X_[:, -1] < 0, :])\n        Y = X_[X_[:, -1] >= 0, :]\n        Y[:, -1] *= -1\n        res[X_[:, -1] >= 0, :] = _stereo(Y) + 2.5 * e1\n"
FLIP = "        ind = XX[-1, :] < 0\n        XX[:, ind] *= -1\n"
KLINE = "            k = np.rint((arg_z - theta) / (2 * np.pi / q))\n"
SELFTEST = [
    ("rotation threshold 1e-15", U, "if np.sqrt(np.sum(c**2)) < 1e-8:", "if np.sqrt(np.sum(c**2)) < 1e-15:", "bad"),
    ("rotation orthogonalised twice", U, ["if np.sqrt(np.sum(c**2)) < 1e-8:", "        c = c / np.sqrt(np.sum(c**2))\n        lam"], ["if np.sqrt(np.sum(c**2)) < 1e-14:", "        c = c / np.sqrt(np.sum(c**2))\n        c = c - np.sum(b * c) * b\n        c = c / np.sqrt(np.sum(c**2))\n        lam"], "quiet"),
    ("rotation threshold", U, "if np.sqrt(np.sum(c**2)) < 1e-8:", "if np.sqrt(np.sum(c**2)) < 1e-4:", "bad"),
    ("rotation threshold 1e-9", U, "if np.sqrt(np.sum(c**2)) < 1e-8:", "if np.sqrt(np.sum(c**2)) < 1e-9:", "quiet"),
    ("rotation isclose", U, "if np.sqrt(np.sum(c**2)) < 1e-8:", "if np.allclose(c, 0):", "quiet"),
    ("hemisphere turned", U, "        Y = X_[X_[:, -1] >= 0, :]\n        Y[:, -1] *= -1\n", "        Y = X_[X_[:, -1] >= 0, :]\n        Y *= -1\n", "bad"),
    ("hopf sign", U, "axis=0) + np.prod(Y[[1, 3], :], axis=0)),", "axis=0) - np.prod(Y[[1, 3], :], axis=0)),", "bad"),
    ("hopf without factor", U, "                2 * (np.prod(Y[[1, 2], :], axis=0) -", "                (np.prod(Y[[1, 2], :], axis=0) -", "bad"),
    ("hopf swapped rows", U, "(np.prod(Y[[1, 2], :], axis=0) - np.prod(Y[[0, 3], :], axis=0))", "(np.prod(Y[[0, 2], :], axis=0) - np.prod(Y[[1, 3], :], axis=0))", "bad"),
    ("hopf modulus only", U, "2 * (np.prod(Y[[1, 2], :], axis=0) - np.prod(Y[[0, 3], :], axis=0)),", "2 * np.abs(np.prod(Y[[1, 2], :], axis=0) - np.prod(Y[[0, 3], :], axis=0)),", "bad"),
    ("hopf transposed", U, "            ]\n        ).T\n\n    @staticmethod\n    def stereographic_projection_hemispheres", "            ]\n        )\n\n    @staticmethod\n    def stereographic_projection_hemispheres", "bad"),
    ("hopf complex formula", U, HY, "        z = 2 * X[:, 0] * np.conjugate(X[:, 1])\n        return np.stack([z.real, z.imag, np.abs(X[:, 0]) ** 2 - np.abs(X[:, 1]) ** 2], axis=1)\n", "quiet"),
    ("hopf missing conjugate", U, HY, "        z = 2 * X[:, 0] * X[:, 1]\n        return np.stack([z.real, z.imag, np.abs(X[:, 0]) ** 2 - np.abs(X[:, 1]) ** 2], axis=1)\n", "bad"),
    ("hopf other orientation", U, HY, "        z = 2 * np.conjugate(X[:, 0]) * X[:, 1]\n        return np.column_stack((np.real(z), np.imag(z), 1 - 2 * np.abs(X[:, 1]) ** 2))\n", "quiet"),
    ("rotation antipodal identity", U, ANTI2, "            return np.eye(d)\n", "bad"),
    ("rotation no coincidence test", U, "        if np.sqrt(np.sum(c**2)) < 1e-8:\n", "        if False:\n", "bad"),
    ("rotation reversed", U, "            + beta * (b[:", "            - beta * (b[:", "bad"),
    ("rotation unnormalised target", U, "        b = b / np.sqrt(np.sum(b**2))\n", "", "bad"),
    ("rotation unnormalised source", U, "        a = a / np.sqrt(np.sum(a**2))\n", "", "bad"),
    ("rotation wrong plane", U, "            - (1 - lam) * (c[:, None].dot(c[None, :]))\n", "            - (1 - lam) * (a[:, None].dot(a[None, :]))\n", "bad"),
    ("rotation antipodal axis", U, "c[np.argmin(np.abs(b))] = 1", "c[np.argmax(np.abs(b))] = 1", "bad"),
    ("rotation antipodal first axis", U, "c[np.argmin(np.abs(b))] = 1", "c[0] = 1", "bad"),
    ("rotation antipodal reflection", U, ANTI2, ANTI.replace("a) > 0 or d == 1", "a) > 0") + "            return np.eye(d) - 2 * b[:, None].dot(b[None, :])\n", "quiet"),
    ("rotation default pole", U, "            b = np.zeros(d)\n            b[-1] = 1\n", "            b = np.zeros(d)\n            b[0] = 1\n", "bad"),
    ("rotation outer products", U, ROT, "            np.eye(d) - (1 - lam) * (np.outer(c, c) + np.outer(b, b)) + beta * (np.outer(b, c) - np.outer(c, b))\n", "quiet"),
    ("rotation norm helper", U, "        a = a / np.sqrt(np.sum(a**2))\n", "        a = a / np.linalg.norm(a)\n", "quiet"),
    ("rotation sine from the residual", U, ["        c = c / np.sqrt(np.sum(c**2))\n        lam = np.sum(b * a)\n        beta = np.sqrt(max(1 - np.abs(lam) ** 2, 0))\n"], ["        c = c / np.sqrt(np.sum(c**2))\n        lam = b.dot(a)\n        beta = c.dot(a)\n"], "quiet"),
    ("stereo no sign", U, FLIP, "", "bad"),
    ("stereo flip last only", U, "        XX[:, ind] *= -1\n", "        XX[-1, ind] *= -1\n", "bad"),
    ("stereo flip other side", U, "        ind = XX[-1, :] < 0\n", "        ind = XX[-1, :] > 0\n", "bad"),
    ("stereo minus", U, "(1 + XX[-1, :])[None, :]", "(1 - XX[-1, :])[None, :]", "bad"),
    ("stereo pole transposed", U, "        XX = ProjectiveMapUtils.rotmat(u).dot(X)\n", "        XX = ProjectiveMapUtils.rotmat(u).T.dot(X)\n", "bad"),
    ("stereo first coordinate", U, "        S = XX[0:-1, :] /", "        S = XX[1:, :] /", "bad"),
    ("stereo flip with where", U, FLIP, "        XX = XX * np.where(XX[-1, :] < 0, -1, 1)[None, :]\n", "quiet"),
    ("stereo by rows", U, "        XX = ProjectiveMapUtils.rotmat(u).dot(X)\n", "        XX = (pX @ ProjectiveMapUtils.rotmat(u).T).T\n", "quiet"),
    ("stereo explicit pole", U, "        XX = ProjectiveMapUtils.rotmat(u).dot(X)\n", "        north = np.zeros(X.shape[0])\n        north[-1] = 1\n        XX = ProjectiveMapUtils.rotmat(u, north).dot(X)\n", "quiet"),
    ("pole not reset", U, "            x = x / np.sqrt(magSqr)\n            magSqr = 1\n", "            x = x / magSqr\n            magSqr = 1\n", "bad"),
    ("pole clips square root", U, "        if magSqr > 1:\n", "        if np.sqrt(magSqr) > 2:\n", "bad"),
    ("pole lower hemisphere", U, "        u[2] = np.sqrt(1 - magSqr)", "        u[2] = -np.sqrt(1 - magSqr)", "bad"),
    ("pole height", U, "        u[2] = np.sqrt(1 - magSqr)", "        u[2] = 1 - magSqr", "bad"),
    ("pole stores unclipped", U, ["        magSqr = np.sum(x**2)\n", "        u[0:2] = x\n"], ["        x0 = x\n        magSqr = np.sum(x**2)\n", "        u[0:2] = x0\n"], "bad"),
    ("pole concatenated", U, "        u = np.zeros(3)\n        u[0:2] = x\n        u[2] = np.sqrt(1 - magSqr)\n", "        u = np.append(x, np.sqrt(1 - magSqr))\n", "quiet"),
    ("pole array", U, "        u = np.zeros(3)\n        u[0:2] = x\n        u[2] = np.sqrt(1 - magSqr)\n", "        u = np.array([x[0], x[1], np.sqrt(1 - magSqr)])\n", "quiet"),
    ("hemispheres same disk", U, "_stereo(Y) + 2.5 * e1", "_stereo(Y)", "bad"),
    ("hemispheres no flip", U, "        Y[:, -1] *= -1\n", "", "bad"),
    ("hemispheres mask shifted", U, "        res[X_[:, -1] < 0, :] = _stereo(X_[X_[:, -1] < 0, :])\n", "        res[X_[:, -1] < 0, :] = _stereo(X_[X_[:, -1] < 0, :][::-1])\n", "bad"),
    ("hemispheres rotation transposed", U, "X @ centering_rotation.T", "X @ centering_rotation", "bad"),
    ("hemispheres boundary lost", U, "        Y = X_[X_[:, -1] >= 0, :]\n        Y[:, -1] *= -1\n        res[X_[:, -1] >= 0, :]", "        Y = X_[X_[:, -1] > 0, :]\n        Y[:, -1] *= -1\n        res[X_[:, -1] > 0, :]", "quiet"),
    ("hemispheres default first axis", U, "            center_vector[-1] = 1\n", "            center_vector[0] = 1\n", "bad"),
    ("hemispheres unmasked", U, HEMI, "        res = X_[:, :-1] / (1 + np.abs(X_[:, -1]))[:, None]\n        res[X_[:, -1] >= 0, :] += 2.5 * e1\n", "quiet"),
    ("hemispheres mask names", U, HEMI, "        low = X_[:, -1] < 0\n        high = ~low\n        res[low] = _stereo(X_[low])\n        Y = X_[high].copy()\n        Y[:, -1] = -Y[:, -1]\n        res[high] = _stereo(Y) + 2.5 * e1\n", "quiet"),
    ("lens truncation", U, KLINE, "            k = np.floor((arg_z - theta) / (2 * np.pi / q))\n", "bad"),
    ("lens integer cast", U, KLINE, "            k = int((arg_z - theta) / (2 * np.pi / q))\n", "bad"),
    ("lens floor division of a multiple", U, KLINE, "            k = (arg_z - theta) // (2 * np.pi / q)\n", "bad"),
    ("lens floor division", U, KLINE, "            k = arg_z // (2 * np.pi / q)\n", "quiet"),
    ("lens direct angle", U, KLINE + "\n            phi = np.mod(np.angle(p2), 2 * np.pi) - 2 * k * np.pi / q\n", "            phi = np.angle(p2) - (arg_z - theta)\n", "quiet"),
    ("lens added sector", U, "np.mod(np.angle(p2), 2 * np.pi) - 2 * k * np.pi / q", "np.mod(np.angle(p2), 2 * np.pi) + 2 * k * np.pi / q", "bad"),
    ("lens half sector", U, "np.mod(np.angle(p2), 2 * np.pi) - 2 * k * np.pi / q", "np.mod(np.angle(p2), 2 * np.pi) - k * np.pi / q", "bad"),
    ("lens sector dropped", U, "np.mod(np.angle(p2), 2 * np.pi) - 2 * k * np.pi / q", "np.mod(np.angle(p2), 2 * np.pi)", "bad"),
    ("lens negative angle sector", U, "            arg_z = np.mod(np.angle(p1), 2 * np.pi)\n", "            arg_z = np.angle(p1)\n", "quiet"),
    ("lens height scale", U, "(q / np.pi) * (theta - np.pi / q)", "(q / np.pi) * (theta - np.pi / 2)", "bad"),
    ("lens height uncentered", U, "(q / np.pi) * (theta - np.pi / q)", "(q / np.pi) * theta", "bad"),
    ("lens modulus of first", U, "np.sqrt(np.maximum(1 - r**2, 0))", "np.abs(p1)", "quiet"),
]
