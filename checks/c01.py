"""C01: circle-valued results are exactly 2*pi times a fractional part; colours are turn-invariant and in [0, 1]."""
import math
from .common import *

EXPLANATION = "Every returned circle map is brought to a scalar normal form per entry; the form must be 2*pi*frac(x) (so the value lies in [0, 2*pi] and only x mod 1 matters), with x the reference integrand. Colour values: normal forms are compared after adding one turn to the angle and checked for range."
ASSUMPTIONS = ["exact real arithmetic (rounding can return exactly 2*pi, which the property allows)", "numpy.mod has numpy's documented semantics"]
TWO_PI_ATOM = poly.atom("pi")

def turn_form(p):
    """p == 2*pi*frac(x) -> x ; sums with mutually exclusive guards are accepted too"""
    s = p.single()
    if s is None: return None
    c, m = s
    if c != 2: return None
    d = dict(m)
    if d.pop(TWO_PI_ATOM, 0) != 1 or len(d) != 1: return None
    (a, e), = d.items()
    if e == 1 and a.kind == "f" and a.args[0] == "frac": return a.args[1][0]
    return None

def wide(env, idx): return 40 * (env.u("wide", idx) - .5)

def in_range(ck, key, c, p, site, gen=None, dims=None, lo=0.0, hi=6.283185307179587):
    """range obligation: by form, else refuted by valuations"""
    if turn_form(p) is not None and hi > 6: ck.ok(key, "form 2*pi*frac(x)", site); return
    fv = cert.free_ivs(p)
    out = 0; good = 0; why = None
    for t in range(160):
        env = cert.Env(("range", t), gen, dims)
        try:
            for v in fv:
                r = c.ranges.get(v)
                if r is None: raise cert.NoVal("range")
                l, h = env.integer(r[0], {}), env.integer(r[1], {})
                if h <= l: raise cert.NoVal("empty")
                env.vals[v] = l + int(env.u("iv", poly.astr(v)) * (h - l))
            x = env.ev(p)
        except (cert.NoVal, OverflowError, ZeroDivisionError, ValueError) as e: why = str(e); continue
        if isinstance(x, complex): x = x.real if abs(x.imag) < 1e-9 else float("inf")
        good += 1
        if x != x: continue
        if x < lo - 1e-9 or x > hi + 1e-9: out += 1; bad = x
    if out >= 2: ck.bad(key, "value %r is outside [%g, %g]; term %s" % (bad, lo, hi, poly.pstr(p)[:400]), site)
    elif good >= 40 and not out: ck.ok(key, "range test", site)
    else: ck.unk(key, why or "no form", site)

def turns(ck, key, c1, n1, c2, n2, msg, site, gen=None, shift=None):
    t1 = c1.ty(n1)
    sd = samedims(t1.shape, c2.ty(n2).shape)
    if sd is False: ck.bad(key, msg + ": shape %s" % (tuple(map(str, t1.shape)),), site); return
    if sd is None: ck.unk(key, "shape", site); return
    idx = ivars(t1.shape, c1, c2)
    p, q = at(c1, n1, idx), at(c2, n2, idx)
    in_range(ck, key + ".range", c1, p, site, gen)
    ck.verdict(key + ".value", decide(c1, p, q, gen=gen), msg, site)

def maps(ck):
    spec(ck)
    U = "utils:CircleMapUtils."
    a = An(ck, U + "offset", {"circle_map": "N:f", "offset": ":f"}); b = An(ck, "zz_ref:offset", {"circle_map": "N:f", "offset": ":f"})
    ck.guard("offset", turns, ck, "offset", a.c, a.node, b.c, b.node, "offset is not rotation by `offset` turns modulo one turn", a.site, {"circle_map": wide, "offset": wide})

def center(ck):
    U = "utils:CircleMapUtils."
    a = An(ck, U + "center", {"circle_map": "N:f"})
    i, = ivars(a.c.ty(a.node).shape, a.c)
    p = at(a.c, a.node, (i,))
    g = {"circle_map": wide}
    in_range(ck, "center.range", a.c, p, a.site, g)
    # invariance: the same integer change of one angle is invisible, everything else in the term held fixed
    el = poly.atom("el", vg.sym("circle_map"), (i,), "f")
    hit = [x for x in p.atoms()]
    own = find_leaf(p, "circle_map", i)
    if own is None: ck.unk("center.rotation", "no leaf"); return
    x = turn_form(p)
    if x is None:
        # adding a full turn to one angle (the others and the weights fixed) must not be seen
        vs, why = valuations(a.c, [p, poly.subst_p(p, {own: P(own) + 2 * P(TWO_PI_ATOM)})], g, 60)
        off = [v for v, w in vs if abs((v - w) / (2 * math.pi) - round((v - w) / (2 * math.pi))) > 1e-6 and abs(v) < 6.2831]
        if len(off) >= 4: ck.bad("center.rotation", "adding a full turn to one angle changes its image", a.site)
        else: ck.unk("center.rotation", "no turn form", a.site)
        return
    # slope of the integrand in the angle must be 1/(2 pi): a rotation
    v = decide(a.c, poly.subst_p(x, {own: P(own) + 1}) - x, P(Fraction(1, 2)) / poly.PI if hasattr(poly, "PI") else P(Fraction(1, 2)) / P(TWO_PI_ATOM))
    ck.verdict("center.rotation", v, "centering is not a rotation of the circle", a.site)

def find_leaf(p, name, i):
    st = [p]; seen = set()
    while st:
        x = st.pop()
        if isinstance(x, Poly):
            for m in x.t:
                for a, e in m: st.append(a)
        elif isinstance(x, tuple): st += list(x)
        elif isinstance(x, poly.Atom):
            if x in seen: continue
            seen.add(x)
            if x.kind == "el" and (x.args[0] == name or isinstance(x.args[0], vg.Node) and x.args[0].op == "sym" and x.args[0].args[0] == name) and len(x.args[1]) == 1 and x.args[1][0] == i: return x
            st += [y for y in x.args if isinstance(y, (Poly, tuple, poly.Atom))]
    return None

def lincomb(ck):
    U = "utils:CircleMapUtils.linear_combination"
    spec(ck)
    for nm, sh in (("matrix", "l k:i"), ("vector", "k:i")):
        def go():
            t = {"circle_maps": "k N:f", "linear_combination_matrix": sh}
            a = An(ck, U, t); b = An(ck, "zz_ref:linear_combination", t)
            turns(ck, "linear_combination." + nm, a.c, a.node, b.c, b.node, "linear combination of circle maps is not M @ maps modulo one turn", a.site, {"circle_maps": wide})
        ck.guard("linear_combination." + nm, go)

def colours(ck):
    U = "utils:CircleMapUtils."
    a = An(ck, U + "to_sinebow", {"circle_map": "N:f"})
    tt = a.c.ty(a.node)
    g = {"circle_map": wide}
    i = ivars(tt.shape[:1], a.c)
    for ch in range(3):
        p = at(a.c, a.node, i + (P(ch),))
        in_range(ck, "sinebow%d.range" % ch, a.c, p, a.site, g, hi=1.0)
        own = find_leaf(p, "circle_map", i[0])
        if own is None: ck.unk("sinebow%d.turn" % ch, "no leaf"); continue
        ck.verdict("sinebow%d.turn" % ch, decide(a.c, poly.subst_p(p, {own: P(own) + 2 * P(TWO_PI_ATOM)}), p, gen=g), "colour changes when a full turn is added to the angle", a.site)
    a = An(ck, U + "levelset_coloring", {"circle_map": "N:f", "n_levelsets": ":i", "smoothing": ":f"})
    for nm, ov in (("smooth", {}), ("sharp", {"smoothing": ZERO})):
        def go():
            i = ivars(a.c.ty(a.node).shape, a.c)
            p = at(a.c, a.node, i)
            if ov: p = poly.subst_p(p, {poly.atom("el", "smoothing", (), "f"): ZERO, poly.atom("v", "smoothing", "f"): ZERO})
            g2 = dict(g); g2["n_levelsets"] = lambda env, idx: 1 + int(env.u("nl") * 6)
            g2["smoothing"] = (lambda env, idx: 0.0) if ov else (lambda env, idx: .05 + env.u("sm"))
            in_range(ck, "levelset.%s.range" % nm, a.c, p, a.site, g2, hi=1.0)
            own = find_leaf(p, "circle_map", i[0])
            if own is None: ck.unk("levelset.%s.turn" % nm, "no leaf"); return
            ck.verdict("levelset.%s.turn" % nm, decide(a.c, poly.subst_p(p, {own: P(own) + 2 * P(TWO_PI_ATOM)}), p, gen=g2), "colour changes when a full turn is added to the angle", a.site)
            g3 = dict(g2); g3["n_levelsets"] = lambda env, idx: 1 + int(env.u("nl") * 40)
            n = poly.power(P(poly.atom("v", "n_levelsets", "i")), -1)
            ck.verdict("levelset.%s.arcs" % nm, decide(a.c, poly.subst_p(p, {own: P(own) + 2 * P(TWO_PI_ATOM) * n}), p, gen=g3), "the colouring is not the same on each of the n_levelsets equal arcs of the circle", a.site)
        ck.guard("levelset." + nm, go)

def coordinates(ck):
    for q in ("toroidalcoords:ToroidalCoords", "circularcoords:CircularCoords"):
        def go():
            r = ck.run(q + ".get_coordinates")
            n = r.node()
            an = type("A", (), {})(); an.node = n
            conds = cases(ck, an)
            combos = [{}]
            for cd in conds[:3]: combos = [dict(f) | {cd: v} for f in combos for v in (0, 1)]
            for f in combos:
                nm = q.split(":")[1] + ("." + "".join(str(v) for v in f.values()) if f else "")
                def one():
                    for cd, v in f.items():
                        c = dre.em_ctx(ck, q, r, facts={k: w for k, w in f.items() if k is not cd})
                        dre.abstract_calls(ck, r, c)
                        try: known = c.close(c.cond(cd)).const()
                        except (Unk, vg.AnalysisError): continue
                        if known is not None and known != v: ck.ok(nm, "this combination of conditions is impossible by the shapes", r.site0); return
                    c = dre.em_ctx(ck, q, r, facts=f)
                    dre.abstract_calls(ck, r, c)
                    c.hooks.append(dre.harmonic_hook([]))
                    sh = c.ty(n).shape
                    idx = ivars(sh, c)
                    p = at(c, n, idx)
                    if p.const() is not None: ck.unk(nm, "constant"); return
                    g = {poly.nodekey(a.args[0]): wide for a in atoms_of(p, solver_leaf)}
                    g.update(basis(c, p, r))
                    in_range(ck, nm + ".range", c, p, r.site0, g)
                    x = turn_form(p)
                    if x is None: shifts(ck, nm, c, p, g, r.site0, 2 * math.pi); return
                    integral(ck, nm, c, x, r.site0, g)
                ck.guard(nm, one)
        ck.guard(q, go)

def rounded(m, r):
    """is a rounded number part of what a loop (or a loop inside it) makes of the carried value `m`?"""
    st = [m]; seen = set()
    while st:
        m = st.pop()
        L = r.loops.get(m.args[0])
        if m in seen or L is None or m not in L.mu: continue
        seen.add(m)
        for x in vg.walk(L.mu[m][1]):
            if x.op == "call" and x.args[0].split(".")[-1] in ("rint", "round", "floor", "around"): return True
            if x.op == "final": st.append(x.args[1])
    return False

def basis(c, p, r):
    """the change of basis a lattice reduction ends with (a square matrix that starts as the identity and is changed by rounded
    multiples of its rows or columns) may be any integer matrix of determinant one"""
    out = {}
    for a in atoms_of(p, lambda a: a.kind in ("opq", "el") and len(a.args[1]) == 2 and isinstance(a.args[0], vg.Node) and a.args[0].op == "final"):
        m = a.args[0].args[1]; ok = rounded(m, r)
        while m.op == "mu" and m.args[0] in r.loops and m in r.loops[m.args[0]].mu: m = r.loops[m.args[0]].mu[m][0]
        if ok and m.op == "call" and m.args[0] in ("numpy.eye", "numpy.identity"):
            out[poly.nodekey(a.args[0])] = lambda env, ix: int(ix[0] == ix[1]) + (int(4 * env.u("basis", *ix)) - 1 if ix[0] < ix[1] else 0)
    return out

def shifts(ck, nm, c, p, g, site, turn):
    """no 2*pi*frac form: refute by comparing the angle before and after a change of the integral by 1 and by 1/3"""
    ls = atoms_of(p, solver_leaf)
    if not ls: ck.unk(nm + ".turn", "no integral leaf", site); return
    for d, wants in ((1, (0,)), (Fraction(1, 3), (1 / 3, -1 / 3))):
        vs, why = valuations(c, [p, poly.subst_p(p, {a: P(a) + d for a in ls})], g, 60)
        vs = [(y - x) / turn for x, y in vs if not isinstance(x, complex) and not isinstance(y, complex)]
        off = [v for v in vs if all(abs((v - w) - round(v - w)) > 1e-6 for w in wants)]
        if len(off) >= 4: ck.bad(nm + ".turn", "changing the integral by %s turn(s) changes the angle by %r turns; term %s" % (d, off[0], poly.pstr(p)[:300]), site); return
    ck.unk(nm + ".turn", "no turn form", site)

def integral(ck, nm, c, x, site, g=None):
    """an integer change of the integral is invisible; a third of a turn moves the angle by a third of a turn"""
    ls = atoms_of(x, solver_leaf)
    if not ls: ck.unk(nm + ".integer", "no integral leaf", site); return
    direct = any(solver_leaf(a) for a in x.atoms())
    d1 = poly.subst_p(x, {a: P(a) + 1 for a in ls}) - x
    d3 = poly.subst_p(x, {a: P(a) + P(Fraction(1, 3)) for a in ls}) - x
    def mod1(key, d, want, msg):
        if poly.is_int(d - want[0]): ck.ok(key, "normal form", site); return
        vs, why = valuations(c, [d], g)
        bad = [v for v, in vs if all(abs((v - float(w.const())) - round((v - float(w.const())))) > 1e-6 for w in want)] if all(not isinstance(v, complex) for v, in vs) else []
        if len(bad) >= 2: ck.bad(key, "%s: change %r; term %s" % (msg, bad[0], poly.pstr(d)[:300]), site)
        elif vs and not bad: ck.ok(key, "identity test", site)
        else: ck.unk(key, why or "no valuation", site)
    mod1(nm + ".integer", d1, [P(0)], "an integer change of the integral changes the angle")
    if direct: mod1(nm + ".scale", d3, [P(Fraction(1, 3)), P(Fraction(-1, 3))], "the angle is not one full turn times the integral")

def check(ck):
    ck.guard("maps", maps, ck)
    ck.guard("center", center, ck)
    lincomb(ck)
    ck.guard("colours", colours, ck)
    coordinates(ck)

T, U = "dreimac/toroidalcoords.py", "dreimac/utils.py"
SELFTEST = [
    ("missing two pi", T, "return np.mod(2 * np.pi * class_map, 2 * np.pi)", "return np.mod(class_map, 2 * np.pi)", "bad"),
    ("half turn", T, "return np.mod(2 * np.pi * class_map, 2 * np.pi)", "return np.mod(2 * np.pi * class_map, np.pi)", "bad"),
    ("no mod", T, "return np.mod(2 * np.pi * class_map, 2 * np.pi)", "return 2 * np.pi * class_map", "bad"),
    ("fmod", T, "return np.mod(2 * np.pi * class_map, 2 * np.pi)", "return np.fmod(2 * np.pi * class_map, 2 * np.pi)", "bad"),
    ("offset mod", U, "return (circle_map + offset * (2 * np.pi)) % (2 * np.pi)", "return (circle_map + offset) % (2 * np.pi)", "bad"),
    ("offset fmod", U, "return (circle_map + offset * (2 * np.pi)) % (2 * np.pi)", "return np.fmod(circle_map + offset * (2 * np.pi), 2 * np.pi)", "bad"),
    ("center no mod", U, "+ np.pi) % (2 * np.pi)", "+ np.pi)", "bad"),
    ("center mod pi", U, "+ np.pi) % (2 * np.pi)", "+ np.pi) % 6.28", "bad"),
    ("lincomb vector", U, "(np.array([linear_combination_matrix]) @ circle_maps) % (2 * np.pi)\n            )[0]", "(np.array([linear_combination_matrix]) @ circle_maps)\n            )[0]", "bad"),
    ("lincomb transposed", U, "return (linear_combination_matrix @ circle_maps) % (2 * np.pi)", "return (linear_combination_matrix @ circle_maps) % (4 * np.pi)", "bad"),
    ("sinebow no mod", U, "h = np.mod(circle_map / (2 * np.pi) + 0.5, 1)", "h = circle_map / 6 + 0.5", "bad"),
    ("levelset", U, "sigmoid(triangle((c * n_levelsets) % 2))", "sigmoid(triangle((c * n_levelsets / 2) % 2))", "bad"),
    ("levelset neg", U, "s = 1 / (1 + np.exp(-x / k))", "s = 1 / (1 - np.exp(-x / k))", "bad"),
    ("sharp", U, "np.floor(c * n_levelsets) % 2 for c in colors", "np.floor(c * n_levelsets) for c in colors", "bad"),
    ("levelset capped", U, "        n_levelsets *= 2\n", "        n_levelsets = 2 * min(n_levelsets, 8)\n", "bad"),
    ("levelset once", U, "        n_levelsets *= 2\n", "", "bad"),
    ("levelset doubled", U, "        n_levelsets *= 2\n", "        n_levelsets = n_levelsets + n_levelsets\n", "quiet"),
    ("vectorised sharp", U, "np.array([np.floor(c * n_levelsets) % 2 for c in colors])", "np.floor(colors * n_levelsets) % 2", "quiet"),
    ("offset helper", U, "return (circle_map + offset * (2 * np.pi)) % (2 * np.pi)", "turn = 2 * np.pi\n        res = circle_map + turn * offset\n        return res - turn * np.floor(res / turn)", "quiet"),
    ("offset via turns", U, "return (circle_map + offset * (2 * np.pi)) % (2 * np.pi)", "turn = 2 * np.pi\n        return turn * ((circle_map / turn + offset) % 1)", "quiet"),
    ("coords via turns", T, "return np.mod(2 * np.pi * class_map, 2 * np.pi)", "class_map -= np.floor(class_map)\n    return 2 * np.pi * class_map", "quiet"),
    ("theta loop", T, "class_map[i] += theta_matrix[membership_function[i], :].dot(part_unity[:, i])", "for t in range(n_points):\n            class_map[i] += theta_matrix[membership_function[i], t] * part_unity[t, i]", "quiet"),
]
