"""C12: the value at a point does not depend on the covering ball used to compute it."""
from .simplex import *
from .c03 import Sub
from . import c11
from .c11 import integrals, names, gen as dgen
import cmath, math

TECHNIQUE = "static analysis: the closed term of every coordinate formula is evaluated on random cochain data satisfying the cocycle relation and compared with the ball-independent reference; the chosen ball is a closed term tested for membership"
EXPLANATION = "get_covering_partition: the term of the chosen ball is evaluated for random distances; it must be a landmark with positive weight (whether it is always the first one is recorded).  For each class the local formula is a term in the weights, the ball, the harmonic cochain and its potential.  Random integer cochains f and potentials I are drawn, the harmonic cochain is given the value c +/- delta I with delta the incidence table extracted from the repository's own coboundary operator and the sign found in the code, and the formula is compared, for every admissible ball, with the ball-independent value sum_t phi_t (I - f)_t modulo one turn (circle), exp(-2 pi i sum_t phi_t (m - nu)(i, t)) up to a common phase (complex projective), root^f(i) up to a common power (real projective, lens)."
ASSUMPTIONS = ["the integer cochain is a cocycle on the balls that meet (C05)", "landmarks of two balls containing one point are closer than the filtration value (triangle inequality)", "cochain tensors are as stored (C08)"]
Q = "emcoords:EMCoords.get_covering_partition"
NP = 2
A = lambda v: v.single()[1][0][0]

def ball(ck):
    """is the ball a covering landmark; is it always the first one?"""
    key = "ball"
    f = ck.fn(Q); ps = [a.arg for a in f.node.args.args if a.arg != "self"]
    if len(ps) != 2: ck.unk(key, "parameters"); return None
    r = ck.run(Q, args={ps[0]: vg.sym("r_cover"), ps[1]: ck.fn(c11.PU + ".linear")})
    t, sp, sy, rl = dre.field_types(ck, "emcoords:EMCoords")
    t["r_cover"] = Ty((), "f")
    fld = None
    for k, ro in rl.items():
        if ro == "dist_land_data" and ("self." + k) in {x.args[0] for x in walk(r.node()) if x.op == "sym"}: fld = "self." + k
    if fld is None: ck.unk(key, "stored distances not found"); return None
    c = Ctx(r, types=t, special=sp, symmetric=sy)
    bn = item(r.node(), 1)
    sh = c.ty(bn).shape
    if len(sh) != 1 or samedims(sh, (dim("N"),)) is not True: ck.unk(key, "shape of the ball index"); return None
    b, = ivars(sh, c)
    p = at(c, bn, (b,))
    out = n = notfirst = 0; why = None; w = None
    for s in range(40 * cert.BOOST):
        g = dgen("f", "near")
        e = cert.Env(("ball", s), {fld: lambda env, ix: g(env, ix) + 1e-3 * env.u("jit", *ix), "r_cover": lambda env, ix: 0.6 + 1.9 * env.u("r")}, {"L": 4, "N": 4}, ctx=c)
        try:
            R = e.ev(c.val(vg.sym("r_cover")))
            for y in range(4):
                D = [e.gen[fld](e, (x, y)) for x in range(4)]
                cov = [x for x in range(4) if D[x] < R]
                if not cov: continue
                v = e.ev(p, {A(b): y}); n += 1
                if v not in cov: out += 1; w = (D, R, v)
                elif v != cov[0]: notfirst += 1
        except (cert.NoVal, OverflowError, ZeroDivisionError, ValueError, TypeError) as ex: why = str(ex)
    if n < 30: ck.unk(key, why or "no valuation", r.site0); return None
    if out >= 2: ck.bad(key, "the ball chosen for a covered point does not contain it: distances, radius, ball = %s" % (w,), r.site0)
    else: ck.ok(key, "membership test of the term, %d valuations" % n, r.site0)
    return not notfirst and not out

def support(env, b, L):
    s = [t for t in range(L) if env.u("supp", t, b) < .6]
    return s or [int(env.u("one", b) * L)]

def phi(env, ix):
    L = env.dimv["L"]
    s = support(env, ix[1], L)
    if ix[0] not in s: return 0.0
    return weight(env, ix[0], ix[1], s)

def weight(env, t, b, s):
    ws = {x: (.1 + env.u("w", x, b)) * (2e-4 if env.u("tiny", x, b) < .15 else 1) for x in s}     # points close to the boundary of a ball included
    return ws[t] / sum(ws.values())

def shared(env, *vs):
    """do the balls of these landmarks share a data point?  Cochains satisfy the cocycle relation there only; anything elsewhere"""
    return any(all(v in support(env, y, env.dimv["L"]) for v in vs) for y in range(int(env.dimv["N"])))

def choice(env, b, k, first):
    s = support(env, b, env.dimv["L"])
    return s[0] if first else s[int(env.u("choice", b, k) * len(s))]

def setup(ck, q):
    r = ck.run(q + ".get_coordinates")
    c = dre.em_ctx(ck, q, r)
    got = dre.abstract_calls(ck, r, c)
    return r, c, got

def delta_vec(ck, nm):
    I = incidence(ck, nm)
    if not I.ok or I.vec is None: raise Unk("coboundary operator not extracted")
    v = [x.const() for x in I.vec]
    if any(x is None for x in v): raise Unk("incidence signs")
    return [int(x) for x in v]

def harms(r, c):
    out = []
    for n in every_node(r):
        h = dre.harmonic_parts(n)
        if h and n not in out: out.append(n)
    return out

def gens_base(c, got):
    thr = got["radius"][2]
    c.over.setdefault(thr, Ty((), "f"))
    g = {"self." + f: (lambda env, ix: 0 if ix[0] == ix[1] else 1) for f, ro in c.rl.items() if ro == "dist_land_land"}
    for p in c.val(thr).atoms():
        if p.kind in ("el", "opq"): g[p.args[0] if isinstance(p.args[0], str) else poly.nodekey(p.args[0])] = lambda env, ix: 2
    g["self._prime"] = lambda env, ix: [2, 3, 5, 7][int(4 * env.u("prime"))]
    return g

def edge_of(e):
    e = int(e); j = 1
    while j * (j + 1) // 2 <= e: j += 1
    return e - j * (j - 1) // 2, j

def circle(ck, q, first):
    nm = q.split(":")[1]
    r, c, got = setup(ck, q)
    if "partition" not in got or "radius" not in got: ck.unk(nm, "cover not found"); return
    vphi, bl = got["partition"][1], got["partition"][2]
    hs = harms(r, c)
    seen = []
    c.hooks.append(dre.harmonic_hook(seen))
    n = integrals(ck, r, c, vphi)
    if n is None:
        n = r.node()
        if samedims(c.ty(n).shape, (dim("N"),)) is not True: ck.unk(nm + ".glue", "integration not found", r.site0); return
    v = delta_vec(ck, "make_delta0")
    g = gens_base(c, got)
    sol = lambda env, t, k: 3 * env.u("I", t, *k) - 1.5
    fpot = lambda env, t, k: int(7 * env.u("f", t, *k)) - 3
    for h in hs:
        _, dl, so, sg = dre.harmonic_parts(h)
        g[poly.nodekey(so)] = lambda env, ix: sol(env, ix[0], ix[1:])
        def harm(env, ix, sg=sg):
            i, j = edge_of(ix[0]); k = ix[1:]
            d = lambda fn: v[0] * fn(env, j, k) + v[1] * fn(env, i, k)
            return d(fpot) + sg * d(sol) + (0 if shared(env, i, j) else .2 + .6 * env.u("off", i, j))
        g[poly.nodekey(h)] = harm
    g[poly.nodekey(vphi)] = phi
    sh = c.ty(n).shape
    b, = ivars(sh, c)
    p = at(c, n, (b,))
    turn = 2 * math.pi
    bad = tot = 0; why = None; w = None
    sg = [x for h in hs for x in [dre.harmonic_parts(h)[3]]]
    for s in range(40 * cert.BOOST):
        g[poly.nodekey(bl)] = lambda env, ix, s=s: choice(env, ix[0], s, first)
        env = cert.Env(("glue", s), g, {"L": 4, "N": NP}, ctx=c)
        try:
            for x in cert.free_ivs(p) - {A(b)}: env.vals[x] = 0
            k = (0,) * len(cert.free_ivs(p) - {A(b)})
            for y in range(NP):
                x = env.ev(p, {A(b): y})
                refs = [sum(phi(env, (t, y)) * (a_ * sol(env, t, k) + b_ * fpot(env, t, k)) for t in range(4)) for a_ in (1, -1) for b_ in (1, -1)]
                tot += 1
                if all(abs((x - turn * ref + math.pi) % turn - math.pi) > 1e-6 for ref in refs): bad += 1
        except (cert.NoVal, OverflowError, ZeroDivisionError, ValueError, TypeError) as ex: why = str(ex)
    verdict(ck, nm + ".glue", bad, tot, why, r.site0, "%s: the angle depends on the ball it is computed in (potential, harmonic part and weights do not match)" % nm)

def verdict(ck, key, bad, tot, why, site, msg):
    if tot < 20: ck.unk(key, why or "no valuation", site)
    elif bad >= 2: ck.bad(key, msg, site)
    else: ck.ok(key, "ball-independence test, %d valuations" % tot, site)

def table(ck, r, c, got, m):
    """arrays over m vertices storing plus or minus the value of a cochain on the sorted simplex: {ref: (leaf node, {positions: sign})}"""
    out = {}
    dll = [vg.sym("self." + f) for f, ro in c.rl.items() if ro == "dist_land_land"][0]
    thr = got["radius"][2]
    g = {dll.args[0]: scatter.dist_gen}
    for p in c.val(thr).atoms():
        if p.kind in ("el", "opq"): g[p.args[0] if isinstance(p.args[0], str) else poly.nodekey(p.args[0])] = scatter.thr_gen
    for s in scatter.sites(r):
        if len(s.idx) != m or s.aug is not None or not hasattr(s.ref, "id"): continue
        fl = [l for l in s.loops if l.kind == "for"]
        if len(fl) < m: continue
        fl = fl[-m:]
        try:
            d = scatter.Domain(c, fl, [(x, pol) for x, pol in s.conds if any(y is l.iv for l in fl for y in walk(x)) and not any(y.op == "inloop" for y in walk(x))])
            mt = scatter.match(c, d, m, dll, thr, dim("L"), g, {"L": 5})
            if mt.status != "ok": continue
            pos = tuple(mt.perm.index(c.close(c.val(x)).single()[1][0][0]) for x in s.idx)
            v = c.close(c.val(s.val))
            sg = v.single()
            if sg is None or len(sg[1]) != 1: continue
            leaf = sg[1][0][0]
            if leaf.kind != "el" or isinstance(leaf.args[0], str): continue
            if decide(c, leaf.args[1][0], number([P(x) for x in mt.perm])).kind != "eq": continue
        except (Unk, vg.AnalysisError, ValueError, TypeError, KeyError) as ex:
            if __import__('os').environ.get('SA_DEBUG'): print('table', s.site, repr(ex), ex)
            continue
        nd, tb = out.setdefault(s.ref.id, (leaf.args[0], {}))
        if nd is leaf.args[0]: tb[pos] = int(sg[0])
    return out

def projective(ck, q, first):
    """complex projective"""
    nm = q.split(":")[1]
    r, c, got = setup(ck, q)
    if "partition" not in got or "radius" not in got: ck.unk(nm, "cover not found"); return
    vphi, bl = got["partition"][1], got["partition"][2]
    hs = harms(r, c)
    seen = []
    c.hooks.append(dre.harmonic_hook(seen))
    cm = [x for x in r.calls_seen if x[0].split(".")[-1] == "ppca"]
    if not cm or not hs: ck.unk(nm + ".glue", "integration not found", r.site0); return
    a = cm[-1][1]; n = a["class_map"] if isinstance(a, dict) else a[0]
    T2, T3 = table(ck, r, c, got, 2), table(ck, r, c, got, 3)
    v = delta_vec(ck, "make_delta1")
    g = gens_base(c, got)
    num2 = lambda i, j: j * (j - 1) // 2 + i
    nu = lambda env, i, j: 3 * env.u("nu", i, j) - 1.5
    mm = lambda env, i, j: int(7 * env.u("m", i, j)) - 3
    sgn_ = [dre.harmonic_parts(h)[3] for h in hs][0]
    def harm(env, i, j, k):
        d = lambda fn: v[0] * fn(env, j, k) + v[1] * fn(env, i, k) + v[2] * fn(env, i, j)
        return d(mm) + sgn_ * d(nu)
    def add(m, T, fn):
        for rid, (leaf, tb) in T.items():
            k = poly.nodekey(leaf)
            ok_ = dre.is_solution(leaf) if m == 2 else dre.harmonic_parts(leaf) is not None
            if not ok_: continue
            for x in every_node(r):
                if x.op == "final" and scatter.ref_of(x) == "r%d" % rid:
                    c.over[x] = Ty((dim("L"),) * m, "f")
                    def val(env, ix, tb=tb):
                        ix = tuple(int(y) for y in ix[:m])
                        if len(set(ix)) < m: return 0
                        so = sorted(ix)
                        return tb.get(tuple(so.index(y) for y in ix), 0) * (fn(env, *so) if shared(env, *so) else env.u("off", *so))
                    g[poly.nodekey(x)] = val
            yield rid
    if not list(add(2, T2, nu)) or not list(add(3, T3, harm)): ck.unk(nm + ".glue", "cochain tensors not recognised", r.site0); return
    g[poly.nodekey(vphi)] = phi
    sh = c.ty(n).shape
    if len(sh) != 2: ck.unk(nm + ".glue", "shape"); return
    b, i = ivars(sh, c)
    p = at(c, n, (b, i))
    bad = tot = 0; why = None
    G = lambda env, x, y: sum(phi(env, (t, y)) * (0 if t == x else (1 if x < t else -1) * (mm(env, *sorted((x, t))) - nu(env, *sorted((x, t))))) for t in range(4))
    for s in range(30 * cert.BOOST):
        g[poly.nodekey(bl)] = lambda env, ix, s=s: choice(env, ix[0], s, first)
        env = cert.Env(("glue", s), g, {"L": 4, "N": NP}, ctx=c)
        try:
            for x in cert.free_ivs(p) - {A(b), A(i)}: env.vals[x] = 0
            for y in range(NP):
                su = [t for t in range(4) if phi(env, (t, y)) > 0]
                if len(su) < 2: continue
                vs = [complex(env.ev(p, {A(b): y, A(i): x})) for x in su]
                if any(abs(z) < 1e-9 for z in vs): tot += 1; bad += 1; continue
                okk = False
                for sg in (1, -1):
                    ph = [z / abs(z) * cmath.exp(sg * 2j * math.pi * G(env, x, y)) for z, x in zip(vs, su)]
                    okk |= all(abs(z - ph[0]) < 1e-6 for z in ph)
                tot += 1; bad += not okk
        except (cert.NoVal, OverflowError, ZeroDivisionError, ValueError, TypeError) as ex: why = str(ex)
    verdict(ck, nm + ".glue", bad, tot, why, r.site0, "%s: the point depends on the ball it is computed in by more than a phase (edge part, triangle part and weights do not match)" % nm)

def lens(ck, q, first, proj):
    nm = q.split(":")[1]
    r, c, got = setup(ck, q)
    if "partition" not in got: ck.unk(nm, "cover not found"); return
    vphi, bl = got["partition"][1], got["partition"][2]
    cm = [x for x in r.calls_seen if x[0].split(".")[-1] == "ppca"]
    if not cm: ck.unk(nm + ".glue", "reduction not called", r.site0); return
    a = cm[-1][1]; n = a["class_map"] if isinstance(a, dict) else a[0]
    sh = c.ty(n).shape
    if len(sh) != 2: ck.unk(nm + ".glue", "shape"); return
    b, i = ivars(sh, c)
    p = at(c, n, (b, i))
    # every array of (vertex, vertex, value) rows the term reads
    co = [x for x in every_node(r) if x.op == "index" and any(y.op == "sym" and c.rl.get(y.args[0][5:]) == "cocycles" for y in walk(x))]
    keys = set()
    for x in co:
        try:
            if c.ty(x).rank == 2: keys.add(poly.nodekey(x))
        except Exception: pass
    pr = 2 if proj else None
    g = {"self._prime": lambda env, ix: 2 if proj else [2, 3, 5, 7][int(4 * env.u("prime"))]}
    def row(env, ix):
        e = int(ix[0]); u, w = edge_of(e)
        P_ = g["self._prime"](env, ())
        f = lambda x: int(P_ * env.u("f", x))
        if env.u("flip", e) < .5: u, w = w, u
        return (u, w, (f(w) - f(u) + (0 if shared(env, u, w) else int(P_ * env.u("off", e)))) % P_)[int(ix[1])]
    for k in keys: g[k] = row
    g[poly.nodekey(vphi)] = phi
    bad = tot = 0; why = None
    for s in range(30 * cert.BOOST):
        g[poly.nodekey(bl)] = lambda env, ix, s=s: choice(env, ix[0], s, first)
        env = cert.Env(("glue", s), g, {"L": 4, "N": NP, "nsupp": 6}, ctx=c)
        try:
            for x in cert.free_ivs(p) - {A(b), A(i)}: env.vals[x] = 0
            P_ = g["self._prime"](env, ())
            for y in range(NP):
                su = [t for t in range(4) if phi(env, (t, y)) > 0]
                if len(su) < 2: continue
                vs = [complex(env.ev(p, {A(b): y, A(i): x})) for x in su]
                if any(abs(z) < 1e-9 for z in vs): tot += 1; bad += 1; continue
                okk = False
                for sg in (1, -1):
                    ph = [z / abs(z) * cmath.exp(sg * 2j * math.pi * int(P_ * env.u("f", x)) / P_) for z, x in zip(vs, su)]
                    okk |= all(abs(z - ph[0]) < 1e-6 for z in ph)
                tot += 1; bad += not okk
        except (cert.NoVal, OverflowError, ZeroDivisionError, ValueError, TypeError) as ex: why = str(ex)
    verdict(ck, nm + ".glue", bad, tot, why, r.site0, "%s: the point depends on the ball it is computed in by more than a unit scalar" % nm)

def own_weights(ck, q):
    sub = Sub(ck)
    c11.classmap(sub, q)
    for o in sub.obls:
        if o.key.endswith(".leak"): o.key = "own." + o.key; ck.obls.append(o)

def check(ck):
    first = ck.guard("ball", ball, ck)
    ck.notes.append("chosen ball is always the first covering landmark: %s" % first)
    first = bool(first)
    for q in ("toroidalcoords:ToroidalCoords", "circularcoords:CircularCoords"): ck.guard(q.split(":")[1], circle, ck, q, first)
    ck.guard("ComplexProjectiveCoords", projective, ck, "complexprojectivecoords:ComplexProjectiveCoords", first)
    ck.guard("ProjectiveCoords", lens, ck, "projectivecoords:ProjectiveCoords", first, True)
    ck.guard("LensCoords", lens, ck, "lenscoords:LensCoords", first, False)
    for q in ("projectivecoords:ProjectiveCoords", "lenscoords:LensCoords", "complexprojectivecoords:ComplexProjectiveCoords", "toroidalcoords:ToroidalCoords"):
        ck.guard(q.split(":")[1] + ".own", own_weights, ck, q)

M, U, T, L, C, PR = ["dreimac/%s.py" % x for x in ("emcoords", "utils", "toroidalcoords", "lenscoords", "complexprojectivecoords", "projectivecoords")]
SELFTEST = [
    ("last ball", PR, "cocycle_matrix[ball_indx[:], :]", "cocycle_matrix[np.minimum(ball_indx, n_landmarks - 2), :]", "quiet"),
    ("previous ball", PR, "cocycle_matrix[ball_indx[:], :]", "cocycle_matrix[np.maximum(ball_indx - 1, 0), :]", "bad"),
    ("next ball lens", L, "cocycle_matrix[ball_indx[:], :]", "cocycle_matrix[np.minimum(ball_indx + 1, n_landmarks - 1), :]", "bad"),
    ("last ball circle", T, "        class_map[i] += theta_matrix[membership_function[i], :].dot", "        class_map[i] += theta_matrix[min(membership_function[i], n_points - 2), :].dot", "bad"),
    ("closest ball only", M, "np.argmax(U, 0)", "np.argmin(dist_land_data, 0)", "bad"),
    ("argmax ints", M, "np.argmax(U, 0)", "np.argmax(U * 1, axis=0)", "quiet"),
    ("argmax axis", M, "np.argmax(U, 0)", "np.argmax(phi, 0)", "bad"),
    ("far ball", M, "np.argmax(U, 0)", "np.argmax(dist_land_data, 0)", "bad"),
    ("minus harm", T, "class_map[i] += theta", "class_map[i] -= theta", "bad"),
    ("harm sign", T, "harm_rep = cocycle - boundary_matrix.dot(integral)", "harm_rep = cocycle + boundary_matrix.dot(integral)", "bad"),
    ("harm flipped both", T, ["harm_rep = cocycle - boundary_matrix.dot(integral)", "class_map = integral[membership_function].copy()"], ["harm_rep = cocycle + boundary_matrix.dot(integral)", "class_map = -integral[membership_function]"], "quiet"),
    ("integral not at ball", T, "class_map = integral[membership_function].copy()", "class_map = integral.dot(part_unity)", "bad"),
    ("antisym", T, "                    theta_matrix[i, j] = harm_rep[index]\n", "                    theta_matrix[i, j] = harm_rep[index]\n                    theta_matrix[j, i] = -harm_rep[index]\n", "quiet"),
    ("sym", T, "                    theta_matrix[i, j] = harm_rep[index]\n", "                    theta_matrix[i, j] = harm_rep[index]\n                    theta_matrix[j, i] = harm_rep[index]\n", "quiet"),
    ("transposed", T, "theta_matrix[i, j] = harm_rep[index]", "theta_matrix[j, i] = harm_rep[index]", "bad"),
    ("reversed integrals", T, "for harm_rep, integral in harm_reps_and_integrals\n        ]", "for harm_rep, (_, integral) in zip(harm_reps, harm_reps_and_integrals[::-1])\n        ]", "bad"),
    ("cp minus", C, "class_map[b, i] += nu[i, ball_indx[b]]", "class_map[b, i] -= nu[i, ball_indx[b]]", "bad"),
    ("cp transposed", C, "nu[i, ball_indx[b]]", "nu[ball_indx[b], i]", "bad"),
    ("cp eta order", C, "eta[i, ball_indx[b], t]", "eta[ball_indx[b], i, t]", "bad"),
    ("cp eta cyclic", C, "eta[i, ball_indx[b], t]", "eta[t, i, ball_indx[b]]", "quiet"),
    ("cp no conj", C, "2 * np.pi * 1j * class_map", "-2 * np.pi * 1j * class_map", "quiet"),
    ("cp half", C, "2 * np.pi * 1j * class_map", "np.pi * 1j * class_map", "bad"),
    ("cp harm", C, "integer_cocycle_as_vector - delta1 @ integral", "integer_cocycle_as_vector + delta1 @ integral", "bad"),
    ("lens same", L, "(1 / root_of_unity) ** cocycle[:, 2]", "root_of_unity ** cocycle[:, 2]", "bad"),
    ("lens conj", L, "2 * np.pi * 1j", "-2 * np.pi * 1j", "quiet"),
    ("lens col", L, "cocycle_matrix[ball_indx[:], :]", "cocycle_matrix[:, ball_indx[:]].T", "quiet"),
    ("proj one side", PR, "        cocycle_matrix[cocycle[:, 1], cocycle[:, 0]] = (1 / root_of_unity) ** cocycle[:,2]\n", "", "bad"),
    ("proj value", PR, "root_of_unity ** cocycle[:, 2]", "root_of_unity ** cocycle[:, 1]", "bad"),
]
