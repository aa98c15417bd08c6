"""C03: one coordinate per data point, in input order, of the requested dimension."""
from .common import *
from . import ppca, c11, c24
from sa import framework

TECHNIQUE = "static analysis: array shape inference over the value graph (constant propagation of the shapes carried by the reduction loops) and per-point dependence test"
EXPLANATION = "The number of rows of every array carried by the reduction loops is propagated as a constant for every number of landmarks up to the bound and every smaller target dimension, in every mode: the returned array must have proj_dim + 1 columns.  The returned values of all get_coordinates are typed: one entry per data point, one row per class on every branch; the target dimension handed to the reduction is compared with the documented one.  A not-a-number mark put on the weights of one point must appear in the output of that point only.  The stored distances must have one column per data point for all three kinds of input."
ASSUMPTIONS = ["at least proj_dim + 1 landmarks"]
COORDS = {"projectivecoords:ProjectiveCoords": ("proj_dim", 0), "complexprojectivecoords:ComplexProjectiveCoords": ("proj_dim", 0), "lenscoords:LensCoords": ("complex_dim", -1)}

def dims(ck, mode):
    top = 24 if ck.tier == "quick" else 64
    r = ppca.run(ck, mode)
    if r is None: ck.unk("reduced." + mode, "parameters"); return
    for e in r.effects:
        if e.kind in ("assert", "raise") and not e.path and (e.kind == "raise" or isconst(e.data if isinstance(e.data, vg.Node) else e.data[0], False)):
            ck.bad("reduced." + mode, "mode %s is not accepted" % mode, e.site); return
    n = 0
    for M in range(1, top + 1):
        for pd in range(0, M):
            if pd > 5 and pd < M - 3: continue
            k = ppca.simulate(ck, mode, M, pd)
            n += 1
            if k != pd + 1:
                ck.bad("reduced." + mode, "in mode %s with %d landmarks and proj_dim %d the result has %s columns instead of %d" % (mode, M, pd, k, pd + 1), r.site0); return
    ck.ok("reduced." + mode, "shape propagation, %d pairs (landmarks, dimension)" % n, r.site0)

def returned(ck, q):
    """every branch of the returned value has the documented shape"""
    nm = q.split(":")[1]
    r = ck.run(q + ".get_coordinates")
    c = dre.em_ctx(ck, q, r)
    got = dre.abstract_calls(ck, r, c)
    c.hooks.append(dre.harmonic_hook([]))
    cm = [x for x in r.calls_seen if x[0].split(".")[-1] == "ppca"]
    if cm:
        X = item(cm[-1][2], "X")
        c0 = dre.em_ctx(ck, q, r); dre.abstract_calls(ck, r, c0); c0.hooks.append(dre.harmonic_hook([]))
        for k, x in enumerate(alternatives(X, c0)):
            def one():
                sh = c0.ty(x).shape
                if len(sh) != 2 or samedims(sh[:1], (dim("N"),)) is False: ck.bad("%s.reduced%s" % (nm, k or ""), "%s: the reduction returns an array of shape %s instead of one row per data point" % (nm, "x".join(map(str, sh))), r.site0)
                elif samedims(sh[:1], (dim("N"),)): ck.ok("%s.reduced%s" % (nm, k or ""), "shape", r.site0)
                else: ck.unk("%s.reduced%s" % (nm, k or ""), "shape", r.site0)
            ck.guard("%s.reduced%s" % (nm, k or ""), one)
        dre.abstract(c, X, Ty((dim("N"), dim("K")), "c"))
    want = {"ToroidalCoords": (None, "N"), "CircularCoords": ("N",)}.get(nm, ("N", "K"))
    site = r.site0
    alts = alternatives(r.node(), c)
    for k, x in enumerate(alts):
        key = "%s.returned%s" % (nm, k or "")
        def go():
            t = c.ty(x)
            if nm == "ToroidalCoords":
                if t.rank != 2: ck.bad(key, "ToroidalCoords: on one branch the result has %d axes instead of one row per class" % t.rank, site); return
                sd = samedims(t.shape[1:], (dim("N"),)); sk = samedims(t.shape[:1], (dim("K"),))
                one = t.shape[0] == ONE
                if sd is False: ck.bad(key, "ToroidalCoords: rows of the result have %s entries instead of one per data point" % t.shape[1], site)
                elif sk is False and not one: ck.bad(key, "ToroidalCoords: the result has %s rows instead of one per class" % t.shape[0], site)
                elif sd and (sk or one): ck.ok(key, "shape", site)
                else: ck.unk(key, "shape %s" % (tuple(map(str, t.shape)),), site)
                return
            ws = tuple(dim(d) for d in want)
            sd = samedims(t.shape, ws)
            if sd is False: ck.bad(key, "%s: the result has shape %s instead of %s" % (nm, "x".join(map(str, t.shape)), "x".join(want)), site)
            elif sd: ck.ok(key, "shape", site)
            else: ck.unk(key, "shape %s" % (tuple(map(str, t.shape)),), site)
        ck.guard(key, go)

def alternatives(n, c):
    """branches of a returned value, through array()"""
    out = []; st = [n]; seen = set()
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x.op == "phi" and x.args[0].op != "exccond":
            try: k = c.close(c.cond(x.args[0])).const()
            except Exception: k = None
            if k is not None: st.append(x.args[1] if k else x.args[2]); continue
            st += [x.args[2], x.args[1]]
        elif x.op == "call" and x.args[0] in ("numpy.array", "numpy.asarray") and x.args[1][0][1].op == "phi":
            p = x.args[1][0][1]
            try: k = c.close(c.cond(p.args[0])).const()
            except Exception: k = None
            st += [vg.mk("call", x.args[0], (x.args[1][0][:1] + (b,),) + x.args[1][1:]) for b in ((p.args[2], p.args[1]) if k is None else (p.args[1] if k else p.args[2],))]
        else: out.append(x)
    return out

def target(ck, q):
    p, off = COORDS[q]
    nm = q.split(":")[1]
    r = ck.run(q + ".get_coordinates")
    c = dre.em_ctx(ck, q, r)
    cm = [x for x in r.calls_seen if x[0].split(".")[-1] == "ppca"]
    if not cm: ck.unk(nm + ".dimension", "reduction not called"); return
    v = cm[-1][1].get("proj_dim")
    if v is None: ck.unk(nm + ".dimension", "argument"); return
    f = ck.fn(q + ".get_coordinates")
    if p not in [a.arg for a in f.node.args.args]: ck.unk(nm + ".dimension", "no parameter %s" % p); return
    ck.verdict(nm + ".dimension", decide(c, c.val(v), c.val(vg.sym(p)) + off), "%s: the reduction is asked for another dimension than %s%s" % (nm, p, " - 1" if off else ""), cm[-1][5])

class Sub(framework.Check):
    """collects the obligations of another checker"""
    def __init__(self, ck):
        self.__dict__.update(ck.__dict__); self.obls = []

def order(ck, fnc, *a):
    sub = Sub(ck)
    fnc(sub, *a)
    for o in sub.obls:
        if o.key.endswith(".leak"):
            k = "order." + o.key[:-5]
            if o.status == "ok": ck.ok(k, "dependence test", o.site)
            elif o.status == "bad": ck.bad(k, "the output for a data point is computed from another data point", o.site)
            else: ck.unk(k, o.how, o.site)
        elif o.status == "unknown": ck.unk("order." + o.key, o.how, o.site)

def columns(ck, kind, dm):
    sub = Sub(ck)
    c24.case(sub, kind, dm, str(dm), vg.const(dm), False)
    for o in sub.obls:
        if o.key.endswith(".distances"):
            if o.status == "bad" : ck.bad("points." + o.key, o.msg, o.site)
            elif o.status == "ok": ck.ok("points." + o.key, "one column per data point, in order", o.site)
            else: ck.unk("points." + o.key, o.how, o.site)

def spread(env, ix):
    """distances with every point uncovered now and then"""
    return (9 if env.u("uncovered", ix[1]) < .4 else 0) + 2.4 * env.u("d", *ix)

def partition(ck, nm):
    """weights and ball indices have one column, one entry per data point on every branch"""
    key = "partition." + nm
    f = ck.fn(c11.Q); ps = [a.arg for a in f.node.args.args if a.arg != "self"]
    if len(ps) != 2: ck.unk(key, "parameters"); return
    r = ck.run(c11.Q, args={ps[0]: vg.sym("r_cover"), ps[1]: ck.fn(c11.PU + "." + nm)})
    t, sp, sy, rl = dre.field_types(ck, "emcoords:EMCoords")
    t["r_cover"] = Ty((), "f")
    c = Ctx(r, types=t, special=sp, symmetric=sy)
    fld = [k for k, ro in rl.items() if ro == "dist_land_data"]
    for j, want in ((0, (dim("L"), dim("N"))), (1, (dim("N"),))):
        worst = None; n = 0
        for x in alternatives(item(r.node(), j), c):
            sh = c.ty(x).shape; n += 1
            sd = samedims(sh, want)
            if sd is None and len(sh) == len(want):
                dev = 0
                for s in range(24 * cert.BOOST):
                    e = cert.Env(("cols", s), {"self." + fld[0]: spread, "r_cover": lambda env, ix: 0.6 + 1.9 * env.u("r")}, {}, ctx=c) if fld else None
                    try: dev += [e.integer(c.close(v), {}) for v in sh] != [e.integer(v, {}) for v in want]
                    except (cert.NoVal, OverflowError, ZeroDivisionError, ValueError, TypeError, AttributeError): pass
                if dev >= 2: sd = False
            if sd is False: ck.bad("%s.%d" % (key, j), "%s have shape (%s), which is not one per data point" % (("the weights", "the ball indices")[j], ", ".join(poly.pstr(v) for v in sh)[:200]), r.site0); break
            if sd is None: worst = "shape (%s)" % ", ".join(poly.pstr(v) for v in sh)[:120]
        else:
            if worst: ck.unk("%s.%d" % (key, j), worst, r.site0)
            else: ck.ok("%s.%d" % (key, j), "%d branches" % n, r.site0)

def check(ck):
    for nm in c11.names(ck): ck.guard("partition." + nm, partition, ck, nm)
    ck.fn(ppca.Q)
    for mode in ppca.MODES:
        ck.guard("reduced." + mode, dims, ck, mode)
        ck.guard("order." + mode, order, ck, c11.local, mode)
    for q in list(COORDS) + ["toroidalcoords:ToroidalCoords", "circularcoords:CircularCoords"]:
        ck.fn(q + ".get_coordinates")
        ck.guard(q, returned, ck, q)
        if q in COORDS: ck.guard(q, target, ck, q)
        if not q.startswith("circular"): ck.guard(q, order, ck, c11.classmap, q)
    for kind, (t, rows, dm) in c24.KINDS.items(): ck.guard(kind, columns, ck, kind, dm)

M, U, T, CC, L, C, PJ = ["dreimac/%s.py" % x for x in ("emcoords", "utils", "toroidalcoords", "circularcoords", "lenscoords", "complexprojectivecoords", "projectivecoords")]
SELFTEST = [
    ("covered only", M, "        denom = np.sum(phi, 0)\n", "        covered = np.any(U, 0)\n        if not covered[-1]:\n            phi, U = phi[:, covered], U[:, covered]\n        denom = np.sum(phi, 0)\n", "bad"),
    ("lens dim", L, "class_map, complex_dim-1", "class_map, complex_dim", "bad"),
    ("total", U, "total_dims_to_keep = proj_dim + 1", "total_dims_to_keep = proj_dim", "bad"),
    ("exp last", U, "            if X.shape[0] > total_dims_to_keep:\n                X = _one_step_linear_reduction(X, total_dims_to_keep)\n", "", "bad"),
    ("exp half", U, "to_keep_this_iter = (n_dim - total_dims_to_keep) // 2", "to_keep_this_iter = n_dim // 2 - total_dims_to_keep", "quiet"),
    ("exp offset", U, "                    X, total_dims_to_keep + to_keep_this_iter\n", "                    X, to_keep_this_iter\n", "bad"),
    ("one strict", U, "if X.shape[0] >= total_dims_to_keep:", "if X.shape[0] > total_dims_to_keep:", "bad"),
    ("one init", U, "            XRet = X\n            for i", "            for i", "bad"),
    ("one count", U, "for i in range(n_dim - 1):", "for i in range(n_dim - total_dims_to_keep):", "quiet"),
    ("not transposed", U, '"X": XRet.T}', '"X": XRet}', "bad"),
    ("toroidal squeeze", T, "        return np.array(circ_coords)\n", "        return np.squeeze(np.array(circ_coords))\n", "bad"),
    ("toroidal first", T, "        return np.array(circ_coords)\n", "        if len(integer_cocycles) == 1:\n            return circ_coords[0]\n        return np.array(circ_coords)\n", "bad"),
    ("toroidal list", T, "        return np.array(circ_coords)\n", "        return np.stack(circ_coords)\n", "quiet"),
    ("toroidal T", T, "        return np.array(circ_coords)\n", "        return np.array(circ_coords).T\n", "bad"),
    ("circular", CC, "            check_cocycle_condition,\n        )[0]", "            check_cocycle_condition,\n        )", "bad"),
    ("mode", U, '["direct", "exponential", "one-by-one"]', '["exponential", "one-by-one"]', "bad"),
    ("reverse", L, "cocycle_matrix[ball_indx[:], :]", "cocycle_matrix[ball_indx[::-1], :]", "quiet"),
    ("reverse out", PJ, "class_map = np.sqrt(varphi.T)", "class_map = np.sqrt(varphi.T[::-1])", "bad"),
    ("rect", M, "self._dist_land_data = X[self._idx_land,:]", "self._dist_land_data = res['dperm2all']", "bad"),
    ("rect land", M, "X[self._idx_land,:]", "X[self._idx_land,:X.shape[0]]", "bad"),
    ("cp N", C, "for b in range(n_data):", "for b in range(n_data - 1):", "quiet"),
]
