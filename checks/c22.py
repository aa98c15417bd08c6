"""C22: plot helpers draw only on the axes they are given."""
import math
from .surface import *
from .c23 import Tally, near, unitvec, Sub
from .c17 import FAIL

TECHNIQUE = "static analysis: effect analysis of the plotting helpers (receiver of every drawing call, resolved for given and for omitted axes, and every call of the implicit pyplot interface), and identity testing of the position, image and colour terms those calls are given"
EXPLANATION = "Every method call on an axes value and every pyplot call reachable from a helper is an effect with a path condition.  Its receiver is resolved twice, assuming that the axes parameter was given and that it was omitted; it has to be that parameter in the first case and the current axes in the second, and so has the returned value.  The arguments of the drawing calls are terms over the data: artist i sits at row i of the positions with the i-th patch as its image, all with the colour limits of the whole collection; the grid of plot_patches has distinct cells; scatter calls take row i of the points with colour i; drawn boundary circles have unit radius about the centres at which the hemisphere projection puts the two poles."
ASSUMPTIONS = ["an axes object is truthy (matplotlib's Axes has neither __bool__ nor __len__)", "the methods of an axes object draw on that axes object", "other helpers called through pyplot are those listed as drawing or creating"]

PU = "plotting_utils:PlotUtils."
GCA = {"matplotlib.pyplot.gca"}
CREATE = {"matplotlib.pyplot." + x for x in ("figure", "axes", "subplot", "subplots", "subplot2grid", "twinx", "twiny", "subplot_mosaic")}
DRAW = {"matplotlib.pyplot." + x for x in "plot scatter arrow axis xlim ylim xticks yticks title suptitle imshow text annotate colorbar clim sci cla clf draw figimage fill fill_between hist contour contourf pcolormesh matshow grid legend xlabel ylabel margins autoscale axhline axvline bar box minorticks_off tick_params set_cmap show".split()}

def axes_param(f):
    for a in f.node.args.args + f.node.args.kwonlyargs:
        if a.arg in ("ax", "axes"): return a.arg
    return None

class View:
    """the effects of a helper under one assumption about its axes parameter"""
    def __init__(self, r, name, given):
        self.r, self.given = r, given
        self.m = {}
        if name is not None:
            x = vg.sym(name); self.ax = x
            b = lambda v: vg.const(bool(v))
            self.m = {vg.mk("truth", x): b(given), vg.mk("is", x, vg.const(None)): b(not given), vg.mk("eq", x, vg.const(None)): b(not given), vg.mk("ne", x, vg.const(None)): b(given)}
            if not given: self.m[x] = vg.const(None)
        else: self.ax = None
        self.memo = {}
    def res(self, n):
        return vg.subst(n, self.m, self.memo)
    def feasible(self, e):
        for c, pol in e.path:
            k = self.res(c)
            if isconst(k) and bool(k.args[0]) != bool(pol): return False
        return True
    def effects(self):
        for e in self.r.effects:
            if self.feasible(e): yield e
    def root(self, n):
        """what an axes-valued expression is: 'param', 'current', 'new', 'none', 'other', None (unresolved)"""
        n = self.res(n); deep = False
        for _ in range(40):
            if n.op == "mutated": n = n.args[0]
            elif n.op == "attr": n = n.args[0]; deep = True
            elif n.op == "index": n = n.args[0]; deep = True
            elif n.op == "mcall":
                if n.args[0] == "gca" and n.args[1].op == "call" and n.args[1].args[0] == "matplotlib.pyplot.gcf": return "current"
                n = n.args[1]; deep = True
            else: break
        if n is self.ax or (self.ax is not None and n == self.ax): return "deep" if deep else "param"
        if n.op == "call" and n.args[0] in GCA: return "current"
        if n.op == "call" and n.args[0] in CREATE: return "new"
        if isconst(n, None): return "none"
        if n.op == "phi": return None
        return "other"

WHAT = {"param": "the axes parameter", "current": "the current axes", "new": "newly created axes", "none": "None"}

def pyplot(e):
    return e.data[0] if e.kind == "libcall" and isinstance(e.data[0], str) and e.data[0].startswith("matplotlib.pyplot.") else None

def targets(ck, name, f, r):
    a = axes_param(f)
    cases = ["current"] if a is None else ["given"] if a not in f.defaults else ["given", "omitted"]
    for case in cases:
        v = View(r, a, case == "given")
        want = "param" if case == "given" else "current"
        key = "%s.%s" % (name, case if a else "axes")
        n = 0; lost = 0; bad = False; sca = False
        for e in v.effects():
            if e.kind == "libcall" and pyplot(e) == "matplotlib.pyplot.sca": sca = True
            if e.kind == "mcall":
                k = v.root(e.data[1])
                if str(e.data[0]).startswith("get_"): continue
                if k is None: lost += 1; continue
                if k in ("other", "deep"): continue
                if k == want: n += 1; continue
                if sca: lost += 1; continue
                bad = True
                ck.bad("%s.%s" % (key, e.data[0]), "with the axes %s, %s() is called on %s" % ("given" if case == "given" else "omitted", e.data[0], WHAT[k]), e.site)
            p = pyplot(e)
            if p is None: continue
            if p in DRAW:
                if case == "given":
                    if sca: lost += 1; continue
                    bad = True; ck.bad("%s.%s" % (key, p.split(".")[-1]), "with the axes given, %s draws on the current axes" % p, e.site)
                else: n += 1
            elif p in CREATE and a is not None and case == "omitted":
                bad = True; ck.bad("%s.%s" % (key, p.split(".")[-1]), "with the axes omitted, %s makes new axes instead of using the current ones" % p, e.site)
            elif p in CREATE: bad = True; ck.bad("%s.%s" % (key, p.split(".")[-1]), "%s makes new axes" % p, e.site)
        if bad: continue
        if lost or not n: ck.unk(key, "%d unresolved receivers, %d drawing calls" % (lost, n), r.site0)
        else: ck.ok(key, "%d drawing calls on %s" % (n, WHAT[want]), r.site0)
        if a is None or name.endswith("_stereo"): continue
        k = v.root(r.node())
        key += ".returned"
        if k is None: ck.unk(key, "returned value", r.site0)
        elif k == want: ck.ok(key, "receiver", r.site0)
        else: ck.bad(key, "the helper does not return the axes it draws on (%s)" % WHAT.get(k, show(v.res(r.node()), 2)), r.site0)

# ---- positions, images, colours

def loop_atoms(r, c, e):
    out = []
    for u in e.loops:
        L = r.loops[u.uid if hasattr(u, "uid") else u]
        if L.kind != "for" or L.iv is None or L.breaks or (L.cond is not None and not isconst(L.cond, True)): raise Unk("loop form")
        p = c.val(L.iv).single()
        out.append((p[1][0][0], c.ranges.get(p[1][0][0])))
    return out

def artists(ck, name, f, r, t):
    """(effect, OffsetImage arguments, position node) for every artist added"""
    for e in r.effects:
        if e.kind != "mcall" or e.data[0] not in ("add_artist", "add_patch", "add_image", "add_child_axes"): continue
        if not e.data[2]: continue
        b = e.data[2][0]
        if b.op != "call" or b.args[0] != "matplotlib.offsetbox.AnnotationBbox": continue
        a = cargs(b)
        im = a.get("0", a.get("offsetbox")); xy = a.get("1", a.get("xy"))
        if im is None or xy is None or im.op != "call" or im.args[0] != "matplotlib.offsetbox.OffsetImage": continue
        ia = cargs(im)
        yield e, ia, xy, im

def patches(ck, name):
    key = name
    f = ck.fn(PU + name, True)
    grid = name == "plot_patches"
    tt = types({"X": "N 2:f", "P": "N d2:f", "dim": ":i", "zoom": ":f"} if not grid else {"P": "N d2:f", "zoom": ":f"})
    r = ck.run(PU + name, f=f, types=oracle(tt)); site = r.site0
    c = Ctx(r, types=tt)
    arts = list(artists(ck, name, f, r, tt))
    if len(arts) != 1: ck.unk(key, "%d artist calls" % len(arts), site); return
    e, ia, xy, im = arts[0]
    if e.path and any(not isconst(vg.subst(x, {vg.mk("truth", vg.sym("ax")): vg.const(True), vg.mk("is", vg.sym("ax"), vg.const(None)): vg.const(False)})) for x, _ in e.path): ck.unk(key, "guarded artist", e.site); return
    T = {k: Tally() for k in ("count", "position", "image", "zoom", "limits") + (("cells",) if grid else ())}
    fn = {}
    try:
        at_ = loop_atoms(r, c, e)
        if len(at_) != 1: raise Unk("loop nest")
        iv, rng = at_[0]
        px = c.close(c.at(xy, (ZERO,)) if xy.op not in ("tuple", "list") else c.val(xy.args[0])), c.close(c.at(xy, (ONE,)) if xy.op not in ("tuple", "list") else c.val(xy.args[1]))
        arr = ia.get("0", ia.get("arr"))
        ti = c.ty(arr)
        if ti.rank != 2: raise Unk("image rank")
        ix = ivars(ti.shape, c); A = [v.single()[1][0][0] for v in ix]
        pi = c.close(c.at(arr, ix))
        z = ia.get("zoom", ia.get("1"))
    except FAIL + (Unk, vg.AnalysisError) as ex: ck.unk(key, str(ex)[:100], site); return
    lims = []
    for x in r.effects:
        if x.kind == "mcall" and x.data[0] in ("set_clim", "set_norm"):
            if x.data[0] == "set_norm": lims = None; break
            k = dict(x.data[3]); ns = x.data[2]
            lo, hi = k.get("vmin", ns[0] if ns else None), k.get("vmax", ns[1] if len(ns) > 1 else None)
            if lo is None or hi is None: lims = None; break
            lims.append((lo, hi))
    for t in range(8):
        N = [1, 2, 3, 4, 5, 7, 9, 10][t]; dd = 1 + t % 3
        env = cert.Env((name, t), {"dim": lambda e_, i_: dd, "zoom": lambda e_, i_: 1.5}, {"N": N, "d2": dd * dd}, ctx=c)
        PP = lambda i, j: env.typed("f", "P", (i, j))
        g = {"P": lambda e_, i_: PP(int(i_[0]), int(i_[1])), "X": lambda e_, i_: e_.u("X", int(i_[0]), int(i_[1]))}
        env.gen.update(g)
        def bind(i): return {iv: i}
        try:
            lo, hi = env.integer(rng[0], {}), env.integer(rng[1], {})
            T["count"].add((lo, hi) == (0, N) or hi - lo == N, "%d patches, %d artists" % (N, hi - lo))
            pos = []
            for i in range(lo, hi):
                b = bind(i); env.vals[iv] = i
                x, y = env.ev(px[0], b), env.ev(px[1], b)
                pos.append((x, y))
                if not grid: T["position"].add(near(x, env.u("X", i, 0)) and near(y, env.u("X", i, 1)), "patch %d" % i)
                sh = [env.integer(c.close(s), b) for s in ti.shape]
                T["image"].add(sh == [dd, dd] and all(near(env.ev(pi, {**b, A[0]: u, A[1]: v}), PP(i, u * dd + v)) for u in range(dd) for v in range(dd)), "patch %d" % i)
                if z is not None: T["zoom"].add(near(env.ev(c.val(z), b), 1.5), "")
                elif "zoom" in f.defaults or True: T["zoom"].add(False, "zoom is not passed on")
                if lims:
                    al = [PP(u, v) for u in range(N) for v in range(dd * dd)]
                    T["limits"].add(all(near(env.ev(c.val(l), b), min(al)) and near(env.ev(c.val(h), b), max(al)) for l, h in lims), "patch %d" % i)
            if grid:
                T["position"].add(all(near(x, round(x)) and near(y, round(y)) for x, y in pos), "")
                T["cells"].add(len(set((round(x), round(y)) for x, y in pos)) == len(pos) and all(-1e-9 <= v <= math.ceil(math.sqrt(N)) - 1 + 1e-9 for p in pos for v in p), "%d patches" % N)
        except FAIL + (Unk, vg.AnalysisError, IndexError, KeyError) as ex:
            for x in T.values(): x.why = str(ex)
    T["count"].close(ck, key + ".count", "the number of artists is not the number of patches", e.site)
    T["position"].close(ck, key + ".position", "the i-th patch is not placed at the i-th position" if not grid else "patches are not placed on integer grid cells", e.site)
    T["image"].close(ck, key + ".image", "the i-th artist does not show the i-th patch as a square image", e.site)
    T["zoom"].close(ck, key + ".zoom", "the zoom is not the one asked for", e.site)
    if lims: T["limits"].close(ck, key + ".limits", "the colour limits are not the extremes of all patches", e.site)
    else: ck.unk(key + ".limits", "no colour limits found", site)
    if grid: T["cells"].close(ck, key + ".cells", "two patches share a cell or a patch lies outside the square grid", e.site)

def poles(ck):
    """where the hemisphere projection puts the two poles"""
    q = "utils:ProjectiveMapUtils.stereographic_projection_hemispheres"
    out = []
    try:
        s = Sub(ck, q, {"X": "n 3:f", "center_vector": "3:f"})
        for t in range(3):
            e0 = cert.Env(("pole", t)); v = unitvec(e0, "c", 1, 3)[0]
            e = s.env(("pole", t), {"X": lambda en, ix: v[int(ix[1])] if int(ix[0]) == 0 else -v[int(ix[1])], "center_vector": lambda en, ix: v[int(ix[0])]}, {"n": 2})
            m = s.matrix(e, (2, 2))
            out.append(sorted((m[i, 0], m[i, 1]) for i in range(2)))
    except FAIL + (Unk, vg.AnalysisError, IndexError) as ex: return None
    if any(not near(a[i][j], out[0][i][j], 1e-6) for a in out for i in range(2) for j in range(2)): return None
    return out[0]

def boundary(ck, name, centres, why):
    key = name + ".circles"
    f = ck.fn(PU + name, True)
    r = ck.run(PU + name, f=f); site = r.site0
    c = Ctx(r)
    if not centres: ck.unk(key, "centres"); return
    seen = set(); n = 0
    for e in r.effects:
        if e.kind != "mcall" or e.data[0] != "plot": continue
        xs = []
        for x in e.data[2]:
            try:
                if c.ty(x).rank == 1: xs.append(x)
            except (Unk, vg.AnalysisError): pass
        if e.loops or len(xs) < 2 or len(xs) % 2: ck.unk(key, "plotted curve", e.site); return
        for x, y in zip(xs[::2], xs[1::2]):
            try:
                env = cert.Env(name, {}, {}, ctx=c)
                ix = ivars(c.ty(x).shape, c); A = ix[0].single()[1][0][0]
                k = env.integer(c.ty(x).shape[0], {})
                iy = ivars(c.ty(y).shape, c); B = iy[0].single()[1][0][0]
                if env.integer(c.ty(y).shape[0], {}) != k: ck.bad(key, "the coordinates of a curve differ in number", e.site); return
                p, q = at(c, x, ix), at(c, y, iy)
                pts = [(env.ev(p, {A: i}), env.ev(q, {B: i})) for i in range(k)]
            except FAIL + (Unk, vg.AnalysisError) as ex: ck.unk(key, str(ex)[:100], e.site); return
            n += 1
            hit = [i for i, z in enumerate(centres) if all(near(math.dist(z, u), 1, 1e-6) for u in pts)]
            if not hit: ck.bad(key, "a drawn boundary curve is not the unit circle about %s" % why, e.site); return
            if near(pts[0][0], pts[-1][0], 1e-6) and near(pts[0][1], pts[-1][1], 1e-6) and max(math.dist(a, b) for a, b in zip(pts, pts[1:])) < .3: seen.add(hit[0])
            else: ck.bad(key, "a drawn boundary circle is not closed", e.site); return
    if n and len(seen) < len(centres): ck.bad(key, "%d of %d boundary circles drawn" % (len(seen), len(centres)), site)
    elif n: ck.ok(key, "%d circles about %s" % (n, why), site)
    else: ck.unk(key, "no curve found", site)
    key = name + ".arrows"; m = 0
    for e in r.effects:
        if e.kind != "mcall" or e.data[0] != "arrow": continue
        try:
            env = cert.Env(name, {}, {}, ctx=c)
            kw = dict(e.data[3]); ns = e.data[2]
            x, y = ns[0] if ns else kw["x"], ns[1] if len(ns) > 1 else kw["y"]
            if e.loops: raise Unk("loop")
            p = (env.ev(c.val(x)), env.ev(c.val(y)))
        except FAIL + (Unk, vg.AnalysisError, KeyError) as ex: ck.unk(key, str(ex)[:100], e.site); return
        m += 1
        if not any(.75 <= math.dist(p, z) <= 1.35 for z in centres): ck.bad(key, "an arrow at (%.3g, %.3g) is not at the boundary of a disk about %s" % (p + (why,)), e.site); return
    if m: ck.ok(key, "%d arrows" % m, site)
    else: ck.unk(key, "no arrow found", site)

def scatters(ck, name, dim_):
    f = ck.fn(PU + name, True)
    tt = types({"S": "N %d:f" % dim_, "f": "N:f"})
    r = ck.run(PU + name, f=f, types=oracle(tt)); site = r.site0
    key = name + ".points"
    c = Ctx(r, types=tt)
    order = []
    def sorted_(ctx, n):
        if n.op == "call" and n.args[0] in ("numpy.sort", "numpy.flip", "numpy.unique") and len(n.args[1]) == 1:
            t = ctx.ty(n.args[1][0][1])
            if t.rank == 1:
                if n not in order: order.append(n)
                return t
    c.hooks.append(sorted_)
    P_ = Tally(); Cs = []; got = 0
    for e in r.effects:
        if e.kind == "mcall" and e.data[0] in ("scatter", "scatter3D"): ns, ks = list(e.data[2]), dict(e.data[3])
        elif pyplot(e) == "matplotlib.pyplot.scatter":
            a = cargs(e.data[1]); ns = [a[k] for k in sorted((k for k in a if k.isdigit()), key=int)]; ks = {k: v for k, v in a.items() if not k.isdigit()}
            for k, nm in enumerate(("x", "y", "s", "c")):
                if nm in ks and len(ns) == k: ns.append(ks[nm])
        else: continue
        got += 1; C_ = Tally(); Cs.append(C_)
        if e.loops or len(ns) < dim_: ck.unk(key, "scatter call", e.site); continue
        col = ks.get("c", ns[3] if dim_ == 2 and len(ns) > 3 else None)
        for t in range(5):
            N = 3 + t
            Sv = lambda i, k: 2 * env.u("S", i, k) - 1
            fv = lambda i: env.u("f", i)
            env = cert.Env((name, t), {}, {"N": N}, ctx=c)
            env.gen.update({"S": lambda e_, i_: Sv(int(i_[0]), int(i_[1])), "f": lambda e_, i_: fv(int(i_[0]))})
            if col is not None:
                try: colours(ck, c, env, col, N, fv, Tally())       # discovers the sorted arrays
                except FAIL + (Unk, vg.AnalysisError): pass
            for x in order:
                def sv(e_, i_, x=x):
                    y = x.args[1][0][1]; ty_ = c.ty(y); ix_ = ivars(ty_.shape, c); A_ = ix_[0].single()[1][0][0]; q = at(c, y, ix_)
                    v = [e_.ev(q, {A_: k}) for k in range(N)]
                    v = v[::-1] if x.args[0].endswith("flip") else sorted(v)
                    return v[int(i_[0])]
                env.gen[poly.nodekey(x)] = sv
            try:
                for k in range(dim_):
                    tk = c.ty(ns[k])
                    if tk.rank != 1: raise Unk("rank")
                    ix = ivars(tk.shape, c); A = ix[0].single()[1][0][0]; p = at(c, ns[k], ix)
                    P_.add(env.integer(tk.shape[0], {}) == N and all(near(env.ev(p, {A: i}), Sv(i, k)) for i in range(N)), "coordinate %d" % k)
            except FAIL + (Unk, vg.AnalysisError) as ex: P_.why = str(ex)
            try: colours(ck, c, env, col, N, fv, C_)
            except FAIL + (Unk, vg.AnalysisError) as ex: C_.why = str(ex)
    if not got: ck.unk(key, "no scatter call", site); return
    P_.close(ck, key, "coordinate k of plotted point i is not S[i, k]", site)
    for k, C_ in enumerate(Cs): C_.close(ck, name + ".colours" + (".%d" % k if k else ""), "plotted point i is not coloured by f[i]", site)

def colours(ck, c, env, col, N, fv, T):
    if col is None: T.add(False, "no colour"); return
    if col.op == "index" and col.args[0].op == "callv" and len(col.args[1]) == 2: col = col.args[0]
    if col.op == "callv" or (col.op == "mcall" and col.args[0] == "to_rgba"):
        a = [v for _, v in col.args[1]] if col.op == "callv" else list(col.args[2])
        if len(a) != 1: raise Unk("colour map")
        t = c.ty(a[0])
        if t.rank != 1: raise Unk("colour map argument")
        ix = ivars(t.shape, c); A = ix[0].single()[1][0][0]; p = at(c, a[0], ix)
        v = [env.ev(p, {A: i}) for i in range(env.integer(t.shape[0], {}))]
        lo, hi = min(fv(i) for i in range(N)), max(fv(i) for i in range(N))
        s = 255 if t.dt == "i" else 1
        T.add(len(v) == N and all(abs(v[i] - s * (fv(i) - lo) / (hi - lo)) <= (1 if t.dt == "i" else 1e-6) for i in range(N)), "colour index %s" % ["%.3g" % x for x in v[:4]])
        return
    t = c.ty(col)
    if t.rank != 1: raise Unk("colours")
    ix = ivars(t.shape, c); A = ix[0].single()[1][0][0]; p = at(c, col, ix)
    n = env.integer(t.shape[0], {})
    v = [env.ev(p, {A: i}) for i in range(n)]
    if n != N: T.add(False, "%d colours for %d points" % (n, N)); return
    k = (v[1] - v[0]) / (fv(1) - fv(0))
    T.add(k > 0 and all(near(v[i] - v[0], k * (fv(i) - fv(0)), 1e-6) for i in range(N)), "")

def sphere_mesh(ck, name):
    f = ck.fn(PU + name, True)
    tt = types({"S": "N 3:f", "f": "N:f", "n_parallels": ":i", "n_meridians": ":i"})
    r = ck.run(PU + name, f=f, types=oracle(tt)); key = name + ".sphere"
    c = Ctx(r, types=tt); T = Tally(); n = 0
    for e in r.effects:
        if e.kind != "mcall" or e.data[0] not in ("plot_wireframe", "plot_surface") or len(e.data[2]) < 3: continue
        n += 1
        for t in range(4):
            try:
                env = cert.Env((name, t), {"n_parallels": lambda e_, i_: 4 + t, "n_meridians": lambda e_, i_: 6 + t}, {"N": 3}, ctx=c)
                ps = []
                for x in e.data[2][:3]:
                    ty_ = c.ty(x); ix = ivars(ty_.shape, c); p = at(c, x, ix); A = [v.single()[1][0][0] for v in ix]
                    a, b = (env.integer(s, {}) for s in ty_.shape)
                    ps.append([env.ev(p, {A[0]: i, A[1]: j}) for i in range(a) for j in range(b)])
                T.add(len({len(x) for x in ps}) == 1 and all(near(sum(v * v for v in z), 1) for z in zip(*ps)), "")
                T.add(max(ps[2]) > .9 and min(ps[2]) < -.9 and max(ps[0]) > .5 and min(ps[0]) < -.5, "a part of the sphere is missing")
            except FAIL + (Unk, vg.AnalysisError) as ex: T.why = str(ex)
    if n: T.close(ck, key, "the mesh does not lie on the whole unit sphere", r.site0)
    else: ck.unk(key, "no mesh found", r.site0)

def equal_axes(ck):
    name = "set_axes_equal"; key = name
    f = ck.fn(PU + name, True)
    r = ck.run(PU + name, f=f); site = r.site0
    c = Ctx(r, types=types({"old_%s_limits" % x: "2:f" for x in "xyz"}))
    set_ = {}
    sub = {n: vg.sym("old_%s_limits" % n.args[0][4]) for n in every_node(r) if n.op == "mcall" and n.args[0] in [p % x for p in ("get_%slim3d", "get_%slim") for x in "xyz"]}
    for e in r.effects:
        if e.kind == "mcall" and e.data[0] in [p % x for p in ("set_%slim3d", "set_%slim") for x in "xyz"]:
            ns = list(e.data[2]); kw = dict(e.data[3])
            if len(ns) == 1 and ns[0].op in ("list", "tuple") and len(ns[0].args) == 2: ns = list(ns[0].args)
            if len(ns) == 2: set_.setdefault(e.data[0][4], []).append((ns[0], ns[1], e))
            elif len(ns) == 0 and len(kw) == 2 and all(any(k in kw for k in z) for z in (("left", "bottom", "xmin", "ymin", "zmin"), ("right", "top", "xmax", "ymax", "zmax"))):
                lo = [v for k, v in kw.items() if k in ("left", "bottom", "xmin", "ymin", "zmin")]; hi = [v for k, v in kw.items() if k in ("right", "top", "xmax", "ymax", "zmax")]
                set_.setdefault(e.data[0][4], []).append((lo[0], hi[0], e))
            else: set_.setdefault(e.data[0][4], []).append((None, None, e))
    if any(len(set_.get(x, ())) != 1 or set_[x][0][0] is None or set_[x][0][2].loops for x in "xyz"): ck.unk(key, "limits set %s" % {k: len(v) for k, v in set_.items()}, site); return
    T = {k: Tally() for k in ("equal", "centre", "size")}
    for t in range(6):
        env = cert.Env((name, t), {}, {}, ctx=c)
        L = {x: (10 * env.u("lo", x) - 5, 0) for x in "xyz"}
        L = {x: (a, a + .5 + 4 * env.u("w", x)) for x, (a, _) in L.items()}
        if t == 5: L = {x: (b, a) for x, (a, b) in L.items()}
        env.gen.update({"old_%s_limits" % x: (lambda e_, i_, x=x: L[x][int(i_[0])]) for x in "xyz"})
        try: V = {x: tuple(env.ev(c.val(vg.subst(k, sub))) for k in set_[x][0][:2]) for x in "xyz"}
        except FAIL + (Unk, vg.AnalysisError) as ex:
            for x in T.values(): x.why = str(ex)
            continue
        w = max(abs(b - a) for a, b in L.values())
        T["equal"].add(all(near(V[x][1] - V[x][0], V["x"][1] - V["x"][0]) for x in "yz"), "")
        T["centre"].add(all(near(sum(V[x]), sum(L[x])) for x in "xyz"), "")
        T["size"].add(all(V[x][1] - V[x][0] >= w * (1 - 1e-9) for x in "xyz"), "")
    T["equal"].close(ck, key + ".equal", "the three axes do not get equal ranges", site)
    T["centre"].close(ck, key + ".centre", "the centre of an axis moves", site)
    T["size"].close(ck, key + ".size", "the new ranges do not contain the old ones", site)

def check(ck):
    n = 0
    for q, cn, nm, f, cls, r, t in runs(ck):
        if cn != "PlotUtils" or nm == "set_axes_equal" : continue
        n += 1; ck.guard(nm, targets, ck, nm, f, r)
    if n < 5: ck.unk("surface", "plot helpers found: %d" % n)
    for q, cn, nm, f, cls, r, t in runs(ck):
        if cn == "PlotUtils" and nm == "set_axes_equal": ck.guard(nm, targets, ck, nm, f, r)
    ck.guard("imscatter", patches, ck, "imscatter")
    ck.guard("plot_patches", patches, ck, "plot_patches")
    p = poles(ck)
    ck.guard("plot_2sphere_boundary", boundary, ck, "plot_2sphere_boundary", p, "the image of a pole under the hemisphere projection")
    ck.guard("plot_proj_boundary", boundary, ck, "plot_proj_boundary", [(0.0, 0.0)], "the origin")
    ck.guard("plot_rp2_stereo", scatters, ck, "plot_rp2_stereo", 2)
    ck.guard("plot_rp3_stereo", scatters, ck, "plot_rp3_stereo", 3)
    ck.guard("plot_3sphere_mesh", sphere_mesh, ck, "plot_3sphere_mesh")
    ck.guard("plot_rp3_stereo", sphere_mesh, ck, "plot_rp3_stereo")
    ck.guard("set_axes_equal", equal_axes, ck)

F = "dreimac/plotting_utils.py"
U = "dreimac/utils.py"
IM = "        ax = ax or plt.gca()\n        min_color"
LOOP = "        for i in range(P.shape[0]):\n            patch = np.reshape(P[i, :], (dim, dim))\n            x, y = X[i, :]\n"
SELFTEST = [
    ("always current", F, IM, "        ax = plt.gca()\n        min_color", "bad"),
    ("never current", F, IM, "        min_color", "bad"),
    ("axes not passed on", F, "return PlotUtils.imscatter(X, P, d, zoom, ax)", "return PlotUtils.imscatter(X, P, d, zoom)", "bad"),
    ("zoom not passed on", F, "return PlotUtils.imscatter(X, P, d, zoom, ax)", "return PlotUtils.imscatter(X, P, d, ax=ax)", "bad"),
    ("new figure", F, IM, "        ax = ax or plt.figure().gca()\n        min_color", "bad"),
    ("new axes", F, "        ax = ax or plt.gca()\n        u, v", "        if ax is None:\n            ax = plt.axes()\n        u, v", "bad"),
    ("and", F, "        ax = ax or plt.gca()\n        u, v", "        ax = ax and plt.gca()\n        u, v", "bad"),
    ("pyplot call", F, '        ax.set_facecolor((0.35, 0.35, 0.35))\n        return ax\n', '        plt.axis("equal")\n        ax.set_facecolor((0.35, 0.35, 0.35))\n        return ax\n', "bad"),
    ("returns nothing", F, "        ax.plot_wireframe(x, y, z, color=\"black\", alpha=alpha)\n        return ax\n", "        ax.plot_wireframe(x, y, z, color=\"black\", alpha=alpha)\n", "bad"),
    ("returns current", F, "        ax.plot_wireframe(x, y, z, color=\"black\", alpha=alpha)\n        return ax\n", "        ax.plot_wireframe(x, y, z, color=\"black\", alpha=alpha)\n        return plt.gca()\n", "bad"),
    ("half on current", F, '        ax.plot(np.cos(t) + second_circle_offset, np.sin(t), "c")\n', '        plt.plot(np.cos(t) + second_circle_offset, np.sin(t), "c")\n', "bad"),
    ("offset here", F, "second_circle_offset = 2.5", "second_circle_offset = 2.2", "bad"),
    ("offset there", U, "_stereo(Y) + 2.5", "_stereo(Y) + 3", "bad"),
    ("arrow left behind", F, "            second_circle_offset - 1.1,\n            0,\n", "            1.9,\n            0,\n", "bad"),
    ("radius", F, '        ax.plot(np.cos(t) + second_circle_offset, np.sin(t), "c")\n', '        ax.plot(1.1 * np.cos(t) + second_circle_offset, 1.1 * np.sin(t), "c")\n', "bad"),
    ("half circle", F, "        t = np.linspace(0, 2 * np.pi, 200)\n        ax.plot(np.cos(t), np.sin(t), \"c\")\n        ax.axis(\"equal\")\n        ax.arrow(\n            -0.1, 1,", "        t = np.linspace(0, np.pi, 200)\n        ax.plot(np.cos(t), np.sin(t), \"c\")\n        ax.axis(\"equal\")\n        ax.arrow(\n            -0.1, 1,", "bad"),
    ("swapped coordinates", F, "(x, y), xycoords", "(y, x), xycoords", "bad"),
    ("one too few", F, "        for i in range(P.shape[0]):\n", "        for i in range(P.shape[0] - 1):\n", "bad"),
    ("patch reversed", F, "np.reshape(P[i, :], (dim, dim))", "np.reshape(P[-i, :], (dim, dim))", "bad"),
    ("transposed patch", F, "np.reshape(P[i, :], (dim, dim))", "np.reshape(P[i, :], (dim, dim)).T", "bad"),
    ("own limits", F, "set_clim(vmin=min_color, vmax=max_color)", "set_clim(vmin=np.min(patch), vmax=np.max(patch))", "bad"),
    ("limits swapped", F, "set_clim(vmin=min_color, vmax=max_color)", "set_clim(vmin=max_color, vmax=min_color)", "bad"),
    ("grid too small", F, "        dgrid = int(np.ceil(np.sqrt(N)))\n        ex = np.arange(dgrid)", "        dgrid = int(np.ceil(np.sqrt(N)))\n        ex = np.arange(dgrid) // 2", "bad"),
    ("grid diagonal", F, "X[:, 1] = y.flatten()[0:N]", "X[:, 1] = x.flatten()[0:N]", "bad"),
    ("scatter columns", F, "plt.scatter(S[:, 0], S[:, 1], 20, f, cmap", "plt.scatter(S[:, 1], S[:, 0], 20, f, cmap", "bad"),
    ("scatter sizes", F, "plt.scatter(S[:, 0], S[:, 1], 20, f, cmap", "plt.scatter(S[:, 0], S[:, 1], f, cmap", "bad"),
    ("scatter sorted", F, "plt.scatter(S[:, 0], S[:, 1], 20, f, cmap", "plt.scatter(S[:, 0], S[:, 1], 20, f[::-1], cmap", "bad"),
    ("current in rp3", F, "            ax.scatter(S[:, 0], S[:, 1], S[:, 2], c=C, cmap", "            plt.gca().scatter(S[:, 0], S[:, 1], S[:, 2], c=C, cmap", "bad"),
    ("rp3 third", F, "            ax.scatter(S[:, 0], S[:, 1], S[:, 2], c=C, cmap", "            ax.scatter(S[:, 0], S[:, 1], S[:, 1], c=C, cmap", "bad"),
    ("rp3 colours", F, "            C = C / np.max(C)\n", "            C = C / np.max(f)\n", "bad"),
    ("rp3 colours sorted", F, "            C = C / np.max(C)\n", "            C = np.sort(C) / np.max(C)\n", "bad"),
    ("rp3 colours wrap", F, "np.round(C * 255)", "np.round(C * 510)", "bad"),
    ("mesh", F, "        y = np.sin(u) * np.sin(v)\n        z = np.cos(v)\n        ax.plot_wireframe(x, y, z, color=\"black\"", "        y = np.sin(u) * np.cos(v)\n        z = np.cos(v)\n        ax.plot_wireframe(x, y, z, color=\"black\"", "bad"),
    ("equal: third", F, "max([x_range, y_range, z_range])", "max([x_range, y_range])", "bad"),
    ("equal: centre", F, "ax.set_zlim3d([z_middle - plot_radius, z_middle + plot_radius])", "ax.set_zlim3d([y_middle - plot_radius, y_middle + plot_radius])", "bad"),
    ("equal: radius", F, "0.5 * max([x_range", "0.4 * max([x_range", "bad"),
    ("is none", F, IM, "        if ax is None:\n            ax = plt.gca()\n        min_color", "quiet"),
    ("ternary", F, "        ax = ax or plt.gca()\n        u, v", "        ax = plt.gca() if ax is None else ax\n        u, v", "quiet"),
    ("figure axes", F, "        ax = ax or plt.gca()\n        u, v", "        axes = plt.gcf().gca() if ax is None else ax\n        ax = axes\n        u, v", "quiet"),
    ("zip", F, [LOOP], ["        for row, (x, y) in zip(P, X):\n            patch = row.reshape(dim, dim)\n"], "quiet"),
    ("enumerate", F, LOOP, "        for i, row in enumerate(P):\n            patch = np.reshape(row, (dim, dim))\n            x = X[i, 0]\n            y = X[i, 1]\n", "quiet"),
    ("divmod grid", F, "        ex = np.arange(dgrid)\n        x, y = np.meshgrid(ex, ex)\n        X = np.zeros((N, 2))\n        X[:, 0] = x.flatten()[0:N]\n        X[:, 1] = y.flatten()[0:N]\n", "        k = np.arange(N)\n        X = np.column_stack((k % dgrid, k // dgrid)).astype(float)\n", "quiet"),
    ("helper", F, ["    @staticmethod\n    def plot_patches(", IM], ["    @staticmethod\n    def _axes(ax):\n        if ax is None:\n            return plt.gca()\n        return ax\n\n    @staticmethod\n    def plot_patches(", "        ax = PlotUtils._axes(ax)\n        min_color"], "quiet"),
    ("circle helper", F, ['        ax.plot(np.cos(t), np.sin(t), "c")\n        ax.plot(np.cos(t) + second_circle_offset, np.sin(t), "c")\n', "        second_circle_offset = 2.5\n"], ['        circle(0)\n        circle(second_circle_offset)\n', "        second_circle_offset = 2.5\n\n        def circle(x):\n            ax.plot(np.cos(t) + x, np.sin(t), \"c\")\n\n"], "quiet"),
    ("rp3 colours at once", F, "            C = f - np.min(f)\n            C = C / np.max(C)\n", "            C = (f - f.min()) / (f.max() - f.min())\n", "quiet"),
    ("equal by keywords", F, "ax.set_xlim3d([x_middle - plot_radius, x_middle + plot_radius])", "ax.set_xlim3d(x_middle - plot_radius, x_middle + plot_radius)", "quiet"),
    ("equal ptp", F, "        z_range = abs(z_limits[1] - z_limits[0])\n        z_middle = np.mean(z_limits)\n", "        z0, z1 = z_limits\n        z_range = abs(z1 - z0)\n        z_middle = (z0 + z1) / 2\n", "quiet"),
    ("scatter keyword", F, "plt.scatter(S[:, 0], S[:, 1], 20, f, cmap", "plt.scatter(S[:, 0], S[:, 1], s=20, c=f, cmap", "quiet"),
    ("rp2 on axes", F, "plt.scatter(S[:, 0], S[:, 1], 20, f, cmap", "plt.gca().scatter(S[:, 0], S[:, 1], 20, c=f, cmap", "quiet"),
]
