"""Knowledge about this code base shared by the property checkers: what the public objects store and what their inputs are."""
from fractions import Fraction
from . import vg, tnf, poly
from .tnf import Ctx, Ty, dim, Unk
from .poly import P, ZERO, ONE
from .vg import isconst, cargs

def base_key(n):
    """string key under which a node is an entry of the ripser result (mutated or not), or None"""
    if n.op == "index" and len(n.args[1]) == 1 and isconst(n.args[1][0]) and isinstance(n.args[1][0].args[0], str):
        b = n.args[0]
        for _ in range(50):
            if b.op == "call" and b.args[0] == "ripser.ripser": return n.args[1][0].args[0]
            if b.op == "final": b = b.args[1]
            elif b.op == "mu": return n.args[1][0].args[0]
            elif b.op in ("store", "viewset", "index", "mutated"): b = b.args[0]
            else: return None
    return None

def strip_phi(n):
    out = []; st = [n]
    while st:
        x = st.pop()
        if x.op == "phi": st += [x.args[1], x.args[2]]
        else: out.append(x)
    return out

def roles(ck, qual):
    """field name -> role, from the value each constructor stores in it"""
    key = ("roles", qual)
    if key in ck.cache: return ck.cache[key]
    cls = ck.fn(qual)
    init = cls.lookup("__init__")
    so = vg.ObjV(cls, "self")
    r = ck.run(qual + ".__init__", selfobj=so, f=init)
    out = {}; nodes = {}
    for (oid, nm), v in r.state.fields.items():
        if oid == so.id:
            try: nodes[nm] = ck.I.to_node(v, r.state)
            except Exception: pass
    dld = None
    for nm, n in nodes.items():
        k = base_key(n)
        if k in ("dgms", "cocycles"): out[nm] = k
        elif k == "idx_perm": out[nm] = "idx_land"
        elif n.op == "sym": out[nm] = {"prime": "prime", "X": "X", "verbose": "verbose"}.get(n.args[0], n.args[0])
        elif isconst(n): out[nm] = "const"
        elif any(base_key(x) == "dperm2all" for x in strip_phi(n)): out[nm] = "dist_land_data"; dld = n
        elif n.op == "index" and n.args[0].op == "attr" and n.args[0].args[1] == "shape" and base_key(n.args[0].args[0]) == "idx_perm" or n.op == "call" and n.args[0] == "builtins.len": out[nm] = "n_landmarks"
        elif n.op == "attr" and n.args[1] == "size" and base_key(n.args[0]) == "idx_perm": out[nm] = "n_landmarks"
    for nm, n in nodes.items():
        if nm in out: continue
        if n.op == "index" and dld is not None and n.args[0] is dld: out[nm] = "dist_land_land"
        elif n.op == "index" and n.args[0].op == "index" : out[nm] = "dist_land_land"
        elif n.op == "call" and n.args[0] in REDUCE and all(k in ("a", "out", "initial") or k in ("axis", "keepdims") and isconst(v) and not v.args[0] for k, v in n.args[1:][0]) and dict(n.args[1]).get("axis", vg.const(None)).args[0] is None: out[nm] = "scalar"
        elif n.op == "final" or n.op == "call" and "comb" in vg.show(n, 3): out[nm] = "table"
    ck.cache[key] = (out, nodes, r)
    return ck.cache[key]

REDUCE = {"numpy." + k for k in ("max", "amax", "min", "amin", "sum", "mean", "median")}

DEFAULT_ROLES = {"_dist_land_data": "dist_land_data", "_dist_land_land": "dist_land_land", "_n_landmarks": "n_landmarks", "_prime": "prime", "_dgms": "dgms", "dgms_": "dgms", "_cocycles": "cocycles", "_idx_land": "idx_land", "_cns_lookup_table": "table", "_X": "X"}

def field_types(ck, qual):
    rl = dict(DEFAULT_ROLES)
    try: rl.update({k: v for k, v in roles(ck, qual)[0].items()})
    except Exception: pass
    t = {}; special = {}; sym = []
    for f, r in rl.items():
        nm = "self." + f
        if r == "dist_land_data": t[nm] = Ty((dim("L"), dim("N")), "f")
        elif r == "dist_land_land": t[nm] = Ty((dim("L"), dim("L")), "f"); sym.append(nm)
        elif r == "n_landmarks": t[nm] = Ty((), "i"); special[nm] = lambda idx: dim("L")
        elif r == "prime": t[nm] = Ty((), "i")
        elif r == "idx_land": t[nm] = Ty((dim("L"),), "i")
        elif r == "table": t[nm] = Ty((dim("L") + 1, P(5)), "i"); special[nm] = comb_entry
        elif r == "verbose": t[nm] = Ty((), "b")
        elif r == "scalar": t[nm] = Ty((), "f")
    return t, special, sym, rl

def comb_entry(idx):
    """entry (n, k) of the binomial table (established by C07)"""
    n, k = idx
    c = k.const()
    if c is None: return P(poly.atom("f", "comb", (n, k)))
    r = ONE
    for j in range(int(c)): r = r * (n - j) * P(Fraction(1, j + 1))
    return r


def em_hook(rl):
    """abstract leaves for the stored persistence results"""
    dg = {"self." + f for f, r in rl.items() if r == "dgms"}
    co = {"self." + f for f, r in rl.items() if r == "cocycles"}
    def hook(ctx, n):
        if n.op != "index" or len(n.args[1]) != 1: return None
        b = n.args[0]
        if b.op == "sym" and b.args[0] in dg:
            return Ty((P(poly.atom("dim", "ndgm", n)), P(2)), "f")
        if b.op == "index" and b.args[0].op == "sym" and b.args[0].args[0] in co and n.args[1][0].op != "slice":
            h = b.args[1][0]
            if isconst(h) and isinstance(h.args[0], int): return Ty((P(poly.atom("dim", "nsupp", n)), P(h.args[0] + 2)), "i")
        return None
    return hook

SOLVERS = {"scipy.sparse.linalg.lsqr", "scipy.sparse.linalg.lsmr", "numpy.linalg.lstsq", "scipy.linalg.lstsq", "scipy.sparse.linalg.spsolve"}

def is_solution(n):
    if n.op == "index" and n.args[0].op == "call" and n.args[0].args[0] in SOLVERS: return isconst(n.args[1][0], 0)
    return n.op == "call" and n.args[0] == "scipy.sparse.linalg.spsolve"

def is_product(n):
    """delta @ solution, in any spelling -> (delta, solution)"""
    a = None
    if n.op == "matmul": a = (n.args[0], n.args[1])
    elif n.op == "mcall" and n.args[0] in ("dot", "__matmul__") and n.args[2]: a = (n.args[1], n.args[2][0])
    elif n.op == "call" and n.args[0] in ("numpy.dot", "numpy.matmul"): a = tuple(v for _, v in n.args[1])[:2]
    if a and len(a) == 2 and is_solution(a[1]): return a
    return None

def scaled_product(n):
    """product with a constant factor -> (product, factor)"""
    k = 1
    for _ in range(4):
        p = is_product(n)
        if p: return p, k
        if n.op == "neg": n = n.args[0]; k = -k; continue
        if n.op in ("mul", "div"):
            a, b = n.args
            if n.op == "mul" and a.op == "const" and isinstance(a.args[0], (int, float)): k = k * a.args[0]; n = b; continue
            if b.op == "const" and isinstance(b.args[0], (int, float)) and b.args[0]: k = k * b.args[0] if n.op == "mul" else k / b.args[0]; n = a; continue
        return None

def harmonic_parts(n):
    """cocycle - delta @ solution -> (cocycle, delta, solution, factor of the product: -1 as written here)"""
    if n.op == "sub":
        p = scaled_product(n.args[1])
        if p: return n.args[0], p[0][0], p[0][1], -p[1]
        p = scaled_product(n.args[0])
        if p and p[1] == 1: return n.args[1], p[0][0], p[0][1], 1
    if n.op == "add":
        for i in (0, 1):
            p = scaled_product(n.args[i])
            if p: return n.args[1 - i], p[0][0], p[0][1], p[1]
    return None

def harmonic_hook(seen):
    def hook(ctx, n):
        h = harmonic_parts(n)
        if h is None: return None
        if n not in seen: seen.append(n)
        try: sh = ctx.ty(h[1]).shape[:1]
        except Exception: sh = (P(poly.atom("dim", "nedges", n)),)
        return Ty(sh, "f")
    return hook

COORD_PARAMS = {"perc": ((), "f"), "cocycle_idx": ((), "i"), "cocycle_idxs": (("K",), "i"), "check_cocycle_condition": ((), "b"), "standard_range": ((), "b"), "proj_dim": ((), "i"), "complex_dim": ((), "i"), "r_cover": ((), "f"), "projective_dim_red_mode": ((), "s")}

def em_ctx(ck, qual, r, facts=None, extra=None, no_exc=True):
    t, sp, sy, rl = field_types(ck, qual)
    for k, v in COORD_PARAMS.items(): t[k] = Ty([dim(d) for d in v[0]], v[1])
    for k, v in (extra or {}).items(): t[k] = v if isinstance(v, Ty) else Ty([dim(d) for d in v[0]], v[1])
    c = Ctx(r, types=t, symmetric=sy, special=sp, facts=facts, no_exc=no_exc)
    c.hooks.append(em_hook(rl))
    c.rl = rl
    return c

def abstract(c, X, t):
    """treat X as a leaf of type t; so the arms X chooses from and the array X is a transpose of"""
    c.over[X] = t
    k = t.rank
    st = [(X, tuple(range(k)))]; seen = {X}
    while st:
        x, pm = st.pop()
        nxt = []
        if x.op == "phi": nxt = [(y, pm) for y in x.args[1:] if isinstance(y, vg.Node) and y.op != "const"]
        elif x.op == "call" and x.args[0] == "numpy.transpose" and len(x.args[1]) == 1: nxt = [(x.args[1][0][1], tuple(reversed(pm)))]
        for y, p in nxt:
            if y in seen or y.op in ("sym", "const"): continue
            seen.add(y)
            c.over[y] = Ty(tuple(t.shape[j] for j in p), t.dt); c.alias[y] = (X, tuple(p.index(j) for j in range(k)))
            st.append((y, p))

def abstract_calls(ck, r, c):
    """treat the results of the two documented steps of every coordinate computation as leaves"""
    out = {}
    for q, args, ret, path, loops, site in r.calls_seen:
        nm = q.split(".")[-1]
        if ret.op != "tuple" or len(ret.args) != 2: continue
        if nm == "get_cover_radius":
            for k, x in enumerate(ret.args):
                if x.op not in ("const",): c.over[x] = Ty((), "f")
            out.setdefault("radius", (args, ret.args[0], ret.args[1], site))
        if nm == "get_covering_partition":
            abstract(c, ret.args[0], Ty((dim("L"), dim("N")), "f")); abstract(c, ret.args[1], Ty((dim("N"),), "i"))
            out.setdefault("partition", (args, ret.args[0], ret.args[1], site))
    return out
