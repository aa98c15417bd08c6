"""Front end: lowers the repository's Python source to a hash-consed value-dependence graph.

Nothing is imported or executed.  Public entry points are interpreted over symbolic values: every expression becomes a
Node of a gated-SSA graph; repository functions (helpers, methods, closures, jit kernels) are inlined; arrays, lists and
objects are references whose content lives in a heap that is merged with phi nodes; loops get induction variables and mu
nodes; every store, raise, warning, library call, draw and field write is logged with its path condition, enclosing loops,
and the roots (parameters, fields, defaults, globals) the written object may alias.
"""
import ast, os, itertools
from fractions import Fraction
from . import model

# ----------------------------------------------------------------------------- nodes
class Node:
    __slots__ = ("op", "args", "id", "site")
    def __init__(self, op, args, id, site):
        self.op, self.args, self.id, self.site = op, args, id, site
    def __repr__(self):
        return show(self, 6)
    def __hash__(self):
        return self.id
    def __eq__(self, o):
        return self is o

_TABLE = {}
_CTR = itertools.count(1)
CURSITE = [None]

def _key(a):
    if isinstance(a, Node):
        return ("N", a.id)
    if isinstance(a, tuple):
        return ("T",) + tuple(_key(x) for x in a)
    return (type(a).__name__, a)

def mk(op, *args):
    k = (op,) + tuple(_key(a) for a in args)
    n = _TABLE.get(k)
    if n is None:
        n = _TABLE[k] = Node(op, args, next(_CTR), CURSITE[0])
    return n

def const(v):
    if isinstance(v, float) and v == int(v) if isinstance(v, float) and abs(v) < 1e15 and v == v else False:
        return mk("const", float(v))
    return mk("const", v)

NONE = mk("const", None); TRUE = mk("const", True); FALSE = mk("const", False); ELL = mk("ellipsis")
FULL = mk("slice", NONE, NONE, NONE)

def isconst(n, *v):
    return isinstance(n, Node) and n.op == "const" and (not v or any(type(n.args[0]) is type(x) and n.args[0] == x for x in v))

def sym(name):
    return mk("sym", name)

def show(n, depth=5):
    if isinstance(n, tuple):
        return "(" + ", ".join(show(x, depth) for x in n) + ")"
    if not isinstance(n, Node):
        return repr(n) if not isinstance(n, str) else n
    if n.op == "const":
        return repr(n.args[0])
    if n.op == "sym":
        return n.args[0]
    if depth <= 0:
        return "…"
    if n.op == "call":
        return "%s(%s)" % (n.args[0].split(".")[-1] if not n.args[0].startswith("?") else n.args[0], ", ".join(("%s=" % k if not k.isdigit() else "") + show(v, depth - 1) for k, v in n.args[1]))
    b = {"add": "+", "sub": "-", "mul": "*", "div": "/", "matmul": "@", "lt": "<", "le": "<=", "eq": "==", "ne": "!=", "mod": "%", "floordiv": "//", "pow": "**", "and": "and", "or": "or", "is": "is"}.get(n.op)
    if b and len(n.args) == 2:
        return "(%s %s %s)" % (show(n.args[0], depth - 1), b, show(n.args[1], depth - 1))
    if n.op == "index":
        return "%s[%s]" % (show(n.args[0], depth - 1), ", ".join(show(x, depth - 1) for x in n.args[1]))
    if n.op == "slice":
        return ":".join("" if isconst(x, None) else show(x, depth - 1) for x in n.args[:2]) + ("" if isconst(n.args[2], None) else ":" + show(n.args[2], depth - 1))
    if n.op == "attr":
        return "%s.%s" % (show(n.args[0], depth - 1), n.args[1])
    return "%s(%s)" % (n.op, ", ".join(show(x, depth - 1) for x in n.args))

def walk(n, seen=None):
    """all nodes reachable from n (through args; loop side tables excluded)"""
    seen = set() if seen is None else seen
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x); continue
        if not isinstance(x, Node) or x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(x.args)

def subst(n, m, memo=None):
    """replace nodes (dict Node->Node) in n"""
    memo = {} if memo is None else memo
    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, Node):
            return x
        if x in m:
            return m[x]
        r = memo.get(x)
        if r is None:
            a = tuple(go(y) for y in x.args)
            r = x if a == x.args else rebuild(x.op, a)
            memo[x] = r
        return r
    return go(n)

def rebuild(op, a):
    if op == "index":
        return mk_index(a[0], a[1])
    if op in BIN_NAMES:
        return binop(op, a[0], a[1])
    if op == "phi":
        return phi(*a)
    if op == "attr":
        return mk_attr(*a)
    return mk(op, *a)

BIN_NAMES = {"add", "sub", "mul", "div", "floordiv", "mod", "pow", "matmul", "lt", "le", "eq", "ne", "and", "or", "is"}

# ----------------------------------------------------------------------------- pure constructors
def _num(n):
    return n.op == "const" and isinstance(n.args[0], (int, float, Fraction)) and not isinstance(n.args[0], bool)

def binop(op, a, b):
    if op == "gt":
        return binop("lt", b, a)
    if op == "ge":
        return binop("le", b, a)
    if a.op == "const" and b.op == "const":
        x, y = a.args[0], b.args[0]
        try:
            if op == "add" and not (isinstance(x, float) or isinstance(y, float)): return const(x + y)
            if op == "sub" and not (isinstance(x, float) or isinstance(y, float)): return const(x - y)
            if op == "mul" and not (isinstance(x, float) or isinstance(y, float)): return const(x * y)
            if op == "floordiv" and isinstance(x, int) and isinstance(y, int): return const(x // y)
            if op == "mod" and isinstance(x, int) and isinstance(y, int): return const(x % y)
            if op == "pow" and isinstance(x, int) and isinstance(y, int) and 0 <= y < 64: return const(x ** y)
            if op == "lt": return const(x < y)
            if op == "le": return const(x <= y)
            if op == "eq": return const(x == y)
            if op == "ne": return const(x != y)
        except Exception:
            pass
    if op in ("and", "or"):
        for p, q in ((a, b), (b, a)):
            if isconst(p, True): return q if op == "and" else TRUE
            if isconst(p, False): return FALSE if op == "and" else q
        if a is b: return a
    if op == "is":
        if a.op == "const" and b.op == "const":
            return const(a.args[0] is b.args[0] or (a.args[0] == b.args[0] and type(a.args[0]) is type(b.args[0])))
        for p, q in ((a, b), (b, a)):
            if isconst(p, None) and definitely_object(q):
                return FALSE
            if isconst(p, None) and q.op == "phi":
                return phi(q.args[0], binop("is", q.args[1], NONE), binop("is", q.args[2], NONE))
    if op in ("eq", "ne") and (isconst(a, None) or isconst(b, None)):
        q = b if isconst(a, None) else a
        if definitely_object(q):
            return const(op == "ne")
    return mk(op, a, b)

def definitely_object(n):
    """node that cannot be None"""
    if n.op in ("tuple", "list", "dict", "seq", "store", "vstore", "add", "sub", "mul", "div", "matmul", "neg", "lt", "le", "iv", "slice", "str", "mod", "floordiv", "pow"):
        return True
    if n.op == "const":
        return n.args[0] is not None
    if n.op == "call":
        return n.args[0].split(".")[0] in ("numpy", "scipy", "math", "sparse")
    if n.op == "phi":
        return definitely_object(n.args[1]) and definitely_object(n.args[2])
    return False

def mk_not(a):
    if a.op == "const":
        return const(not a.args[0])
    if a.op == "not":
        return a.args[0]
    return mk("not", a)

def phi(c, a, b):
    if a is b:
        return a
    if isconst(c):
        return a if c.args[0] else b
    if a is c and b.op == "const" and isinstance(b.args[0], bool): a = TRUE        # c or True, c or False
    if b is c and a.op == "const" and isinstance(a.args[0], bool): b = FALSE       # c and False, c and True
    if a is b: return a
    if c.op == "not":
        return phi(c.args[0], b, a)
    if isconst(a, True) and isconst(b, False):
        return mk("truth", c) if c.op not in ("lt", "le", "eq", "ne", "and", "or", "not", "is", "truth", "in", "inloop") else c
    if isconst(a, False) and isconst(b, True):
        return mk_not(phi(c, TRUE, FALSE))
    if a.op == "phi" and a.args[0] is c: a = a.args[1]
    if b.op == "phi" and b.args[0] is c: b = b.args[2]
    if a is b: return a
    return mk("phi", c, a, b)

def _same_idx(i, j):
    return len(i) == len(j) and all(x is y for x, y in zip(i, j))

def _diff_idx(i, j):
    """provably different single-cell indices"""
    for x, y in zip(i, j):
        if x.op == "const" and y.op == "const" and not isinstance(x.args[0], (bool, type(None))) and not isinstance(y.args[0], (bool, type(None))) and x.args[0] != y.args[0] and \
           (isinstance(x.args[0], str) or (x.args[0] >= 0) == (y.args[0] >= 0)):
            return True
    return False

_HLV = {}
def has_loop_value(n):
    """does a value refer to the result of a loop (which may depend on enclosing iterations through the loop's tables)?"""
    r = _HLV.get(n)
    if r is None:
        r = _HLV[n] = any(x.op in ("final", "mu", "last", "inloop") for x in walk(n))
    return r

def mk_index(b, idx):
    idx = tuple(idx)
    if b.op in ("tuple", "list") and len(idx) == 1:
        i = idx[0]
        if i.op == "const" and isinstance(i.args[0], int) and not isinstance(i.args[0], bool) and -len(b.args) <= i.args[0] < len(b.args):
            return b.args[i.args[0]]
    if b.op == "dict" and len(idx) == 1:
        for k, v in b.args:
            if k is idx[0]:
                return v
    if b.op == "call" and b.args[0] == "numpy.arange" and len(idx) == 1 and idx[0].op == "not" and idx[0].args[0].op == "call" and idx[0].args[0].args[0] == "numpy.isin":
        a = dict(idx[0].args[0].args[1])
        if a.get("element") is b and "test_elements" in a: return mk("call", "numpy.setdiff1d", (("ar1", b), ("ar2", a["test_elements"])))
    if b.op == "store":
        if _same_idx(b.args[1], idx) and not any(i.op == "slice" for i in idx):
            return b.args[2]
        if _diff_idx(b.args[1], idx):
            return mk_index(b.args[0], idx)
    if b.op == "seq" and len(idx) == 1 and idx[0].op not in ("slice", "ellipsis") and not isconst(idx[0], None) and isconst(b.args[3], True):
        i = idx[0]
        ivn = b.args[1]
        if not (i.op == "const" and isinstance(i.args[0], int) and i.args[0] < 0) and ivn.args[0].op == "range" and isconst(ivn.args[0].args[0], 0) and isconst(ivn.args[0].args[2], 1):
            if i is ivn or not has_loop_value(b.args[2]): return subst(b.args[2], {ivn: i})
    if b.op == "phi" and len(idx) == 1 and idx[0].op == "const" and all(x.op in ("tuple", "list", "dict", "phi") for x in b.args[1:]):
        return phi(b.args[0], mk_index(b.args[1], idx), mk_index(b.args[2], idx))
    return mk("index", b, idx)

def mk_attr(b, name):
    if name == "size" and b.op == "call" and b.args[0] == "numpy.array" and len(b.args[1]) == 1 and b.args[1][0][1].op == "list":
        if not b.args[1][0][1].args:
            return const(0)
    if b.op == "call" and b.args[0] in ("scipy.optimize.milp", "scipy.optimize.linprog", "scipy.optimize.minimize"): return mk_index(b, (const(name),))
    return mk("attr", b, name)

def call(name, **kw):
    return mk("call", name, tuple(sorted(kw.items(), key=lambda t: t[0])))

def cargs(n):
    """dict of parameters of a call node"""
    return dict(n.args[1])

# ----------------------------------------------------------------------------- values
_RID = itertools.count(1)
JIT = {"numba.jit", "numba.njit", "numba.core.decorators.jit", "numba.core.decorators.njit", "numba.vectorize", "numba.generated_jit"}

def free_names(fn):
    """names a function reads and does not bind (nested functions included)"""
    bound, used = set(), set()
    a = fn.args
    for p in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []): bound.add(p.arg)
    st = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    nl = set()
    while st:
        x = st.pop()
        if isinstance(x, (ast.FunctionDef, ast.Lambda)):
            if isinstance(x, ast.FunctionDef): bound.add(x.name); st += x.decorator_list
            st += [d for d in x.args.defaults + x.args.kw_defaults if d is not None]
            used |= free_names(x)
            continue
        if isinstance(x, (ast.Nonlocal, ast.Global)): nl |= set(x.names)
        if isinstance(x, ast.Name):
            (used if isinstance(x.ctx, ast.Load) else bound).add(x.id)
        st += list(ast.iter_child_nodes(x))
    return (used - (bound - nl)) | nl

class Ref:
    """reference to a mutable object; content in state.heap unless it is a view"""
    __slots__ = ("id", "roots", "view", "site", "snap", "default")
    def __init__(self, roots=frozenset(), view=None, site=None):
        self.id = next(_RID); self.roots = frozenset(roots); self.view = view; self.site = site; self.snap = None
    def __repr__(self):
        return "Ref%d%s" % (self.id, set(self.roots) or "")

class TupleV:
    __slots__ = ("elts",)
    def __init__(self, elts): self.elts = tuple(elts)
class FuncV:
    def __init__(self, node, mod, fid, name, cls=None):
        self.node, self.mod, self.fid, self.name, self.cls = node, mod, fid, name, cls
        self.jit = None; self.static = self.classm = self.prop = False; self.defaults = {}; self.deco_unknown = []
    @property
    def qual(self):
        return "%s:%s" % (self.mod.file, self.name)
class BoundV:
    def __init__(self, func, recv): self.func, self.recv = func, recv
class ClassV:
    def __init__(self, name, mod, node): self.name, self.mod, self.node = name, mod, node; self.bases = []; self.attrs = {}
    def lookup(self, n):
        if n in self.attrs: return self.attrs[n]
        for b in self.bases:
            if isinstance(b, ClassV):
                r = b.lookup(n)
                if r is not None: return r
        return None
class ObjV:
    def __init__(self, cls, name): self.cls, self.name = cls, name; self.id = next(_RID)
class LibV:
    __slots__ = ("name",)
    def __init__(self, name): self.name = name
class MethV:
    """unresolved method of a symbolic receiver"""
    __slots__ = ("recv", "name")
    def __init__(self, recv, name): self.recv, self.name = recv, name
class SuperV:
    def __init__(self, obj, cls): self.obj, self.cls = obj, cls
class ModV:
    def __init__(self, mod): self.mod = mod
class UndefV: pass
UNDEF = UndefV()
FINFO = {"eps": 2.0 ** -52, "epsilon": 2.0 ** -52, "tiny": 2.0 ** -1022, "smallest_normal": 2.0 ** -1022, "max": (2 - 2.0 ** -52) * 2.0 ** 1023, "resolution": 1e-15, "smallest_subnormal": 2.0 ** -1074}
def vg_is_double(n):
    return n.op == "libref" and n.args[0] in ("builtins.float", "numpy.float64", "numpy.double") or n.op == "const" and (n.args[0] in ("float", "float64", "d") or isinstance(n.args[0], float))

# list/dict contents
class ListC:
    __slots__ = ("elts",)
    def __init__(self, elts): self.elts = tuple(elts)
class SeqC:
    """[elem for iv in dom if cond] (list, comprehension or append loop)"""
    __slots__ = ("iv", "elem", "cond")
    def __init__(self, iv, elem, cond): self.iv, self.elem, self.cond = iv, elem, cond
class AppC:
    """content of a list inside a loop that appends: base marker + appended (elem, cond)"""
    __slots__ = ("tag", "items")
    def __init__(self, tag, items=()): self.tag, self.items = tag, tuple(items)
class DictC:
    __slots__ = ("items",)
    def __init__(self, items): self.items = tuple(items)   # (key Node, value)

class Loop:
    def __init__(self, uid, kind, site):
        self.uid, self.kind, self.site = uid, kind, site
        self.iv = None; self.dom = None; self.cond = None; self.mu = {}; self.breaks = []; self.parent = None; self.path = (); self.rev = False; self.names = {}

class Effect:
    __slots__ = ("kind", "data", "path", "loops", "site", "stack", "roots", "order")
    def __init__(self, kind, data, path, loops, site, stack, roots=frozenset()):
        self.kind, self.data, self.path, self.loops, self.site, self.stack, self.roots = kind, data, path, loops, site, stack, roots
    def __repr__(self):
        return "<%s %s @%s:%s>" % (self.kind, self.data, self.site[0], self.site[1])

class State:
    __slots__ = ("frames", "heap", "fields", "path")
    def __init__(self):
        self.frames, self.heap, self.fields, self.path = {}, {}, {}, ()
    def copy(self):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = dict(self.heap); s.fields = dict(self.fields); s.path = self.path
        return s

class Module:
    def __init__(self, name, file, tree, src):
        self.name, self.file, self.tree, self.src = name, file, tree, src
        self.fid = None

class AnalysisError(Exception):
    pass

MAXDEPTH = 24

class Program:
    def __init__(self, root, pkg="dreimac", overlay=None):
        self.root, self.pkg = root, pkg
        self.modules = {}
        self.overlay = overlay or {}
        d = os.path.join(root, pkg)
        names = sorted(f for f in os.listdir(d) if f.endswith(".py"))
        for f in names:
            rel = pkg + "/" + f
            src = self.overlay.get(rel)
            if src is None:
                with open(os.path.join(d, f), encoding="utf-8") as fh:
                    src = fh.read()
            nm = pkg if f == "__init__.py" else pkg + "." + f[:-3]
            self.modules[nm] = Module(nm, rel, ast.parse(src, rel), src)
        self.base = State()
        self.I = None
        self._fid = itertools.count(1)
        self.globals_done = set()
        self.interp = Interp(self)
        for nm in list(self.modules):
            self.load(nm)

    def add_module(self, name, src):
        """reference formulas, interpreted like package modules"""
        nm = self.pkg + "." + name
        self.modules[nm] = Module(nm, "<%s>" % name, ast.parse(src, name), src)
        self.interp.effects, self.interp.loops, self.interp.loopstack, self.interp.callstack, self.interp.opaque = [], {}, [], [], []
        self.load(nm)

    def load(self, nm):
        m = self.modules[nm]
        if nm in self.globals_done:
            return m
        self.globals_done.add(nm)
        m.fid = next(self._fid)
        st = self.base
        st.frames[m.fid] = {"__name__": const(nm)}
        self.interp.exec_module(m, st)
        return m

    def lookup(self, qual):
        """'utils:CohomologyUtils.make_delta0' -> value"""
        mod, name = qual.split(":")
        m = self.modules.get(self.pkg + "." + mod if mod else self.pkg)
        if m is None:
            return None
        parts = name.split(".")
        v = self.base.frames[m.fid].get(parts[0])
        for p in parts[1:]:
            if isinstance(v, ClassV):
                v = v.lookup(p)
            elif isinstance(v, FuncV):      # nested function: find syntactically
                v = None
            else:
                return None
        return v

class Result:
    def __init__(self):
        self.ret = None; self.state = None; self.effects = []; self.loops = {}; self.fn = None; self.params = {}; self.opaque = []; self.returns = []; self.selfobj = None

    def node(self, v=None):
        return self.I.to_node(self.ret if v is None else v, self.state)

NORMAL, RETURN, BREAK, CONTINUE, RAISE = range(5)

class Interp:
    def __init__(self, prog):
        self.prog = prog
        self.effects = []
        self.loops = {}
        self.loopstack = []
        self.callstack = []
        self.opaque = []
        self._luid = itertools.count(1)
        self._ouid = itertools.count(1)
        self.site = ("?", 0)
        self.draws = 0
        self.watch = {"get_cover_radius", "get_covering_partition", "get_representative_cocycle", "ppca"}; self.calls_seen = []
        self.types = None     # rank oracle: node -> rank or None
        self.exc = itertools.count(1)

    # ------------------------------------------------------------ helpers
    def log(self, kind, data, st, roots=frozenset()):
        e = Effect(kind, data, st.path, tuple(self.loopstack), self.site, tuple(self.callstack), frozenset(roots))
        e.order = len(self.effects)
        self.effects.append(e)
        return e

    def opq(self, why, *args):
        n = mk("opaque", why, next(self._ouid), tuple(a for a in args if isinstance(a, Node)))
        self.opaque.append((why, self.site))
        return n

    def newref(self, content, st, roots=frozenset(), view=None):
        r = Ref(roots, view, self.site)
        if view is None:
            st.heap[r.id] = content
        return r

    def content(self, r, st):
        if r.view is not None:
            base, steps = r.view
            b = self.content(base, st)
            b = b if isinstance(b, Node) else self.cnode(b, st)
            n = apply_view(b, steps)
            if r.snap is not None and n is not r.snap:
                rk = self.rank(r.snap)
                if rk == 0:
                    return r.snap
            return n
        c = st.heap.get(r.id)
        if c is None:
            return mk("opaque", "dead-ref", r.id, ())
        return c

    def rank(self, n):
        return self.types(n) if self.types else None

    def cnode(self, c, st):
        if isinstance(c, Node): return c
        if isinstance(c, ListC): return mk("list", *[self.to_node(x, st) for x in c.elts])
        if isinstance(c, SeqC): return mk("seq", c.iv.args[0], c.iv, self.to_node(c.elem, st), c.cond)
        if isinstance(c, DictC): return mk("dict", *[(k, self.to_node(v, st)) for k, v in c.items])
        if isinstance(c, AppC): return mk("opaque", "list-under-construction", c.tag if isinstance(c.tag, int) else 0, ())
        raise AnalysisError("content " + repr(c))

    def to_node(self, v, st):
        if isinstance(v, Node): return v
        if isinstance(v, Ref): return self.cnode(self.content(v, st), st)
        if isinstance(v, TupleV): return mk("tuple", *[self.to_node(x, st) for x in v.elts])
        if isinstance(v, LibV): return mk("libref", model.ALIAS.get(v.name, v.name))
        if isinstance(v, FuncV): return mk("func", v.qual, v.node.lineno)
        if isinstance(v, BoundV): return mk("bound", v.func.qual, self.to_node(v.recv, st))
        if isinstance(v, ClassV): return mk("cls", v.name)
        if isinstance(v, ObjV): return mk("obj", v.name)
        if isinstance(v, MethV): return mk("meth", self.to_node(v.recv, st), v.name)
        if isinstance(v, ModV): return mk("libref", v.mod.name)
        if v is UNDEF: return mk("undef")
        return mk("opaque", "value", 0, ())

    def roots(self, v):
        if isinstance(v, Ref):
            r = set(v.roots)
            if v.view is not None: r |= self.roots(v.view[0])
            return frozenset(r)
        if isinstance(v, TupleV):
            return frozenset().union(*[self.roots(x) for x in v.elts]) if v.elts else frozenset()
        return frozenset()

    def deep_roots(self, v, st):
        r = set(self.roots(v))
        if isinstance(v, Ref) and v.view is None:
            c = st.heap.get(v.id)
            if isinstance(c, ListC):
                for x in c.elts: r |= self.deep_roots(x, st)
            elif isinstance(c, SeqC): r |= self.deep_roots(c.elem, st)
            elif isinstance(c, DictC):
                for _, x in c.items: r |= self.deep_roots(x, st)
        elif isinstance(v, TupleV):
            for x in v.elts: r |= self.deep_roots(x, st)
        return frozenset(r)

    # ------------------------------------------------------------ entry points
    def run(self, fn, args=None, selfobj=None, types=None, state=None, kwargs=None):
        """interpret fn with symbolic parameters; args: dict name->value overrides"""
        res = Result(); res.I = self
        self.effects, self.loops, self.loopstack, self.callstack, self.opaque = [], {}, [], [], []
        self.types = types
        self.draws = 0
        self.calls_seen = []
        st = (state or self.prog.base).copy()
        st.path = ()
        a = fn.node.args
        bound = {}
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        start = 0
        if selfobj is not None and names and not fn.static:
            bound[names[0]] = selfobj; start = 1
        for nm in names[start:]:
            if args and nm in args:
                bound[nm] = args[nm]
            else:
                bound[nm] = self.newref(sym(nm), st, {"param:" + nm})
            res.params[nm] = bound[nm]
        if a.vararg: bound[a.vararg.arg] = self.newref(sym("*" + a.vararg.arg), st, {"param:" + a.vararg.arg})
        if a.kwarg: bound[a.kwarg.arg] = self.newref(sym("**" + a.kwarg.arg), st, {"param:" + a.kwarg.arg})
        self.site = (fn.mod.file, fn.node.lineno, fn.name)
        res.fn = fn
        ret, st2 = self.invoke(fn, bound, st)
        res.ret, res.state, res.effects, res.loops, res.opaque = ret, st2, self.effects, self.loops, self.opaque
        res.selfobj = selfobj
        res.calls_seen = self.calls_seen
        res.top_returns = getattr(self, 'top_returns', [])
        return res

    def invoke(self, fn, bound, st):
        """run body of fn with bound parameters; returns (value, state)"""
        if len(self.callstack) >= MAXDEPTH or sum(1 for f in self.callstack if f is fn) >= 2:
            return self.newref(self.opq("recursion " + fn.name), st), st
        fid = next(self.prog._fid)
        fr = dict(bound); fr["__parent__"] = fn.fid; fr["__fn__"] = fn
        st.frames[fid] = fr
        self.callstack.append(fn)
        base_path = st.path
        save_site = self.site
        try:
            if isinstance(fn.node, ast.Lambda):
                v = self.eval(fn.node.body, st, fid)
                outs = [(RETURN, st, v)]
            else:
                outs = self.block(fn.node.body, st, fid)
        finally:
            self.callstack.pop()
            self.site = save_site
        rets = []
        for status, s, v in outs:
            if status == RETURN: rets.append((s, v))
            elif status == NORMAL: rets.append((s, NONE))
        if not rets:
            # always raises
            s = st.copy(); s.path = base_path + ((FALSE, True),)
            s.frames.pop(fid, None)
            return NONE, s
        if len(self.callstack) == 0:
            self.top_returns = [(s.path[len(base_path):], v, s) for s, v in rets]
        # merge in order: path-distinguishing conditions
        sM, vM = rets[-1]
        for s, v in reversed(rets[:-1]):
            c = self.pathcond(s.path[len(base_path):], sM.path[len(base_path):])
            sM, vM = self.merge_state(c, s, sM, extra=(v, vM))
        sM.path = base_path
        if len(rets) == 1:
            # keep facts (asserts, raise guards) established on the way
            sM.path = rets[0][0].path
        else:
            pre = common_prefix([s.path for s, _ in rets])
            sM.path = pre
        # closures may outlive the frame: keep it
        return vM, sM

    def pathcond(self, p, q):
        """condition that distinguishes path p from path q"""
        k = 0
        while k < len(p) and k < len(q) and p[k] == q[k]:
            k += 1
        p = p[k:]
        c = TRUE
        for n, pol in p:
            c = binop("and", c, n if pol else mk_not(n))
        return c

    # ------------------------------------------------------------ merging
    def merge_value(self, c, a, b, s1, s2, out, memo):
        if a is b: return a
        if a is UNDEF or b is UNDEF:
            return b if a is UNDEF else a
        if isinstance(a, Node) and isinstance(b, Node):
            return phi(c, a, b)
        if isinstance(a, TupleV) and isinstance(b, TupleV) and len(a.elts) == len(b.elts):
            return TupleV([self.merge_value(c, x, y, s1, s2, out, memo) for x, y in zip(a.elts, b.elts)])
        if isinstance(a, (Node, Ref, TupleV)) and isinstance(b, (Node, Ref, TupleV)):
            k = (id(a), id(b))
            if k in memo: return memo[k]
            na, nb = self.to_node(a, s1), self.to_node(b, s2)
            if na is nb and isinstance(a, Node): r = a
            elif na is nb and isinstance(b, Node) : r = b
            else:
                r = Ref(self.roots(a) | self.roots(b), None, self.site)
                # containers of the same shape keep structure
                ca = self.content(a, s1) if isinstance(a, Ref) else a
                cb = self.content(b, s2) if isinstance(b, Ref) else b
                m = self.merge_content(c, ca, cb, s1, s2, out, memo)
                out.heap[r.id] = m
            memo[k] = r
            return r
        if isinstance(a, (FuncV, LibV, ClassV)) or isinstance(b, (FuncV, LibV, ClassV)):
            return self.newref_in(out, phi(c, self.to_node(a, s1), self.to_node(b, s2)))
        if isinstance(a, ObjV) or isinstance(b, ObjV):
            return self.newref_in(out, phi(c, self.to_node(a, s1), self.to_node(b, s2)))
        return self.newref_in(out, phi(c, self.to_node(a, s1), self.to_node(b, s2)))

    def newref_in(self, st, n):
        r = Ref(frozenset(), None, self.site); st.heap[r.id] = n
        return r

    def merge_content(self, c, a, b, s1, s2, out, memo):
        if a is b: return a
        if isinstance(a, ListC) and isinstance(b, ListC) and len(a.elts) == len(b.elts):
            return ListC([self.merge_value(c, x, y, s1, s2, out, memo) for x, y in zip(a.elts, b.elts)])
        if isinstance(a, AppC) and isinstance(b, AppC) and a.tag == b.tag:
            k = 0
            while k < len(a.items) and k < len(b.items) and a.items[k][0] is b.items[k][0] and a.items[k][1] is b.items[k][1]:
                k += 1
            ra, rb = a.items[k:], b.items[k:]
            items = list(a.items[:k])
            if len(ra) == len(rb):
                for (x, cx), (y, cy) in zip(ra, rb):
                    items.append((self.merge_value(c, x, y, s1, s2, out, memo), phi(c, cx, cy)))
            else:
                for x, cx in ra: items.append((x, binop("and", c, cx)))
                for y, cy in rb: items.append((y, binop("and", mk_not(c), cy)))
            return AppC(a.tag, items)
        if isinstance(a, DictC) and isinstance(b, DictC) and [k for k, _ in a.items] == [k for k, _ in b.items]:
            return DictC([(k, self.merge_value(c, x, y, s1, s2, out, memo)) for (k, x), (_, y) in zip(a.items, b.items)])
        def n(x, s):
            if isinstance(x, (TupleV, Ref)): return self.to_node(x, s)
            return x if isinstance(x, Node) else self.cnode(x, s)
        return phi(c, n(a, s1), n(b, s2))

    def merge_state(self, c, s1, s2, extra=None):
        """state where c -> s1 else s2; extra: pair of values to merge as well"""
        out = State()
        out.path = common_prefix([s1.path, s2.path])
        memo = {}
        for rid in list(s1.heap.keys() | s2.heap.keys()):
            a, b = s1.heap.get(rid), s2.heap.get(rid)
            if a is None: out.heap[rid] = b
            elif b is None: out.heap[rid] = a
            elif a is b: out.heap[rid] = a
        for rid in list(s1.heap.keys() & s2.heap.keys()):
            a, b = s1.heap[rid], s2.heap[rid]
            if a is not b:
                out.heap[rid] = self.merge_content(c, a, b, s1, s2, out, memo)
        for fid in s1.frames.keys() | s2.frames.keys():
            f1, f2 = s1.frames.get(fid), s2.frames.get(fid)
            if f1 is None or f2 is None:
                out.frames[fid] = dict(f1 or f2); continue
            o = {}
            for k in list(f1) + [k for k in f2 if k not in f1]:
                a, b = f1.get(k, UNDEF), f2.get(k, UNDEF)
                o[k] = a if a is b else (self.merge_value(c, a, b, s1, s2, out, memo) if not k.startswith("__") else a)
            out.frames[fid] = o
        for k in list(s1.fields.keys() | s2.fields.keys()):
            a, b = s1.fields.get(k, UNDEF), s2.fields.get(k, UNDEF)
            if a is UNDEF and not isinstance(b, (FuncV,)):
                a = self.field_default(k, s1)
            if b is UNDEF:
                b = self.field_default(k, s2)
            out.fields[k] = a if a is b else self.merge_value(c, a, b, s1, s2, out, memo)
        if extra is None:
            return out
        v = self.merge_value(c, extra[0], extra[1], s1, s2, out, memo)
        return out, v

    def field_default(self, k, st):
        r = Ref({"field:" + k[1]}, None, self.site)
        st.heap[r.id] = sym("self." + k[1])
        return r

    # ------------------------------------------------------------ statements
    def exec_module(self, m, st):
        self.curmod = m
        self.site = (m.file, 1, "<module>")
        for s in m.tree.body:
            self.stmt(s, st, m.fid)

    def block(self, stmts, st, fid):
        """-> list of outcomes (status, state, value); at most one NORMAL"""
        outs = []
        cur = st
        for s in stmts:
            r = self.stmt(s, cur, fid)
            nxt = None
            for o in r:
                if o[0] == NORMAL:
                    nxt = o[1]
                else:
                    outs.append(o)
            if nxt is None:
                return outs
            cur = nxt
        outs.append((NORMAL, cur, None))
        return outs

    def modof(self, fid, st):
        while True:
            fr = st.frames[fid]
            if "__parent__" not in fr or fr["__parent__"] is None:
                for m in self.prog.modules.values():
                    if m.fid == fid: return m
                return None
            if "__fn__" in fr: return fr["__fn__"].mod
            fid = fr["__parent__"]

    def stmt(self, s, st, fid):
        m = self.modof(fid, st)
        fr = st.frames[fid]
        fname = fr["__fn__"].name if "__fn__" in fr else "<module>"
        self.site = (m.file if m else "?", s.lineno, fname)
        CURSITE[0] = self.site
        k = type(s).__name__
        f = getattr(self, "s_" + k, None)
        if f is None:
            self.opq("stmt " + k)
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    st.frames[fid][n.id] = self.newref(self.opq("stmt " + k), st)
            return [(NORMAL, st, None)]
        r = f(s, st, fid)
        return r if r is not None else [(NORMAL, st, None)]

    def s_Pass(self, s, st, fid): pass
    def s_Expr(self, s, st, fid):
        if isinstance(s.value, ast.Constant): return
        self.eval(s.value, st, fid)
    def s_Global(self, s, st, fid): self.opq("global")
    s_Nonlocal = s_Global
    def s_Import(self, s, st, fid):
        for a in s.names:
            if a.asname: st.frames[fid][a.asname] = LibV(a.name)
            else: st.frames[fid][a.name.split(".")[0]] = LibV(a.name.split(".")[0])
            self.log("import", a.name, st)
    def s_ImportFrom(self, s, st, fid):
        pkg = self.prog.pkg
        for a in s.names:
            nm = a.asname or a.name
            if s.level or (s.module or "").split(".")[0] == pkg:
                mod = (s.module or "") if not s.level else pkg + ("." + s.module if s.module else "")
                if mod in self.prog.modules:
                    save = self.site
                    m = self.prog.load(mod)
                    self.site = save
                    v = self.prog.base.frames[m.fid].get(a.name)
                    if v is None and mod + "." + a.name in self.prog.modules:
                        v = ModV(self.prog.load(mod + "." + a.name))
                    if v is None:
                        self.log("missing-import", (mod, a.name), st)
                        v = LibV(mod + "." + a.name)
                    st.frames[fid][nm] = v
                else:
                    self.log("missing-import", (mod, a.name), st)
                    st.frames[fid][nm] = LibV(mod + "." + a.name)
            else:
                st.frames[fid][nm] = LibV(s.module + "." + a.name)
                self.log("import", s.module + "." + a.name, st)

    def make_func(self, node, st, fid, name, cls=None, dfid=None):
        dfid = fid if dfid is None else dfid
        m = self.modof(fid, st) or self.curmod
        f = FuncV(node, m, fid, name, cls)
        f._loops = tuple(self.loopstack)
        a = node.args
        pos = a.posonlyargs + a.args
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            v = self.eval(d, st, dfid)
            if isinstance(v, Ref): v = self.rooted(v, "default:%s.%s" % (name, p.arg), st)
            f.defaults[p.arg] = v
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                v = self.eval(d, st, dfid)
                if isinstance(v, Ref): v = self.rooted(v, "default:%s.%s" % (name, p.arg), st)
                f.defaults[p.arg] = v
        return f

    def rooted(self, r, root, st):
        n = Ref(r.roots | {root}, None, r.site)
        st.heap[n.id] = self.content(r, st)
        return n

    def s_FunctionDef(self, s, st, fid):
        fr = st.frames[fid]
        cls = fr.get("__class_body__")
        name = (cls.name + "." if cls else "") + s.name
        f = self.make_func(s, st, fid if not cls else fr["__parent__"], name, cls, fid)
        val = f
        for d in reversed(s.decorator_list):
            dv = self.eval(d.func if isinstance(d, ast.Call) else d, st, fid)
            dn = dv.name if isinstance(dv, LibV) else None
            if dn in ("builtins.staticmethod",): f.static = True
            elif dn == "builtins.classmethod": f.classm = True
            elif dn == "builtins.property": f.prop = True
            elif dn in JIT:
                opts = {"nopython": dn == "numba.njit"}
                if isinstance(d, ast.Call):
                    pos, kws = self.args_of(d, st, fid)
                    opts.update(self.jit_opts(pos, kws, st))
                f.jit = opts
            elif dn in ("functools.wraps", "functools.lru_cache", "functools.cache"):
                f.deco_unknown.append(dn)
            else:
                jo = self.jit_value(dv, st)
                if jo is not None and not isinstance(d, ast.Call):
                    f.jit = jo
                elif isinstance(dv, FuncV):
                    if isinstance(d, ast.Call):
                        deco, st2 = self.call_func(dv, *self.args_of(d, st, fid), st=st)
                        self.adopt(st, st2)
                    else:
                        deco = dv
                    v, st2 = self.call_value(deco, [val], {}, st)
                    self.adopt(st, st2)
                    val = v
                    f.deco_unknown.append("repo")
                else:
                    f.deco_unknown.append(dn or "?")
                    self.opq("decorator %s" % (dn,))
        if cls: cls.attrs[s.name] = val
        st.frames[fid][s.name] = val

    def try_node(self, v, st):
        try: return self.to_node(v, st)
        except Exception: return None

    def jit_opts(self, pos, kws, st):
        opts = {}
        for k, v in kws.items():
            c = self.content(v, st) if isinstance(v, Ref) else v
            if isconst(c): opts[k] = c.args[0]
            else:
                n = self.to_node(v, st)
                opts[k] = n.args[0] if isconst(n) else n
        if [a for a in pos if not isinstance(a, (FuncV, tuple))]: opts["signature"] = self.to_node(pos[0], st)
        return opts

    def jit_value(self, dv, st):
        """options of a value like jit(nopython=True), made before it is applied to a function"""
        if isinstance(dv, LibV) and dv.name in JIT: return {"nopython": dv.name == "numba.njit"}
        if isinstance(dv, Ref):
            try: n = self.to_node(dv, st)
            except AnalysisError: return None
            if n.op == "call" and n.args[0] in JIT and not any(k in ("0", "signature_or_function", "func") for k, _ in n.args[1]):
                o = {"nopython": n.args[0] == "numba.njit"}
                o.update({k: v.args[0] if isconst(v) else v for k, v in n.args[1]})
                return o
        return None

    def jitted(self, f, opts):
        g = FuncV(f.node, f.mod, f.fid, f.name, f.cls)
        g._loops = getattr(f, "_loops", ())
        g.static, g.classm, g.prop, g.defaults, g.deco_unknown = f.static, f.classm, f.prop, f.defaults, f.deco_unknown
        g.jit = opts
        return g

    def captured(self, f, st):
        """values of the free variables of a compiled function: name -> (value, defined at module level)"""
        fv = getattr(f.node, "_free", None)
        if fv is None:
            fv = f.node._free = free_names(f.node)
        out = {}
        for nm in fv:
            fr = f.fid; first = True
            while fr is not None:
                d = st.frames.get(fr)
                if d is None: break
                if nm in d and "__class_body__" not in d:
                    v = d[nm]
                    if not isinstance(v, (FuncV, LibV, ModV, ClassV, BoundV)): out[nm] = (v, d.get("__parent__") is None)
                    break
                fr = d.get("__parent__")
        return out

    def adopt(self, st, st2):
        """make st equal st2 in place"""
        if st is st2: return
        st.frames, st.heap, st.fields, st.path = st2.frames, st2.heap, st2.fields, st2.path

    def s_AsyncFunctionDef(self, s, st, fid): self.opq("async")

    def s_ClassDef(self, s, st, fid):
        m = self.modof(fid, st) or self.curmod
        c = ClassV(s.name, m, s)
        for b in s.bases:
            c.bases.append(self.eval(b, st, fid))
        nf = next(self.prog._fid)
        st.frames[nf] = {"__parent__": fid, "__class_body__": c}
        st.frames[fid][s.name] = c
        for x in s.body:
            self.stmt(x, st, nf)
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    if isinstance(t, ast.Name): c.attrs[t.id] = st.frames[nf].get(t.id)
        for kk, v in st.frames[nf].items():
            if not kk.startswith("__") or kk == "__init__":
                c.attrs.setdefault(kk, v)

    def s_Return(self, s, st, fid):
        v = self.eval(s.value, st, fid) if s.value is not None else NONE
        self.log("return", v, st)
        return [(RETURN, st, v)]

    def s_Raise(self, s, st, fid):
        v = None
        if s.exc is not None:
            e = s.exc
            if isinstance(e, ast.Call):
                args, _ = self.args_of(e, st, fid)
                fv = self.eval(e.func, st, fid)
                v = mk("exc", fv.name if isinstance(fv, LibV) else "?", tuple(self.to_node(a, st) for a in args))
            else:
                v = mk("exc", "?", ())
        self.log("raise", v, st)
        return [(RAISE, st, None)]

    def s_Assert(self, s, st, fid):
        c = self.truth(self.eval(s.test, st, fid), st)
        self.log("assert", c, st)
        if isconst(c) and not c.args[0]:
            return [(RAISE, st, None)]
        st.path = st.path + tuple(split_cond(c, True))

    def s_Delete(self, s, st, fid):
        for t in s.targets:
            if isinstance(t, ast.Name): st.frames[fid].pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                v = self.eval(t.value, st, fid)
                self.log("mutate", ("del", v), st, self.roots(v))
                if isinstance(v, Ref): self.set_content(v, self.opq("del"), st)

    def s_With(self, s, st, fid):
        for it in s.items:
            v = self.eval(it.context_expr, st, fid)
            if it.optional_vars is not None: self.assign(it.optional_vars, self.newref(self.opq("with"), st), st, fid)
        return self.block(s.body, st, fid)

    def s_Try(self, s, st, fid):
        before = st.copy()
        outs = self.block(s.body, st, fid)
        res = []
        norm = None
        for o in outs:
            if o[0] == NORMAL: norm = o[1]
            elif o[0] == RAISE: pass
            else: res.append(o)
        if norm is not None and s.orelse:
            for o in self.block(s.orelse, norm, fid):
                if o[0] == NORMAL: norm = o[1]
                else:
                    res.append(o)
                    norm = None
        for h in s.handlers:
            hs = before.copy()
            exc = mk("exccond", self.site, next(self.exc))
            names = []
            if h.type is not None:
                hv = self.eval(h.type, hs, fid)
                names = [hv.name] if isinstance(hv, LibV) else [x.name for x in hv.elts if isinstance(x, LibV)] if isinstance(hv, TupleV) else ["?"]
            hs.path = hs.path + ((exc, True),)
            if h.name: hs.frames[fid][h.name] = self.newref(self.opq("exception"), hs)
            hn = None
            for o in self.block(h.body, hs, fid):
                if o[0] == NORMAL: hn = o[1]
                else: res.append(o)
            if hn is not None:
                if norm is None: norm = hn
                else:
                    norm = self.merge_state(exc, hn, norm)
        if norm is not None:
            norm.path = before.path
            if s.finalbody:
                return res + self.block(s.finalbody, norm, fid)
            res.append((NORMAL, norm, None))
        return res

    def s_If(self, s, st, fid):
        c = self.truth(self.eval(s.test, st, fid), st)
        c = self.resolve_cond(c, st)
        if isconst(c):
            return self.block(s.body if c.args[0] else s.orelse, st, fid)
        base = st.path
        s1, s2 = st, st.copy()
        s1.path = base + tuple(split_cond(c, True))
        s2.path = base + tuple(split_cond(c, False))
        o1 = self.block(s.body, s1, fid)
        o2 = self.block(s.orelse, s2, fid)
        n1 = next((o[1] for o in o1 if o[0] == NORMAL), None)
        n2 = next((o[1] for o in o2 if o[0] == NORMAL), None)
        outs = [o for o in o1 + o2 if o[0] != NORMAL]
        if n1 is not None and n2 is not None:
            # extra facts learned inside (e.g. one side partly returned)
            d1, d2 = n1.path[len(base):], n2.path[len(base):]
            mrg = self.merge_state(c, n1, n2)
            mrg.path = base
            if len(d1) > len(split_cond(c, True)) or len(d2) > len(split_cond(c, False)):
                f1 = conj(d1); f2 = conj(d2)
                f = binop("or", f1, f2)
                if not isconst(f, True): mrg.path = base + ((f, True),)
            outs.append((NORMAL, mrg, None))
        elif n1 is not None: outs.append((NORMAL, n1, None))
        elif n2 is not None: outs.append((NORMAL, n2, None))
        return outs

    def resolve_cond(self, c, st):
        """simplify a condition using facts on the path"""
        if isconst(c): return c
        for n, pol in st.path:
            if n is c: return const(pol)
            if c.op == "not" and n is c.args[0]: return const(not pol)
            # x == 'a' known true -> x == 'b' false
            if pol and n.op == "eq" and c.op == "eq" and n.args[0] is c.args[0] and isconst(n.args[1]) and isconst(c.args[1]) and n.args[1] is not c.args[1]:
                return FALSE
        return c

    def truth(self, v, st):
        if isinstance(v, TupleV): return const(len(v.elts) > 0)
        if isinstance(v, (FuncV, ClassV, ObjV, LibV, BoundV, ModV)): return TRUE
        if isinstance(v, Ref):
            c = self.content(v, st)
            if isinstance(c, ListC): return const(len(c.elts) > 0)
            if isinstance(c, DictC): return const(len(c.items) > 0)
            n = self.cnode(c, st)
        else:
            n = v
        self.log("truth", n, st)
        return truthn(n)

    # ---- assignment
    def s_Assign(self, s, st, fid):
        v = self.eval(s.value, st, fid)
        for t in s.targets:
            self.assign(t, v, st, fid)

    def s_AnnAssign(self, s, st, fid):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st, fid), st, fid)

    def s_AugAssign(self, s, st, fid):
        op = OPS[type(s.op).__name__]
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.name(t.id, st, fid)
            v = self.eval(s.value, st, fid)
            if isinstance(cur, Ref):
                c = self.content(cur, st)
                if isinstance(c, (ListC, AppC, SeqC)) and op == "add":
                    self.list_extend(cur, v, st); return
                n = self.binary(op, cur, v, st)
                nn = self.to_node(n, st)
                rk = self.rank(self.to_node(cur, st))
                if rk is None or rk > 0:
                    # in-place for arrays: log as potential mutation; content of the object updated
                    rts = self.roots(cur)
                    self.log("augname", (t.id, op, cur, rk), st, rts)
                    if rk is not None and rk > 0:
                        self.set_content(cur, nn, st)
                        return
                st.frames[fid][t.id] = self.newref(nn, st, frozenset() if rk == 0 else self.roots(cur))
            else:
                st.frames[fid][t.id] = self.binary(op, cur, v, st)
            return
        if isinstance(t, ast.Attribute):
            o = self.eval(t.value, st, fid)
            cur = self.getattr(o, t.attr, st)
            v = self.eval(s.value, st, fid)
            if isinstance(cur, Ref):
                rk = self.rank(self.to_node(cur, st))
                if rk is None or rk > 0:
                    self.log("augname", (t.attr, op, cur, rk), st, self.roots(cur))
            self.setattr(o, t.attr, self.binary(op, cur, v, st), st)
            return
        if isinstance(t, ast.Subscript):
            b = self.eval(t.value, st, fid)
            idx = self.index_of(t.slice, st, fid)
            cur = self.load(b, idx, st)
            v = self.eval(s.value, st, fid)
            self.store(b, idx, self.binary(op, cur, v, st), st, aug=op)
            return
        self.opq("augassign")

    def assign(self, t, v, st, fid):
        if isinstance(t, ast.Name):
            st.frames[fid][t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                vs = self.unpack(v, None, st)
                if vs is None and star[0] == len(t.elts) - 1:
                    for e, x in zip(t.elts, self.unpack(v, star[0], st)): self.assign(e, x, st, fid)
                    self.assign(t.elts[-1].value, self.newref(self.opq("star-unpack", self.to_node(v, st)), st, self.roots(v)), st, fid)
                    return
                if vs is None:
                    for e in t.elts:
                        self.assign(e.value if isinstance(e, ast.Starred) else e, self.newref(self.opq("star-unpack", self.to_node(v, st)), st, self.roots(v)), st, fid)
                    return
                i = star[0]; k = len(t.elts) - i - 1
                parts = vs[:i] + [self.newref(ListC(vs[i:len(vs) - k]), st)] + vs[len(vs) - k:]
                for e, x in zip(t.elts, parts):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, st, fid)
                return
            vs = self.unpack(v, len(t.elts), st)
            for e, x in zip(t.elts, vs):
                self.assign(e, x, st, fid)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value, st, fid)
            self.store(b, self.index_of(t.slice, st, fid), v, st)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, st, fid), t.attr, v, st)
        else:
            self.opq("assign target")

    def unpack(self, v, n, st):
        if isinstance(v, TupleV): return list(v.elts)
        if isinstance(v, Ref):
            c = self.content(v, st)
            if isinstance(c, ListC): return list(c.elts)
            if n is not None:
                return [self.load(v, (const(i),), st) for i in range(n)]
            return None
        if n is not None:
            if isinstance(v, Node):
                return [mk_index(v, (const(i),)) for i in range(n)]
            return [self.newref(self.opq("unpack"), st) for i in range(n)]
        return None

    def set_content(self, r, c, st):
        if r.view is not None:
            base, steps = r.view
            n = c if isinstance(c, Node) else self.cnode(c, st)
            b = self.content(base, st)
            b = b if isinstance(b, Node) else self.cnode(b, st)
            self.set_content(base, unview(b, steps, n), st)
        else:
            st.heap[r.id] = c

    # ---- fields
    def setattr(self, o, name, v, st):
        if isinstance(o, ObjV):
            self.log("setfield", (o, name, v), st)
            st.fields[(o.id, name)] = v
        elif isinstance(o, LibV):
            self.log("libset", (o.name + "." + name, v), st)
        elif isinstance(o, Ref):
            self.log("mutate", ("attr " + name, o), st, self.roots(o))
            self.set_content(o, mk("setattr", self.to_node(o, st), name, self.to_node(v, st)), st)
        elif isinstance(o, (ClassV, ModV)):
            self.log("globalset", (self.to_node(o, st), name), st)
            if isinstance(o, ClassV): o.attrs[name] = v
        else:
            self.log("attrset", (self.to_node(o, st), name), st)

    def getattr(self, o, name, st):
        if isinstance(o, LibV):
            return LibV(o.name + "." + name)
        if isinstance(o, ModV):
            v = self.prog.base.frames[o.mod.fid].get(name)
            if v is None:
                self.log("missing-attr", (o.mod.name, name), st)
                return LibV(o.mod.name + "." + name)
            return v
        if isinstance(o, ClassV):
            v = o.lookup(name)
            if v is None:
                if name == "__name__": return const(o.name)
                if any(isinstance(b, LibV) and b.name != "builtins.object" for b in o.bases):
                    return self.newref(self.opq("inherited " + name), st)
                self.log("missing-attr", (o.name, name), st)
                return self.newref(self.opq("missing attr " + name), st)
            if isinstance(v, FuncV) and v.classm: return BoundV(v, o)
            return v
        if isinstance(o, SuperV):
            for b in o.cls.bases:
                if isinstance(b, ClassV):
                    v = b.lookup(name)
                    if isinstance(v, FuncV): return BoundV(v, o.obj)
            return LibV("builtins.object." + name)
        if isinstance(o, ObjV):
            k = (o.id, name)
            if k in st.fields: return st.fields[k]
            if name == "__class__": return o.cls
            if o.cls is not None:
                v = o.cls.lookup(name)
                if isinstance(v, FuncV):
                    if v.static: return v
                    if v.prop:
                        r, s2 = self.call_func(v, [o], {}, st); self.adopt(st, s2)
                        return r
                    return BoundV(v, o)
                if v is not None: return v
            r = self.field_default(k, st)
            st.fields[k] = r
            self.log("getfield", name, st)
            return r
        if isinstance(o, FuncV):
            if name == "__func__": return o
            if name in ("__name__",): return const(o.node.name if hasattr(o.node, "name") else "<lambda>")
            if name == "py_func": return o
            return MethV(o, name)
        if isinstance(o, TupleV):
            return MethV(o, name)
        if isinstance(o, BoundV):
            return MethV(o, name)
        # symbolic
        n = self.to_node(o, st)
        if name in FINFO and (n.op == "call" and n.args[0] == "numpy.finfo" and len(n.args[1]) == 1 and vg_is_double(n.args[1][0][1]) or n.op == "libref" and n.args[0] == "sys.float_info"):
            return self.newref(const(FINFO[name]), st)
        if name in model.ATTRS:
            fn = model.ATTRS[name]
            nn = mk_libcall(fn, [n], {})
            if isinstance(o, Ref): return self.view(o, (("fn", fn, ()),), st)
            return nn
        if name == "shape":
            return self.newref(mk_attr(n, "shape"), st)
        if name in ("size", "ndim", "dtype", "data", "itemsize", "nbytes", "flags", "nnz", "strides", "flat", "__class__", "__name__", "__dict__", "x", "success"):
            rts = self.roots(o) if name in ("data", "flat") else frozenset()
            return self.newref(mk_attr(n, name), st, rts)
        return MethV(o, name)

    def view(self, base, steps, st):
        r = Ref(frozenset(), (base, steps), self.site)
        r.snap = self.content(r, st)
        if not isinstance(r.snap, Node): r.snap = self.cnode(r.snap, st)
        return r

    # ---- subscripts
    def index_of(self, s, st, fid):
        els = s.elts if isinstance(s, ast.Tuple) else [s]
        out = []
        for e in els:
            if isinstance(e, ast.Slice):
                p = [self.to_node(self.eval(x, st, fid), st) if x is not None else NONE for x in (e.lower, e.upper, e.step)]
                out.append(norm_slice(*p))
            elif isinstance(e, ast.Starred):
                out.append(self.opq("starred index"))
            else:
                v = self.eval(e, st, fid)
                if isinstance(v, TupleV) and not isinstance(s, ast.Tuple):
                    out.extend(self.to_node(x, st) for x in v.elts)
                elif isinstance(v, LibV) and v.name == "numpy.newaxis":
                    out.append(NONE)
                elif isinstance(v, LibV) and v.name == "builtins.Ellipsis":
                    out.append(ELL)
                else:
                    n = self.to_node(v, st)
                    if isconst(n, Ellipsis): n = ELL
                    if n.op == "tuple" and not isinstance(s, ast.Tuple):
                        out.extend(n.args)
                    elif n.op == "call" and n.args[0] == "builtins.slice":
                        a = [x for _, x in n.args[1]]
                        a = [NONE, a[0], NONE] if len(a) == 1 else (a + [NONE, NONE])[:3]
                        out.append(norm_slice(*a))
                    else:
                        out.append(n)
        return tuple(out)

    def load(self, b, idx, st):
        if isinstance(b, TupleV):
            if len(idx) == 1:
                i = idx[0]
                if isconst(i) and isinstance(i.args[0], int):
                    if -len(b.elts) <= i.args[0] < len(b.elts): return b.elts[i.args[0]]
                if i.op == "slice" and all(isconst(x) for x in i.args):
                    return TupleV(b.elts[slice(*[x.args[0] for x in i.args])])
            return mk_index(self.to_node(b, st), idx)
        if isinstance(b, Ref):
            c = self.content(b, st)
            if isinstance(c, ListC) and len(idx) == 1:
                i = idx[0]
                if isconst(i) and isinstance(i.args[0], int) and -len(c.elts) <= i.args[0] < len(c.elts): return c.elts[i.args[0]]
                if i.op == "slice" and all(isconst(x) for x in i.args):
                    return self.newref(ListC(c.elts[slice(*[x.args[0] for x in i.args])]), st)
            if isinstance(c, DictC) and len(idx) == 1:
                for k, v in c.items:
                    if k is idx[0]: return v
            if isinstance(c, SeqC) and len(idx) == 1 and idx[0].op != "slice" and isconst(c.cond, True):
                d = c.iv.args[0]
                i = idx[0]
                if d.op == "range" and isconst(d.args[0], 0) and isconst(d.args[2], 1):
                    if isconst(i) and isinstance(i.args[0], int) and i.args[0] < 0:
                        i = binop("add", d.args[1], i)
                    if i is c.iv or not self.loopy(c.elem, st): return self.subst_value(c.elem, {c.iv: i}, st)
            if isinstance(c, (ListC, SeqC, DictC, AppC)):
                return self.newref(mk_index(self.cnode(c, st), idx), st, self.deep_roots(b, st))
            n = mk_index(c, idx)
            if is_advanced(idx, self):
                return self.newref(n, st)
            if n.op != "index" or n.args[0] is not c:
                # simplified through a store: keep roots only
                return self.newref(n, st, self.roots(b))
            return self.view(b, (("ix", idx),), st)
        if isinstance(b, Node):
            return mk_index(b, idx)
        if isinstance(b, ClassV) or isinstance(b, LibV):     # typing subscripts
            return mk("opaque", "typing", 0, ())
        return mk_index(self.to_node(b, st), idx)

    def loopy(self, v, st):
        """does a container element refer to loop results (substituting the index in it would not reach the loop's tables)?"""
        if isinstance(v, Node): return has_loop_value(v)
        if isinstance(v, TupleV): return any(self.loopy(x, st) for x in v.elts)
        try: return has_loop_value(self.to_node(v, st))
        except Exception: return False

    def subst_value(self, v, m, st):
        if isinstance(v, Node): return subst(v, m)
        if isinstance(v, TupleV): return TupleV([self.subst_value(x, m, st) for x in v.elts])
        if isinstance(v, Ref):
            c = self.content(v, st)
            if isinstance(c, Node):
                n = subst(c, m)
                if n is c: return v
                if v.view is not None:
                    base, steps = v.view
                    st2 = tuple((("ix", tuple(subst(i, m) for i in s[1])) if s[0] == "ix" else s) for s in steps)
                    nb = self.subst_value(base, m, st)
                    if isinstance(nb, Ref): return self.view(nb, st2, st)
                return self.newref(n, st, self.roots(v))
            if isinstance(c, ListC): return self.newref(ListC([self.subst_value(x, m, st) for x in c.elts]), st, v.roots)
            if isinstance(c, SeqC): return self.newref(SeqC(c.iv, self.subst_value(c.elem, m, st), subst(c.cond, m)), st, v.roots)
            if isinstance(c, DictC): return self.newref(DictC([(k, self.subst_value(x, m, st)) for k, x in c.items]), st, v.roots)
        return v

    def store(self, b, idx, v, st, aug=None):
        vn = self.to_node(v, st)
        if isinstance(b, Ref):
            c = self.content(b, st)
            self.log("store", (b, idx, vn, aug, self.cnode(c, st), v), st, self.deep_roots(b, st) if isinstance(c, (SeqC,)) else self.roots(b))
            if isinstance(c, ListC) and len(idx) == 1 and isconst(idx[0]) and isinstance(idx[0].args[0], int) and -len(c.elts) <= idx[0].args[0] < len(c.elts):
                e = list(c.elts); e[idx[0].args[0]] = v
                self.set_content(b, ListC(e), st); return
            if isinstance(c, DictC) and len(idx) == 1 and isconst(idx[0]):
                items = [(k, x) for k, x in c.items if k is not idx[0]] + [(idx[0], v)]
                self.set_content(b, DictC(items), st); return
            n = self.cnode(c, st)
            if idx and all(i is FULL or i is ELL for i in idx) and not aug:
                self.set_content(b, mk("fillwith", n, vn), st); return
            self.set_content(b, mk("store", n, idx, vn), st)
            return
        if isinstance(b, LibV):
            self.log("libstore", (b.name, idx, vn), st); return
        self.log("store", (b, idx, vn, aug, self.to_node(b, st), v), st, self.roots(b))

    # ------------------------------------------------------------ loops
    def s_For(self, s, st, fid):
        it = self.eval(s.iter, st, fid)
        site = self.site
        if s.orelse: self.opq("for-else")
        small = self.unrollable(it, s, st)
        if small is not None:
            outs = []
            cur = st
            for x in small:
                self.assign(s.target, x, cur, fid)
                r = self.block(s.body, cur, fid)
                nxt = [o[1] for o in r if o[0] in (NORMAL, CONTINUE)]
                outs += [o for o in r if o[0] in (RETURN, RAISE)]
                if not nxt: return outs
                base = common_prefix([o.path for o in nxt])
                cur = nxt[-1]
                for o in reversed(nxt[:-1]):
                    cc = self.pathcond(o.path, cur.path)
                    cur = self.merge_state(cc, o, cur); cur.path = base
            outs.append((NORMAL, cur, None))
            return outs
        dom, elem, rev = self.iter_domain(it, st)
        return self.loop(s, st, fid, dom, elem, None, site, rev)

    def s_While(self, s, st, fid):
        return self.loop(s, st, fid, None, None, s.test, self.site, False)

    def unrollable(self, it, s, st):
        els = None
        if isinstance(it, TupleV): els = list(it.elts)
        elif isinstance(it, Ref):
            c = self.content(it, st)
            if isinstance(c, ListC): els = list(c.elts)
            elif isinstance(c, Node) and c.op == "range" and all(isconst(x) for x in c.args):
                els = [const(i) for i in range(*[x.args[0] for x in c.args])]
            elif isinstance(c, Node) and c.op == "enum" and isinstance(c.args[0], Node) and c.args[0].op in ("list", "tuple"):
                els = [TupleV([const(i), x]) for i, x in enumerate(c.args[0].args)]
            elif isinstance(c, Node) and c.op == "zipn" and all(x.op in ("list", "tuple") for x in c.args[0]) and c.args[0]:
                els = [TupleV(t) for t in zip(*[x.args for x in c.args[0]])]
        if els is None or len(els) > 8: return None
        if any(isinstance(n, ast.Break) for b in s.body for n in ast.walk(b)) or s.orelse: return None
        return els

    def depth(self):
        return len(self.loopstack)

    def iter_domain(self, it, st, depth=None):
        """-> (domain node, elem value factory(iv, st), reversed)"""
        d = self.depth() if depth is None else depth
        r = self._iter_domain(it, st)
        return r

    def rng0(self, n):
        return mk("range", const(0), n, const(1))

    def seqlen(self, v, st):
        if isinstance(v, Ref):
            c = self.content(v, st)
            if isinstance(c, ListC): return const(len(c.elts))
            if isinstance(c, SeqC) and isconst(c.cond, True):
                return domlen(c.iv.args[0])
            n = self.cnode(c, st)
        elif isinstance(v, TupleV): return const(len(v.elts))
        else: n = self.to_node(v, st)
        return nlen(n)

    def _iter_domain(self, it, st):
        if isinstance(it, TupleV):
            n = self.to_node(it, st)
            return self.rng0(const(len(it.elts))), lambda iv, s: mk_index(n, (iv,)), False
        if isinstance(it, Ref):
            c = self.content(it, st)
            if isinstance(c, SeqC) and isconst(c.cond, True):
                cc = c
                live = isinstance(it, Ref) and it.view is None and c.iv.args[0].op == "range" and isconst(c.iv.args[0].args[0], 0) and isconst(c.iv.args[0].args[2], 1)
                def seqel(iv, s):
                    # the loop sees updates made to the list it runs over
                    if live and s.heap.get(it.id) is not cc: return self.load(it, (iv,), s)
                    if live and iv is not cc.iv and self.loopy(cc.elem, s): return self.load(it, (iv,), s)
                    return self.subst_value(cc.elem, {cc.iv: iv}, s)
                return c.iv.args[0], seqel, False
            if isinstance(c, SeqC):
                # filtered sequence: iterate over the domain under the filter
                cc = c
                return mk("filter", c.iv.args[0], c.cond, c.iv), lambda iv, s: self.subst_value(cc.elem, {cc.iv: iv}, s), False
            n = self.cnode(c, st)
            if n.op == "range": return n, lambda iv, s: iv, False
            if n.op == "rev":
                inner = self.iterspec.get(n.args[1])
                dm, el, rv = self._iter_domain(inner, st)
                return dm, el, not rv
            if n.op == "enum" :
                inner, start = self.iterspec[n.args[1]]
                dm, el, rv = self._iter_domain(inner, st)
                if dm.op == "range":
                    pos = (lambda iv: iv) if isconst(dm.args[0], 0) and isconst(dm.args[2], 1) else (lambda iv: binop("floordiv", binop("sub", iv, dm.args[0]), dm.args[2]))
                else:
                    pos = lambda iv: mk("posof", iv)
                return dm, lambda iv, s: TupleV([binop("add", pos(iv), start) if not isconst(start, 0) else pos(iv), el(iv, s)]), rv
            if n.op == "zipn":
                inners = self.iterspec[n.args[1]]
                parts = [self._iter_domain(x, st) for x in inners]
                if not parts: return self.rng0(const(0)), lambda iv, s: TupleV([]), False
                dm = parts[0][0]
                for p in parts:
                    if p[0].op == "range" and not (dm.op == "range"): dm = p[0]
                els = []
                for (pd, pe, pr) in parts:
                    if pd is dm: els.append(pe)
                    elif pd.op == "range" and dm.op == "range":
                        off = (pd, dm)
                        def mkf(pe, pd, dm):
                            return lambda iv, s: pe(binop("add", pd.args[0], binop("sub", iv, dm.args[0])) if pd.args[0] is not dm.args[0] else iv, s)
                        if isconst(pd.args[2], 1) and isconst(dm.args[2], 1): els.append(mkf(pe, pd, dm))
                        else: els.append(lambda iv, s: self.newref(self.opq("zip"), s))
                    else: els.append(lambda iv, s: self.newref(self.opq("zip"), s))
                return dm, lambda iv, s: TupleV([e(iv, s) for e in els]), parts[0][2]
            dom = self.rng0(nlen(n))
            ref = it
            if ref.view is not None or isinstance(c, Node):
                def el(iv, s):
                    return self.load(ref, (iv,), s)
                return dom, el, False
            return dom, lambda iv, s: self.newref(mk_index(n, (iv,)), s, self.roots(it)), False
        n = self.to_node(it, st)
        if n.op == "range": return n, lambda iv, s: iv, False
        return self.rng0(nlen(n)), lambda iv, s: mk_index(n, (iv,)), False

    iterspec = {}

    def loop(self, s, st, fid, dom, elem, test, site, rev):
        L = Loop(next(self._luid), "while" if test is not None else "for", site)
        L.dom = dom; L.rev = rev
        d = self.depth()
        if dom is not None:
            L.iv = mk("iv", dom, d)
        L.path = st.path
        L.parent = self.loopstack[-1] if self.loopstack else None
        self.loops[L.uid] = L
        changed_vars, changed_refs, changed_fields, app_refs = set(), set(), set(), set()
        init = st.copy()
        # initial guess: names assigned in the loop that are already defined
        grown = {id(n.target) for n in ast.walk(s) if isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add) and isinstance(n.target, ast.Name)}
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in st.frames[fid]:
                v = st.frames[fid][n.id]
                if id(n) in grown and isinstance(v, Ref) and isinstance(self.content(v, st), (ListC, AppC)): continue      # list += ... changes the object, not the name
                changed_vars.add((fid, n.id))
        neff = len(self.effects); nop = len(self.opaque)
        for attempt in range(8):
            del self.effects[neff:]
            cur = init.copy()
            L.mu = {}; L.breaks = []; L.names = {}
            muvars, murefs, mufields = {}, {}, {}
            for (f, nm) in changed_vars:
                if nm not in cur.frames.get(f, {}): continue
                v0 = init.frames[f][nm]
                muvars[(f, nm)], = [self.mu_value(L, v0, ("v", nm), init, cur)]
                cur.frames[f][nm] = muvars[(f, nm)]
            for rid in changed_refs:
                if rid in init.heap:
                    c0 = init.heap[rid]
                    if rid in app_refs:
                        cur.heap[rid] = AppC(L.uid * 100003 + rid)
                    else:
                        m = mk("mu", L.uid, "r%d" % rid)
                        murefs[rid] = m
                        cur.heap[rid] = m
            for k in changed_fields:
                v0 = init.fields.get(k)
                if v0 is not None:
                    mufields[k] = self.mu_value(L, v0, ("f", k[1]), init, cur)
                    cur.fields[k] = mufields[k]
            self.loopstack.append(L)
            try:
                if test is not None:
                    c = self.truth(self.eval(test, cur, fid), cur)
                    L.cond = c
                    cur.path = cur.path + tuple(split_cond(c, True))
                else:
                    if dom.op == "filter":
                        cur.path = cur.path + tuple(split_cond(subst(dom.args[1], {dom.args[2]: L.iv}), True))
                    self.assign(s.target, elem(L.iv, cur), cur, fid)
                entry = cur.copy()
                outs = self.block(s.body, cur, fid)
            finally:
                self.loopstack.pop()
            ends = [o[1] for o in outs if o[0] in (NORMAL, CONTINUE)]
            brks = [o[1] for o in outs if o[0] == BREAK]
            rest = [o for o in outs if o[0] in (RETURN, RAISE)]
            body_base = entry.path
            if ends:
                end = ends[-1]
                for o in reversed(ends[:-1]):
                    cc = self.pathcond(o.path[len(body_base):], end.path[len(body_base):])
                    end = self.merge_state(cc, o, end)
            else:
                end = entry
            L.end = end
            # what changed relative to entry?
            new = False
            for probe in [end] + brks:
                for f, fr in entry.frames.items():
                    pf = probe.frames.get(f, {})
                    for nm, v in fr.items():
                        if nm.startswith("__"): continue
                        if (f, nm) not in changed_vars and pf.get(nm) is not v and nm in init.frames.get(f, {}):
                            if f == fid and self.is_target(s, nm): continue
                            changed_vars.add((f, nm)); new = True
                for rid, c in entry.heap.items():
                    if rid in init.heap and rid not in changed_refs and probe.heap.get(rid) is not c:
                        changed_refs.add(rid); new = True
                        pc = probe.heap.get(rid)
                        if isinstance(init.heap[rid], ListC) and (self.only_appends(init.heap[rid], pc)):
                            app_refs.add(rid)
                    elif rid in app_refs and not isinstance(probe.heap.get(rid), AppC):
                        app_refs.discard(rid); new = True
                for k, v in entry.fields.items():
                    if k in init.fields and k not in changed_fields and probe.fields.get(k) is not v:
                        changed_fields.add(k); new = True
                for k in probe.fields:
                    if k not in init.fields and k not in entry.fields:
                        pass
            if not new: break
        else:
            self.opq("loop not stable")
        # mus that turned out unchanged are fine (init == next)
        out = init.copy()
        # values defined only inside the loop body remain visible
        fr = out.frames[fid]
        for nm, v in end.frames[fid].items():
            if nm not in fr:
                fr[nm] = self.final_value(L, v, end, out, nm)
        for k, v in list(out.frames.items()):
            pass
        # heap objects created in the loop
        for rid, c in end.heap.items():
            if rid not in out.heap: out.heap[rid] = c
        for f, frm in end.frames.items():
            if f not in out.frames: out.frames[f] = frm
        for (f, nm), mv in muvars.items():
            if f not in out.frames: continue
            nxt = end.frames[f].get(nm, UNDEF)
            out.frames[f][nm] = self.close_mu(L, mv, init.frames[f][nm], nxt, init, end, out, nm)
        for rid, m in murefs.items():
            c0 = init.heap[rid]; c1 = end.heap.get(rid)
            n0 = self.cnode(c0, init); n1 = self.cnode(c1, end)
            L.mu[m] = (n0, n1)
            out.heap[rid] = n0 if n1 is m and not brks else mk("final", L.uid, m)
        for rid in app_refs:
            c = end.heap.get(rid)
            c0 = init.heap[rid]
            if isinstance(c, AppC) and len(c.items) == 1 and dom is not None and isinstance(c0, ListC) and not c0.elts and not brks and not rev:
                e, cond = c.items[0]
                ee = self.freeze(e, end, out)
                if dom.op == "filter":
                    cond = binop("and", subst(dom.args[1], {dom.args[2]: L.iv}), cond)
                    ivn = mk("iv", dom.args[0], L.iv.args[1])
                    ee = self.subst_value(ee, {L.iv: ivn}, out); cond = subst(cond, {L.iv: ivn})
                    out.heap[rid] = SeqC(ivn, ee, cond)
                else:
                    out.heap[rid] = SeqC(L.iv, ee, cond)
            else:
                self.opq("list built in loop")
                out.heap[rid] = mk("opaque", "list built in loop", next(self._ouid), tuple(self.to_node(x, end) for x, _ in (c.items if isinstance(c, AppC) else ())))
        for k, mv in mufields.items():
            out.fields[k] = self.close_mu(L, mv, init.fields[k], end.fields.get(k, UNDEF), init, end, out, k[1])
        for k, v in end.fields.items():
            if k not in out.fields:
                out.fields[k] = self.final_value(L, v, end, out, k[1])
        L.breaks = [conj(b.path[len(body_base):]) for b in brks]
        L.brk_states = brks
        out.path = init.path
        if test is not None and not brks:
            # after the loop the test is false (in terms of final values)
            m = {mu: mk("final", L.uid, mu) for mu in L.mu}
            out.path = init.path + tuple(split_cond(subst(L.cond, m), False))
        res = []
        for o in rest:
            if o[0] == RETURN:
                o[1].path = init.path + ((mk("inloop", L.uid, conj(o[1].path[len(init.path):])), True),)
            res.append(o)
        res.append((NORMAL, out, None))
        self.site = site
        return res

    def is_target(self, s, nm):
        return isinstance(s, ast.For) and any(isinstance(n, ast.Name) and n.id == nm for n in ast.walk(s.target))

    def only_appends(self, c0, c1):
        if isinstance(c1, ListC) and len(c1.elts) > len(c0.elts): return all(a is b for a, b in zip(c0.elts, c1.elts))
        return isinstance(c1, AppC) or (isinstance(c1, Node) and c1.op == "phi") or isinstance(c1, SeqC)

    def mu_value(self, L, v0, key, init, cur):
        """loop-carried version of a variable"""
        if isinstance(v0, (FuncV, ClassV, ObjV, BoundV, ModV, MethV)) or v0 is UNDEF:
            return v0
        m = mk("mu", L.uid, "%s:%s" % key)
        r = Ref(self.roots(v0), None, self.site)
        cur.heap[r.id] = m
        return r

    def close_mu(self, L, mv, v0, nxt, init, end, out, nm):
        if not isinstance(mv, Ref): return nxt if nxt is not UNDEF else mv
        m = mk("mu", L.uid, None)
        # find mu node (content of mv at loop entry)
        for key in ("v:%s" % nm, "f:%s" % nm):
            cand = _TABLE.get(("mu", ("int", L.uid), ("str", key)))
            if cand is not None: m = cand; break
        n0 = self.to_node(v0, init)
        n1 = self.to_node(nxt, end) if nxt is not UNDEF else m
        L.mu[m] = (n0, n1)
        L.names[m] = nm
        if n1 is m and not L.breaks:
            return v0
        rts = self.roots(nxt) | self.roots(v0)
        r = Ref(rts, None, self.site)
        out.heap[r.id] = mk("final", L.uid, m)
        return r

    def final_value(self, L, v, end, out, nm):
        if isinstance(v, (Node,)):
            return mk("last", L.uid, v) if not isconst(v) else v
        if isinstance(v, TupleV): return TupleV([self.final_value(L, x, end, out, nm) for x in v.elts])
        if isinstance(v, Ref):
            n = self.to_node(v, end)
            r = Ref(self.roots(v), None, v.site)
            out.heap[r.id] = mk("last", L.uid, n)
            return r
        return v

    def freeze(self, v, src, dst):
        """copy a value created in src into dst's heap"""
        if isinstance(v, Ref):
            c = self.content(v, src)
            r = Ref(self.roots(v), None, v.site)
            if isinstance(c, ListC): c = ListC([self.freeze(x, src, dst) for x in c.elts])
            elif isinstance(c, SeqC): c = SeqC(c.iv, self.freeze(c.elem, src, dst), c.cond)
            elif isinstance(c, DictC): c = DictC([(k, self.freeze(x, src, dst)) for k, x in c.items])
            dst.heap[r.id] = c
            return r
        if isinstance(v, TupleV): return TupleV([self.freeze(x, src, dst) for x in v.elts])
        return v

    def s_Break(self, s, st, fid): return [(BREAK, st, None)]
    def s_Continue(self, s, st, fid): return [(CONTINUE, st, None)]

    # ------------------------------------------------------------ expressions
    def eval(self, e, st, fid):
        if hasattr(e, "lineno"):
            self.site = (self.site[0], e.lineno, self.site[2] if len(self.site) > 2 else "?")
            CURSITE[0] = self.site
        f = getattr(self, "e_" + type(e).__name__, None)
        if f is None:
            return self.newref(self.opq("expr " + type(e).__name__), st)
        return f(e, st, fid)

    def e_Constant(self, e, st, fid):
        v = e.value
        if v is Ellipsis: return ELL
        if isinstance(v, complex): return mk("const", v)
        if isinstance(v, (bytes,)): return mk("const", repr(v))
        return const(v)

    def name(self, nm, st, fid):
        f = fid
        while f is not None:
            fr = st.frames.get(f)
            if fr is None: break
            if nm in fr and not ("__class_body__" in fr and f != fid):
                return fr[nm]
            f = fr.get("__parent__")
        for m in self.prog.modules.values():
            if m.fid == fid: break
        import builtins
        if hasattr(builtins, nm): return LibV("builtins." + nm)
        self.log("undefined-name", nm, st)
        return self.newref(self.opq("undefined " + nm), st)

    def e_Name(self, e, st, fid):
        v = self.name(e.id, st, fid)
        if v is UNDEF: return self.newref(self.opq("undefined"), st)
        return v

    def e_Attribute(self, e, st, fid):
        o = self.eval(e.value, st, fid)
        self.site = (self.site[0], e.lineno, self.site[2] if len(self.site) > 2 else "?")
        v = self.getattr(o, e.attr, st)
        if isinstance(v, LibV): self.log("libattr", v.name, st)
        if isinstance(v, MethV) and not isinstance(getattr(e, "ctx", None), ast.Store):
            pass
        return v

    def e_Tuple(self, e, st, fid):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                vs = self.unpack(self.eval(x.value, st, fid), None, st)
                if vs is None: return self.newref(self.opq("star"), st)
                out += vs
            else: out.append(self.eval(x, st, fid))
        return TupleV(out)

    def e_List(self, e, st, fid):
        t = self.e_Tuple(e, st, fid)
        return self.newref(ListC(t.elts), st) if isinstance(t, TupleV) else t

    def e_Set(self, e, st, fid):
        t = self.e_Tuple(e, st, fid)
        return self.newref(mk("set", *[self.to_node(x, st) for x in t.elts]), st) if isinstance(t, TupleV) else t

    def e_Dict(self, e, st, fid):
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None: return self.newref(self.opq("dict-star"), st)
            items.append((self.to_node(self.eval(k, st, fid), st), self.eval(v, st, fid)))
        return self.newref(DictC(items), st)

    def e_JoinedStr(self, e, st, fid):
        parts = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue): parts.append(self.to_node(self.eval(v.value, st, fid), st))
            else: parts.append(const(v.value))
        return mk("str", *parts)

    def e_Lambda(self, e, st, fid):
        return self.make_func(e, st, fid, "<lambda>")

    def e_NamedExpr(self, e, st, fid):
        v = self.eval(e.value, st, fid)
        self.assign(e.target, v, st, fid)
        return v

    def e_Starred(self, e, st, fid):
        return self.newref(self.opq("starred"), st)

    def e_Slice(self, e, st, fid):
        p = [self.to_node(self.eval(x, st, fid), st) if x is not None else NONE for x in (e.lower, e.upper, e.step)]
        return norm_slice(*p)

    def e_IfExp(self, e, st, fid):
        c = self.resolve_cond(self.truth(self.eval(e.test, st, fid), st), st)
        if isconst(c): return self.eval(e.body if c.args[0] else e.orelse, st, fid)
        base = st.path
        s2 = st.copy()
        s1 = st.copy()
        s1.path = base + tuple(split_cond(c, True)); s2.path = base + tuple(split_cond(c, False))
        a = self.eval(e.body, s1, fid); b = self.eval(e.orelse, s2, fid)
        out, v = self.merge_state(c, s1, s2, extra=(a, b))
        out.path = base
        self.adopt(st, out)
        return v

    def e_BoolOp(self, e, st, fid):
        isand = isinstance(e.op, ast.And)
        def go(vals):
            v = self.eval(vals[0], st, fid)
            if len(vals) == 1: return v
            c = self.resolve_cond(self.truth(v, st), st)
            if isconst(c):
                if c.args[0] == isand: return go(vals[1:])
                return v
            base = st.path
            st.path = base + tuple(split_cond(c, isand))
            w = go(vals[1:])
            st.path = base
            if isinstance(v, Node) or isinstance(w, Node) or True:
                nv, nw = self.to_node(v, st), self.to_node(w, st)
                if is_boolish(nv) and is_boolish(nw):
                    return binop("and" if isand else "or", nv, nw)
                # value semantics: a and b = b if a else a
                if isand: return self.merge_value(c, w, v, st, st, st, {})
                return self.merge_value(c, v, w, st, st, st, {})
        return go(e.values)

    def e_UnaryOp(self, e, st, fid):
        v = self.eval(e.operand, st, fid)
        if isinstance(e.op, ast.Not):
            return mk_not(self.truth(v, st))
        n = self.to_node(v, st)
        if isinstance(e.op, ast.USub):
            if n.op == "const" and isinstance(n.args[0], (int, float, complex)) and not isinstance(n.args[0], bool):
                return mk("const", -n.args[0])
            r = mk("neg", n)
        elif isinstance(e.op, ast.UAdd): r = n
        else:
            r = mk_not(n) if is_boolish(n) else mk("invert", n)
        return self.wrap(r, v, st)

    def wrap(self, n, v, st):
        """wrap result node as Ref if any operand was an object"""
        if isinstance(v, Node) and n.op in ("const",): return n
        return self.newref(n, st)

    def e_BinOp(self, e, st, fid):
        a = self.eval(e.left, st, fid); b = self.eval(e.right, st, fid)
        op = OPS.get(type(e.op).__name__)
        self.site = (self.site[0], e.lineno, self.site[2] if len(self.site) > 2 else "?")
        return self.binary(op, a, b, st)

    def binary(self, op, a, b, st):
        if op in ("add", "mul"):
            if isinstance(a, TupleV) and isinstance(b, TupleV) and op == "add": return TupleV(a.elts + b.elts)
            ca = self.content(a, st) if isinstance(a, Ref) else None
            cb = self.content(b, st) if isinstance(b, Ref) else None
            if op == "add" and isinstance(ca, ListC) and isinstance(cb, ListC): return self.newref(ListC(ca.elts + cb.elts), st)
            if op == "mul":
                for x, cx, y in ((a, ca, b), (b, cb, a)):
                    if isinstance(cx, ListC) and len(cx.elts) == 1 and isinstance(y, (Node, Ref)):
                        ny = self.to_node(y, st)
                        return self.newref(SeqC(mk("iv", self.rng0(ny), self.depth()), cx.elts[0], TRUE), st)
        na, nb = self.to_node(a, st), self.to_node(b, st)
        if op == "mod" and na.op == "const" and isinstance(na.args[0], str):
            return mk("str", na, nb)
        n = binop(op, na, nb)
        if n.op == "const": return n
        return self.newref(n, st)

    def e_Compare(self, e, st, fid):
        left = self.eval(e.left, st, fid)
        res = None
        for op, rt in zip(e.ops, e.comparators):
            right = self.eval(rt, st, fid)
            a, b = self.to_node(left, st), self.to_node(right, st)
            k = type(op).__name__
            if k in ("Is", "IsNot"):
                c = binop("is", a, b)
                if k == "IsNot": c = mk_not(c)
            elif k in ("In", "NotIn"):
                c = None
                if b.op in ("list", "tuple", "set"):
                    c = FALSE
                    for x in b.args: c = binop("or", c, binop("eq", a, x))
                elif b.op == "dict":
                    c = FALSE
                    for x, _ in b.args: c = binop("or", c, binop("eq", a, x))
                else: c = mk("in", a, b)
                if k == "NotIn": c = mk_not(c)
            else:
                c = binop({"Lt": "lt", "LtE": "le", "Gt": "gt", "GtE": "ge", "Eq": "eq", "NotEq": "ne"}[k], a, b)
            res = c if res is None else binop("and", res, c)
            left = right
        return res if isconst(res) else self.newref(res, st)

    def e_Subscript(self, e, st, fid):
        b = self.eval(e.value, st, fid)
        idx = self.index_of(e.slice, st, fid)
        self.site = (self.site[0], e.lineno, self.site[2] if len(self.site) > 2 else "?")
        if isinstance(b, LibV):
            if b.name in ("numpy.r_", "numpy.c_", "numpy.mgrid", "numpy.ogrid", "numpy.s_"):
                return self.newref(mk("call", b.name, tuple((str(i), x) for i, x in enumerate(idx))), st)
            return self.newref(mk("index", mk("libref", b.name), idx), st)
        return self.load(b, idx, st)

    def comp(self, gens, elt, st, fid, kind):
        nf = next(self.prog._fid)
        st.frames[nf] = {"__parent__": fid}
        fr = st.frames[fid]
        if "__fn__" in fr: st.frames[nf]["__fn__"] = fr["__fn__"]
        g = gens[0]
        it = self.eval(g.iter, st, fid)
        if len(gens) == 1:
            small = None
            if isinstance(it, TupleV): small = list(it.elts)
            elif isinstance(it, Ref):
                c = self.content(it, st)
                if isinstance(c, ListC): small = list(c.elts)
                elif isinstance(c, Node) and c.op == "range" and all(isconst(x) for x in c.args):
                    small = [const(i) for i in range(*[x.args[0] for x in c.args])]
            if small is not None and len(small) <= 8 and not g.ifs:
                out = []
                for x in small:
                    self.assign(g.target, x, st, nf)
                    out.append(self.eval(elt, st, nf))
                return self.newref(ListC(out), st)
        return self.comp_rec(gens, 0, elt, st, nf, it)

    def comp_rec(self, gens, k, elt, st, nf, it):
        g = gens[k]
        dom, elem, rev = self.iter_domain(it, st)
        L = Loop(next(self._luid), "for", self.site)
        L.dom, L.rev = dom, rev
        L.iv = mk("iv", dom, self.depth())
        L.path = st.path
        L.parent = self.loopstack[-1] if self.loopstack else None
        self.loops[L.uid] = L
        self.loopstack.append(L)
        base = st.path
        pre = {rid: c for rid, c in st.heap.items()}
        neff = len(self.effects)
        try:
            cond = TRUE
            if dom.op == "filter":
                cond = subst(dom.args[1], {dom.args[2]: L.iv})
                st.path = st.path + tuple(split_cond(cond, True))
            self.assign(g.target, elem(L.iv, st), st, nf)
            for i in g.ifs:
                c = self.truth(self.eval(i, st, nf), st)
                cond = binop("and", cond, c)
                st.path = st.path + tuple(split_cond(c, True))
            if k + 1 < len(gens):
                it2 = self.eval(gens[k + 1].iter, st, nf)
                inner = self.comp_rec(gens, k + 1, elt, st, nf, it2)
                v = inner
            else:
                v = self.eval(elt, st, nf)
        finally:
            self.loopstack.pop()
            st.path = base
        # in-place changes made by the element expression to objects that existed before: summarise
        for rid, c in pre.items():
            if st.heap.get(rid) is not c:
                m = mk("mu", L.uid, "r%d" % rid)
                try:
                    n0 = self.cnode(c, st)
                    n1 = self.cnode(st.heap[rid], st)
                except AnalysisError:
                    continue
                L.mu[m] = (n0, subst(n1, {n0: m}))
                # elements already evaluated against the first iteration's content stay as they are
                st.heap[rid] = mk("final", L.uid, m)
        if dom.op == "filter":
            iv2 = mk("iv", dom.args[0], L.iv.args[1])
            v = self.subst_value(v, {L.iv: iv2}, st); cond = subst(cond, {L.iv: iv2})
            return self.newref(SeqC(iv2, v, cond), st)
        if rev:
            return self.newref(mk("opaque", "reversed comprehension", next(self._ouid), (self.to_node(v, st),)), st)
        if k + 1 < len(gens):
            return self.newref(mk("flatseq", dom, L.iv, self.to_node(v, st), cond), st, self.deep_roots(v, st))
        return self.newref(SeqC(L.iv, v, cond), st)

    def e_ListComp(self, e, st, fid): return self.comp(e.generators, e.elt, st, fid, "list")
    def e_GeneratorExp(self, e, st, fid): return self.comp(e.generators, e.elt, st, fid, "gen")
    def e_SetComp(self, e, st, fid):
        v = self.comp(e.generators, e.elt, st, fid, "set")
        return self.newref(mk("set_of", self.to_node(v, st)), st)
    def e_DictComp(self, e, st, fid):
        v = self.comp(e.generators, ast.Tuple(elts=[e.key, e.value], ctx=ast.Load(), lineno=e.lineno, col_offset=0), st, fid, "dict")
        return self.newref(mk("dict_of", self.to_node(v, st)), st)

    # ------------------------------------------------------------ calls
    def args_of(self, e, st, fid):
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st, fid)
                vs = self.unpack(v, None, st)
                if vs is None:
                    args.append(("*", v))
                else: args += vs
            else: args.append(self.eval(a, st, fid))
        for k in e.keywords:
            v = self.eval(k.value, st, fid)
            if k.arg is None:
                c = self.content(v, st) if isinstance(v, Ref) else None
                if isinstance(c, DictC):
                    for kk, x in c.items:
                        if isconst(kk): kw[kk.args[0]] = x
                else: kw["**"] = v
            else: kw[k.arg] = v
        return args, kw

    def e_Call(self, e, st, fid):
        f = self.eval(e.func, st, fid)
        if isinstance(f, LibV) and f.name == "builtins.super":
            o = st.frames[fid]
            ff = fid
            while ff is not None and "__fn__" not in st.frames[ff]: ff = st.frames[ff].get("__parent__")
            fr = st.frames[ff]
            fn = fr["__fn__"]
            selfn = fn.node.args.args[0].arg if fn.node.args.args else None
            return SuperV(fr.get(selfn), fn.cls)
        args, kw = self.args_of(e, st, fid)
        save = (self.site[0], e.lineno, self.site[2] if len(self.site) > 2 else "?")
        self.site = save; CURSITE[0] = save
        v, s2 = self.call_value(f, args, kw, st)
        self.adopt(st, s2)
        self.site = save; CURSITE[0] = save
        return v

    def call_value(self, f, args, kw, st):
        if isinstance(f, FuncV):
            return self.call_func(f, args, kw, st)
        if isinstance(f, BoundV):
            return self.call_func(f.func, [f.recv] + args, kw, st)
        if isinstance(f, ClassV):
            o = ObjV(f, f.name.lower())
            init = f.lookup("__init__")
            if isinstance(init, FuncV):
                _, st = self.call_func(init, [o] + args, kw, st)
            return o, st
        if isinstance(f, LibV):
            if f.name in JIT and len(args) == 1 and isinstance(args[0], FuncV):
                o = {"nopython": f.name == "numba.njit"}; o.update(self.jit_opts([], kw, st))
                return self.jitted(args[0], o), st
            return self.lib(f.name, args, kw, st), st
        if isinstance(f, Ref) and len(args) == 1 and isinstance(args[0], FuncV) and not kw:
            jo = self.jit_value(f, st)
            if jo is not None: return self.jitted(args[0], jo), st
        if isinstance(f, MethV):
            return self.method(f.recv, f.name, args, kw, st), st
        # symbolic callee (e.g. a function parameter)
        n = self.to_node(f, st)
        if n.op == "phi" :
            pass
        ns = tuple((str(i), self.to_node(a, st)) for i, a in enumerate(args) if not (isinstance(a, tuple)))
        ks = tuple(sorted((k, self.to_node(v, st)) for k, v in kw.items()))
        r = mk("callv", n, ns + ks)
        self.log("callv", (n, r), st)
        return self.newref(r, st), st

    def call_func(self, f, args, kw, st):
        if any(isinstance(a, tuple) for a in args) or "**" in kw:
            self.opq("star call " + f.name)
            return self.newref(self.opq("star call"), st), st
        a = f.node.args
        bound = {}
        pos = a.posonlyargs + a.args
        for p, v in zip(pos, args): bound[p.arg] = v
        extra = args[len(pos):]
        if extra:
            if a.vararg: bound[a.vararg.arg] = TupleV(extra)
            else: self.log("bad-call", (f.name, "too many arguments"), st)
        elif a.vararg: bound[a.vararg.arg] = TupleV([])
        names = {p.arg for p in pos + a.kwonlyargs}
        rest = {}
        for k, v in kw.items():
            if k in names:
                if k in bound: self.log("bad-call", (f.name, "duplicate " + k), st)
                bound[k] = v
            elif a.kwarg: rest[k] = v
            else: self.log("bad-call", (f.name, "unexpected argument " + k), st)
        if a.kwarg:
            bound[a.kwarg.arg] = self.newref(DictC([(const(k), v) for k, v in rest.items()]), st)
        for p in pos + a.kwonlyargs:
            if p.arg not in bound:
                if p.arg in f.defaults:
                    d = f.defaults[p.arg]
                    if isinstance(d, Ref) and d.view is None and d.id not in st.heap:
                        st.heap[d.id] = self.prog.base.heap.get(d.id, mk("opaque", "default", 0, ()))
                    bound[p.arg] = d
                else:
                    self.log("bad-call", (f.name, "missing argument " + p.arg), st)
                    bound[p.arg] = self.newref(self.opq("missing argument"), st)
        self.log("call", (f, dict(bound)), st)
        if f.jit is not None: self.log("jitcall", (f, {k: (v, g, self.try_node(v, st)) for k, (v, g) in self.captured(f, st).items()}, {k: self.try_node(v, st) for k, v in bound.items()}), st)
        v, s2 = self.invoke(f, bound, st)
        if f.name.split('.')[-1] in self.watch:
            try: self.calls_seen.append((f.name, {k: self.to_node(x, st) for k, x in bound.items() if not isinstance(x, (ObjV, ClassV))}, self.to_node(v, s2), tuple(s2.path), tuple(self.loopstack), self.site))
            except AnalysisError: pass
        return v, s2

    def list_extend(self, r, v, st):
        c = self.content(r, st)
        vs = self.unpack(v, None, st)
        self.log("mutate", ("extend", r), st, self.roots(r))
        if isinstance(c, ListC) and vs is not None:
            self.set_content(r, ListC(c.elts + tuple(vs)), st)
        elif isinstance(c, AppC) and vs is not None:
            self.set_content(r, AppC(c.tag, c.items + tuple((x, TRUE) for x in vs)), st)
        else:
            self.set_content(r, self.opq("extend"), st)

    def method(self, o, name, args, kw, st):
        if isinstance(o, FuncV):
            return self.newref(self.opq("method of function " + name), st)
        if isinstance(o, Ref):
            c = self.content(o, st)
            if isinstance(c, (ListC, AppC, SeqC)):
                if name == "append" and len(args) == 1:
                    self.log("mutate", ("append", o), st, self.roots(o))
                    if isinstance(c, ListC): self.set_content(o, ListC(c.elts + (args[0],)), st)
                    elif isinstance(c, AppC): self.set_content(o, AppC(c.tag, c.items + ((args[0], TRUE),)), st)
                    else: self.set_content(o, self.opq("append"), st)
                    return NONE
                if name == "extend":
                    self.list_extend(o, args[0], st); return NONE
                if name == "copy": return self.newref(c, st)
                if name in model.LIST_MUT:
                    self.log("mutate", (name, o), st, self.roots(o))
                    self.set_content(o, self.opq("list." + name), st)
                    return self.newref(self.opq("list." + name), st)
            if isinstance(c, DictC):
                if name == "items": return self.newref(ListC([TupleV([k, v]) for k, v in c.items]), st)
                if name == "keys": return self.newref(ListC([k for k, v in c.items]), st)
                if name == "values": return self.newref(ListC([v for k, v in c.items]), st)
                if name == "get" and args:
                    k = self.to_node(args[0], st)
                    for kk, v in c.items:
                        if kk is k: return v
                if name in model.LIST_MUT:
                    self.log("mutate", (name, o), st, self.roots(o))
                    self.set_content(o, self.opq("dict." + name), st)
                    return NONE
        n = self.to_node(o, st)
        base_roots = self.roots(o)
        if n.op == "const" and isinstance(n.args[0], str) or n.op == "str":
            return mk("str", n, const(name), *[self.to_node(a, st) for a in args])
        if name in model.METHODS:
            fn = model.METHODS[name]
            if fn == "numpy.reshape" and len(args) > 1: args = [TupleV(args)]
            if fn == "numpy.transpose" and len(args) > 1: args = [TupleV(args)]
            return self.lib(fn, [o] + args, kw, st, asmethod=True)
        if name in model.MUT_METHODS:
            self.log("mutate", (name, o), st, base_roots)
            r = mk("mcall", name, n, tuple(self.to_node(a, st) for a in args), tuple(sorted((k, self.to_node(v, st)) for k, v in kw.items())))
            if isinstance(o, Ref): self.set_content(o, mk("mutated", name, r), st)
            return self.newref(r, st)
        ns = tuple(self.to_node(a, st) for a in args if not isinstance(a, tuple))
        ks = tuple(sorted((k, self.to_node(v, st)) for k, v in kw.items()))
        if is_rng(n): ks = ks + (("#", const(self.draws)),); self.draws += 1
        r = mk("mcall", name, n, ns, ks)
        self.log("mcall", (name, n, ns, ks, r, o, args, kw), st, base_roots)
        return self.newref(r, st, base_roots)

    def lib(self, name, args, kw, st, asmethod=False):
        name0 = name
        name = model.ALIAS.get(name, name)
        short = name.split(".")
        star = [a for a in args if isinstance(a, tuple)]
        # ---- builtins with structure
        if name == "builtins.range":
            a = [self.to_node(x, st) for x in args]
            if len(a) == 1: a = [const(0), a[0], const(1)]
            elif len(a) == 2: a = [a[0], a[1], const(1)]
            return self.newref(mk("range", *a), st)
        if name in ("numba.prange",):
            self.log("prange", (), st)
            return self.lib("builtins.range", args, kw, st)
        if name == "builtins.len" and len(args) == 1:
            return self.seqlen(args[0], st)
        if name == "builtins.enumerate":
            k = next(self._ouid)
            start = self.to_node(args[1], st) if len(args) > 1 else self.to_node(kw["start"], st) if "start" in kw else const(0)
            self.iterspec[k] = (args[0], start)
            c = self.content(args[0], st) if isinstance(args[0], Ref) else None
            if isinstance(c, ListC) and isconst(start, 0):
                return self.newref(ListC([TupleV([const(i), x]) for i, x in enumerate(c.elts)]), st)
            return self.newref(mk("enum", self.to_node(args[0], st), k), st)
        if name == "builtins.reversed" and len(args) == 1:
            c = self.content(args[0], st) if isinstance(args[0], Ref) else None
            if isinstance(c, ListC): return self.newref(ListC(tuple(reversed(c.elts))), st)
            k = next(self._ouid); self.iterspec[k] = args[0]
            return self.newref(mk("rev", self.to_node(args[0], st), k), st)
        if name == "builtins.zip":
            if len(star) == 1 and len(args) == 1:
                v = star[0][1]
                c = self.content(v, st) if isinstance(v, Ref) else None
                if isinstance(c, SeqC) and isinstance(c.elem, TupleV):
                    return TupleV([self.newref(SeqC(c.iv, x, c.cond), st) for x in c.elem.elts])
                if isinstance(c, ListC) and c.elts and all(isinstance(x, TupleV) and len(x.elts) == len(c.elts[0].elts) for x in c.elts):
                    return TupleV([TupleV([x.elts[i] for x in c.elts]) for i in range(len(c.elts[0].elts))])
                return self.newref(self.opq("zip star", self.to_node(v, st)), st)
            if not star:
                k = next(self._ouid); self.iterspec[k] = list(args)
                cs = [self.content(a, st) if isinstance(a, Ref) else a for a in args]
                lens = [len(c.elts) if isinstance(c, (ListC, TupleV)) else None for c in cs]
                if cs and all(l is not None for l in lens):
                    return self.newref(ListC([TupleV(t) for t in zip(*[c.elts for c in cs])]), st)
                return self.newref(mk("zipn", tuple(self.to_node(a, st) for a in args), k), st)
        if name in ("builtins.list", "builtins.tuple") and len(args) <= 1:
            if not args: return self.newref(ListC(()), st) if name.endswith("list") else TupleV([])
            v = args[0]
            if isinstance(v, TupleV): return self.newref(ListC(v.elts), st) if name.endswith("list") else v
            if isinstance(v, Ref):
                c = self.content(v, st)
                if isinstance(c, ListC): return self.newref(c, st) if name.endswith("list") else TupleV(c.elts)
                if isinstance(c, SeqC): return self.newref(c, st)
                if isinstance(c, Node) and c.op in ("range", "zipn", "enum") or (isinstance(c, Node) and self.rank(c) and name.endswith("list")):
                    dom, elem, rev = self.iter_domain(v, st)
                    if not rev:
                        iv = mk("iv", dom, self.depth())
                        return self.newref(SeqC(iv, elem(iv, st), TRUE), st)
                n = self.cnode(c, st)
                return self.newref(call("builtins.list" if name.endswith("list") else "builtins.tuple", a=n), st, self.roots(v))
        if name == "builtins.dict" and not args:
            return self.newref(DictC([(const(k), v) for k, v in kw.items()]), st)
        if name == "builtins.map" and len(args) == 2 and not isinstance(args[1], tuple):
            dom, elem, rev = self.iter_domain(args[1], st)
            L = Loop(next(self._luid), "for", self.site); L.dom = dom; L.iv = mk("iv", dom, self.depth()); L.path = st.path
            self.loops[L.uid] = L
            self.loopstack.append(L)
            try:
                v, s2 = self.call_value(args[0], [elem(L.iv, st)], {}, st); self.adopt(st, s2)
            finally:
                self.loopstack.pop()
            return self.newref(SeqC(L.iv, v, TRUE), st)
        if name in ("builtins.min", "builtins.max"):
            if len(args) == 1 and not star and "key" not in kw and "default" not in kw:
                v = args[0]
                n = self.to_node(v, st)
                if n.op in ("list", "tuple") and n.args:
                    return self.newref(mk("call", name, (("args", mk("tuple", *n.args)),)), st)
                return self.newref(call("numpy." + name.split(".")[1], a=n), st)
            if len(args) > 1 and not star:
                return self.newref(mk("call", name, (("args", mk("tuple", *[self.to_node(a, st) for a in args])),)), st)
        if name == "builtins.print":
            self.log("print", tuple(self.to_node(a, st) for a in args if not isinstance(a, tuple)), st); return NONE
        if name == "builtins.isinstance" and len(args) == 2:
            n = mk("isinstance", self.to_node(args[0], st), self.to_node(args[1], st))
            c0 = self.content(args[0], st) if isinstance(args[0], Ref) else args[0]
            cls = args[1].name if isinstance(args[1], LibV) else None
            if isinstance(c0, (ListC, SeqC, AppC, TupleV)) and cls == "numpy.ndarray": return FALSE
            if isinstance(c0, Node) and cls == "numpy.ndarray" and c0.op == "call" and c0.args[0] in ("numpy.array", "numpy.zeros", "numpy.ones", "numpy.asarray", "numpy.transpose", "numpy.empty", "numpy.eye", "numpy.identity", "numpy.concatenate", "numpy.stack", "numpy.vstack", "numpy.hstack", "numpy.linalg.cholesky", "numpy.zeros_like", "numpy.ones_like", "numpy.arange", "numpy.linspace"): return TRUE
            return self.newref(n, st)
        if name == "builtins.getattr" and len(args) >= 2 and isconst(args[1]):
            return self.getattr(args[0], args[1].args[0], st)
        if name == "builtins.setattr" and len(args) == 3 and isconst(args[1]):
            self.setattr(args[0], args[1].args[0], args[2], st); return NONE
        if name in ("builtins.str", "builtins.repr", "builtins.format"):
            return mk("str", *[self.to_node(a, st) for a in args if not isinstance(a, tuple)])
        if name == "builtins.slice":
            a = [self.to_node(x, st) for x in args]
            a = [NONE, a[0], NONE] if len(a) == 1 else (a + [NONE])[:3]
            return norm_slice(*a)
        if name == "builtins.sorted":
            n = self.to_node(args[0], st)
            return self.newref(mk("call", name, tuple([("a", n)] + sorted((k, self.to_node(v, st)) for k, v in kw.items()))), st)
        if name == "builtins.id" or name == "builtins.hash":
            self.log("libcall", (name, ()), st)
        # ---- general library call
        nodes = [self.to_node(a, st) if not isinstance(a, tuple) else mk("star", self.to_node(a[1], st)) for a in args]
        kn = {k: self.to_node(v, st) for k, v in kw.items()}
        if name in model.BINFN and len(nodes) == 2 and not kn:
            return self.newref(binop(model.BINFN[name], *nodes), st)
        if name in model.UNFN and len(nodes) == 1 and not kn:
            return self.newref(mk("neg", nodes[0]) if model.UNFN[name] == "neg" else mk_not(nodes[0]), st)
        if name in model.BINFN and len(nodes) >= 2 and ("out" in kn or "where" in kn or len(nodes) == 3):
            out = kw.get("out", args[2] if len(args) > 2 else None)
            if isinstance(out, TupleV): out = out.elts[0]
            n = binop(model.BINFN[name], nodes[0], nodes[1])
            if "where" in kn and not isconst(kn["where"], True):
                # elsewhere the array passed in as out keeps its values, a fresh one is not initialised
                n = mk_libcall("numpy.where", [kn["where"], n, self.to_node(out, st) if isinstance(out, Ref) else self.opq("where= without out", n)], {})
            if isinstance(out, Ref):
                self.log("store", (out, (FULL,), n, "out", self.to_node(out, st), out), st, self.roots(out))
                self.set_content(out, n, st)
                return out
            return self.newref(n, st)
        n = mk_libcall(name, nodes, kn)
        if n.op == "call" and n.args[0].startswith("numpy.random.") and n.args[0] not in RNG_PURE:
            n = mk("call", n.args[0], n.args[1] + (("#", const(self.draws)),)); self.draws += 1
        params = dict(n.args[1]) if n.op == "call" else {}
        self.log("libcall", (name, n, name0, args, kw), st, frozenset().union(*[self.roots(a) for a in args if not isinstance(a, tuple)], frozenset()) if args else frozenset())
        # out= and mutators
        if "out" in params and not isconst(params["out"], None):
            out = kw.get("out")
            if isinstance(out, TupleV): out = out.elts[0]
            if isinstance(out, Ref):
                p2 = tuple((k, v) for k, v in n.args[1] if k != "out")
                n2 = mk("call", name, p2)
                if "where" in params and name.startswith("numpy.") and name.split(".")[1] in UFN:
                    n2 = mk("call", name, tuple((k, v) for k, v in p2 if k != "where"))
                    n2 = mk_libcall("numpy.where", [params["where"], n2, self.to_node(out, st)], {})
                self.log("store", (out, (FULL,), n2, "out", self.to_node(out, st), out), st, self.roots(out))
                self.set_content(out, n2, st)
                return out
        if name in model.MUTATORS and args:
            tgt = args[0]
            self.log("mutate", (name, tgt), st, self.roots(tgt))
            if isinstance(tgt, Ref):
                self.set_content(tgt, mk("mutated", name, n), st)
            return NONE
        if name == "numpy.copy" and args:
            c = self.content(args[0], st) if isinstance(args[0], Ref) else nodes[0]
            return self.newref(c if isinstance(c, Node) else call("numpy.array", object=self.cnode(c, st)), st)
        if name in ("copy.copy", "copy.deepcopy") and args:
            c = self.content(args[0], st) if isinstance(args[0], Ref) else nodes[0]
            rts = frozenset() if name.endswith("deepcopy") else frozenset("elt:" + r for r in self.deep_roots(args[0], st))
            return self.newref(c, st, rts)
        if name in model.VIEWS and args and isinstance(args[0], Ref) and isinstance(self.content(args[0], st), Node):
            ex = tuple((k, v) for k, v in n.args[1] if v is not nodes[0]) if n.op == "call" else ()
            return self.view(args[0], (("fn", name, ex),), st) if n.op == "call" else self.newref(n, st, self.roots(args[0]))
        rts = set()
        if name in ("numpy.array", "numpy.asarray", "numpy.asanyarray") and args and (name != "numpy.array" or isconst(kn.get("copy", TRUE), False)):
            rts |= self.roots(args[0])
        if name == "ripser.ripser" and args:
            rts |= frozenset("alias:" + r for r in self.roots(args[0]))
        if name == "numpy.nan_to_num" and isconst(kn.get("copy", TRUE), False) and args and isinstance(args[0], Ref):
            self.log("mutate", (name, args[0]), st, self.roots(args[0]))
        if name in ("numpy.astype",) and isconst(params.get("copy", TRUE), False) and args:
            rts |= self.roots(args[0])
        return self.newref(n, st, rts)

# ----------------------------------------------------------------------------- helper functions on nodes
OPS = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "div", "FloorDiv": "floordiv", "Mod": "mod", "Pow": "pow", "MatMult": "matmul", "BitAnd": "and", "BitOr": "or", "BitXor": "xor", "LShift": "lshift", "RShift": "rshift"}

UFN = {"sqrt", "exp", "log", "sin", "cos", "tan", "arccos", "arcsin", "arctan", "abs", "absolute", "square", "conjugate", "minimum", "maximum", "arctan2", "floor", "ceil", "rint", "reciprocal", "fmod", "exp2", "log2", "log10", "log1p", "expm1", "sign"}
RNG_PURE = {"numpy.random.seed", "numpy.random.RandomState", "numpy.random.default_rng", "numpy.random.Generator", "numpy.random.PCG64", "numpy.random.MT19937", "numpy.random.SeedSequence", "numpy.random.get_state", "numpy.random.set_state"}
RNG_OBJ = {"numpy.random.RandomState", "numpy.random.default_rng", "numpy.random.Generator"}

def is_rng(n):
    if n.op == "phi": return is_rng(n.args[1]) or is_rng(n.args[2])
    return n.op == "call" and n.args[0] in RNG_OBJ

def mk_libcall(name, nodes, kn):
    """canonical call node: keyword names from signatures, defaults dropped"""
    sig = model.SIG.get(name)
    params = {}
    if any(n.op == "star" for n in nodes): sig = None
    if sig and name.endswith(("minimum", "maximum")) and False:
        pass
    if sig:
        for i, n in enumerate(nodes):
            params[sig[i] if i < len(sig) else str(i)] = n
        for k, v in kn.items():
            # method-style names for the first argument
            params[k] = v
        first = sig[0]
        # alternative names of the same parameter
        if name == "numpy.reshape" and "newshape" in params: params["shape"] = params.pop("newshape")
        if name == "numpy.clip":
            if "min" in params: params["a_min"] = params.pop("min")
            if "max" in params: params["a_max"] = params.pop("max")
        if name == "numpy.arange":
            if "stop" not in params and "start" in params:
                params["stop"] = params.pop("start")
            if "start" in params and isconst(params["start"], 0): params.pop("start")
            if "step" in params and isconst(params["step"], 1): params.pop("step")
        for k in list(params):
            d = model.DEFAULTS.get((name, k))
            if d is not None and isconst(params[k], *d): params.pop(k)
            elif isconst(params[k], None) and k not in ("0", "1", "2", "ax", "v") and k != first: params.pop(k)
    else:
        for i, n in enumerate(nodes): params[str(i)] = n
        params.update(kn)
    if name == "numpy.array" and set(params) == {"object"} and params["object"].op == "const":
        return params["object"]
    if name in ("numpy.zeros", "numpy.ones", "numpy.empty") and "shape" in params and params["shape"].op == "tuple" and len(params["shape"].args) == 1:
        params["shape"] = params["shape"].args[0]
    if name == "numpy.transpose" and set(params) == {"a"}:
        a = params["a"]
        if a.op == "call" and a.args[0] == "numpy.transpose" and len(a.args[1]) == 1: return a.args[1][0][1]
    if name == "numpy.square" and set(params) == {"x"}: return binop("pow", params["x"], const(2))
    if name == "builtins.float" or name == "builtins.int":
        n = nodes[0] if nodes else const(0)
        if n.op == "const" and isinstance(n.args[0], int) and name == "builtins.int": return n
    if name == "builtins.bool" and nodes:
        return truthn(nodes[0])
    if name == "scipy.spatial.distance.cdist" and set(params) <= {"XA", "XB", "metric"} and "XB" in params and ("metric" not in params or isconst(params["metric"], "euclidean")):
        full = norm_slice(const(None), const(None), const(None))
        d = binop("sub", mk_index(params["XA"], (full, const(None), full)), mk_index(params["XB"], (const(None), full, full)))
        return mk("call", "numpy.linalg.norm", (("axis", const(-1)), ("x", d)))
    if name in ("numpy.add.outer", "numpy.subtract.outer", "numpy.multiply.outer") and len(nodes) == 2 and not kn:
        full = norm_slice(const(None), const(None), const(None))
        return binop({"add": "add", "subtract": "sub", "multiply": "mul"}[name.split(".")[1]], mk_index(nodes[0], (full, const(None))), mk_index(nodes[1], (const(None), full)))
    if name == "numpy.flatnonzero" and len(nodes) == 1: return mk_index(mk("call", "numpy.nonzero", (("a", nodes[0]),)), (const(0),))
    if name == "numpy.take" and set(params) == {"a", "indices", "axis"} and params["axis"].op == "const" and params["axis"].args[0] in (0, 1):
        return mk_index(params["a"], (params["indices"],) if params["axis"].args[0] == 0 else (norm_slice(const(None), const(None), const(None)), params["indices"]))
    if name in ("sparse.tocsr", "sparse.tocsc", "sparse.tocoo"):
        a = params.get("a", params.get("0"))
        if a is not None and a.op == "call" and a.args[0].startswith("scipy.sparse.c") and len(params) == 1: return a
    if name in ("numpy.isin", "numpy.in1d") and "invert" in params and params["invert"].op == "const":
        inv = params.pop("invert").args[0]
        n = mk("call", "numpy.isin", tuple(sorted((k, v) for k, v in params.items() if k != "assume_unique")))
        return mk_not(n) if inv else n
    return mk("call", name, tuple(sorted(params.items())))

def norm_slice(a, b, c):
    if isconst(c, 1): c = NONE
    if isconst(a, 0) and isconst(c, None): a = NONE
    return mk("slice", a, b, c)

def is_boolish(n):
    if n.op in ("lt", "le", "eq", "ne", "and", "or", "not", "is", "in", "truth", "isinstance", "inloop"): return True
    if n.op == "const": return isinstance(n.args[0], bool)
    if n.op == "phi": return is_boolish(n.args[1]) and is_boolish(n.args[2])
    if n.op == "call": return n.args[0] in ("numpy.isnan", "numpy.isfinite", "numpy.any", "numpy.all", "numpy.isinf", "numpy.logical_xor", "numpy.isclose", "numpy.allclose", "numpy.isin")
    return False

def truthn(n):
    if n.op == "const":
        try: return const(bool(n.args[0]))
        except Exception: return n
    if is_boolish(n): return n
    if n.op in ("list", "tuple", "dict"): return const(len(n.args) > 0)
    if n.op in ("func", "cls", "obj", "libref"): return TRUE
    if n.op == "phi": return phi(n.args[0], truthn(n.args[1]), truthn(n.args[2]))
    return mk("truth", n)

def split_cond(c, pol):
    """list of (cond, polarity) facts"""
    if c.op == "not": return split_cond(c.args[0], not pol)
    if c.op == "and" and pol: return split_cond(c.args[0], True) + split_cond(c.args[1], True)
    if c.op == "or" and not pol: return split_cond(c.args[0], False) + split_cond(c.args[1], False)
    if isconst(c) and bool(c.args[0]) == pol: return []
    return [(c, pol)]

def conj(path):
    c = TRUE
    for n, pol in path:
        c = binop("and", c, n if pol else mk_not(n))
    return c

def common_prefix(paths):
    p = paths[0]
    for q in paths[1:]:
        k = 0
        while k < len(p) and k < len(q) and p[k] == q[k]: k += 1
        p = p[:k]
    return p

def domlen(d):
    if d.op == "range":
        a, b, s = d.args
        if isconst(s, 1):
            return b if isconst(a, 0) else binop("sub", b, a)
        return mk("rangelen", a, b, s)
    return mk("domlen", d)

def nlen(n):
    if n.op in ("list", "tuple"): return const(len(n.args))
    if n.op == "seq" and isconst(n.args[3], True): return domlen(n.args[0])
    if n.op == "range": return domlen(n)
    if n.op == "attr" and n.args[1] == "shape": return mk_attr(n.args[0], "ndim")
    return mk_index(mk_attr(n, "shape"), (const(0),))

def apply_view(b, steps):
    for s in steps:
        if s[0] == "ix": b = mk_index(b, s[1])
        else: b = mk_libcall(s[1], [b], dict(s[2]))
    return b

def unview(b, steps, n):
    """new content of the base when the view's content becomes n"""
    if len(steps) == 1 and steps[0][0] == "ix":
        return mk("store", b, steps[0][1], n)
    if len(steps) == 1 and steps[0][0] == "fn" and steps[0][1] == "numpy.transpose" and not steps[0][2]:
        return mk_libcall("numpy.transpose", [n], {})
    return mk("viewset", b, tuple(x for s in steps for x in (s[1] if s[0] == "ix" else (s[1],))), n)

def is_advanced(idx, I):
    """advanced (copying) indexing: some index is an array"""
    for i in idx:
        if i.op in ("slice", "ellipsis", "const", "iv"): continue
        if is_boolish(i): return True
        if i.op in ("list", "seq"): return True
        rk = I.rank(i)
        if rk is not None and rk > 0: return True
        if rk is None and i.op == "call" and i.args[0].startswith("numpy.") and i.args[0] not in ("numpy.argmax", "numpy.argmin", "numpy.sum", "numpy.max", "numpy.min"): return True
        if rk is None and i.op in ("index",) and any(x.op == "slice" for x in i.args[1]): return True
    return False
