"""Evaluation of small option terms (conditionals, comparisons, clamps) under concrete option values."""
import itertools
from sa import vg
from sa.vg import isconst

class No(Exception): pass

HOOK = object()  # key of an assignment: a function (node, evaluate) -> value or None, asked first

class Arr:
    """an array of which only the shape is known"""
    def __init__(self, *shape): self.shape = tuple(shape)
    def __bool__(self): raise No
    def __eq__(self, o): raise No
    __hash__ = object.__hash__
    def __len__(self): return self.shape[0]

class Tok:
    """a value that is only compared by identity (a function, say)"""
    def __init__(self, name): self.name = name

TYPES = {"builtins.int": int, "builtins.float": float, "builtins.bool": bool, "builtins.str": str, "builtins.list": list, "builtins.tuple": tuple}
BIN = {"eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "lt": lambda a, b: a < b, "le": lambda a, b: a <= b, "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b, "add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "div": lambda a, b: a / b, "floordiv": lambda a, b: a // b, "mod": lambda a, b: a % b, "pow": lambda a, b: a ** b}
CALL = {"builtins.int": int, "builtins.float": float, "builtins.bool": bool, "builtins.abs": abs, "builtins.round": round, "builtins.str": str, "builtins.len": len, "numpy.asscalar": lambda a: a}
FOLD = {"builtins.min": min, "builtins.max": max}

def value(n, env):
    op, a = n.op, n.args
    ev = lambda x: value(x, env)
    h = env.get(HOOK)
    if h is not None:
        r = h(n, ev)
        if r is not None: return r
    if op == "const": return a[0]
    if op == "sym":
        if a[0] in env: return env[a[0]]
        raise No
    if op in ("list", "tuple"): return [ev(x) for x in a]
    if op == "truth": return bool(ev(a[0]))
    if op == "not": return not ev(a[0])
    if op == "and":
        try: v = bool(ev(a[0]))
        except No: v = None
        if v is False: return False
        w = True
        for x in a[1:]: w = w and bool(ev(x))
        if v is None and w: raise No
        return w
    if op == "or":
        try: v = bool(ev(a[0]))
        except No: v = None
        if v: return True
        w = False
        for x in a[1:]: w = w or bool(ev(x))
        if v is None and not w: raise No
        return w
    if op == "phi":
        try: c = bool(ev(a[0]))
        except No:
            x, y = ev(a[1]), ev(a[2])
            if agree(x, y): return x
            raise
        return ev(a[1]) if c else ev(a[2])
    if op == "is":
        x, y = ev(a[0]), ev(a[1])
        return x is y or type(x) is type(y) and isinstance(x, (bool, int, str)) and x == y
    if op == "in": return ev(a[0]) in ev(a[1])
    if op in BIN and len(a) == 2:
        x, y = ev(a[0]), ev(a[1])
        if isinstance(x, (Arr, Tok)) or isinstance(y, (Arr, Tok)): raise No
        return BIN[op](x, y)
    if op == "neg": return -ev(a[0])
    if op == "isinstance":
        if a[1].op == "libref" and a[1].args[0] in TYPES: return isinstance(ev(a[0]), TYPES[a[1].args[0]])
        raise No
    if op == "attr" and a[1] in ("shape", "size", "ndim"):
        x = ev(a[0])
        if not isinstance(x, Arr): raise No
        if a[1] == "shape": return list(x.shape)
        if a[1] == "ndim": return len(x.shape)
        s = 1
        for k in x.shape: s *= k
        return s
    if op == "index" and len(a[1]) == 1:
        x, i = ev(a[0]), ev(a[1][0])
        if isinstance(x, (list, str)) and isinstance(i, int): return x[i]
        raise No
    if op == "call":
        v = [y for _, y in a[1]]
        if a[0] in CALL and len(v) == 1: return CALL[a[0]](ev(v[0]))
        if a[0] in FOLD and len(v) == 1:
            x = ev(v[0])
            if any(isinstance(k, (Arr, Tok)) for k in x): raise No
            return FOLD[a[0]](x)
        m = dict(a[1])
        if a[0] == "numpy.clip" and "a" in m:
            x = ev(m["a"]); lo = ev(m["a_min"]) if "a_min" in m else None; hi = ev(m["a_max"]) if "a_max" in m else None
            if lo is not None: x = max(x, lo)
            if hi is not None: x = min(x, hi)
            return x
        if a[0] in ("numpy.minimum", "numpy.maximum", "numpy.min", "numpy.max") and len(v) == 2: return (min if "min" in a[0] else max)(ev(v[0]), ev(v[1]))
    raise No

def agree(x, y):
    if isinstance(x, (Arr, Tok)) or isinstance(y, (Arr, Tok)): return x is y
    return type(x) is type(y) and x == y or isinstance(x, (int, float)) and isinstance(y, (int, float)) and x == y

def grid(names, choices):
    ks = [k for k in names if k in choices]
    for c in itertools.product(*[choices[k] for k in ks]): yield dict(zip(ks, c))

def deviation(n, p, envs, same=agree):
    """("eq", count) if n has the value of option p under every assignment, ("ne", assignment, value) or ("unk", None)"""
    k = 0; miss = False
    for e in envs:
        try: v = value(n, e)
        except No: miss = True; continue
        except Exception: miss = True; continue
        k += 1
        if same(v, e[p]) is False: return "ne", e, v
    return ("unk", None, None) if miss or not k else ("eq", k, None)
