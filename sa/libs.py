"""What the installed third-party packages provide, read from their sources and stubs (nothing is imported)."""
import ast, os, sys, importlib, glob

SITE = [p for p in glob.glob("/opt/venv/lib/python3*/site-packages")]
STD = []
try:
    for l in open("/opt/venv/pyvenv.cfg"):
        if l.startswith("home"):
            h = l.split("=", 1)[1].strip()
            STD = glob.glob(os.path.join(os.path.dirname(h), "lib", "python3.*"))
except OSError: pass
if not STD: STD = [os.path.dirname(os.__file__)]

YES, NO, UNKNOWN = "yes", "no", "unknown"

class Mod:
    def __init__(self, name, dirs, files, pkg):
        self.name, self.dirs, self.files, self.pkg = name, dirs, files, pkg
        self.defs = {}; self.stars = []; self.open = False; self.opaque = False; self.all = None

def find(name):
    """files that define module `name` (source, stub or extension)"""
    parts = name.split(".")
    for root in SITE + STD + [os.path.join(s, "lib-dynload") for s in STD]:
        base = os.path.join(root, *parts)
        files = []; pkg = None
        if os.path.isdir(base):
            for ext in (".py", ".pyi"):
                if os.path.exists(os.path.join(base, "__init__" + ext)): files.append(os.path.join(base, "__init__" + ext)); pkg = base
            if not files and not parts[-1].startswith("_"): pkg = base      # name space package
        if not files:
            for ext in (".py", ".pyi"):
                if os.path.exists(base + ext): files.append(base + ext)
        so = glob.glob(base + ".*.so") + glob.glob(base + ".so")
        if files or pkg or so: return files, pkg, bool(so) and not any(f.endswith(".py") for f in files)
    return None

# modules whose stub lists every public name (compared against the installed extension modules when this file was written)
CLOSED = {"numpy", "numpy.random", "scipy.special", "scipy.linalg", "scipy.spatial"}
EXTRA = {"scipy.linalg": {"qr_delete", "qr_insert", "qr_update"}, "scipy.spatial": {"cKDTree"}, "scipy.special": set("c_roots cg_roots h_roots he_roots j_roots js_roots l_roots la_roots multigammaln p_roots ps_roots s_roots t_roots ts_roots u_roots us_roots".split())}
COLORMAPS = {"matplotlib.cm"}       # puts every colour map in its name space, and nothing else

def colormap(name):
    b = name[:-2] if name.endswith("_r") else name
    for f in ("_cm.py", "_cm_listed.py", "_cm_bivar.py", "_cm_multivar.py"):
        p = site_file("matplotlib", f)
        if p is None or b in open(p, encoding="utf-8").read(): return True
    return False

_mods = {}
def module(name):
    if name in _mods: return _mods[name]
    fnd = find(name)
    if fnd is None:
        if name in sys.builtin_module_names or name in ("time", "math", "itertools", "cmath"):
            m = Mod(name, None, [], None)
            try:
                for a in dir(importlib.import_module(name)): m.defs[a] = ("def", None)
            except ImportError: m.opaque = True
            _mods[name] = m; return m
        _mods[name] = None; return None
    files, pkg, so = fnd
    m = Mod(name, None, files, pkg); _mods[name] = m
    if so or not files: m.opaque = so
    for f in files:
        try: t = ast.parse(open(f, encoding="utf-8", errors="replace").read())
        except SyntaxError: m.opaque = True; continue
        collect(m, t.body)
    for a in ("__name__", "__doc__", "__file__", "__path__", "__spec__", "__loader__", "__package__", "__dict__"): m.defs.setdefault(a, ("def", None))
    if name in COLORMAPS or name in CLOSED: m.open = False
    if name == "numba.core.config": m.open = True
    return m

def absname(m, level, mod):
    if not level: return mod
    parts = m.name.split(".")
    if not m.pkg: parts = parts[:-1]
    parts = parts[:len(parts) - (level - 1)]
    return ".".join(parts + ([mod] if mod else []))

def put(m, k, v):
    if k not in m.defs or (m.defs[k][0] == "def" and m.defs[k][1] is None): m.defs[k] = v

def walk_flat(s):
    st = [s]
    while st:
        x = st.pop()
        yield x
        st += [c for c in ast.iter_child_nodes(x) if not isinstance(c, (ast.FunctionDef, ast.ClassDef, ast.Lambda))]

def collect(m, body):
    for s in body:
        if not isinstance(s, (ast.FunctionDef, ast.ClassDef)) and any(isinstance(x, ast.Name) and x.id in ("globals", "setattr") for x in walk_flat(s)): m.open = True
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            put(m, s.name, ("func", s))
            if s.name == "__getattr__":
                ok = any(isinstance(x, ast.Raise) and x.exc is not None and "AttributeError" in ast.dump(x.exc) for x in ast.walk(s))
                if not ok:
                    # a deprecation shim: what it answers is not known
                    m.open = True
                for x in ast.walk(s):
                    if isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value.isidentifier(): m.defs.setdefault(x.value, ("maybe", None))
        elif isinstance(s, ast.ClassDef): put(m, s.name, ("class", s))
        elif isinstance(s, ast.Import):
            for a in s.names:
                if a.asname: put(m, a.asname, ("mod", a.name))
                else: put(m, a.name.split(".")[0], ("mod", a.name.split(".")[0]))
        elif isinstance(s, ast.ImportFrom):
            src = absname(m, s.level, s.module)
            for a in s.names:
                if a.name == "*": m.stars.append(src)
                else: put(m, a.asname or a.name, ("from", src, a.name))
        elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            tg = s.targets if isinstance(s, ast.Assign) else [s.target]
            for t in tg:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name):
                        put(m, x.id, ("def", None))
                        if x.id == "__all__" and not isinstance(s, ast.Assign): m.all = None; m.allbad = True
                        elif x.id == "__all__" and not getattr(m, "allbad", False):
                            try: m.all = list(ast.literal_eval(s.value))
                            except ValueError: m.all = None
        elif isinstance(s, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
            for f in ("body", "orelse", "finalbody"): collect(m, getattr(s, f, []) or [])
            for h in getattr(s, "handlers", []) or []: collect(m, h.body)
            for x in ([s.target] if isinstance(s, ast.For) else []) + [i.optional_vars for i in (s.items if isinstance(s, ast.With) else []) if i.optional_vars]:
                for y in ast.walk(x):
                    if isinstance(y, ast.Name): put(m, y.id, ("def", None))

def lookup(mod, name, seen=None):
    """(YES/NO/UNKNOWN, what) for attribute `name` of module `mod`"""
    seen = seen or set()
    if (mod, name) in seen: return UNKNOWN, None
    seen = seen | {(mod, name)}
    m = module(mod)
    if m is None: return (NO, None)
    if name in m.defs:
        d = m.defs[name]
        if d[0] == "from":
            r, w = lookup(d[1], d[2], seen)
            if r == NO:
                if d[1] == mod and find(mod + "." + d[2]): return YES, ("mod", mod + "." + d[2])
                return UNKNOWN, None       # their own import, possibly conditional
            return (YES, w) if r == YES else (YES, None)
        if d[0] == "maybe": return (UNKNOWN, None) if not find(mod + "." + name) else (YES, ("mod", mod + "." + name))
        return YES, d
    unk = False
    for s in m.stars:
        sm = module(s)
        if sm is None: unk = True; continue
        if name.startswith("_") or (sm.all is not None and name not in sm.all): continue
        r, w = lookup(s, name, seen)
        if r == YES:
            return YES, w
        if r == UNKNOWN: unk = True
    if m.pkg and find(mod + "." + name): return YES, ("mod", mod + "." + name)
    if mod in COLORMAPS and colormap(name): return YES, None
    if mod in EXTRA and name in EXTRA[mod]: return YES, None
    if mod in CLOSED: return NO, None
    if m.opaque or m.open or unk: return UNKNOWN, None
    return NO, None

def exists(dotted):
    """first missing prefix of a dotted library name: (YES, what) / (NO, prefix) / (UNKNOWN, prefix)"""
    parts = dotted.split(".")
    if module(parts[0]) is None: return NO, parts[0]
    cur = ("mod", parts[0]); done = parts[0]
    for p in parts[1:]:
        if cur is None: return UNKNOWN, done
        if cur[0] == "mod":
            r, w = lookup(cur[1], p)
        elif cur[0] == "class":
            return UNKNOWN, done
        else: return UNKNOWN, done
        done += "." + p
        if r != YES: return r, done
        cur = w
    return YES, cur

def members(cls_names, files):
    """every name defined in the class bodies (or on self) of the given source files"""
    out = set()
    for f in files:
        try: t = ast.parse(open(f, encoding="utf-8", errors="replace").read())
        except (OSError, SyntaxError): return None
        for x in ast.walk(t):
            if isinstance(x, ast.ClassDef) and (cls_names is None or x.name in cls_names):
                for d in x.decorator_list:          # define_aliases({"xlim": ["xlim3d"]})
                    for y in ast.walk(d):
                        if isinstance(y, ast.Constant) and isinstance(y.value, str): out |= {y.value, "get_" + y.value, "set_" + y.value}
                for s in x.body:
                    if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)): out.add(s.name)
                    elif isinstance(s, (ast.Assign, ast.AnnAssign)):
                        for tg in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                            for y in ast.walk(tg):
                                if isinstance(y, ast.Name): out.add(y.id)
                for y in ast.walk(x):
                    if isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id == "self" and isinstance(y.ctx, ast.Store): out.add(y.attr)
    return out

def site_file(*p):
    for s in SITE:
        f = os.path.join(s, *p)
        if os.path.exists(f): return f
    return None
