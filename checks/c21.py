"""C21: the documented API exists, with the documented parameters, and the package only uses what its dependencies provide."""
import ast, re, symtable, builtins
from .surface import *
from sa import libs

TECHNIQUE = "static analysis: symbol resolution of every import, name and attribute chain of the package against the parsed sources and stubs of the installed dependencies and against the package's own classes; import-order simulation; signature comparison with the API reference"
EXPLANATION = "Every import and every attribute chain rooted at an imported module is resolved, through re-exports and star imports, in the sources and stubs of the installed packages (read, never imported). Names that no scope binds, attributes of the package's own modules, classes and instances that nothing defines, and methods that arrays, sparse matrices or plot axes do not have are reported. The package's import statements are executed abstractly in order, so that a name imported from a partially initialised module is found. Each class and method of docs/api.rst must resolve from the package root and accept the documented parameters, in the documented order, with the documented ones optional, and the parameters its own documentation lists."
ASSUMPTIONS = ["the stubs of numpy's extension modules list their public names (compared once with the installed extension modules)", "the compiled part of the standard library offers the same names in the Python that runs this check"]

API = {
    "CircularCoords.__init__": "X n_landmarks distance_matrix= prime= maxdim= verbose=",
    "CircularCoords.get_coordinates": "perc= cocycle_idx= partunity_fn= standard_range= check_cocycle_condition=",
    "ToroidalCoords.__init__": "X n_landmarks distance_matrix= prime= maxdim= verbose=",
    "ToroidalCoords.get_coordinates": "perc= cocycle_idxs= partunity_fn= standard_range= check_cocycle_condition=",
    "ProjectiveCoords.__init__": "X n_landmarks distance_matrix= maxdim= verbose=",
    "ProjectiveCoords.get_coordinates": "perc= cocycle_idx= proj_dim= partunity_fn= standard_range= projective_dim_red_mode=",
    "ComplexProjectiveCoords.__init__": "X n_landmarks distance_matrix= prime= maxdim= verbose=",
    "ComplexProjectiveCoords.get_coordinates": "perc= cocycle_idx= proj_dim= partunity_fn= standard_range= check_cocycle_condition= projective_dim_red_mode=",
    "LensCoords.__init__": "X n_landmarks distance_matrix= prime= maxdim= verbose=",
    "LensCoords.get_coordinates": "perc= cocycle_idx= complex_dim= partunity_fn= standard_range= projective_dim_red_mode=",
    "PartUnity.linear": "ds r_cover", "PartUnity.quadratic": "ds r_cover", "PartUnity.exp": "ds r_cover",
    "GeometryExamples.line_patches": "dim n_angles n_offsets sigma", "GeometryExamples.moving_dot": "sqrt_num_images sigma= dim=",
    "GeometryExamples.rp2_metric": "n_samples seed=", "GeometryExamples.torus_3d": "n_samples R r seed=", "GeometryExamples.klein_bottle_4d": "n_samples R r seed=",
    "GeometryExamples.genus_two_surface": "", "GeometryExamples.trefoil": "n_samples= horizontal_width= noisy=", "GeometryExamples.bullseye": "",
    "GeometryExamples.three_circles": "", "GeometryExamples.sphere": "n_samples", "GeometryExamples.noisy_circle": "n_samples noise_size= seed=",
    "GeometryExamples.moore_space_distance_matrix": "rough_n_points= prime=",
    "PlotUtils.imscatter": "X P dim zoom= ax=", "PlotUtils.plot_patches": "P zoom= ax=", "PlotUtils.plot_proj_boundary": "ax=", "PlotUtils.plot_2sphere_boundary": "ax=",
    "PlotUtils.plot_3sphere_mesh": "n_parallels= n_meridians= alpha= ax=", "PlotUtils.set_axes_equal": "ax", "PlotUtils.plot_rp2_stereo": "S f arrowcolor= facecolor=", "PlotUtils.plot_rp3_stereo": "ax S f draw_sphere=",
    "CircleMapUtils.to_sinebow": "circle_map", "CircleMapUtils.center": "circle_map", "CircleMapUtils.offset": "circle_map offset",
    "CircleMapUtils.linear_combination": "circle_maps linear_combination_matrix", "CircleMapUtils.levelset_coloring": "circle_map n_levelsets= smoothing=",
    "ProjectiveMapUtils.get_stereo_proj_codim1": "pX u=", "ProjectiveMapUtils.circle_to_3dnorthpole": "x", "ProjectiveMapUtils.hopf_map": "X",
    "ProjectiveMapUtils.stereographic_projection_hemispheres": "X center_vector=", "ProjectiveMapUtils.rotmat": "a b=",
    "LensMapUtils.lens_3D_to_disk_3D": "X q",
    "GeometryUtils.get_csm": "X Y", "GeometryUtils.get_csm_projarc": "X Y", "GeometryUtils.get_ssm": "X", "GeometryUtils.get_greedy_perm_pc": "X M csm_fn=",
    "GeometryUtils.get_greedy_perm_dm": "D M", "GeometryUtils.landmark_geodesic_distance": "X n_landmarks n_neighbors",
}
PKG = "dreimac"

# ---- library references -------------------------------------------------------------------------
def handlers_catch(node, parents, kinds):
    """inside the body of a try statement that catches one of these"""
    x = node
    while x in parents:
        p = parents[x]
        if isinstance(p, ast.Try) and any(x is s for s in p.body):
            for h in p.handlers:
                names = {n.id for n in ast.walk(h.type) if isinstance(n, ast.Name)} if h.type is not None else {"Exception"}
                if names & (set(kinds) | {"Exception", "BaseException"}): return True
        if isinstance(p, ast.If) and any("TYPE_CHECKING" in ast.dump(p.test) or "__version__" in ast.dump(p.test) or "hasattr" in ast.dump(p.test) or "version_info" in ast.dump(p.test) for _ in [0]): return True
        if isinstance(p, ast.IfExp) and ("hasattr" in ast.dump(p.test) or "__version__" in ast.dump(p.test)): return True
        x = p
    return False

class Scopes(ast.NodeVisitor):
    """lexical scopes with their bindings: name -> list of ('import', dotted) / ('alias', expression) / ('other',)"""
    def __init__(self, tree):
        self.scope_of = {}; self.binds = {}; self.parent = {}; self.kind = {}
        self.parents = {}
        for x in ast.walk(tree):
            for c in ast.iter_child_nodes(x): self.parents[c] = x
        self.cur = tree; self.binds[tree] = {}; self.parent[tree] = None; self.kind[tree] = "module"; self.glob = {tree: set()}
        for s in tree.body: self.visit(s)
    def bind(self, name, what, scope=None):
        sc = scope or self.cur
        if name in self.glob.get(sc, ()):
            while self.parent[sc] is not None: sc = self.parent[sc]
        self.binds[sc].setdefault(name, []).append(what)
    def visit(self, n):
        self.scope_of[n] = self.cur
        super().visit(n)
    def scope(self, n, kind, body):
        save = self.cur
        self.binds[n] = {}; self.parent[n] = save; self.kind[n] = kind; self.glob[n] = set()
        self.cur = n
        if kind == "function":
            for b in body:
                for x in libs.walk_flat(b):
                    if isinstance(x, ast.Global): self.glob[n] |= set(x.names)
        for b in body: self.visit(b)
        self.cur = save
    def visit_FunctionDef(self, n):
        self.bind(n.name, ("other",))
        for d in n.decorator_list: self.visit(d)
        for d in n.args.defaults + [d for d in n.args.kw_defaults if d is not None]: self.visit(d)
        for a in self.args(n): 
            if a.annotation is not None: self.visit(a.annotation)
        if n.returns is not None: self.visit(n.returns)
        self.scope(n, "function", [])
        save = self.cur; self.cur = n
        for b in n.body:
            for x in libs.walk_flat(b):
                if isinstance(x, ast.Global): self.glob[n] |= set(x.names)
        for a in self.args(n): self.bind(a.arg, ("other",))
        for b in n.body: self.visit(b)
        self.cur = save
    visit_AsyncFunctionDef = visit_FunctionDef
    def args(self, n):
        a = n.args
        return a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else [])
    def visit_Lambda(self, n):
        for d in n.args.defaults + [d for d in n.args.kw_defaults if d is not None]: self.visit(d)
        save = self.cur
        self.scope(n, "function", [])
        self.cur = n
        for a in self.args(n): self.bind(a.arg, ("other",))
        self.visit(n.body)
        self.cur = save
    def visit_ClassDef(self, n):
        self.bind(n.name, ("other",))
        for d in n.decorator_list + n.bases + [k.value for k in n.keywords]: self.visit(d)
        self.scope(n, "class", n.body)
    def comp(self, n):
        save = self.cur
        for i, g in enumerate(n.generators):
            if i == 0:
                self.visit(g.iter)
                self.binds[n] = {}; self.parent[n] = save; self.kind[n] = "function"; self.glob[n] = set(); self.cur = n
            else: self.visit(g.iter)
            self.visit(g.target)
            for c in g.ifs: self.visit(c)
        for f in ("elt", "key", "value"):
            if hasattr(n, f): self.visit(getattr(n, f))
        self.cur = save
    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = comp
    def visit_Import(self, n):
        for a in n.names:
            if a.asname: self.bind(a.asname, ("import", a.name))
            else: self.bind(a.name.split(".")[0], ("import", a.name.split(".")[0]))
    def visit_ImportFrom(self, n):
        for a in n.names:
            if n.level or (n.module or "").split(".")[0] == PKG: self.bind(a.asname or a.name, ("other",))
            elif a.name == "*": self.bind("*", ("other",))
            else: self.bind(a.asname or a.name, ("import", n.module + "." + a.name))
    def visit_Assign(self, n):
        self.visit(n.value)
        for t in n.targets:
            if isinstance(t, ast.Name) and isinstance(n.value, (ast.Name, ast.Attribute)): self.bind(t.id, ("alias", n.value))
            else: self.visit(t)
        for t in n.targets: self.scope_of[t] = self.cur
    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)): self.bind(n.id, ("other",))
    def visit_ExceptHandler(self, n):
        if n.name: self.bind(n.name, ("other",))
        self.generic_visit(n)
    def visit_NamedExpr(self, n):
        self.visit(n.value); self.bind(n.target.id, ("other",))
    def visit_MatchAs(self, n):
        if n.name: self.bind(n.name, ("other",))
        self.generic_visit(n)
    visit_MatchStar = visit_MatchAs
    def visit_MatchMapping(self, n):
        if n.rest: self.bind(n.rest, ("other",))
        self.generic_visit(n)
    # resolution
    def lookup(self, name, scope):
        s = scope; first = True
        while s is not None:
            if (self.kind[s] != "class" or first) and name in self.binds[s]: return s, self.binds[s][name]
            first = False
            s = self.parent[s]
        return None
    def dotted(self, e, depth=0):
        """library name an expression stands for, if it certainly does"""
        if depth > 8: return None
        if isinstance(e, ast.Attribute):
            b = self.dotted(e.value, depth + 1)
            return None if b is None else b + "." + e.attr
        if isinstance(e, ast.Name):
            r = self.lookup(e.id, self.scope_of.get(e, None))
            if r is None: return None
            s, bs = r
            outs = set()
            for b in bs:
                if b[0] == "import": outs.add(b[1])
                elif b[0] == "alias": outs.add(self.dotted(b[1], depth + 1))
                else: outs.add(None)
            return outs.pop() if len(outs) == 1 else None
        return None

def where(m, n): return "%s:%d" % (m.file, getattr(n, "lineno", 0))

def libraries(ck, m):
    sc = ck.cache.setdefault(("scopes", m.name), None) or Scopes(m.tree)
    ck.cache[("scopes", m.name)] = sc
    rel = m.name
    seen = {}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Import):
            for a in n.names: seen.setdefault(("import", a.name), n)
        elif isinstance(n, ast.ImportFrom) and not n.level and (n.module or "").split(".")[0] != PKG:
            for a in n.names: seen.setdefault(("import", n.module + ("." + a.name if a.name != "*" else "")), n)
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            d = sc.dotted(n)
            if d is not None and not handlers_catch(n, sc.parents, ("AttributeError",)): seen.setdefault(("use", d), n)
    for (kind, d), n in sorted(seen.items(), key=lambda kv: kv[0]):
        key = "%s:%s %s" % (rel, kind, d)
        r, w = libs.exists(d)
        if r == libs.YES: ck.ok(key, "provided", where(m, n))
        elif r == libs.UNKNOWN:
            ck.ok(key, "resolves up to %s" % w, where(m, n)) if w != d and w is not None and w.count(".") >= 0 and libs.exists(w)[0] == libs.YES else ck.unk(key, "cannot be decided from the sources: %s" % w)
        else:
            if handlers_catch(n, sc.parents, ("ImportError", "ModuleNotFoundError", "AttributeError")): ck.ok(key, "guarded", where(m, n)); continue
            ck.bad(key, "%s does not exist in the installed packages (first missing: %s)" % (d, w), where(m, n))

# ---- names --------------------------------------------------------------------------------------
def names(ck, m):
    sc = ck.cache[("scopes", m.name)]
    if any("*" in b for b in sc.binds.values()): ck.unk(m.name + ":names bound", "star import"); return
    n_all = 0; missing = {}
    dyn = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("exec", "eval", "globals", "vars") for x in ast.walk(m.tree))
    for x in ast.walk(m.tree):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
            n_all += 1
            s = sc.scope_of.get(x)
            if s is None: continue
            if sc.lookup(x.id, s) is None and not hasattr(builtins, x.id) and x.id not in ("__file__", "__name__", "__doc__", "__class__", "__builtins__", "__package__", "__path__", "__spec__"):
                if handlers_catch(x, sc.parents, ("NameError",)): continue
                missing.setdefault(x.id, x)
    for k, x in sorted(missing.items()):
        (ck.unk if dyn else lambda a, b: ck.bad(a, b, where(m, x)))("%s:name %s" % (m.name, k), "name %s is not defined in any enclosing scope" % k)
    if not missing: ck.ok("%s:every name is bound" % m.name, "%d name references" % n_all, m.file)

# ---- import order -------------------------------------------------------------------------------
def import_order(ck):
    """execute the package's import statements in order, starting with the package itself"""
    mods = ck.prog.modules
    state = {}; bound = {}
    problems = []
    import os as _os
    def rel(name, level, mod, pkg):
        if not level: return mod
        parts = name.split(".")
        if not pkg: parts = parts[:-1]
        parts = parts[:len(parts) - (level - 1)]
        return ".".join(parts + ([mod] if mod else []))
    def load(name):
        if name in state or name not in mods: return
        m = mods[name]
        state[name] = "running"; bound[name] = set()
        run(m, m.tree.body)
        state[name] = "done"
    def target(t):
        return [x.id for x in ast.walk(t) if isinstance(x, ast.Name)]
    def run(m, body):
        pkg = m.file.endswith("__init__.py")
        for s in body:
            if isinstance(s, ast.ImportFrom):
                src = rel(m.name, s.level, s.module, pkg)
                if (src or "").split(".")[0] != PKG:
                    for a in s.names: bound[m.name].add(a.asname or a.name)
                    continue
                load(src)
                if src not in mods:
                    problems.append((m, s, "%s imports from %s, which does not exist" % (m.name, src))); continue
                for a in s.names:
                    if a.name == "*": bound[m.name] |= bound.get(src, set()); continue
                    sub = src + "." + a.name
                    if a.name not in bound.get(src, ()):
                        if sub in mods: load(sub)
                        elif state.get(src) == "running": problems.append((m, s, "%s imports %s from %s while that module is still being initialised and has not bound it (circular import)" % (m.name, a.name, src)))
                        else: problems.append((m, s, "%s imports %s from %s, which does not define it" % (m.name, a.name, src)))
                    bound[m.name].add(a.asname or a.name)
                bound.setdefault(PKG, set())
                if src.startswith(PKG + "."): bound[PKG].add(src.split(".")[1])
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.name.split(".")[0] == PKG: load(a.name)
                    bound[m.name].add(a.asname or a.name.split(".")[0])
            elif isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)): bound[m.name].add(s.name)
            elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                for t in (s.targets if isinstance(s, ast.Assign) else [s.target]): bound[m.name] |= set(target(t))
            elif isinstance(s, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                k = len(problems)
                for f in ("body", "orelse", "finalbody"): run(m, getattr(s, f, []) or [])
                for h in getattr(s, "handlers", []) or []: run(m, h.body)
                del problems[k:]                # conditional: not certain
                if isinstance(s, ast.For): bound[m.name] |= set(target(s.target))
            elif isinstance(s, ast.Delete):
                for t in s.targets: bound[m.name] -= set(target(t))
    load(PKG)
    for m, s, msg in problems: ck.bad("import order:%s" % msg.split(",")[0][:90], msg, where(m, s))
    if not problems: ck.ok("import order", "%d modules" % len(state), "dreimac/__init__.py")
    for name in sorted(mods):
        if name not in state and name.startswith(PKG): load(name)

# ---- the API reference ----------------------------------------------------------------------------
def documented(ck):
    out = set()
    import os as _os
    p = _os.path.join(ck.root, "docs", "api.rst")
    try: txt = open(p).read()
    except OSError: return None
    for x in re.findall(r"^\s+%s\.([A-Za-z_][\w.]*)\s*$" % PKG, txt, re.M): out.add(x)
    for x in re.findall(r"autoclass::\s+%s\.([A-Za-z_]\w*)" % PKG, txt): out.add(x)
    return out

def root_name(ck, nm):
    m = ck.prog.modules.get(PKG)
    if m is None: return None
    return ck.prog.base.frames[m.fid].get(nm)

def params(f):
    a = f.node.args
    pos = a.posonlyargs + a.args
    nd = len(pos) - len(a.defaults)
    out = [(p.arg, i >= nd, True) for i, p in enumerate(pos)]
    kwo = [(p.arg, d is not None, False) for p, d in zip(a.kwonlyargs, a.kw_defaults)]
    return out, kwo, a.vararg is not None, a.kwarg is not None

def api(ck):
    docs = documented(ck)
    want = set(API) | {k.split(".")[0] for k in API}
    if docs is not None: want |= docs
    for q in sorted(want):
        parts = q.split(".")
        key = "API:%s" % q
        cls = root_name(ck, parts[0])
        if cls is None: ck.bad(key, "dreimac.%s cannot be imported from the package" % parts[0], "dreimac/__init__.py"); continue
        if not isinstance(cls, vg.ClassV):
            if len(parts) == 1 and isinstance(cls, (vg.FuncV, vg.Node)): ck.ok(key)
            elif isinstance(cls, vg.LibV) and cls.name.startswith(PKG): ck.bad(key, "dreimac.%s cannot be imported from the package" % parts[0], "dreimac/__init__.py")
            else: ck.unk(key, "not a class")
            continue
        if len(parts) == 1: ck.ok(key, "class", "dreimac/__init__.py"); continue
        f = cls.lookup(parts[1])
        if f is None:
            if opened(cls): ck.unk(key, "library base class")
            else: ck.bad(key, "%s has no attribute %s" % (parts[0], parts[1]), "%s:%d" % (cls.mod.file, cls.node.lineno))
            continue
        if isinstance(f, vg.Ref) or not isinstance(f, vg.FuncV): ck.unk(key, "not a plain function"); continue
        site = "%s:%d %s" % (f.mod.file, f.node.lineno, q)
        if f.deco_unknown: ck.unk(key, "decorated"); continue
        ctor = parts[1] == "__init__" or parts[1].startswith("get_coordinates")
        pos, kwo, va, kwa = params(f)
        if not f.static:
            if not pos and not va: ck.bad(key, "takes no receiver", site); continue
            pos = pos[1:]
        if q in API:
            spec_ = [(p.rstrip("="), p.endswith("=")) for p in API[q].split()]
            inst = cls.name in ("CircularCoords", "ToroidalCoords", "ProjectiveCoords", "ComplexProjectiveCoords", "LensCoords")
            if not inst and not f.static and not f.classm:
                ck.bad(key + ":callable on the class", "%s is no longer callable on the class itself" % q, site); continue
            have = {p: (d, isp) for p, d, isp in pos + kwo}
            probs = []
            for i, (p, opt) in enumerate(spec_):
                if p not in have:
                    if not kwa: probs.append("parameter %s is not accepted" % p)
                    continue
                if opt and not have[p][0]: probs.append("parameter %s, documented as optional, has become required" % p)
                if have[p][1] and [x for x, _, _ in pos].index(p) != i: probs.append("parameter %s is no longer at position %d" % (p, i))
                if not have[p][1]: probs.append("parameter %s can no longer be given by position" % p)
            for p, (d, isp) in have.items():
                if not d and p not in [x for x, _ in spec_]: probs.append("undocumented parameter %s is required" % p)
            if probs: ck.bad(key, "; ".join(probs[:3]), site)
            else: ck.ok(key, "%d documented parameters" % len(spec_), site)
        elif docs is not None and q in docs: ck.ok(key, "exists", site)
        # its own documentation
        doc = ast.get_docstring(f.node) or (ast.get_docstring(cls.node) if parts[1] == "__init__" and "__init__" in cls.attrs else "") or ""
        for p in doc_params(doc):
            k2 = key + ":documents " + p
            if any(p == x for x, _, _ in pos + kwo): ck.ok(k2, "accepted", site)
            elif kwa: ck.unk(k2, "keyword dictionary")
            else: ck.bad(k2, "the documentation lists parameter %s, which %s does not accept" % (p, q), site)

def doc_params(doc):
    """parameter names of a numpydoc 'Parameters' section"""
    lines = doc.splitlines()
    out = []
    for i, l in enumerate(lines[:-1]):
        if l.strip() in ("Parameters", "Other Parameters") and set(lines[i + 1].strip()) == {"-"} and len(lines[i + 1].strip()) >= 3:
            ind = len(l) - len(l.lstrip())
            j = i + 2
            while j < len(lines):
                s = lines[j]
                if j + 1 < len(lines) and lines[j + 1].strip() and set(lines[j + 1].strip()) == {"-"} and s.strip(): break
                if s.strip() and len(s) - len(s.lstrip()) == ind:
                    mm = re.match(r"\s*([A-Za-z_]\w*(?:\s*,\s*[A-Za-z_]\w*)*)\s*:", s)
                    if mm: out += [x.strip() for x in mm.group(1).split(",")]
                j += 1
    return out

def opened(cls):
    st = [cls]
    while st:
        c = st.pop()
        for b in c.bases:
            if isinstance(b, vg.ClassV): st.append(b)
            elif isinstance(b, vg.LibV) and b.name == "builtins.object": pass
            else: return True
    return False

# ---- attributes of the package's own instances -----------------------------------------------------
def instances(ck):
    """self.<name> read in a method of a class of the package: some method or class body of its hierarchy defines it"""
    classes = {}
    for m in ck.prog.modules.values():
        if m.name.split(".")[-1].startswith("zz_"): continue
        for v in ck.prog.base.frames[m.fid].values():
            if isinstance(v, vg.ClassV) and v.mod is m: classes[v.name] = v
    def hier(c):
        out = []; st = [c]
        while st:
            x = st.pop()
            if x in out: continue
            out.append(x); st += [b for b in x.bases if isinstance(b, vg.ClassV)]
        return out
    desc = {c: [d for d in classes.values() if c in hier(d)] for c in classes.values()}
    def defined(c):
        out = set(); dyn = False
        for k in hier(c):
            out |= set(k.attrs)
            for x in ast.walk(k.node):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name): out.add(x.attr)
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "setattr": dyn = True
                if isinstance(x, ast.Attribute) and x.attr in ("__dict__", "__slots__"): dyn = True
            if "__getattr__" in k.attrs or "__getattribute__" in k.attrs: dyn = True
        return out, dyn or opened(c)
    for c in classes.values():
        n = 0; bad = False
        sc = ck.cache.get(("scopes", c.mod.name))
        for f in c.node.body:
            if not isinstance(f, ast.FunctionDef): continue
            deco = {d.id for d in f.decorator_list if isinstance(d, ast.Name)}
            if "staticmethod" in deco or not f.args.args: continue
            me = f.args.args[0].arg
            for x in ast.walk(f):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == me:
                    n += 1
                    # every concrete descendant that inherits this method
                    ok = False
                    for d in desc[c]:
                        names_, dyn = defined(d)
                        if dyn or x.attr in names_ or x.attr in dir(object): ok = True
                    if not ok and not handlers_catch(x, sc.parents, ("AttributeError",)) and not ("hasattr" in ast.dump(f) and repr(x.attr) in ast.dump(f)):
                        bad = True
                        ck.bad("%s.%s:self.%s" % (c.name, f.name, x.attr), "self.%s is read but nothing in the class hierarchy of %s defines it" % (x.attr, c.name), where(c.mod, x))
        if n and not bad: ck.ok("%s:attributes of self defined" % c.name, "%d reads" % n, "%s:%d" % (c.mod.file, c.node.lineno))
    # attributes of the package's classes named explicitly
    for m in ck.prog.modules.values():
        if m.name.split(".")[-1].startswith("zz_"): continue
        sc = ck.cache.get(("scopes", m.name))
        fr = ck.prog.base.frames[m.fid]
        n = 0; bad = False
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name):
                r = sc.lookup(x.value.id, sc.scope_of.get(x.value)) if sc.scope_of.get(x.value) is not None else None
                if r is None or r[0] is not m.tree: continue
                v = fr.get(x.value.id)
                if isinstance(v, vg.ClassV):
                    n += 1
                    if v.lookup(x.attr) is None and not opened(v) and x.attr not in dir(type):
                        st = any(isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store) and y.attr == x.attr for mm in ck.prog.modules.values() for y in ast.walk(mm.tree))
                        if st or handlers_catch(x, sc.parents, ("AttributeError",)): continue
                        bad = True
                        ck.bad("%s:%s.%s" % (m.name, v.name, x.attr), "class %s has no attribute %s" % (v.name, x.attr), where(m, x))
                elif isinstance(v, vg.ModV):
                    n += 1
                    if x.attr not in ck.prog.base.frames[v.mod.fid] and v.mod.name + "." + x.attr not in ck.prog.modules:
                        bad = True
                        ck.bad("%s:%s.%s" % (m.name, v.mod.name, x.attr), "module %s has no attribute %s" % (v.mod.name, x.attr), where(m, x))
        if n and not bad: ck.ok("%s:attributes of the package's classes exist" % m.name, "%d references" % n, m.file)

# ---- methods of library objects and calls of the package's own functions -----------------------------
def vocab():
    """names that arrays, sparse containers and plot axes provide (over-approximated)"""
    f = libs.site_file("numpy", "__init__.pyi")
    arr = libs.members({"ndarray", "_ArrayOrScalarCommon", "generic", "number", "floating", "integer"}, [f]) if f else None
    import glob as _g
    sp = None
    d = libs.site_file("scipy", "sparse")
    if d: sp = libs.members(None, _g.glob(d + "/_*.py"))
    ax = None
    d = libs.site_file("matplotlib", "axes")
    if d:
        fs = _g.glob(d + "/*.py") + [libs.site_file("matplotlib", x) for x in ("artist.py", "cm.py", "projections/polar.py")] + _g.glob(str(libs.site_file("mpl_toolkits", "mplot3d")) + "/*.py")
        ax = libs.members(None, [x for x in fs if x])
        if ax is not None:
            for x in fs:
                if x: ax |= set(re.findall(r"self\.([A-Za-z_]\w*)\s*=", open(x, encoding="utf-8").read()))
            ax |= {"xaxis", "yaxis", "zaxis", "spines"}
    return arr, sp, ax

SCALARISH = set(dir(0)) | set(dir(0.0)) | set(dir(0j)) | set(dir(""))
SEQ = set(dir([])) | set(dir(())) | set(dir({})) | set(dir(""))

def receiver(n, t, depth=0):
    """'array' / 'sparse' / 'axes' / None for a value"""
    kinds = set(); st = [n]; k = 0
    while st and k < 60:
        k += 1
        x = st.pop()
        if x.op == "phi": st += [x.args[1], x.args[2]]
        elif x.op == "sym":
            if x.args[0] == "ax": kinds.add("axes")
            elif x.args[0] in t and t[x.args[0]].rank: kinds.add("array")
            else: kinds.add(None)
        elif x.op in ("or", "and"): st += [y for y in x.args if isinstance(y, vg.Node)]
        elif x.op == "const" and x.args[0] is None: pass
        elif x.op == "call" and isinstance(x.args[0], str):
            nm = x.args[0]
            if nm in ("matplotlib.pyplot.gca", "matplotlib.pyplot.axes", "matplotlib.pyplot.subplot"): kinds.add("axes")
            elif nm.startswith("scipy.sparse.") and nm.rsplit(".", 1)[1] in ("csr_array", "csr_matrix", "csc_array", "csc_matrix", "coo_array", "coo_matrix", "lil_matrix", "lil_array", "dok_matrix", "dok_array"): kinds.add("sparse")
            elif nm.startswith("numpy.") and nm.count(".") == 1 and not nm.endswith(("histogram", "unique", "meshgrid", "nonzero", "where", "dtype", "gradient", "ix_", "split", "array_split", "modf", "frexp", "divmod", "shape", "size", "ndim")): kinds.add("array")
            elif nm in ("numpy.linalg.norm", "numpy.random.random", "numpy.random.randn", "numpy.random.rand", "numpy.linalg.inv", "numpy.linalg.solve"): kinds.add("array")
            else: kinds.add(None)
        elif x.op in ("add", "sub", "mul", "div", "pow", "neg") and depth < 12:
            ks = {receiver(y, t, depth + 1) for y in x.args if isinstance(y, vg.Node)}
            kinds.add("array" if "array" in ks and not ks & {"sparse", "axes"} else None)
        elif x.op == "index" and any(isinstance(y, vg.Node) and (y.op == "slice" or isconst(y, None)) for y in x.args[1]) and depth < 12:
            k2 = receiver(x.args[0], t, depth + 1)
            kinds.add("array" if k2 == "array" else None)
        elif x.op in ("store", "viewset", "fillwith"):
            if isinstance(x.args[0], vg.Node): st.append(x.args[0])
        else: kinds.add(None)
    return kinds.pop() if len(kinds) == 1 else None

def objects(ck):
    arr, sp, ax = vocab()
    have = {"array": arr and arr | SCALARISH, "sparse": sp, "axes": ax}
    n = {}; bad = False; calls = 0
    for q, cn, nm, f, cls, r, t in runs(ck):
        for e in r.effects:
            if e.kind == "mcall":
                name, rec = e.data[0], e.data[1]
                k = receiver(rec, t) if isinstance(rec, vg.Node) else None
                if k and have.get(k):
                    n[k] = n.get(k, 0) + 1
                    if name not in have[k] and not any(c.op == "exccond" for c, _ in e.path if isinstance(c, vg.Node)):
                        bad = True
                        ck.bad("%s:%s method %s" % (q, k, name), "%s objects have no method %s" % ({"array": "array", "sparse": "sparse", "axes": "plot axes"}[k], name), e.site)
            elif e.kind == "bad-call":
                bad = True
                ck.bad("%s:call %s" % (q, e.data[0]), "call of %s: %s" % e.data, e.site)
            elif e.kind == "missing-attr":
                bad = True
                ck.bad("%s:attribute %s.%s" % (q, e.data[0], e.data[1]), "%s has no attribute %s" % e.data, e.site)
            elif e.kind == "call": calls += 1
        for x in every_node(r):
            if x.op == "attr" and isinstance(x.args[1], str):
                k = receiver(x.args[0], t)
                if k and have.get(k):
                    n[k] = n.get(k, 0) + 1
                    if x.args[1] not in have[k]:
                        bad = True
                        ck.bad("%s:%s attribute %s" % (q, k, x.args[1]), "%s objects have no attribute %s" % (k, x.args[1]), r.site0)
    if not bad: ck.ok("methods of library objects and calls of the package's functions", "%s, %d calls" % (n, calls), "dreimac")

def check(ck):
    if not libs.SITE: ck.unk("installed packages", "site-packages not found"); return
    mods = [m for nme, m in sorted(ck.prog.modules.items()) if nme.split(".")[0] == PKG and not nme.split(".")[-1].startswith("zz_")]
    for m in mods:
        ck.guard(m.name + ":libraries", libraries, ck, m)
        ck.guard(m.name + ":names", names, ck, m)
    ck.guard("import order", import_order, ck)
    ck.guard("API", api, ck)
    ck.guard("instances", instances, ck)
    ck.guard("objects", objects, ck)

U = "dreimac/utils.py"; EM = "dreimac/emcoords.py"; PU = "dreimac/plotting_utils.py"; IN = "dreimac/__init__.py"; TC = "dreimac/toroidalcoords.py"; LC = "dreimac/lenscoords.py"
SELFTEST = [
    ("lens utils not exported", IN, ", LensMapUtils", "", "bad"),
    ("np.product", EM, "np.max(", "np.amax(", "quiet"),
    ("removed float_", U, "D = np.zeros((M, N))", "D = np.zeros((M, N), dtype=np.float_)", "bad"),
    ("float64", U, "D = np.zeros((M, N))", "D = np.zeros((M, N), dtype=np.float64)", "quiet"),
    ("guarded removed name", U, "        D = np.zeros((M, N))", "        try:\n            D = np.zeros((M, N), dtype=np.float_)\n        except AttributeError:\n            D = np.zeros((M, N))", "quiet"),
    ("trapz", U, "        C[C < 0] = 0\n        return np.sqrt(C)", "        C[C < 0] = 0\n        np.trapz(C)\n        return np.sqrt(C)", "bad"),
    ("alias of a submodule", U, "        C[C < 0] = 0\n        return np.sqrt(C)", "        C[C < 0] = 0\n        la = np.linalg\n        la.norm2(C)\n        return np.sqrt(C)", "bad"),
    ("alias of a submodule ok", U, "        C[C < 0] = 0\n        return np.sqrt(C)", "        C[C < 0] = 0\n        la = np.linalg\n        la.norm(C)\n        return np.sqrt(C)", "quiet"),
    ("shadowed np", U, "    def get_ssm(X):\n        return", "    def get_ssm(X):\n        def f(np):\n            return np.whatever\n        return", "quiet"),
    ("import moved", U, "from scipy.spatial import KDTree", "from scipy.spatial.kdtrees import KDTree", "bad"),
    ("import elsewhere ok", U, "from scipy.spatial import KDTree", "from scipy.spatial import cKDTree as KDTree", "quiet"),
    ("function level import", U, "        C[C < 0] = 0\n        return np.sqrt(C)", "        from scipy.misc import logsumexp\n        C[C < 0] = 0\n        return np.sqrt(C)", "bad"),
    ("undefined name", U, "        C[C < 0] = 0\n        return np.sqrt(C)", "        C[C < 0] = 0\n        return math.sqrt(C)", "bad"),
    ("dropped import", U, "from scipy.sparse.csgraph import shortest_path\n", "", "bad"),
    ("parameter renamed", U, ["def offset(circle_map, offset):", "(circle_map + offset *"], ["def offset(circle_map, shift):", "(circle_map + shift *"], "bad"),
    ("default dropped", U, "def levelset_coloring(circle_map, n_levelsets=4, smoothing=0.25):", "def levelset_coloring(circle_map, n_levelsets, smoothing=0.25):", "bad"),
    ("parameters swapped", U, "def get_greedy_perm_dm(D, M):", "def get_greedy_perm_dm(M, D):", "bad"),
    ("optional parameter added", U, "def get_greedy_perm_dm(D, M):", "def get_greedy_perm_dm(D, M, start=0):", "quiet"),
    ("method removed", U, "    def line_patches(", "    def _line_patches(", "bad"),
    ("not static", U, "    @staticmethod\n    def trefoil(", "    def trefoil(", "bad"),
    ("missing field", EM, "self._dist_land_data", "self._dist_land_dat", "quiet"),
    ("missing field read", LC, "self._n_landmarks", "self._nlandmarks", "bad"),
    ("missing helper", LC, "EquivariantPCA.ppca(", "EquivariantPCA.pca(", "bad"),
    ("circular import", "dreimac/combinatorial.py", "from numba import jit\n", "from numba import jit\nfrom .utils import GeometryUtils\n", "bad"),
    ("ndarray ptp", U, "        C[C < 0] = 0\n        return np.sqrt(C)", "        C[C < 0] = 0\n        C.ptp()\n        return np.sqrt(C)", "bad"),
    ("np ptp", U, "        C[C < 0] = 0\n        return np.sqrt(C)", "        C[C < 0] = 0\n        np.ptp(C)\n        return np.sqrt(C)", "quiet"),
    ("axes method", PU, "        ax.set_xlim3d(", "        ax.set_xlims3d(", "bad"),
    ("colormap getter", PU, "plt.get_cmap(", "plt.cm.get_cmap(", "bad"),
]
