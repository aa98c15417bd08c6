#!/usr/bin/env python3
"""python3 tools/mutate.py [file-substring] [every] [offset]: single syntactic mutants of the repository against all checks; prints those no check refutes"""
import ast, sys, importlib, threading, os, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
ORDER = "C24 C13 C08 C09 C19 C18 C17 C01 C04 C10 C07 C21 C22 C06 C16 C15 C03 C02 C12 C05 C14 C11 C20 C23 C25 C26".split()
FILES = ["emcoords", "utils", "toroidalcoords", "circularcoords", "lenscoords", "complexprojectivecoords", "projectivecoords", "plotting_utils", "combinatorial"]
def mutants(src):
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for l in lines: off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    seg = lambda n: b[slice(*pos(n))].decode()
    out = []
    def rep(n, new, what):
        a, z = pos(n); out.append((n.lineno, what, (b[:a] + new.encode() + b[z:]).decode()))
    def rep2(a, z, new, n, what): out.append((n.lineno, what, (b[:a] + new.encode() + b[z:]).decode()))
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant): skip.add(n.body[0])
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list: skip.add(d)
            for a in n.args.args:
                if a.annotation: skip.add(a.annotation)
        if isinstance(n, ast.Assert): skip.add(n)
        if isinstance(n, (ast.If,)) and "verbose" in seg(n.test): skip.add(n)
        if isinstance(n, (ast.Import, ast.ImportFrom)): skip.add(n)
        if isinstance(n, ast.Raise): skip.add(n)
    CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "=="}
    BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "*", ast.Pow: "*"}
    FN = {"argmax": "argmin", "minimum": "maximum", "maximum": "minimum", "max": "min", "min": "max", "cos": "sin", "sin": "cos", "sum": "mean", "zeros": "ones", "ones": "zeros", "floor": "ceil", "any": "all", "all": "any", "isfinite": "isnan"}
    DROP = {"abs", "conjugate", "copy", "sqrt", "rint", "fliplr", "reversed", "round", "real", "array", "isfinite"}
    def go(n):
        if n in skip: return
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            rep2(pos(n.left)[1], pos(n.comparators[0])[0], " %s " % CMP[type(n.ops[0])], n, "cmp " + seg(n)[:50])
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            mid = b[pos(n.left)[1]:pos(n.right)[0]].decode()
            op = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**"}[type(n.op)]
            if op in mid: rep2(pos(n.left)[1], pos(n.right)[0], mid.replace(op, BIN[type(n.op)], 1), n, "bin " + seg(n)[:50])
        if isinstance(n, ast.Constant) and not isinstance(n.value, str) and n.value is not None:
            if isinstance(n.value, bool): rep(n, str(not n.value), "bool " + seg(n))
            elif isinstance(n.value, int): rep(n, str(n.value + 1), "const " + seg(n))
            elif isinstance(n.value, float): rep(n, repr(n.value * 1.5), "const " + seg(n))
        if isinstance(n, ast.BoolOp): 
            rep2(pos(n.values[0])[1], pos(n.values[1])[0], b[pos(n.values[0])[1]:pos(n.values[1])[0]].decode().replace("and", "OR").replace("or", "and").replace("OR", "or"), n, "bool " + seg(n)[:50])
            rep(n, seg(n.values[0]), "first of " + seg(n)[:50])
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)): rep(n, "(" + seg(n.operand) + ")", "unary " + seg(n)[:40])
        if isinstance(n, ast.If): rep(n.test, "not (%s)" % seg(n.test), "if " + seg(n.test)[:50])
        if isinstance(n, ast.Attribute) and n.attr == "T" and isinstance(n.ctx, ast.Load): rep(n, seg(n.value), "T " + seg(n)[:40])
        if isinstance(n, ast.Call):
            f = n.func; nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
            if nm in FN: 
                z = pos(f)[1]; rep2(z - len(nm), z, FN[nm], n, "fn " + seg(n)[:50])
            if nm in DROP:
                if n.args: rep(n, "(" + seg(n.args[0]) + ")", "drop " + seg(n)[:50])
                elif isinstance(f, ast.Attribute): rep(n, seg(f.value), "drop " + seg(n)[:50])
            if len(n.args) >= 2 and seg(n.args[0]) != seg(n.args[1]):
                a0, a1 = n.args[0], n.args[1]
                rep2(pos(a0)[0], pos(a1)[1], seg(a1) + b[pos(a0)[1]:pos(a1)[0]].decode() + seg(a0), n, "swap " + seg(n)[:50])
            for k in n.keywords:
                if k.arg and len(n.keywords) + len(n.args) > 1:
                    a, z = off[k.lineno - 1] + k.col_offset, off[k.end_lineno - 1] + k.end_col_offset
                    j = a
                    while b[j - 1:j] in (b" ", b"\n", b"\t"): j -= 1
                    if b[j - 1:j] == b",": rep2(j - 1, z, "", n, "kw " + k.arg)
        if isinstance(n, (ast.Assign, ast.AugAssign)): rep(n, "pass", "del " + seg(n)[:60]) if isinstance(n, ast.AugAssign) or not isinstance(n.targets[0], ast.Name) else None
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call): rep(n, "pass", "del " + seg(n)[:60])
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            # a second assignment to the same name may be dropped
            rep(n, "pass", "del " + seg(n)[:60]) if seg(n.targets[0]) in seg(n.value) else None
        if isinstance(n, ast.Tuple) and isinstance(n.ctx, ast.Load) and len(n.elts) == 2: rep(n, "(" + seg(n.elts[1]) + ", " + seg(n.elts[0]) + ")", "tuple " + seg(n)[:40])
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Tuple) and len(n.slice.elts) == 2 and seg(n.slice.elts[0]) != seg(n.slice.elts[1]):
            rep(n.slice, seg(n.slice.elts[1]) + ", " + seg(n.slice.elts[0]), "ix " + seg(n)[:40])
        for c in ast.iter_child_nodes(n): go(c)
    go(tree)
    seen = set()
    for l, w, s in out:
        if s in seen or s == src: continue
        seen.add(s)
        try: ast.parse(s)
        except SyntaxError: continue
        yield l, w, s
def work(a):
    f, l, w, s = a
    sys.setrecursionlimit(20000); threading.stack_size(512 * 1024 * 1024)
    res = []
    def go():
        from sa import framework
        import time
        unk = {}
        for pid in ORDER:
            t0 = time.time()
            try:
                ck = framework.Check(pid, overlay={f: s})
                importlib.import_module("checks." + pid.lower()).check(ck)
                bad = [o for o in ck.obls if o.status == "bad"]
                if bad: res.append(("caught", pid, bad[0].key)); return
                k = sum(1 for o in ck.obls if o.status == "unknown") - {"C01": 2, "C03": 1}.get(pid, 0)
                if k > 0: unk[pid] = k
            except framework.Broken as e: res.append(("broken", pid, str(e))); return
            except Exception as e: unk[pid] = repr(e)[:60]
            if time.time() - t0 > 120: unk[pid] = "%ds" % (time.time() - t0)
        res.append(("SURVIVES", unk, ""))
    t = threading.Thread(target=go); t.start(); t.join()
    return f, l, w, res[0] if res else ("crash", "", "")
if __name__ == "__main__":
    from sa import framework
    pat = sys.argv[1] if len(sys.argv) > 1 else ""
    ev = int(sys.argv[2]) if len(sys.argv) > 2 else 1
    o = int(sys.argv[3]) if len(sys.argv) > 3 else 0
    jobs = []
    for m in FILES:
        f = "dreimac/%s.py" % m
        if pat not in f: continue
        jobs += [(f, l, w, s) for l, w, s in mutants(open(os.path.join(framework.REPO, f)).read())]
    n0 = len(jobs); jobs = jobs[o::ev]
    print(n0, "mutants,", len(jobs), "run", flush=True)
    if "-n" in sys.argv: sys.exit()
    n = 0
    with cf.ProcessPoolExecutor(8) as ex:
        for f, l, w, r in ex.map(work, jobs, chunksize=1):
            n += r[0] == "caught"
            print("%-10s %s:%d %s | %s %s" % (r[0], f, l, w.replace("\n", " "), r[1], r[2]), flush=True)
    print("caught", n, "of", len(jobs))
