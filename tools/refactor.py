"""
refactor.py DEST [--seed S] [--kinds a,b,...]

False-alarm measurement: rewrites every source file of a throw-away copy of the repository (DEST) with edits that keep the behaviour -
local variables renamed, comparisons turned round, if/else branches swapped, function bodies moved into helpers, sums of conditions
unfolded, loops over comprehensions unrolled, statements that do nothing in between - and leaves it there for the checks
(DST_REPO=DEST python3 dst/check.py Pxx --no-evidence).  All of them have to stay quiet.
"""
import ast, sys, os, random, shutil, subprocess, argparse
SRC = os.environ.get("DST_REPO_SRC", "/repo")
KINDS = ["rename", "flip", "swap", "extract", "noop", "unroll", "temp"]
ap = argparse.ArgumentParser(); ap.add_argument("dest"); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--kinds", default=",".join(KINDS))
ap.add_argument("--p", type=float, default=0.7); a = ap.parse_args()
rng = random.Random(a.seed); kinds = a.kinds.split(",")
on = lambda k: k in kinds and rng.random() < a.p
TURN = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

def calls(n): return any(isinstance(x, (ast.Call, ast.Await, ast.Yield, ast.NamedExpr)) and not (isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("len", "sum", "abs")) for x in ast.walk(n))

class Flip(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in TURN and not (calls(n.left) and calls(n.comparators[0])) and on("flip"):
            return ast.Compare(n.comparators[0], [TURN[type(n.ops[0])]()], [n.left])
        return n
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)) and on("swap"):
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n

def names(fn, ctx=None): return [x for x in ast.walk(fn) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))]

def rename(fn):
    args = {x.arg for x in ast.walk(fn) if isinstance(x, ast.arg)}
    taken = set()
    for x in ast.walk(fn):
        if isinstance(x, (ast.Global, ast.Nonlocal)): taken |= set(x.names)
        if isinstance(x, ast.ExceptHandler) and x.name: taken.add(x.name)
        if isinstance(x, (ast.FunctionDef, ast.ClassDef)): taken.add(x.name)
        if isinstance(x, (ast.Import, ast.ImportFrom)): taken |= {(y.asname or y.name).split(".")[0] for y in x.names}
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("locals", "vars", "eval", "exec"): return
    mine = sorted({x.id for x in names(fn, ast.Store)} - args - taken)
    m = {v: "%s_%d" % (v, j) for j, v in enumerate(mine) if on("rename")}
    for x in names(fn):
        if x.id in m: x.id = m[x.id]

def temps(body):
    """return EXPR -> result = EXPR; return result    and    x = [.. for ..] -> a loop"""
    out = []
    for s in body:
        for f in ("body", "orelse", "finalbody"):
            if getattr(s, f, None) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)): setattr(s, f, temps(getattr(s, f)))
        for h in getattr(s, "handlers", []): h.body = temps(h.body)
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)) and on("temp"):
            out += [ast.Assign([ast.Name("the_result", ast.Store())], s.value), ast.Return(ast.Name("the_result", ast.Load()))]
        elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1 \
                and isinstance(s.value.generators[0].target, ast.Name) and s.targets[0].id not in {x.id for x in names(s.value)} and on("unroll") \
                and not any(isinstance(x, ast.Lambda) for x in ast.walk(s.value)):
            g = s.value.generators[0]; v = "each_" + g.target.id
            if any(isinstance(x, ast.comprehension) for x in ast.walk(s.value.elt)): out.append(s); continue
            for x in names(s.value.elt) + [y for i in g.ifs for y in names(i)]:
                if x.id == g.target.id: x.id = v
            t = s.targets[0].id
            add = ast.Expr(ast.Call(ast.Attribute(ast.Name(t, ast.Load()), "append", ast.Load()), [s.value.elt], []))
            for i in reversed(g.ifs): add = ast.If(i, [add], [])
            out += [ast.Assign([ast.Name(t, ast.Store())], ast.List([], ast.Load())), ast.For(ast.Name(v, ast.Store()), g.iter, [add], [])]
        else: out.append(s)
    return out

def noops(body, doc):
    out = []
    for j, s in enumerate(body):
        for f in ("body", "orelse", "finalbody"):
            if getattr(s, f, None) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)): setattr(s, f, noops(getattr(s, f), False))
        for h in getattr(s, "handlers", []): h.body = noops(h.body, False)
        if not (j == 0 and doc) and on("noop"): out.append(ast.Assign([ast.Name("_nothing", ast.Store())], ast.Constant(None)))
        out.append(s)
    return out

def has_doc(fn): return bool(fn.body) and isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) and isinstance(fn.body[0].value.value, str)

def extract(fn, method):
    g = fn.args
    if g.vararg or g.kwarg or g.kwonlyargs or g.posonlyargs or fn.name.startswith("__") or not on("extract"): return [fn]
    if any(isinstance(x, (ast.Yield, ast.YieldFrom)) or (isinstance(x, ast.Name) and x.id in ("super", "__class__")) for x in ast.walk(fn)): return [fn]
    static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in fn.decorator_list)
    if fn.decorator_list and not static: return [fn]
    doc = fn.body[:1] if has_doc(fn) else []
    body = fn.body[len(doc):]
    if not body or (method and static): return [fn]
    helper = ast.FunctionDef("_%s_steps" % fn.name, ast.arguments([], [ast.arg(x.arg) for x in g.args], None, [], [], None, []), body, [], None, None)
    helper.type_params = []
    first = [ast.Name(x.arg, ast.Load()) for x in g.args]
    if method: call = ast.Call(ast.Attribute(first[0], helper.name, ast.Load()), first[1:], [])
    else: call = ast.Call(ast.Name(helper.name, ast.Load()), first, [])
    fn.body = doc + [ast.Return(call)]
    return [fn, helper]

def do(tree, top=True):
    out = []
    for s in tree.body:
        if isinstance(s, ast.ClassDef): do(s, False); out.append(s)
        elif isinstance(s, ast.FunctionDef):
            doc = has_doc(s)
            d, b = (s.body[:1], s.body[1:]) if doc else ([], s.body)
            s.body = d + temps(b)
            rename(s)
            Flip().visit(s)
            s.body = noops(s.body, doc)
            out += extract(s, not top)
        else: out.append(s)
    tree.body = out

shutil.rmtree(a.dest, ignore_errors=True)
subprocess.run(["cp", "-a", SRC, a.dest], check=True)
n = 0
for d in ("", "old", "stock"):
    for f in sorted(os.listdir(os.path.join(a.dest, d))):
        if not f.endswith(".py") or f.endswith("_test.py"): continue
        p = os.path.join(a.dest, d, f); t = ast.parse(open(p).read())
        do(t)
        open(p, "w").write(ast.unparse(ast.fix_missing_locations(t)) + "\n"); n += 1
print(n, "files rewritten in", a.dest)
