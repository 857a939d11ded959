"""
mutate.py [--sample N] [--seed S] [--files a.py,b.py] [--jobs 8] [--runs 1200] OUT.jsonl

Sensitivity measurement: small random edits of the repository (one operator, constant, condition, bound or statement each), in throw-away
copies; the ones that pass the repository's stable tests are handed to the checks of the properties anchored in the edited file.  What no
check notices is printed for reading: it is either an edit without observable effect or a hole in a check.
"""
import ast, sys, os, json, random, subprocess, shutil, argparse, tempfile, concurrent.futures as cf
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = {
 "agents.py": "P10 P23 P16 P20",
 "markets.py": "P10 P24 P16 P11 P20 P01 P02 P14",
 "trade.py": "P15 P20 P16 P13 P06",
 "prices.py": "P08 P16 P19 P09 P20 P04",
 "prices_integer.py": "P08 P16 P19 P09 P20 P04",
 "recipetree.py": "P11 P25 P24 P16 P15 P19 P09 P20 P13 P02",
 "recipetree_integer.py": "P11 P25 P24 P16 P15 P19 P09 P20 P13 P02",
 "ascending_auction_protocol.py": "P16 P15 P09 P07 P20 P18 P01 P17",
 "ascending_auction_recipetree_protocol.py": "P16 P15 P09 P21 P20 P18 P01 P17",
 "ascending_auction_recipetree_integer_protocol.py": "P16 P15 P09 P21 P20 P18 P01 P17",
 "mcafee_protocol.py": "P16 P15 P09 P07 P20 P18 P01 P17",
 "trade_reduction_protocol.py": "P16 P15 P09 P07 P20 P18 P01 P17 P03",
 "get_stocks_data.py": "P14 P13", "recipetree.old.py": "P25 P11", "tree_calculations.py": "P25 P13",
 "old/SimultaneousAscendingPriceVector.py": "P22", "old/ascending_auction_multirecipe_protocol.py": "P22",
}
for f in ("experiment.py experiment_ascending_auction_recipetree_integer_random.py experiment_ascending_auction_recipetree_random.py "
          "experiment_ascending_auction_recipetree_stock.py experiment_ascending_auction_recipetree_integer_stock.py stock/experiment_stock.py "
          "stock/experiment_compare_iterations_autions.py stock/experiment_compare_iterations_autions_without_mcafee.py stock/experiment_compare_sbb_shufled_stock.py").split():
    PROPS[f] = "P13 P12 P14"

OPS = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "=="}
TXT = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}
BIN = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.Mult: ("*", "+"), ast.Div: ("/", "//"), ast.FloorDiv: ("//", "/"), ast.Mod: ("%", "//")}

def edits(src):
    tree = ast.parse(src)
    lines = src.split("\n"); off = [0]
    for l in lines: off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    out = []
    def rep(s, e, new, what): out.append((s, e, new, what))
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and isinstance(n.test.left, ast.Name) and n.test.left.id == "__name__":
            for m in ast.walk(n): skip.add(id(m))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant): skip.add(id(n)); skip.add(id(n.value))
        if isinstance(n, (ast.Expr,)) and isinstance(n.value, ast.Call):
            f = ast.unparse(n.value.func)
            if f in ("print", "logger.info", "logger.debug", "logger.warning") or "logger" in f or f.startswith("sys.stdout"):
                for m in ast.walk(n): skip.add(id(m))
        if isinstance(n, (ast.Import, ast.ImportFrom)): skip.add(id(n))
    for n in ast.walk(tree):
        if id(n) in skip: continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            s, e = pos(n.left)[1], pos(n.comparators[0])[0]
            t = type(n.ops[0])
            if t in OPS:
                mid = b[s:e].decode(); rep(s, e, mid.replace(TXT[t], OPS[t], 1), "cmp")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            s, e = pos(n.left)[1], pos(n.right)[0]
            o, w = BIN[type(n.op)]; mid = b[s:e].decode()
            if o in mid: rep(s, e, mid.replace(o, w, 1), "binop")
        elif isinstance(n, ast.Constant) and type(n.value) is int and abs(n.value) < 1000:
            s, e = pos(n); rep(s, e, str(n.value + 1), "const+1")
            if n.value > 0: rep(s, e, str(n.value - 1), "const-1")
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            s, e = pos(n); rep(s, e, str(not n.value), "bool")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            s, e = pos(n); s2, e2 = pos(n.operand); rep(s, e, b[s2:e2].decode(), "not")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            s, e = pos(n); s2, e2 = pos(n.operand); rep(s, e, b[s2:e2].decode(), "neg")
        elif isinstance(n, ast.BoolOp):
            s, e = pos(n.values[0])[1], pos(n.values[1])[0]; mid = b[s:e].decode()
            o, w = (" and ", " or ") if isinstance(n.op, ast.And) else (" or ", " and ")
            if o in mid: rep(s, e, mid.replace(o, w, 1), "bool-op")
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("min", "max", "list", "sorted", "abs", "int", "any", "all", "floor", "ceil"):
            s, e = pos(n.func)
            w = {"min": "max", "max": "min", "list": "", "sorted": "list", "abs": "", "int": "", "any": "all", "all": "any", "floor": "ceil", "ceil": "floor"}[n.func.id]
            rep(s, e, w, "call")
        elif isinstance(n, (ast.If, ast.While)):
            s, e = pos(n.test); rep(s, e, "False", "cond")
            if isinstance(n, ast.If): rep(s, e, "True", "cond")
        elif isinstance(n, ast.Break):
            s, e = pos(n); rep(s, e, "continue", "break"); rep(s, e, "pass", "break")
        elif isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            s, e = pos(n); rep(s, e, "pass", "drop")
        elif isinstance(n, ast.IfExp):
            s, e = pos(n); s1, e1 = pos(n.body); s2, e2 = pos(n.orelse)
            rep(s, e, "(" + b[s1:e1].decode() + ")", "ifexp"); rep(s, e, "(" + b[s2:e2].decode() + ")", "ifexp")
    return [(s, e, w, k) for s, e, w, k in out if b[s:e].decode() != w]

def apply(src, ed):
    b = src.encode(); s, e, w, _ = ed
    return (b[:s] + w.encode() + b[e:]).decode()

def one(job):
    i, f, ed, runs, only = job
    C = tempfile.mkdtemp(prefix="mut", dir="/tmp/x/mut") if os.path.isdir("/tmp/x/mut") else tempfile.mkdtemp(prefix="mut")
    try:
        rec = {"i": i, "file": f, "kind": ed[3]}
        subprocess.run("cp -a /repo/. %s && rm -rf %s/.git" % (C, C), shell=True, check=True)
        src = open(os.path.join("/repo", f)).read(); new = apply(src, ed)
        try: ast.parse(new)
        except SyntaxError: return dict(rec, res="syntax")
        l = src.encode()[:ed[0]].decode().count("\n")
        rec["line"] = l + 1; rec["old"] = src.split("\n")[l].strip()[:140]; rec["new"] = new.split("\n")[l].strip()[:140]
        rec["edit"] = list(ed)
        open(os.path.join(C, f), "w").write(new)
        t = open("/opt/vp/test.sh").read().replace("cd /repo", "cd " + C).replace("/opt/vp/reports", C + "/.reports").replace("--timeout=120", "--timeout=30")
        open(C + "/.t.sh", "w").write(t)
        try: subprocess.run(["bash", C + "/.t.sh", C + "/.t.json"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=200)
        except subprocess.TimeoutExpired: return dict(rec, res="tests")
        base = json.load(open("/opt/vp/BASELINE.json")); got = json.load(open(C + "/.t.json"))
        st = base.get("stable") or base.get("passed") or base
        ps = set(got.get("passed") or [k for k, v in got.items() if v == "passed"])
        if [x for x in (st if isinstance(st, list) else list(st)) if x not in ps]: return dict(rec, res="tests")
        noans = []
        for p in only or PROPS[f].split():
            r = subprocess.run(["python3", R + "/dst/check.py", p, "--no-evidence", "--workers", "1", "--runs", str(runs if p not in ("P12", "P13", "P14") else max(60, runs // 8))],
                               env=dict(os.environ, DST_REPO=C, DST_NOSHRINK="1"), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, cwd=R)
            if r.returncode == 1: return dict(rec, res="caught", by=p)
            if r.returncode != 0: noans.append([p, r.stdout[-300:]])
        return dict(rec, res="survived", noans=noans)
    finally:
        shutil.rmtree(C, ignore_errors=True)

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("out"); ap.add_argument("--sample", type=int, default=100); ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--files"); ap.add_argument("--jobs", type=int, default=8); ap.add_argument("--runs", type=int, default=1200); ap.add_argument("--props"); ap.add_argument("--skip", type=int, default=0)
    ap.add_argument("--replay", help="re-run the survivors recorded in this file")
    a = ap.parse_args()
    jobs = []
    if a.replay:
        for l in open(a.replay):
            d = json.loads(l)
            if d["res"] == "survived": jobs.append((d["i"], d["file"], tuple(d["edit"])))
    else:
        for f in (a.files.split(",") if a.files else PROPS):
            if os.path.exists("/repo/" + f):
                jobs += [(0, f, e) for e in edits(open("/repo/" + f).read())]
        print(len(jobs), "edits")
        random.Random(a.seed).shuffle(jobs); jobs = [(i,) + j[1:] for i, j in enumerate(jobs)][a.skip:a.sample]
    with cf.ThreadPoolExecutor(a.jobs) as ex, open(a.out, "a") as out:
        for r in ex.map(one, [j + (a.runs, a.props.split() if a.props else None) for j in jobs]):
            out.write(json.dumps(r) + "\n"); out.flush()

if __name__ == "__main__": main()
