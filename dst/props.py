"""The properties: how sessions are generated for each and how their recorded histories are judged."""
import random, json, copy, re
from fractions import Fraction as Fr
import gen, ref
from ref import V

AUC = ("mc", "tr", "aa", "rt", "ri")

# ------------------------------------------------------------------------------------------------ cases
def gen_case(rng, protos=AUC, exact=False, unit_tr=False, big=True, noise=None, powers=False):
    p = rng.choice(protos)
    c = {"p": p}
    if p == "mc":
        if rng.random() < 0.65:
            c["cats"], c["recipe"] = gen.flat_market(rng, k=2, exact=exact, unit=True, big=big, noise=0)
            c["heur"] = True
            if rng.random() < 0.3: c.pop("heur")          # the default
        else:
            c["cats"], c["recipe"] = gen.flat_market(rng, exact=exact, unit=True, big=big, noise=noise)
            c["heur"] = len(c["cats"]) > 2 and rng.random() < 0.6
            if c["heur"] and rng.random() < 0.3: c.pop("heur")
    elif p == "tr":
        c["cats"], c["recipe"] = gen.flat_market(rng, exact=exact, unit=unit_tr or rng.random() < 0.5, big=big, noise=noise)
        x = rng.random()
        if x < 0.35: c["gft0"] = False
        elif x < 0.6: c["gft0"] = True
    elif p == "aa":
        c["cats"], c["recipe"] = gen.flat_market(rng, exact=exact, big=big, noise=noise)
    else:
        c["cats"], c["recipe"], cnt = gen.tree_market(rng, exact=exact, counts="none" if p == "rt" else "some", big=big, noise=noise, powers=powers)
        if cnt: c["counts"] = cnt
    return c

def op_of(case, m, **kw):
    o = {"k": "auc", "m": m, "p": case["p"], "recipe": case["recipe"]}
    for f in ("heur", "gft0", "counts"):
        if f in case: o[f] = case[f]
    o.update(kw)
    return o

def variant_case(rng, case):
    """another auction over the same market"""
    k = len(case["cats"])
    c = {"cats": case["cats"]}
    p = rng.choice(["tr", "aa", "rt", "ri"] + (["mc"] if case["p"] == "mc" else []))
    c["p"] = p
    if p == "mc":
        c["recipe"] = [1] * k; c["heur"] = case.get("heur", True)
    elif p in ("tr", "aa"):
        c["recipe"] = case["recipe"] if case["p"] in ("mc", "tr", "aa") and rng.random() < 0.5 else [rng.choice([1, 1, 2]) for _ in range(k)]
        if p == "tr" and rng.random() < 0.5: c["gft0"] = rng.random() < 0.5
    else:
        root = 0
        c["recipe"] = case["recipe"] if case["p"] in ("rt", "ri") else gen.tree(rng, k, shuffle=False)[0]
        if p == "ri":
            if case.get("counts") and rng.random() < 0.5: c["counts"] = case["counts"]
            elif rng.random() < 0.3: c["counts"] = [rng.choice([1, 2, 4]) for _ in range(k)]
    return c

def case_from(rec, op):
    """the auction case as it was actually run: bids as found in the market when the call started"""
    c = {"cats": rec["in"], "p": op["p"], "recipe": op["recipe"]}
    for f in ("heur", "gft0", "counts"):
        if f in op: c[f] = op[f]
    return c

def resolve(op, shared):
    o = dict(op)
    for f in ("recipe", "counts"):
        if isinstance(o.get(f), str) and o[f].startswith("$"): o[f] = shared[o[f][1:]]
    return o

def gen_arrivals(rng, m, cats):
    """ops that build market m from bids arriving in random order, one by one, in batches or as sets"""
    start = [[n, []] for n, _ in cats]
    pend = []
    for i, (n, vs) in enumerate(cats):
        vs = list(vs); rng.shuffle(vs)
        x = rng.random()
        cut = len(vs) if x < 0.5 else rng.randint(0, len(vs))
        start[i][1] = vs[:cut]
        rest = vs[cut:]
        while rest:
            n_ = rng.choice([1, 1, 1, 2, 3])
            pend.append((i, rest[:n_])); rest = rest[n_:]
    rng.shuffle(pend)
    ops = [{"k": "mk", "m": m, "cats": start}]
    for i, vs in pend:
        if len(vs) == 1 and rng.random() < 0.7: ops.append({"k": "app", "m": m, "c": i, "v": vs[0]})
        else: ops.append({"k": "appl", "m": m, "c": i, "vs": vs})
    return ops

BUDGET = 3000000

def session(rng, cases, nthreads=None, faults=True, sharing=True, log=0.15, evolve=False, post=True, instr=True, fixed_variants=True):
    """a marketplace session: shared and private markets, concurrent auctions, faults, then a quiet phase"""
    nt = nthreads if nthreads is not None else rng.choice([1, 1, 1, 1, 2, 2, 2, 3, 3, 4])
    setup = []; threads = [[] for _ in range(nt)]; postops = []; shared = {}
    faultl = []
    pub = []
    for n, case in enumerate(cases):
        m = "m%d" % n
        if case.get("arrivals", rng.random() < 0.3): build = gen_arrivals(rng, m, case["cats"])
        else: build = [{"k": "mk", "m": m, "cats": case["cats"]}]
        if sharing and rng.random() < 0.15:
            shared["r%d" % n] = case["recipe"]
            case = dict(case); recipe_ref = "$r%d" % n
        else: recipe_ref = case["recipe"]
        main = op_of(case, m, recipe=recipe_ref)
        if case["p"] in ("mc", "tr", "aa") and rng.random() < 0.1: main["tup"] = 1
        for o in build:
            if rng.random() < 0.1: o["reuse"] = 1
            elif o["k"] == "mk" and rng.random() < 0.05: o["tup"] = 1
        if sharing and nt > 1 and rng.random() < 0.5:          # a public market used by several threads
            setup += build
            ts = rng.sample(range(nt), rng.randint(2, nt))
            for j, t in enumerate(ts):
                c2 = case if j == 0 or rng.random() < 0.5 or not fixed_variants else variant_case(rng, case)
                threads[t].append(op_of(c2, m, recipe=recipe_ref if c2["recipe"] == case["recipe"] else c2["recipe"]))
            pub.append((case, m))
        else:
            t = rng.randrange(nt)
            ops = build + [main]
            x = rng.random()
            if x < 0.3 and fixed_variants:
                ops.append(op_of(variant_case(rng, case), m))
            elif x < 0.4: ops.append(dict(main))
            if evolve and rng.random() < 0.6:
                for _ in range(rng.randint(1, 3)):
                    main["keep"] = "t%d" % n
                    last = dict(main)
                    ops.append(last)
                    ops.append({"k": "settle", "m": m, "t": "t%d" % n, "seed": rng.randrange(1 << 30)})
                    if rng.random() < 0.7 and case["cats"]:
                        i = rng.randrange(len(case["cats"]))
                        src = case["cats"][i][1] or [1 if i == 0 else -1]
                        ops.append({"k": "app", "m": m, "c": i, "v": rng.choice(src)})
                    ops.append(op_of(case, m))
            if rng.random() < 0.6: ops.append({"k": "drop", "m": m})
            threads[t] += ops
            pub.append((case, m)) if not any(o["k"] == "drop" for o in ops) else None
    if faults and rng.random() < 0.4:
        for _ in range(rng.choice([1, 1, 2, 3])):
            t = rng.randrange(nt)
            idx = [i for i, o in enumerate(threads[t]) if o["k"] == "auc"]
            if idx:
                faultl.append({"t": t, "op": rng.choice(idx), "at": gen.fault_line(rng), "exc": rng.choice(gen.EXCS)})
    if faults and rng.random() < 0.06:
        faultl.append({"site": "linprog", "nth": rng.randint(1, 4), "kind": rng.choice(["raise", "status", "memory"])})
    if post and pub:
        for case, m in rng.sample(pub, min(len(pub), 2)):
            postops.append(op_of(case, m))
    scn = {"setup": setup, "threads": threads, "post": postops, "shared": shared, "faults": faultl,
           "sched": gen.schedule(rng, nt) if nt > 1 or rng.random() < 0.3 else [], "log": gen.log_spec(rng, log),
           "rseed": rng.randrange(1 << 30)}
    if instr and nt > 1 and rng.random() < 0.08: scn["instr"] = 1
    return scn

def walk(scn, res):
    """yield (phase, thread, index, op, record) of every operation"""
    sh = scn.get("shared", {})
    for op, r in zip(scn.get("setup", []), res.get("setup", [])): yield "setup", -1, 0, resolve(op, sh), r
    for t, (ops, rs) in enumerate(zip(scn.get("threads", []), res.get("threads", []))):
        for i, (op, r) in enumerate(zip(ops, rs)): yield "run", t, i, resolve(op, sh), r
    for i, (op, r) in enumerate(zip(scn.get("post", []), res.get("post", []))): yield "post", -2, i, resolve(op, sh), r

def completed(scn, res):
    for ph, t, i, op, r in walk(scn, res):
        if op["k"] == "auc" and isinstance(r, dict) and r.get("r") is not None and "in" in r:
            yield ph, t, i, op, r, case_from(r, op)

def where(ph, t, i, op):
    return {"phase": ph, "thread": t, "op": i, "p": op.get("p", op["k"])}

class Prop:
    id = None
    quick = 6000
    thorough = 120000
    protos = AUC
    cross = 0
    def gen(self, rng, tier): raise NotImplementedError
    def judge(self, scn, res, ctx): raise NotImplementedError
    def key(self, scn, res):
        """identity of a non-trivial case, or None"""
        ks = []
        for ph, t, i, op, r, case in completed(scn, res):
            if r["r"]["K"]: ks.append((case["p"], json.dumps(case["recipe"]), json.dumps([c[1] for c in case["cats"]])))
        return hash_key(ks) if ks else None

def hash_key(x):
    import hashlib
    return hashlib.sha1(repr(x).encode()).hexdigest()[:16]

class OutcomeProp(Prop):
    """sessions of auctions; an oracle is applied to each completed auction, in whatever phase and after whatever faults"""
    evolve = False
    exact = False
    powers = False
    noise = None
    unit_tr = False
    def gen(self, rng, tier):
        n = rng.choice([1, 2, 3, 4, 5, 6])
        cases = [gen_case(rng, self.protos, exact=self.exact, noise=self.noise, powers=self.powers, unit_tr=self.unit_tr) for _ in range(n)]
        return session(rng, cases, evolve=self.evolve)
    def oracle(self, case, out, rec, ctx): raise NotImplementedError
    def judge(self, scn, res, ctx):
        bad = []
        for ph, t, i, op, r, case in completed(scn, res):
            for v in self.oracle(case, r["r"], r, ctx):
                v.update(where(ph, t, i, op)); bad.append(v)
        return bad

class P03(OutcomeProp):
    id = "P03"
    def oracle(self, case, out, rec, ctx): return ref.o_budget(case, out)

class P04(OutcomeProp):
    id = "P04"
    def oracle(self, case, out, rec, ctx): return ref.o_ir(case, out)

class P06(OutcomeProp):
    id = "P06"; evolve = True
    def oracle(self, case, out, rec, ctx): return ref.o_feasible(case, out)

class P07(OutcomeProp):
    id = "P07"; protos = ("mc", "tr", "aa", "rt", "ri")
    def gen(self, rng, tier):
        cases = []
        for _ in range(rng.choice([1, 2, 3, 4, 5, 6])):
            c = gen_case(rng, self.protos)
            if c["p"] in ("rt", "ri") and rng.random() < 0.9:         # a tree of one path is a single recipe
                rest = [i for i in range(len(c["cats"])) if i != c["recipe"][0]]; rng.shuffle(rest)
                if len(rest) > 5: rest = rest[:5]
                st = None
                for i in rest: st = [i, st]
                c["recipe"] = [c["recipe"][0], st]
                if rng.random() < 0.6: c.pop("counts", None)
            cases.append(c)
        return session(rng, cases)
    def oracle(self, case, out, rec, ctx): return ref.o_near(case, out)

class P15(OutcomeProp):
    id = "P15"
    def gen(self, rng, tier):
        scn = OutcomeProp.gen(self, rng, tier)
        for _ in range(rng.randint(0, 3)):
            cats, recipe = gen.flat_market(rng, big=False)
            prices = [rng.choice([rng.randint(-9, 9), rng.uniform(-5, 5), rng.randint(-40, 40) / 4]) for _ in recipe]
            scn["threads"][rng.randrange(len(scn["threads"]))].append({"k": "trade", "cats": cats, "recipe": recipe, "prices": prices})
        return scn
    def oracle(self, case, out, rec, ctx): return ref.o_settle(case, out)
    def judge(self, scn, res, ctx):
        bad = OutcomeProp.judge(self, scn, res, ctx)
        for ph, t, i, op, r in walk(scn, res):
            if op["k"] == "trade" and r.get("r"):
                K = min(len(c[1]) // q for c, q in zip(op["cats"], op["recipe"]) if q)
                for x in r["r"]:
                    out = {"K": K, "cats": op["cats"], "prices": op["prices"], "gft": x[1], "gft0": x[2]}
                    if x[0] != K: bad.append(dict(V("deals", K=x[0], expected=K), **where(ph, t, i, op)))
                    for v in ref.o_settle({"p": "trade", "cats": op["cats"], "recipe": op["recipe"]}, out):
                        bad.append(dict(v, **where(ph, t, i, op)))
            elif op["k"] == "trade" and "exc" in r:
                bad.append(dict(V("error", exc=r["exc"], msg=r.get("msg")), **where(ph, t, i, op)))
        return bad

class P16(OutcomeProp):
    id = "P16"; exact = True; powers = True
    def gen(self, rng, tier):
        scn = OutcomeProp.gen(self, rng, tier)
        # the initial clock prices of every tree, read from a fresh clock (they are checked here for safety only)
        for ops in [scn["setup"], scn["post"]] + scn["threads"]:
            for o in list(ops):
                if o["k"] == "auc" and o["p"] in ("rt", "ri"): o["init"] = 1
        return scn
    def judge(self, scn, res, ctx):
        inits = {}
        for ph, t, i, op, r, case in completed(scn, res):
            if case["p"] in ("rt", "ri"):
                inits[json.dumps([case["p"], case["recipe"], case.get("counts"), len(case["cats"])])] = (case["p"], ref.recipes_of(case))
        p0 = {}
        if inits:
            ks = list(inits)
            ops = [{"k": "clk", "c": "c%d" % n, "mod": "prices" if inits[k][0] == "rt" else "prices_integer", "kind": "multi",
                    "recipes": inits[k][1], "init": -ref.MAXV} for n, k in enumerate(ks)]
            out = ctx.run({"setup": ops})
            for k, r in zip(ks, out.get("setup", [])):
                if r.get("r"):
                    pr = r["r"]["prices"]; rs = inits[k][1]
                    used = [j for j in range(len(pr)) if any(x[j] for x in rs)]
                    sums = [sum(a * b for a, b in zip(pr, x)) for x in rs]
                    if max(sums) - min(sums) < 1e-3 and all(pr[j] <= -ref.MAXV + 1 for j in used):
                        p0[k] = pr
        bad = []
        for ph, t, i, op, r, case in completed(scn, res):
            k = json.dumps([case["p"], case["recipe"], case.get("counts"), len(case["cats"])])
            for v in ref.o_refine(case, r["r"], p0.get(k)):
                v.update(where(ph, t, i, op)); bad.append(v)
        return bad

class P17(OutcomeProp):
    id = "P17"
    def oracle(self, case, out, rec, ctx): return ref.o_noregret(case, out)

class P20(OutcomeProp):
    """texts are read by the thread that ran the auction and again later by others, after the market moved on"""
    id = "P20"
    def gen(self, rng, tier):
        scn = OutcomeProp.gen(self, rng, tier)
        for t, ops in enumerate(scn["threads"]):
            for i, o in enumerate(list(ops)):
                if o["k"] == "auc" and rng.random() < 0.3:
                    o["keep"] = "x%d_%d" % (t, i)
                    rng.choice(scn["threads"]).append({"k": "reread", "t": o["keep"]})
                if o["k"] == "auc" and o["p"] in ("mc", "tr", "aa") and rng.random() < 0.2 and not any(q["k"] == "drop" and q["m"] == o["m"] for q in ops):
                    ops.append({"k": "opt", "m": o["m"], "recipe": o["recipe"]})
        for _ in range(rng.randint(0, 2)):
            cats, recipe = gen.flat_market(rng, big=False)
            ops = scn["threads"][rng.randrange(len(scn["threads"]))]
            ops.append({"k": "trade", "cats": cats, "recipe": recipe, "prices": [rng.choice([rng.randint(-9, 9), rng.randint(-40, 40) / 4]) for _ in recipe]})
            if cats and all(n >= 0 for n in recipe):
                m = "q%d" % len(ops)
                ops += [{"k": "mk", "m": m, "cats": cats}, {"k": "q", "m": m, "recipe": recipe, "n": 1, "c": 0, "v": 3}]
        if rng.random() < 0.3:
            ops = scn["threads"][rng.randrange(len(scn["threads"]))]
            k = rng.randint(2, 5); st, _ = gen.tree(rng, k)
            c = "c%d" % len(ops)
            ops.append({"k": "clk", "c": c, "mod": rng.choice(["prices", "prices_integer"]), "kind": "multi", "recipes": gen.tree_recipes(st, k), "init": rng.choice([-100, -1000])})
            for _ in range(rng.randint(1, 4)): ops.append({"k": "inc", "c": c, "inc": [[i, rng.randint(0, 60), "x"] for i in antichain(rng, st)]})
        return scn
    def oracle(self, case, out, rec, ctx): return ref.o_text(case, out)
    def judge(self, scn, res, ctx):
        bad = OutcomeProp.judge(self, scn, res, ctx)
        kept = {}
        for ph, t, i, op, r, case in completed(scn, res):
            if op.get("keep"): kept[op["keep"]] = case
        for ph, t, i, op, r in walk(scn, res):
            w = where(ph, t, i, op)
            if op["k"] == "reread" and r.get("r") and op["t"] in kept:
                bad += [dict(v, **w) for v in ref.o_text(kept[op["t"]], r["r"])]
            elif op["k"] == "trade" and r.get("r"):
                K = min(len(c[1]) // q for c, q in zip(op["cats"], op["recipe"]) if q)
                want = ref.text_single({"K": K, "cats": [[c[0], sorted(c[1], reverse=True)] for c in op["cats"]], "prices": op["prices"]}, op["recipe"])
                pure = all(len(set(map(type, c[1]))) <= 1 for c in op["cats"])
                if pure and "text" in r and r["text"] != want: bad.append(dict(V("text", got=r["text"][:200], expected=want[:200]), **w))
            elif op["k"] == "opt" and r.get("r"):
                o = r["r"]
                want = "%d deals: %s" % (len(o["ps"]), [tuple(p) for p in o["ps"]])
                if o["repr"] != want: bad.append(dict(V("text", got=o["repr"][:200], expected=want[:200]), **w))
            elif op["k"] == "q" and r.get("r"):
                q = r["r"]; D = [[c[0], sorted(c[1], reverse=True)] for c in next((x["cats"] for x in scn["threads"][t] if x["k"] == "mk" and x["m"] == op["m"]), [])]
                if all(len(set(map(type, c[1]))) <= 1 for c in D):
                    ts = [ref.text_category(c) for c in D]
                    if q["str"] != "Traders: [%s]" % ", ".join(ts): bad.append(dict(V("text", got=q["str"][:200], expected=ts), **w))
                    if q["cstr"] != [[x, x] for x in ts]: bad.append(dict(V("text", got=q["cstr"], expected=ts), **w))
            elif op["k"] in ("clk", "inc") and isinstance(r.get("r"), dict):
                o = r["r"]
                nums_ = [float(x) for x in re.findall(r"-?\d+\.?\d*(?:[eE][-+]?\d+)?", o["str"].split("]")[0].replace("np.float64", ""))]
                if nums_ != [float(x) for x in o["prices"]] or not o["str"].endswith(str(None) if o["status"] is None else o["status"]):
                    bad.append(dict(V("text", got=o["str"][:200], expected=o["prices"], status=o["status"]), **w))
        return bad

ALL = {}
def register():
    for c in list(globals().values()):
        if isinstance(c, type) and issubclass(c, Prop) and c.id: ALL[c.id] = c()
class P27(Prop):
    """process-wide state before and after every operation"""
    id = "P27"
    LEND = ("P02", "P02", "P01", "P16", "P24", "P08", "P19", "P11", "P25", "P20", "P18", "P06")
    def gen(self, rng, tier):
        scn = ALL[rng.choice(self.LEND)].gen(rng, tier)
        scn = {k: v for k, v in scn.items() if k in ("setup", "threads", "post", "shared", "faults", "sched", "log", "rseed", "instr")}
        if rng.random() < 0.5 and len(scn["threads"]) > 1:        # one thread: every operation is watched by itself
            at = 0; faults = []
            for n, ops in enumerate(scn["threads"]):
                for f in scn.get("faults", []):
                    if f.get("t") == n: faults.append(dict(f, t=0, op=f["op"] + at))
                at += len(ops)
            faults += [f for f in scn.get("faults", []) if "t" not in f]
            scn = dict(scn, threads=[[o for ops in scn["threads"] for o in ops]], faults=faults, sched=[])
        if not scn.get("faults") and rng.random() < 0.4:
            idx = [(t, i) for t, ops in enumerate(scn["threads"]) for i, o in enumerate(ops) if o["k"] in ("auc", "opt", "tree")]
            if idx:
                t, i = rng.choice(idx)
                scn["faults"] = [{"t": t, "op": i, "at": gen.fault_line(rng), "exc": rng.choice(gen.EXCS)}]
        return dict(scn, world=1)
    def key(self, scn, res):
        ks = [[op, r.get("fault")] for ph, t, i, op, r in walk(scn, res) if op["k"] in ("auc", "opt", "tree", "clk", "inc", "bad", "shape")]
        return hash_key(ks) if ks else None
    def judge(self, scn, res, ctx):
        bad = []
        for ph, t, i, op, r in walk(scn, res):
            if r.get("world"): bad.append(dict(V("process-state-changed", what=r["world"], after="an interruption" if "fault" in r else r.get("exc") or "completion", p=op.get("p")), **where(ph, t, i, op)))
        if res.get("world") and not bad: bad.append(dict(V("process-state-changed", what=res["world"], after="the session"), **where("run", 0, 0, {"k": "session"})))
        return bad

register()

# ================================================================================================ P01
def bad_request(rng, o):
    """a malformed or unsupported variant of an auction request"""
    k = len(gen.tree_indices(o["recipe"])) if o["p"] in ("rt", "ri") else len(o["recipe"])
    p = rng.choice(["mc", "tr", "aa", "opt", "rt", "ri"])
    q = {"k": "bad", "m": o["m"], "p": p}
    if p in ("rt", "ri"):
        st, _ = gen.tree(rng, max(2, k))
        x = rng.random()
        if x < 0.3: st = st[:-1]
        elif x < 0.5: st = [st[0], st[1][:-1]] if st[1] else []
        elif x < 0.7: st = [st[0] + k] + st[1:]
        elif x < 0.8: st = []
        else: q["counts"] = [rng.choice([0, 1, 2]) for _ in range(rng.choice([k - 1, k, k + 1]))]
        q["recipe"] = st
    else:
        x = rng.random()
        if x < 0.25: rc = [1] * (k + 1)
        elif x < 0.5: rc = [1] * (k - 1)
        elif x < 0.75: rc = [rng.choice([0, 1, 2]) for _ in range(k)]
        elif x < 0.85: rc = [0] * k
        elif x < 0.95: rc = [rng.choice([1, 1, -1]) for _ in range(k)]
        else: rc = []
        q["recipe"] = rc
    return q

class P01(Prop):
    id = "P01"
    def gen(self, rng, tier):
        cases = [gen_case(rng) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
        scn = session(rng, cases, evolve=False)
        # reading, keeping and scribbling on results; later edits of the caller's market
        for t, ops in enumerate(scn["threads"]):
            out = []; remap = {}
            for i, o in enumerate(ops):
                remap[i] = len(out)
                o = dict(o)
                if o["k"] == "auc" and rng.random() < 0.5:
                    o["keep"] = "k%d_%d" % (t, i)
                    out.append(o)
                    own = any(q["k"] == "mk" and q["m"] == o["m"] for q in ops[:i])
                    for _ in range(rng.randint(0, 3)):
                        x = rng.random()
                        if own and x < 0.45:
                            mk = [q for q in ops[:i] if q["k"] == "mk" and q["m"] == o["m"]][0]
                            c = rng.randrange(len(mk["cats"]))
                            out.append(rng.choice([{"k": "app", "m": o["m"], "c": c, "v": rng.randint(-20, 20)},
                                                   {"k": "rml", "m": o["m"], "c": c}, {"k": "rmh", "m": o["m"], "c": c, "n": 1}]))
                        elif x < 0.75: out.append({"k": "reread", "t": o["keep"]})
                        else: out.append({"k": "scribble", "t": o["keep"]})
                    out.append({"k": "reread", "t": o["keep"]})
                else: out.append(o)
                if o["k"] == "auc" and rng.random() < 0.25:
                    r = resolve(o, scn["shared"])
                    if r["p"] in ("rt", "ri"):
                        out.append({"k": "tree", "m": o["m"], "v": r["p"], "recipe": r["recipe"], "counts": r.get("counts"), "copy": rng.random() < 0.3,
                                    "q": [rng.choice(["opt", "ctr", "gft", "num"]) for _ in range(3)]})
                    else: out.append({"k": "opt", "m": o["m"], "recipe": r["recipe"], "scrib": rng.random() < 0.5})
                if o["k"] == "auc" and rng.random() < 0.12:
                    r = resolve(o, scn["shared"])
                    out.append(bad_request(rng, r))
            for f in scn["faults"]:
                if f.get("t") == t and "op" in f: f["op"] = remap[f["op"]]
            scn["threads"][t] = out
            # more interruptions: also inside optimal-trade computations
            idx = [i for i, o in enumerate(out) if o["k"] in ("auc", "opt", "tree")]
            if idx and rng.random() < 0.3:
                scn["faults"].append({"t": t, "op": rng.choice(idx), "at": gen.fault_line(rng), "exc": rng.choice(gen.EXCS)})
        if not scn["sched"] or rng.random() < 0.3: scn["sched"] = gen.schedule(rng, len(scn["threads"]), rng.choice([20, 60, 120]))
        return scn
    def judge(self, scn, res, ctx):
        bad = []
        for v in res.get("viol", []): bad.append(dict(v))
        kept = {}
        for ph, t, i, op, r in walk(scn, res):
            if op["k"] == "auc" and op.get("keep") and r.get("r"): kept[op["keep"]] = r["r"]
            if op["k"] == "reread" and op["t"] in kept and r.get("r") is not None and r["r"] != kept[op["t"]]:
                bad.append(dict(V("result-changed", first=kept[op["t"]]["prices"], later=r["r"]["prices"]), **where(ph, t, i, op)))
        return bad

# ================================================================================================ P02
def solo_scn(op, rec, rng, shuffle):
    cats = [[n, list(v)] for n, v in rec["in"]]
    if shuffle:
        for c in cats: rng.shuffle(c[1])
    o = {k: v for k, v in op.items() if k not in ("keep", "budget")}
    o["m"] = "s"
    build = gen_arrivals(rng, "s", cats) if shuffle else [{"k": "mk", "m": "s", "cats": cats}]
    return {"setup": build + [o], "threads": []}

def strip(r, loose):
    if r is None: return None
    r = dict(r)
    if loose:
        r.pop("repr", None)
    return r

class P02(Prop):
    id = "P02"
    cross = 60
    def gen(self, rng, tier):
        n = rng.choice([1, 2, 3, 4, 6])
        same = (rng.choice(AUC),) if rng.random() < 0.45 else AUC      # runs of one kind meet in the same code
        cases = [gen_case(rng, same, big=False) for _ in range(n)]
        if n > 1 and rng.random() < 0.5:
            # near-copies: same names, sizes, first bids... but different content (what a careless cache would confuse)
            base = cases[0]
            for j in range(1, n):
                if rng.random() < 0.6:
                    c = copy.deepcopy(base); c.pop("arrivals", None)
                    x = rng.random()
                    cs = [i for i in range(len(c["cats"])) if c["cats"][i][1]]
                    if cs and x < 0.6:
                        i = rng.choice(cs); q = rng.randrange(len(c["cats"][i][1]))
                        c["cats"][i][1][q] += rng.choice([-3, -1, 1, 2, 5]) if c["p"] != "mc" or c["heur" if "heur" in c else "p"] is False else 0
                    elif x < 0.8 and c["p"] in ("aa",):
                        c["recipe"] = [rng.choice([1, 2]) for _ in c["recipe"]]
                    elif x < 0.9 and c["p"] == "ri": c["counts"] = [rng.choice([1, 2]) for _ in c["cats"]]
                    else: rng.shuffle(c["cats"]) if c["p"] in ("tr", "aa") and all(r == 1 for r in c["recipe"]) else None
                    cases[j] = c
        nt = rng.choice([2, 2, 2, 3, 4]) if rng.random() < 0.5 else rng.choice([1, 1, 2])
        scn = session(rng, cases, nthreads=nt, evolve=rng.random() < 0.3)
        for _ in range(rng.choice([0, 1, 1, 2])):   # one market that its caller edits and runs again
            t = rng.randrange(nt); nm = "e%d" % _
            a = gen_case(rng, same, big=False); cats = a["cats"]
            ops = [{"k": "mk", "m": nm, "cats": cats}]
            q = [op_of(a, nm)]
            flat = a["p"] in ("mc", "tr", "aa")
            if flat: q.append({"k": "opt", "m": nm, "recipe": a["recipe"]})
            else: q.append({"k": "tree", "m": nm, "v": a["p"], "recipe": a["recipe"], "counts": a.get("counts"), "q": ["opt", "ctr", "gft"], "copy": rng.random() < 0.5})
            if rng.random() < 0.3: q.append(op_of(variant_case(rng, dict(a, cats=cats)), nm))
            for _i in range(rng.choice([2, 2, 3])):
                ops += rng.sample(q, rng.randint(1, len(q)))
                e, cats = gen.edits(rng, nm, cats); ops += e
            ops += [dict(o) for o in q]
            scn["threads"][t] = ops + scn["threads"][t] if rng.random() < 0.5 and not any(f.get("t") == t for f in scn["faults"]) else scn["threads"][t] + ops
        if rng.random() < 0.3:      # the caller re-uses one list object for two recipes, or edits its market between runs
            t = rng.randrange(len(scn["threads"]))
            a = gen_case(rng, ("aa", "tr"), big=False)
            k = len(a["cats"])
            b = [rng.choice([1, 1, 2]) for _ in range(k)]
            nm = "z%d" % t
            scn["shared"][nm] = list(a["recipe"])
            ops = [{"k": "mk", "m": "z", "cats": a["cats"]}, op_of(a, "z", recipe="$" + nm), {"k": "setshared", "name": nm, "value": b},
                   op_of(a, "z", recipe="$" + nm)]
            if rng.random() < 0.5 and a["cats"][0][1]:
                ops += [{"k": "rmh", "m": "z", "c": 0, "n": 1}, op_of(a, "z", recipe="$" + nm)]
            scn["threads"][t] += ops
        for ops in scn["threads"]:
            for i in range(len(ops) - 1, -1, -1):
                o = ops[i]
                if o["k"] == "auc" and rng.random() < 0.15 and not (isinstance(o["recipe"], str)):
                    if o["p"] in ("rt", "ri"):
                        ops.append({"k": "tree", "m": o["m"], "v": o["p"], "recipe": o["recipe"], "counts": o.get("counts"), "q": ["opt", "ctr", "gft", "num", "ctr"]}) if not any(q["k"] == "drop" and q["m"] == o["m"] for q in ops) else None
                    else:
                        ops.append({"k": "opt", "m": o["m"], "recipe": o["recipe"]}) if not any(q["k"] == "drop" and q["m"] == o["m"] for q in ops) else None
        return scn
    def judge(self, scn, res, ctx):
        bad = []
        rng = random.Random(len(json.dumps(scn)))
        items = []
        live = {}
        for ph, t, i, op, r in walk(scn, res):
            if op["k"] == "setshared": live[op["name"]] = op["value"]
        cur = dict(scn.get("shared", {}))
        raw = []
        for t, ops in [(-1, scn.get("setup", []))] + list(enumerate(scn.get("threads", []))) + [(-2, scn.get("post", []))]:
            rs = res["setup"] if t == -1 else res["post"] if t == -2 else (res["threads"][t] if t < len(res["threads"]) else [])
            cur = dict(scn.get("shared", {})) if t != -2 else cur
            for i, (op, r) in enumerate(zip(ops, rs)):
                if op["k"] == "setshared": cur[op["name"]] = op["value"]
                elif op["k"] in ("auc", "opt", "tree") and isinstance(r, dict) and "in" in r and (r.get("r") is not None or ("exc" in r and "fault" not in r)):
                    raw.append((t, i, resolve(op, cur), r))
        if not raw: return bad
        # the most exposed operations first: later in the history, in threads with switches
        pick = raw if len(raw) <= 3 else [raw[-1]] + rng.sample(raw[:-1], 2)
        if ctx is not None and getattr(ctx, "full", False): pick = raw
        for n, (t, i, op, r) in enumerate(pick):
            loose = bool((n + len(raw)) % 2)
            out = ctx.run(solo_scn(op, r, rng, loose))
            if "harness" in out: continue
            s = out["setup"][-1]
            a, b = strip(r.get("r"), loose), strip(s.get("r"), loose)
            if a != b or (r.get("exc") != s.get("exc")):
                diff = [k for k in (a or {}) if (b or {}).get(k) != a[k]] if a and b else [r.get("exc"), s.get("exc")]
                bad.append(dict(V("history-dependent" if not loose else "history-or-order-dependent", differs=diff, in_session={k: a.get(k) for k in diff} if a and b else r.get("exc"),
                              alone={k: b.get(k) for k in diff} if a and b else s.get("exc")), **where("run", t, i, op)))
        return bad

# ================================================================================================ P05
def lie_candidates(rng, case, c, v):
    vals = [x for _, vs in case["cats"] for x in vs]
    pool = []
    x = rng.random()
    pool += [v + d for d in (-3, -1, 1, 3, 0.5, -0.5)]
    pool += [w + d for w in vals for d in (-1, 0, 1)] + [-w for w in vals]
    pool += [v * 2, v * 10, v / 2, 0]
    s = sum(rng.choice(vs) for i, (_, vs) in enumerate(case["cats"]) if i != c and vs)
    pool += [-s, -s + 1, -s - 1]
    return pool

class P05(Prop):
    id = "P05"
    quick = 4000
    def gen(self, rng, tier):
        p = rng.choice(("mc", "mc", "tr", "tr", "aa", "aa", "rt", "ri"))
        while True:
            case = gen_case(rng, (p,), exact=rng.random() < 0.85, unit_tr=True, big=False)
            n = sum(len(c[1]) for c in case["cats"])
            if 1 <= n <= 60: break
        ops = [{"k": "mk", "m": "m0", "cats": case["cats"]}, op_of(case, "m0")]
        agents = [(i, v) for i, (_, vs) in enumerate(case["cats"]) for v in vs]
        heur = case["p"] == "mc" and case.get("heur", True) and len(case["cats"]) == 2
        for _ in range(rng.choice([6, 12, 20])):
            c, v = rng.choice(agents)
            b = None if rng.random() < 0.05 else rng.choice(lie_candidates(rng, case, c, v))
            if b is not None:
                if heur:      # a bilateral market: buyers bid at least 0, sellers at most 0
                    neg = any(x < 0 for x in case["cats"][c][1]) or (not any(x > 0 for x in case["cats"][c][1]) and any(x > 0 for x in case["cats"][1 - c][1]))
                    b = -abs(b) if neg else abs(b)
                if b == int(b) and rng.random() < 0.7: b = int(b)
            ops.append(op_of(case, "m0", k="lie", c=c, v=v, b=b))
        nt = 1 if rng.random() < 0.7 else 2
        threads = [[] for _ in range(nt)]
        for o in ops[2:]: threads[rng.randrange(nt)].append(o)
        return {"setup": ops[:2], "threads": threads, "sched": gen.schedule(rng, nt) if nt > 1 else [], "log": None}
    def judge(self, scn, res, ctx):
        bad = []
        truth = None
        for ph, t, i, op, r in walk(scn, res):
            if op["k"] == "auc" and r.get("r") is not None: truth = (case_from(r, op), r["r"])
            if op["k"] != "lie" or r.get("r") is None or truth is None: continue
            case, out = truth
            c, v, b = op["c"], op["v"], op["b"]
            if b is None:
                u2 = 0.0
            else: u2 = self.util(case_from(r, op), r["r"], c, v, b)
            u1 = self.util(case, out, c, v, v)
            if u1 is None or u2 is None: continue
            if u2 > u1 + 10 * ref.tol_of(case):
                unit = all(x == 1 for x in case["recipe"]) if case["p"] == "tr" else True
                d = V("lie-pays" if unit else "lie-pays-nonunit", category=c, value=v, bid=b, gain=[u1, u2])
                d.update(where(ph, t, i, op)); bad.append(d)
        return bad
    def util(self, case, out, c, value, bid):
        if out["K"] <= 0: return 0.0
        sel = out["cats"][c][1].count(bid); al = case["cats"][c][1].count(bid)
        if not sel or not al: return 0.0
        f = ref.participation(case, out).get(c, 0)
        return float(f) * sel / al * (value - out["prices"][c])

# ================================================================================================ P08
def antichain(rng, st):
    i, kids = st[0], st[1]
    if not kids or rng.random() < 0.45: return [i]
    return [x for q in range(0, len(kids), 2) for x in antichain(rng, kids[q:q + 2])]

GAPS = [0, 0, -2.0 ** -20, -2.0 ** -12, -2.0 ** -9, -0.0005, -0.01, -0.125, -1, 2.0 ** -12, 0.0005, 0.01, 1]
class P08(Prop):
    id = "P08"
    def gen(self, rng, tier):
        nt = rng.choice([1, 1, 2, 3])
        threads = [[] for _ in range(nt)]
        for n in range(rng.randint(1, 4)):
            t = rng.randrange(nt); c = "c%d" % n
            mod = rng.choice(["prices", "prices_integer"])
            kind = rng.choice(["single", "multi", "multi"])
            unit = rng.choice([1, 1, 1, 0.25, 0.37])
            ops = []
            if kind == "single":
                k = rng.randint(1, 5)
                recipe = [rng.choice([1, 1, 2, 3, 4]) for _ in range(k)]
                if k > 1 and rng.random() < 0.15: recipe[rng.randrange(1, k)] = 0
                recipe[0] = max(1, recipe[0])
                init = rng.choice([-10, -100, -1000, -1e8]) if rng.random() < 0.6 else [-rng.randint(5, 200) for _ in range(k)]
                ops.append({"k": "clk", "c": c, "mod": mod, "kind": kind, "recipe": recipe, "init": init})
                if mod == "prices_integer" and rng.random() < 0.4: ops[-1]["ac"] = [rng.choice([1, 1, 2, 3, 4]) for _ in range(k)]
                part = [i for i in range(k) if recipe[i] > 0]
                mag = abs(init) if not isinstance(init, list) else 100
                pick = lambda: [rng.choice(part)]
                struct = None
            else:
                k = rng.randint(2, 7)
                struct, root = gen.tree(rng, k)
                cnt = [rng.choice([1, 1, 2, 3, 4]) for _ in range(k)] if mod == "prices_integer" and rng.random() < 0.6 else None
                rs = gen.tree_recipes(struct, k, cnt)
                init = rng.choice([-10, -100, -1000, -1e8])
                ops.append({"k": "clk", "c": c, "mod": mod, "kind": kind, "recipes": rs, "init": init})
                if mod == "prices_integer" and rng.random() < 0.3: ops[-1]["ac"] = [rng.choice([1, 1, 2, 3, 4]) for _ in range(k)]
                mag = abs(init)
                pick = lambda: antichain(rng, struct)
            for _ in range(rng.randint(1, 25)):
                who = pick()
                bad = False
                if kind == "multi" and rng.random() < 0.15:        # a malformed request
                    allc = gen.tree_indices(struct)
                    x = rng.random()
                    if x < 0.4 and len(who) > 1: who = who[:-1]
                    elif x < 0.8: who = who + [rng.choice(allc)]
                    else: who = []
                    cover = [sum(who.count(j) for j in range(k) if r[j]) for r in rs]
                    bad = any(y != 1 for y in cover)
                    if not bad: who = pick()
                inc = []
                for i in who:
                    x = rng.random()
                    if x < 0.06: d = "inf"
                    elif x < 0.14: d = 0
                    elif x < 0.6: d = rng.randint(1, 12) * unit
                    elif x < 0.72: d = {"gap": rng.choice(GAPS), "w": max(r[i] for r in (ops[0].get("recipes") or [ops[0]["recipe"]])) * (ops[0].get("ac") or {i: 1})[i]}
                    else: d = int(rng.uniform(0, mag * 1.2)) * unit
                    inc.append([i, d, "cat%d" % i])
                o = {"k": "inc", "c": c, "inc": inc}
                if bad: o["bad"] = 1
                x = rng.random()
                if x < 0.15: o["bup"] = rng.choice([0, 1, 3, 7, 50]) * unit
                ops.append(o)
            threads[t] += ops
        scn = {"setup": [], "threads": threads, "post": [], "sched": gen.schedule(rng, nt), "log": gen.log_spec(rng, 0.1)}
        if rng.random() < 0.5:
            cases = [gen_case(rng, ("aa", "rt", "ri", "ri"), big=False, exact=rng.random() < 0.8) for _ in range(rng.randint(1, 3))]
            s2 = session(rng, cases, nthreads=nt)
            for t in range(nt):
                off = len(scn["threads"][t])
                for f in s2["faults"]:
                    if f.get("t") == t and "op" in f: f["op"] += off
                scn["threads"][t] += s2["threads"][t]
            scn["setup"] = s2["setup"]; scn["faults"] = s2["faults"]; scn["shared"] = s2["shared"]; scn["post"] = s2["post"]
            scn["watch"] = 1
            scn["log"] = s2["log"]
        return scn
    def key(self, scn, res):
        ks = []
        for ph, t, i, op, r in walk(scn, res):
            if op["k"] == "inc" and isinstance(r.get("after"), dict): ks.append(r["after"]["prices"])
        ks += [e["after"]["prices"] for e in res.get("clock", [])[:50] if e.get("after")]
        return hash_key(ks) if ks else None
    def step(self, recipes, before, after, req, bound, status_after, exc, badreq):
        """oracle for one request"""
        bad = []
        if after is None or before is None: return bad
        big = max([1.0] + [abs(x) for x in before] + [abs(x) for x in after])
        used = [j for j in range(len(before)) if any(r[j] for r in recipes)]
        tol = 1e-7 + 1e-14 * big * 64
        if exc or badreq:
            if badreq and not exc: bad.append(V("malformed-accepted"))
            if (badreq or exc == "ValueError") and before != after: bad.append(V("refused-but-changed", before=before, after=after))
            return bad
        named = {i for i, _ in req}
        pre = [sum(a * b for a, b in zip(r, before) if a) for r in recipes]
        if bound is not None and max(pre) > bound + tol: return []     # a bound below the present price-sum is not a request to raise
        for j in range(len(before)):
            if after[j] < before[j] - tol: bad.append(V("price-fell", category=j, before=before[j], after=after[j]))
            if j not in named and after[j] != before[j]: bad.append(V("other-price-moved", category=j, before=before[j], after=after[j]))
        for i, target in req:
            if after[i] > max(target, before[i]) + tol: bad.append(V("beyond-target", category=i, target=target, after=after[i]))
        sums = [sum(a * b for a, b in zip(r, after) if a) for r in recipes]
        bs = [sum(a * b for a, b in zip(r, before) if a) for r in recipes]
        stol = tol * 40
        if max(sums) - min(sums) > stol: bad.append(V("sums-differ", sums=sums))
        if bound is not None:
            if max(sums) > max(bound, max(bs)) + stol: bad.append(V("bound-exceeded", sums=sums, bound=bound))
            if status_after == "STOPPED_AT_ZERO_SUM" and abs(max(sums) - bound) > stol: bad.append(V("false-stop", sums=sums, bound=bound))
            if status_after == "STOPPED_AT_AGENT_VALUE" and max(sums) >= bound + stol: bad.append(V("missed-stop", sums=sums, bound=bound))
            if status_after != "STOPPED_AT_ZERO_SUM" and bs and max(sums) == bound and all(float(x).is_integer() for x in sums + after + before): bad.append(V("missed-stop", sums=sums, bound=bound))
            if status_after == "STOPPED_AT_AGENT_VALUE" and not any(abs(after[i] - target) <= tol for i, target in req):
                bad.append(V("stopped-early", req=req, after=after))
        return bad
    def judge(self, scn, res, ctx):
        bad = []
        clocks = {}
        for ph, t, i, op, r in walk(scn, res):
            if op["k"] == "clk":
                if r.get("r"):
                    rs = [op["recipe"]] if op["kind"] == "single" else op["recipes"]
                    if op.get("ac"): rs = [[a * b for a, b in zip(x, op["ac"])] for x in rs]
                    clocks[op["c"]] = rs
                    sums = [sum(a * b for a, b in zip(x, r["r"]["prices"]) if a) for x in rs]
                    if max(sums) - min(sums) > 1e-5: bad.append(dict(V("sums-differ", sums=sums), **where(ph, t, i, op)))
                elif "exc" in r and "fault" not in r and not any(f.get("site") == "linprog" for f in scn.get("faults", [])): bad.append(dict(V("clock-error", exc=r["exc"], msg=r.get("msg")), **where(ph, t, i, op)))
            if op["k"] == "inc" and op["c"] in clocks and "after" in r and "before" in r:
                if r.get("exc") and not op.get("bad"):
                    bad.append(dict(V("request-failed", exc=r["exc"], msg=r.get("msg")), **where(ph, t, i, op))); continue
                for v in self.step(clocks[op["c"]], r["before"]["prices"], r["after"]["prices"], r.get("req", []), r.get("bound", 0), r["after"]["status"], r.get("exc"), bool(op.get("bad"))):
                    bad.append(dict(v, **where(ph, t, i, op)))
                if not op.get("bad"):
                    s = sum(a * b for a, b in zip(clocks[op["c"]][0], r["after"]["prices"]))
                    if abs(s - r["after"]["sum"]) > 1e-5 or r["after"]["got"] != r["after"]["prices"]: bad.append(dict(V("sum-misreported", sum=r["after"]["sum"], real=s), **where(ph, t, i, op)))
        for e in res.get("clock", []):
            if e.get("exc") or not e.get("before") or not e.get("after") or e.get("req") is None: continue
            for v in self.step(e["before"]["recipes"], e["before"]["prices"], e["after"]["prices"], e["req"], 0, e["after"]["status"], None, False):
                bad.append(dict(v, phase="auction"))
        return bad

# ================================================================================================ P19
class P19(Prop):
    """clocks started by several threads, with a solver that fails now and then; every start that succeeds is judged"""
    id = "P19"
    def gen(self, rng, tier):
        nt = rng.choice([1, 2, 2, 3])
        threads = [[] for _ in range(nt)]; faults = []
        for n in range(rng.randint(1, 8)):
            t = rng.randrange(nt); mod = rng.choice(["prices", "prices_integer"])
            k = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 10, 12])
            trees = 1 if rng.random() < 0.8 or k < 3 else 2
            if trees == 1: structs = [gen.tree(rng, k)[0]]
            else:
                a = rng.randint(1, k - 1); s1 = gen.tree(rng, a)[0]; s2 = gen.tree(rng, k - a)[0]
                def shift(st): return [x for i in range(0, len(st), 2) for x in (st[i] + a, shift(st[i + 1]) if st[i + 1] else None)]
                structs = [s1, shift(s2)]
            pad = rng.choice([0, 0, 0, 1, 2])                    # categories that take part in no recipe
            cnt = [rng.choice([1, 1, 2, 3, 4]) for _ in range(k + pad)] if mod == "prices_integer" and rng.random() < 0.6 else None
            rs = sum([gen.tree_recipes(s, k + pad, cnt) for s in structs], [])
            if rng.random() < 0.3: rng.shuffle(rs)
            op = {"k": "clk", "c": "c%d_%d" % (t, n), "mod": mod, "kind": "multi", "recipes": rs, "init": rng.choice([-1, -10, -100, -1000, -12345, -1e8, -1e8])}
            x = rng.random()
            if mod == "prices_integer" and x < 0.25: op["ac"] = [rng.choice([1, 1, 2, 3]) for _ in range(k + pad)]
            elif x < 0.33:
                op["bad"] = 1; y = rng.random()
                if y < 0.25: op["recipes"] = []
                elif y < 0.5: op["recipes"] = rs + [rs[0] + [0]]
                else:
                    long = next((r for r in rs if sum(1 for v in r if v) > 1), None)
                    if long is None: op["recipes"] = []
                    else:
                        j = rng.choice([i for i, v in enumerate(long) if v]); sub = list(long); sub[j] = 0
                        op["recipes"] = rs + [sub]               # part of another recipe can never cost as much
            threads[t].append(op)
            if rng.random() < 0.3: threads[t].append(dict(op, c=op["c"] + "r"))
            if rng.random() < 0.15: faults.append({"t": t, "op": len(threads[t]) - 1, "at": rng.randint(1, 60), "exc": rng.choice(gen.EXCS)})
        if rng.random() < 0.3: faults.append({"site": "linprog", "nth": rng.randint(1, 4), "kind": rng.choice(["raise", "status", "memory"])})
        post = [dict(o, c=o["c"] + "p") for ops in threads for o in rng.sample(ops, min(1, len(ops)))]
        return {"setup": [], "threads": threads, "post": post, "sched": gen.schedule(rng, nt), "faults": faults, "log": gen.log_spec(rng, 0.1)}
    def key(self, scn, res):
        ks = [(op["mod"], op["recipes"], op["init"], op.get("ac")) for ph, t, i, op, r in walk(scn, res) if op["k"] == "clk" and r.get("r")]
        return hash_key(ks) if ks else None
    def judge(self, scn, res, ctx):
        bad = [dict(v) for v in res.get("viol", [])]
        solver = any(f.get("site") == "linprog" for f in scn.get("faults", []))
        for ph, t, i, op, r in walk(scn, res):
            w = where(ph, t, i, op)
            if op.get("bad"):
                if r.get("r"): bad.append(dict(V("impossible-start-accepted", prices=r["r"]["prices"]), **w))
                elif r.get("exc") != "ValueError" and "fault" not in r and not solver: bad.append(dict(V("error", exc=r.get("exc"), msg=r.get("msg")), **w))
                continue
            if not r.get("r"):
                if "fault" not in r and not (solver and ph != "post"): bad.append(dict(V("error", exc=r.get("exc"), msg=r.get("msg")), **w))
                continue
            M = op["init"]; pr = r["r"]["prices"]
            rs = [[a * b for a, b in zip(x, op.get("ac") or [1] * len(x))] for x in op["recipes"]]
            tol = 1e-9 * abs(M) * 10
            used = [j for j in range(len(pr)) if any(x[j] for x in rs)]
            if any(pr[j] > M + tol for j in used): bad.append(dict(V("unsafe-start", prices=pr, limit=M), **w))
            sums = [sum(a * b for a, b in zip(x, pr) if a) for x in rs]
            best = M * max(sum(x) for x in rs)
            if any(abs(s - best) > tol * 10 for s in sums): bad.append(dict(V("not-highest-or-unequal", sums=sums, expected=best), **w))
            if abs(r["r"]["sum"] - best) > tol * 10: bad.append(dict(V("sum-misreported", sum=r["r"]["sum"], expected=best), **w))
            if r["r"]["status"] is not None: bad.append(dict(V("started-stopped", status=r["r"]["status"]), **w))
        return bad

# ================================================================================================ P09
class P09(Prop):
    id = "P09"
    def gen(self, rng, tier):
        if rng.random() < 0.003:              # a market in which well over a thousand deals are made
            k = rng.choice([2, 2, 3]); n = rng.randint(1100, 2600); style = rng.choice(["large", "large", "mid", "uniform", "near"])
            cats = [["c%d" % i, gen.bids(rng, n + rng.choice([0, 0, 7, -20]), style, 1 if i == 0 else -1, 2 * k * rng.choice([1, 3]) if i == 0 else 1, 3)] for i in range(k)]
            ops = [{"k": "opt", "m": "m0", "recipe": [1] * k}, {"k": "auc", "m": "m0", "p": "tr", "recipe": [1] * k}]
            if k == 2: ops.append({"k": "auc", "m": "m0", "p": "mc", "recipe": [1, 1]})
            rng.shuffle(ops)
            return {"setup": [{"k": "mk", "m": "m0", "cats": cats}], "threads": [ops[:2]], "sched": [], "shared": {}, "faults": [], "log": None, "post": []}
        if rng.random() < 0.008:              # recipes of many categories: deep, sometimes bushy trees
            k = rng.randint(17, 30); st = None; at = k
            while at > 0:
                at -= 1; st = [at, st]
                if at > 1 and rng.random() < 0.15: at -= 1; st = st + [at, None]
            n = rng.randint(1, 3)
            cats = [["c%d" % i, gen.bids(rng, n, "uniform", 1 if i == 0 else -1, 3 * k if i == 0 else 1, 3)] for i in range(k)]
            ops = [{"k": "auc", "m": "m0", "p": "ri", "recipe": st}, {"k": "auc", "m": "m0", "p": "rt", "recipe": st},
                   {"k": "tree", "m": "m0", "v": "rt", "recipe": st, "q": ["opt", "ctr", "gft", "num"]}, {"k": "tree", "m": "m0", "v": "ri", "recipe": st, "counts": [1] * k, "q": ["opt", "ctr", "gft", "num"]}]
            rng.shuffle(ops)
            return {"setup": [{"k": "mk", "m": "m0", "cats": cats}], "threads": [ops], "sched": [], "shared": {}, "faults": [], "log": None, "post": []}
        n = rng.choice([1, 2, 3, 4, 5])
        cases = []
        for _ in range(n):
            c = gen_case(rng)
            x = rng.random()
            if x < 0.25 and c["cats"]:            # degenerate shapes: empty categories, all equal, all zero
                for cat in c["cats"]:
                    y = rng.random()
                    if y < 0.4: cat[1] = []
                    elif y < 0.6 and cat[1]: cat[1] = [cat[1][0]] * len(cat[1])
                    elif y < 0.7: cat[1] = [0] * len(cat[1])
            cases.append(c)
        scn = session(rng, cases, log=0.2)
        for ops in scn["threads"]:
            for o in [o for o in ops if o["k"] == "auc"]:
                if rng.random() < 0.15 and not any(q["k"] == "drop" and q["m"] == o["m"] for q in ops):
                    r = resolve(o, scn["shared"])
                    if r["p"] in ("rt", "ri"): ops.append({"k": "tree", "m": o["m"], "v": r["p"], "recipe": r["recipe"], "counts": r.get("counts"), "q": ["opt", "ctr", "gft", "num"]})
                    else: ops.append({"k": "opt", "m": o["m"], "recipe": r["recipe"], "zero": rng.random() < 0.5})
        return scn
    def key(self, scn, res):
        ks = [(op.get("p", op["k"]), json.dumps(op.get("recipe")), r["in"]) for ph, t, i, op, r in walk(scn, res) if op["k"] in ("auc", "opt", "tree") and "in" in r]
        return hash_key(ks) if ks else None
    def judge(self, scn, res, ctx):
        bad = []
        if res.get("abort"): bad.append(V("deadlock", what=res["abort"]))
        faulty_solver = any(f.get("site") == "linprog" for f in scn.get("faults", []))
        for ph, t, i, op, r in walk(scn, res):
            if op["k"] not in ("auc", "opt", "tree") or not isinstance(r, dict): continue
            if r.get("exc") == "BudgetExceeded":
                bad.append(dict(V("no-progress", lines=r["lines"], market=r.get("in")), **where(ph, t, i, op)))
            elif r.get("exc") and "fault" not in r and r["exc"] != "SimAbort":
                # without an injected fault in this very call nothing may fail (a shared solver failure is attributed by call)
                if r["exc"] == "KeyError" and op["m"] not in (r.get("msg") or ""): pass
                elif r["exc"] == "KeyError": continue
                bad.append(dict(V("error", exc=r["exc"], msg=r.get("msg"), market=r.get("in")), **where(ph, t, i, op)))
            elif r.get("exc") is None and op["k"] == "auc":
                K = (r.get("r") or {}).get("K")
                if not isinstance(K, int): bad.append(dict(V("no-answer", K=K), **where(ph, t, i, op)))
        return bad

# ================================================================================================ P10
class P10(Prop):
    id = "P10"
    def gen(self, rng, tier):
        nt = rng.choice([1, 1, 2, 3])
        setup = []; threads = [[] for _ in range(nt)]
        base = []
        for n in range(rng.randint(0, 2)):
            cats, _ = gen.flat_market(rng, k=rng.randint(1, 4), big=False)
            setup.append({"k": "mk", "m": "s%d" % n, "cats": cats}); base.append(("s%d" % n, [len(c[1]) for c in cats]))
        for t in range(nt):
            sizes = {}
            ops = threads[t]
            nm = 0
            for _ in range(rng.choice([5, 15, 40])):
                x = rng.random()
                own = list(sizes)
                if not own or x < 0.08:
                    m = "m%d_%d" % (t, nm); nm += 1
                    if base and rng.random() < 0.4:
                        src, sz = rng.choice(base)
                        ops.append({"k": "clone", "m": src, "to": m}); sizes[m] = list(sz)
                    elif own and rng.random() < 0.5:
                        src = rng.choice(own); ops.append({"k": "clone", "m": src, "to": m}); sizes[m] = list(sizes[src])
                    else:
                        cats, _ = gen.flat_market(rng, k=rng.randint(1, 5), big=False)
                        for c in cats: c[1] = c[1][:10]
                        ops.append({"k": "mk", "m": m, "cats": cats}); sizes[m] = [len(c[1]) for c in cats]
                    continue
                m = rng.choice(own); sz = sizes[m]; k = len(sz); c = rng.randrange(k)
                val = lambda: rng.choice([rng.randint(-9, 9), rng.randint(-9, 9), rng.randint(-500, 500) / 4, rng.uniform(-5, 5), 0])
                if x < 0.28: ops.append({"k": "app", "m": m, "c": c, "v": val()}); sz[c] += 1
                elif x < 0.40:
                    vs = [val() for _ in range(rng.randint(0, 5) if rng.random() < 0.85 else rng.randint(6, 40))]; ops.append({"k": "appl", "m": m, "c": c, "vs": vs}); sz[c] += len(vs)
                elif x < 0.50:
                    if rng.random() < 0.3:
                        ops.append({"k": "ps", "m": m, "vs": [val() for _ in range(rng.choice([k - 1, k + 1, 0]) if k > 1 else k + 1)]})
                    else: ops.append({"k": "ps", "m": m, "vs": [val() for _ in range(k)]}); sizes[m] = [a + 1 for a in sz]
                elif x < 0.58 and sz[c]:
                    if rng.random() < 0.5: ops.append({"k": "rmh", "m": m, "c": c, "one": 1, "n": 1}); sz[c] -= 1
                    else:
                        n = rng.randint(0, sz[c]); ops.append({"k": "rmh", "m": m, "c": c, "n": n}); sz[c] -= n
                elif x < 0.66 and sz[c]: ops.append({"k": "rml", "m": m, "c": c}); sz[c] -= 1
                elif x < 0.72:
                    r = [rng.randint(0, min(2, s) if rng.random() < 0.85 else s) for s in sz]; ops.append({"k": "rmhs", "m": m, "recipe": r}); sizes[m] = [a - b for a, b in zip(sz, r)]
                elif x < 0.76: ops.append({"k": "drop", "m": m}); del sizes[m]
                else:
                    ops.append({"k": "q", "m": m, "recipe": [rng.randint(0, 3) if rng.random() < 0.9 else rng.randint(0, max(0, s)) for s in sz], "n": rng.randint(0, 4), "c": c, "v": val()})
        for o in setup + [o for ops in threads for o in ops]:
            if o["k"] in ("mk", "appl", "ps") and rng.random() < 0.2: o["reuse"] = 1
            elif o["k"] == "mk" and rng.random() < 0.1: o["tup"] = 1
        return {"setup": setup, "threads": threads, "post": [], "sched": gen.schedule(rng, nt), "log": None}
    def key(self, scn, res):
        ks = [(op["k"], r.get("m")) for ph, t, i, op, r in walk(scn, res)]
        return hash_key(ks) if len(ks) > 2 else None
    def judge(self, scn, res, ctx):
        bad = []
        for v in res.get("viol", []): bad.append(dict(v, kind="foreign-change"))
        M = {}
        def say(kind, w, **kw): bad.append(dict(V(kind, **kw), **w))
        for ph, t, i, op, r in walk(scn, res):
            w = where(ph, t, i, op); k = op["k"]; m = op.get("m")
            if k not in ("mk",) and m not in M: continue
            if k == "mk": M[m] = [[n, list(v)] for n, v in op["cats"]]
            elif k == "clone": M[op["to"]] = copy.deepcopy(M[m]); m = op["to"]
            elif k == "drop": M.pop(m); continue
            elif k == "app": M[m][op["c"]][1].append(op["v"])
            elif k == "appl": M[m][op["c"]][1] += op["vs"]
            elif k == "ps":
                if len(op["vs"]) == len(M[m]):
                    for c, v in zip(M[m], op["vs"]): c[1].append(v)
                elif r.get("exc") != "ValueError": say("malformed-accepted", w, exc=r.get("exc"))
            elif k == "rmh":
                L = sorted(M[m][op["c"]][1], reverse=True)
                if len(L) < op["n"]: return bad
                M[m][op["c"]][1] = L[op["n"]:]
            elif k == "rml":
                L = sorted(M[m][op["c"]][1], reverse=True)
                if not L: return bad
                M[m][op["c"]][1] = L[:-1]
            elif k == "rmhs":
                if any(len(c[1]) < q for c, q in zip(M[m], op["recipe"])): return bad
                for c, q in zip(M[m], op["recipe"]): c[1] = sorted(c[1], reverse=True)[q:]
            for c in M[m]: c[1].sort(reverse=True)
            if k == "q":
                if "exc" in r: say("query-error", w, exc=r["exc"], msg=r.get("msg")); continue
                q = r["r"]; D = [c[1] for c in M[m]]
                pure = all(len(set(map(type, d))) <= 1 for d in D)
                want = "Traders: [" + ", ".join("%s: %s" % (c[0], c[1]) for c in M[m]) + "]"
                if pure and q["str"] != want: say("query", w, what="text", got=q["str"], expected=want)
                if q["empty"] != any(not d for d in D): say("query", w, what="empty", got=q["empty"])
                if q["size"] != [[len(d)] * 2 for d in D]: say("query", w, what="size", got=q["size"])
                hi = None
                if all(len(d) >= n for d, n in zip(D, op["recipe"])): hi = [x for d, n in zip(D, op["recipe"]) for x in d[:n]]
                if q["high"] != hi: say("query", w, what="highest", got=q["high"], expected=hi)
                ends = [[d[0], d[-1], d[:op["n"]]] if d else None for d in D]
                if q["ends"] != ends: say("query", w, what="ends", got=q["ends"], expected=ends)
                if q["emptycats"] != [[c[0], []] for c in M[m]]: say("query", w, what="emptycats", got=q["emptycats"])
                if all(D):
                    b = [op["v"] if j == op["c"] else d[0] for j, d in enumerate(D)]
                    if q.get("best") != b: say("query", w, what="best", got=q.get("best"), expected=b)
            else:
                if "exc" in r and not (k == "ps" and r["exc"] == "ValueError"): say("op-error", w, exc=r["exc"], msg=r.get("msg")); continue
                if r.get("m") != [[c[0], c[1]] for c in M[m]]: say("content", w, got=r.get("m"), expected=[[c[0], c[1]] for c in M[m]])
        return bad

# ================================================================================================ P11
class P11(Prop):
    id = "P11"
    def gen(self, rng, tier):
        nt = rng.choice([1, 1, 2, 3])
        threads = [[] for _ in range(nt)]; setup = []; faults = []
        for n in range(rng.randint(1, 5)):
            m = "m%d" % n
            t = rng.randrange(nt)
            exact = rng.random() < 0.8
            if rng.random() < 0.5:
                cats, recipe = gen.flat_market(rng, exact=exact)
                ops = []
                for _ in range(rng.randint(1, 3)):
                    o = {"k": "opt", "m": m, "recipe": recipe}
                    if rng.random() < 0.6: o["zero"] = rng.random() < 0.5
                    if rng.random() < 0.15: o["maxit"] = rng.randint(0, 4)
                    ops.append(o)
            else:
                cats, s, cnt = gen.tree_market(rng, exact=exact)
                ops = []
                for v in (["rt", "ri"] if cnt is None else ["ri"]):
                    q = ["opt", "ctr", "gft"]; rng.shuffle(q)
                    if v == "rt" and rng.random() < 0.15: ops.append({"k": "tree", "m": m, "v": "ro", "recipe": s, "counts": None, "q": rng.sample(["opt", "gft", "num"], rng.randint(1, 3)), "copy": True})
                    ops.append({"k": "tree", "m": m, "v": v, "recipe": s, "counts": cnt, "q": q + [rng.choice(["gft", "opt", "ctr", "num"])], "copy": rng.random() < 0.8})
            build = gen_arrivals(rng, m, cats) if rng.random() < 0.4 else [{"k": "mk", "m": m, "cats": cats}]
            if nt > 1 and rng.random() < 0.4:
                setup += build
                if ops[0]["k"] == "tree" and rng.random() < 0.6:      # one tree object asked by several threads at once
                    for o in ops: o["keep"] = "s%d%s" % (n, o["v"])
                    setup += [dict(o) for o in ops]
                    ops = [dict(o, q=[rng.choice(["ctr", "ctr", "opt", "gft", "num"] if o["v"] != "ro" else ["opt", "gft", "num"]) for _ in range(rng.randint(1, 3))]) for o in ops for _ in range(rng.randint(2, 4))]
                for o in ops: threads[rng.randrange(nt)].append(o)
            else:
                threads[t] += build
                if ops[0]["k"] == "tree" and rng.random() < 0.4:      # trees kept between requests while traders come and go
                    for o in ops: o["keep"] = "k%d%s" % (n, o["v"])
                    vals = [v for c in cats for v in c[1]] or [1, -1]; more = []
                    for _ in range(rng.randint(1, 4)):
                        for _ in range(rng.randint(1, 3)):
                            more.append({"k": "rml", "m": m, "c": rng.randrange(len(cats))} if rng.random() < 0.5 else {"k": "app", "m": m, "c": rng.randrange(len(cats)), "v": rng.choice(vals)})
                        more.append(dict(rng.choice(ops)))
                    ops = ops + more
                for o in ops:
                    threads[t].append(o)
                    if rng.random() < 0.2 and o["k"] in ("tree", "opt"): faults.append({"t": t, "op": len(threads[t]) - 1, "at": gen.fault_line(rng), "exc": rng.choice(gen.EXCS)})
                if rng.random() < 0.3:
                    threads[t].append(dict(ops[-1]))
        return {"setup": setup, "threads": threads, "post": [], "sched": gen.schedule(rng, nt), "faults": faults, "log": gen.log_spec(rng, 0.1)}
    def key(self, scn, res):
        ks = [(r["in"], json.dumps(op["recipe"])) for ph, t, i, op, r in walk(scn, res) if op["k"] in ("opt", "tree") and r.get("r")]
        return hash_key(ks) if ks else None
    def judge(self, scn, res, ctx):
        from collections import Counter
        bad = []
        def say(kind, w, **kw): bad.append(dict(V(kind, **kw), **w))
        memo = {}
        for ph, t, i, op, r in walk(scn, res):
            if op["k"] not in ("opt", "tree") or not r.get("r"):
                if op["k"] in ("opt", "tree") and "exc" in r and "in" in r and "fault" not in r: say("no-answer", where(ph, t, i, op), exc=r["exc"], msg=str(r.get("msg"))[:120])
                continue
            w = where(ph, t, i, op); o = r["r"]
            vals = [c[1] for c in r["in"]]
            exact = ref.is_dyadic(vals)
            tol = 1e-9 * max([abs(x) for v in vals for x in v] + [1.0])
            if op["k"] == "opt":
                rec = op["recipe"]
                ks, ka, OPT, g = ref.opt_single(vals, rec)
                lim = op.get("maxit")
                want = ka if op.get("zero", True) else ks
                if lim is not None: want = min(want, lim)
                if exact and o["K"] != want: say("deals", w, K=o["K"], expected=want)
                best = float(max(g[:lim + 1] if lim is not None else g))
                if not ref.close(o["gft"], best, tol): say("gain", w, gft=o["gft"], expected=best)
                if o["K"] != len(o["ps"]): say("deals", w, K=o["K"], listed=len(o["ps"]))
                used = [[] for _ in vals]; sums = []
                for ps in o["ps"]:
                    if len(ps) != sum(rec): say("malformed-deal", w, ps=ps); break
                    j = 0
                    for c, n in enumerate(rec):
                        used[c] += ps[j:j + n]; j += n
                    sums.append(sum(Fr(x) for x in ps))
                if any(s < -Fr(tol) for s in sums): say("losing-deal", w, sums=[float(s) for s in sums])
                if any(a > b + Fr(tol) for a, b in zip(sums, sums[1:])): say("order", w, sums=[float(s) for s in sums])
                for c in range(len(vals)):
                    if Counter(used[c]) + Counter(o["rem"][c][1]) != Counter(vals[c]):
                        say("conservation", w, category=c, traded=used[c][:8], remaining=o["rem"][c][1][:8], market=vals[c][:8])
            else:
                cnt = op.get("counts")
                key = json.dumps([vals, op["recipe"], cnt])
                if key not in memo: memo[key] = ref.opt_tree(vals, op["recipe"], cnt)
                ks, ka, OPT, f = memo[key]
                size = tol * 20
                for name in ("opt", "ctr"):
                    if name in o:
                        if exact and o[name]["K"] != (ks if op["v"] == "ro" else ka): say("deals", w, which=name, K=o[name]["K"], expected=ka)
                        if not ref.close(o[name]["gft"], float(OPT), size): say("gain", w, which=name, gft=o[name]["gft"], expected=float(OPT))
                for gg in o.get("gft", []):
                    if not ref.close(gg, float(OPT), size): say("gain", w, which="gft", gft=gg, expected=float(OPT))
                if "num" in o and o["num"] != ref.max_deals(vals, op["recipe"], cnt if op["v"] == "ri" else None): say("possible-deals", w, reported=o["num"], sizes=[len(v) for v in vals], recipe=op["recipe"], counts=cnt)
                if "opt" in o:
                    allv = Counter(x for v in vals for x in v)
                    traded = Counter(x for ps in o["opt"]["ps"] for x in ps)
                    if traded - allv: say("conservation", w, extra=list((traded - allv))[:5])
                    if any(sum(Fr(x) for x in ps) < -Fr(tol) for ps in o["opt"]["ps"]): say("losing-deal", w)
                    if len(o["opt"]["ps"]) != o["opt"]["K"]: say("deals", w, K=o["opt"]["K"], listed=len(o["opt"]["ps"]))
                    sizes = {sum((cnt[j] if cnt else 1) for j, x in enumerate(rr) if x) for rr in ref_recipes(op["recipe"], len(vals))}
                    if any(len(ps) not in sizes for ps in o["opt"]["ps"]): say("malformed-deal", w)
                if "ctr" in o and exact:
                    lo, hi, K = o["ctr"]["kmin"], o["ctr"]["kmax"], o["ctr"]["K"]
                    npaths = len(ref_recipes(op["recipe"], len(vals)))
                    if not ((lo == hi == 0) if K == 0 else (0 < lo <= hi <= K and hi * npaths >= K)): say("path-counts", w, kmin=lo, kmax=hi, K=K)
                    else:
                        pc = ref.path_counts(vals, op["recipe"], cnt)
                        if pc and (lo, hi) != (min(pc.values()), max(pc.values())): say("path-counts", w, kmin=lo, kmax=hi, expected=pc)
                    if o["ctr"]["sums"] and any(x < 0 for x in o["ctr"]["sums"]): say("losing-deal", w, sums=o["ctr"]["sums"][:8])
                if "ctr" in o and "opt" in o and exact and o["ctr"]["K"] != o["opt"]["K"]: say("disagree", w, ctr=o["ctr"]["K"], opt=o["opt"]["K"])
        return bad

def ref_recipes(s, k): return gen.tree_recipes(s, k)

# ================================================================================================ P18
class P18(Prop):
    id = "P18"
    def gen(self, rng, tier):
        cases = [gen_case(rng, big=False) for _ in range(rng.choice([1, 2, 3, 4]))]
        scn = session(rng, cases, faults=False, log=0)
        scn["log"] = gen.log_spec(rng, 1.0, 0.6)
        if rng.random() < 0.3 and scn["threads"]:         # the level is switched in the middle
            t = rng.randrange(len(scn["threads"]))
            scn["threads"][t].insert(rng.randint(0, len(scn["threads"][t])), {"k": "log", "log": {"level": rng.choice(["off", "info", "debug"])}})
        for ops in scn["threads"]:
            for o in [o for o in ops if o["k"] == "auc"]:
                if rng.random() < 0.2 and not any(q["k"] == "drop" and q["m"] == o["m"] for q in ops):
                    r = resolve(o, scn["shared"])
                    if r["p"] in ("rt", "ri"): ops.append({"k": "tree", "m": o["m"], "v": r["p"], "recipe": r["recipe"], "counts": r.get("counts"), "q": ["opt", "ctr", "gft", "num"]})
        if not scn["sched"] and rng.random() < 0.5: scn["sched"] = gen.schedule(rng, len(scn["threads"]), 30)
        return scn
    def judge(self, scn, res, ctx):
        bad = []
        for v in res.get("viol", []): bad.append(dict(v))
        quiet = copy.deepcopy(scn); quiet["log"] = None
        for ops in quiet["threads"]:
            for o in ops:
                if o["k"] == "log": o["log"] = None
        base = ctx.run(quiet)
        if "harness" in base: return bad
        if res.get("abort") != base.get("abort"): bad.append(V("deadlock", traced=res.get("abort"), quiet=base.get("abort")))
        for (ph, t, i, op, r), (_, _, _, _, b) in zip(walk(scn, res), walk(quiet, base)):
            if op["k"] == "log": continue
            if r.get("exc") != b.get("exc") or r.get("r") != b.get("r") or r.get("m") != b.get("m"):
                bad.append(dict(V("trace-changes-outcome", traced=r.get("exc") or _short(r.get("r")), quiet=b.get("exc") or _short(b.get("r")), msg=r.get("msg")), **where(ph, t, i, op)))
        n = [sum(1 for _ in walk(s, q)) for s, q in ((scn, res), (quiet, base))]
        if n[0] != n[1]: bad.append(V("operations-lost", traced=n[0], quiet=n[1]))
        return bad

def _short(r):
    if isinstance(r, dict): return {k: r[k] for k in ("K", "gft", "prices") if k in r}
    return r


def distinct(rng, vs):
    """the same bids with repetitions moved to the next free value"""
    step = rng.choice([1, -1, 0.5, 3]); seen = set(); out = []
    for v in vs:
        while Fr(v) in seen: v = v + step
        seen.add(Fr(v)); out.append(v)
    return out

# ================================================================================================ P22
LEGCLK = "old.SimultaneousAscendingPriceVector"; LEGAUC = "old.ascending_auction_multirecipe_protocol"
class P22(Prop):
    """the superseded several-recipes clock, and the superseded multi-recipe auction with one recipe of zeros and ones"""
    id = "P22"; modules = (LEGCLK, LEGAUC)
    def gen_leg(self, rng):
        cats, recipe = gen.flat_market(rng, exact=rng.random() < 0.9, unit=True, big=False)
        k = len(cats); recipe = [1] * k
        if rng.random() < 0.5:                               # several recipes: common categories and unique ones
            nc = rng.choice([1, 1, 1, 2]); R = rng.choice([2, 2, 2, 3]); groups = [rng.choice([1, 1, 2]) for _ in range(R)]
            k = nc + sum(groups) + rng.choice([0, 0, 0, 1])
            cats, _ = gen.flat_market(rng, k=k, exact=rng.random() < 0.9, unit=True, big=False)
            pos = list(range(k)); at = nc
            if rng.random() < 0.3: rng.shuffle(pos)
            recipe = []
            for g in groups:
                r = [0] * k
                for j in list(range(nc)) + list(range(at, at + g)): r[pos[j]] = 1
                at += g; recipe.append(r)
        elif k > 2 and rng.random() < 0.2: recipe[rng.randrange(k)] = 0
        if rng.random() < 0.6:
            for c in cats: c[1] = distinct(rng, c[1])
        return {"p": "lg", "cats": cats, "recipe": recipe}
    def gen(self, rng, tier):
        nt = rng.choice([1, 1, 2, 3]); cases = [self.gen_leg(rng) for _ in range(rng.randint(1, 4))]
        if rng.random() < 0.3: cases.append(gen_case(rng, ("aa", "rt"), big=False))
        scn = session(rng, cases, nthreads=nt, log=0, fixed_variants=False)
        for n in range(rng.randint(0, 2)):
            c = "c%d" % n; k = rng.randint(2, 7); struct, _ = gen.tree(rng, k); rs = gen.tree_recipes(struct, k)
            if rng.random() < 0.3: rng.shuffle(rs)
            init = rng.choice([-10, -100, -1000, -10000, -1e8]); unit = rng.choice([1, 1, 1, 0.25, 0.37])
            op = {"k": "clk", "c": c, "mod": LEGCLK, "kind": "multi", "recipes": rs, "init": init}
            ops = [op]
            if rng.random() < 0.08:
                op["bad"] = 1; op["recipes"] = rng.choice([[], rs + [rs[0] + [0]], rs + [rs[0][:-1]]])
            else:
                for _ in range(rng.randint(1, 25)):
                    who = antichain(rng, struct); d = {}
                    for i in who:
                        x = rng.random()
                        d[i] = "inf" if x < 0.05 else 0 if x < 0.14 else rng.randint(1, 12) * unit if x < 0.6 else {"gap": rng.choice(GAPS), "w": 1} if x < 0.72 else int(rng.uniform(0, abs(init) * 0.6)) * unit
                    inc = [[i, d[i], "cat%d" % i] for r in rs for i in who if r[i]]
                    o = {"k": "inc", "c": c, "inc": inc}
                    if rng.random() < 0.06: o["inc"] = inc[:-1] if rng.random() < 0.5 else inc + inc[:1]; o["bad"] = 1
                    ops.append(o)
            scn["threads"][rng.randrange(nt)] += ops
        if rng.random() < 0.15: scn["faults"] = scn["faults"] + [{"site": "linprog", "nth": rng.randint(1, 4), "kind": rng.choice(["raise", "status", "memory"])}]
        return scn
    def key(self, scn, res):
        ks = [r["after"]["prices"] for ph, t, i, op, r in walk(scn, res) if op["k"] == "inc" and isinstance(r.get("after"), dict)]
        ks += [(case["recipe"], [c[1] for c in case["cats"]]) for ph, t, i, op, r, case in completed(scn, res) if case["p"] == "lg"]
        return hash_key(ks) if ks else None
    memo = {}
    def clock(self, recipes, ctx):
        """starting prices of the current price clock (judged by P19), None if they are not whole numbers"""
        k = json.dumps(recipes)
        if k not in self.memo:
            out = ctx.run({"setup": [{"k": "clk", "c": "c", "mod": "prices", "kind": "multi", "recipes": recipes, "init": -ref.MAXV}]})
            r = (out.get("setup") or [{}])[0].get("r")
            p = r and r["prices"]; ok = False
            if p:
                sums = [sum(a * b for a, b in zip(p, x) if b) for x in recipes]
                ok = all(x is None or (x == int(x) and x <= -ref.MAXV + 1) for x in p) and max(sums) == min(sums)
            self.memo[k] = [x or 0 for x in p] if ok else None
        return self.memo[k]
    def judge(self, scn, res, ctx):
        bad = [dict(v) for v in res.get("viol", [])]
        solver = any(f.get("site") == "linprog" for f in scn.get("faults", []))
        for ph, t, i, op, r in walk(scn, res):
            if op["k"] == "auc" and op["p"] == "lg" and "exc" in r and "fault" not in r and not (solver and ph != "post"):
                bad.append(dict(V("error", exc=r["exc"], msg=r.get("msg")), **where(ph, t, i, op)))
        for ph, t, i, op, r, case in completed(scn, res):
            if case["p"] != "lg": continue
            out = dict(r["r"]); vals = [c[1] for c in case["cats"]]
            rs = case["recipe"] if isinstance(case["recipe"][0], list) else [case["recipe"]]
            if out.get("gft", 0) or out.get("gft0", 0): bad.append(dict(V("gain-of-no-trade", gft=out["gft"]), **where(ph, t, i, op)))
            vs = ref.o_legacy(case, rs, out)
            # ties between categories go to the first in a set of small integers: ascending up to 8 categories, unspecified beyond
            if len(vals) <= 8 and ref.is_dyadic(vals): vs += ref.o_legacy_exact(vals, rs, out, lambda q: self.clock(q, ctx))
            bad += [dict(v, **where(ph, t, i, op)) for v in vs]
        scn2 = dict(scn, setup=[], post=[], threads=[[o for o in ops if o["k"] in ("clk", "inc")] for ops in scn["threads"]])
        res2 = {"setup": [], "post": [], "threads": [[r for o, r in zip(ops, rs) if o["k"] in ("clk", "inc")] for ops, rs in zip(scn["threads"], res["threads"])]}
        bad += ALL["P08"].judge(dict(scn2, threads=[[o for o in ops if not (o["k"] == "clk" and o.get("bad"))] for ops in scn2["threads"]]),
                                dict(res2, threads=[[r for o, r in zip(ops, rs) if not (o["k"] == "clk" and o.get("bad"))] for ops, rs in zip(scn2["threads"], res2["threads"])]), ctx)
        for ph, t, i, op, r in walk(scn2, res2):
            if op["k"] != "clk": continue
            if op.get("bad"):
                if r.get("r"): bad.append(dict(V("impossible-start-accepted", prices=r["r"]["prices"]), **where(ph, t, i, op)))
            elif r.get("r"):
                pr = r["r"]["prices"]; tol = 1e-9 * abs(op["init"]) * 10
                sums = [sum(a * b for a, b in zip(x, pr) if a) for x in op["recipes"]]
                if any(abs(s - op["init"]) > tol * 10 for s in sums + [r["r"]["sum"]]): bad.append(dict(V("start-sum", sums=sums, expected=op["init"]), **where(ph, t, i, op)))
                if any(x is not None and x > op["init"] / len(pr) + tol for x in pr): bad.append(dict(V("unsafe-start", prices=pr), **where(ph, t, i, op)))
        return bad

# ================================================================================================ P23
class P23(Prop):
    """randomly drawn categories, under fair and hostile streams of randomness, drawn by several threads between auctions and faults"""
    id = "P23"
    def draw(self, rng, wide=False):
        d = rng.choice(["u", "u", "u", "n", "g", "p"])
        n = rng.choice([0, 1, 2, 3, 5, 8, 20, 50]) if rng.random() < 0.9 else rng.choice([200, 500, 1500])
        sg = rng.choice([1, -1])
        if d == "u":
            lo = rng.choice([1, 0, 1, 100, -5, rng.randint(-1000, 1000)]); hi = lo + rng.choice([0, 1, 2, 9, 100, 999, 100000])
            if rng.random() < 0.2: lo, hi = lo * 1.0, hi * 1.0
            if rng.random() < 0.5: lo, hi = -hi, -lo
            if wide: lo, hi = (1, 100000) if sg > 0 else (-100000, -1)
            a = [lo, hi]
        elif d == "n": a = [sg, rng.choice([0, 10, 100, 1000, -50]), rng.choice([1, 5, 50, 300])] if not wide else [sg, 50000, 9000]
        elif d == "g": a = [sg, rng.choice([0.3, 1, 1.0, 2, 7.5, 40]), rng.choice([1, 10, 100])] if not wide else [sg, 5, 9000]
        else: a = [sg, rng.choice([0.9, 1, 1.5, 3, 10])]
        if wide and d == "p": return self.draw(rng, wide)
        return {"k": "rnd", "d": d, "n": n, "args": a, "name": rng.choice(gen.NAMES[:4] + gen.ODD)}
    def gen(self, rng, tier):
        nt = rng.choice([1, 1, 2, 3]); threads = [[] for _ in range(nt)]; faults = []
        hostile = rng.random() < 0.5
        setup = [{"k": "stream", "s": rng.randrange(1 << 30), "x": rng.choice([0.02, 0.1, 0.3, 0.5])}] if hostile else []
        n = 0
        for _ in range(rng.randint(1, 12)):
            t = rng.randrange(nt); o = self.draw(rng)
            if rng.random() < 0.3:
                o["m"] = "m%d" % n; n += 1
                more = [{"k": "app", "m": o["m"], "c": 0, "v": rng.randint(-9, 9)}] if rng.random() < 0.5 else [{"k": "auc", "m": o["m"], "p": "aa", "recipe": [1]}]
                threads[t] += [o] + (more if len(more) == 1 and o["n"] < 60 else [])
            else: threads[t].append(o)
            if rng.random() < 0.1: faults.append({"t": t, "op": len(threads[t]) - 1, "at": rng.randint(1, 40), "exc": rng.choice(gen.EXCS)})
        post = []
        if not hostile:
            for _ in range(rng.randint(0, 2)):                 # the same seed draws the same market; going on draws a new one
                o = dict(self.draw(rng, True), n=rng.randint(8, 30)); s = rng.randrange(1 << 30)
                post += [{"k": "rseed", "s": s}, dict(o, first=1), dict(o, fresh=1)]
                if rng.random() < 0.5: post.append(dict(self.draw(rng), n=3))
                post += [{"k": "rseed", "s": s}, dict(o, again=1)]
            for _ in range(rng.randint(0, 1)): post.append(dict(self.draw(rng, rng.random() < 0.7), n=800, stat=1))
        return {"setup": setup, "threads": threads, "post": post, "shared": {}, "faults": faults, "sched": gen.schedule(rng, nt), "log": None, "rseed": rng.randrange(1 << 30)}
    def key(self, scn, res):
        ks = [r["r"]["values"] for ph, t, i, op, r in walk(scn, res) if op["k"] == "rnd" and r.get("r") and r["r"]["values"]]
        return hash_key(ks) if ks else None
    def judge(self, scn, res, ctx):
        bad = [dict(v) for v in res.get("viol", [])]
        first = None
        for ph, t, i, op, r in walk(scn, res):
            if op["k"] != "rnd": continue
            w = where(ph, t, i, op)
            if not r.get("r"):
                if "fault" not in r: bad.append(dict(V("error", exc=r.get("exc"), msg=r.get("msg")), **w))
                continue
            o = r["r"]; vs = o["values"]; a = op["args"]; n = op["n"]
            if o["name"] != op["name"]: bad.append(dict(V("name", got=o["name"]), **w))
            if len(vs) != n or o["size"] != n: bad.append(dict(V("count", got=len(vs), size=o["size"], expected=n), **w))
            if not o["ints"]: bad.append(dict(V("not-whole", values=vs[:5]), **w))
            if vs != sorted(vs, reverse=True): bad.append(dict(V("unsorted", values=vs[:9]), **w))
            if op["d"] == "u":
                if vs and (min(vs) < min(a) or max(vs) > max(a)): bad.append(dict(V("out-of-range", lo=min(vs), hi=max(vs), args=a), **w))
            elif any(v * a[0] < (1 if op["d"] == "p" else 0) for v in vs): bad.append(dict(V("wrong-sign", values=[vs[0], vs[-1]], args=a), **w))
            if op.get("first"): first = vs
            if op.get("again") and vs != first: bad.append(dict(V("not-reproducible", first=first[:5] if first else None, again=vs[:5]), **w))
            if op.get("fresh") and vs == first: bad.append(dict(V("not-fresh", values=vs[:5]), **w))
            if op.get("stat") and len(vs) == n: bad += [dict(v, **w) for v in self.shape(op["d"], a, sorted(abs(v) for v in vs) if op["d"] != "u" else sorted(vs))]
        return bad
    def shape(self, d, a, vs):
        """a fair stream's draws look like the distribution asked for (bounds no fair sample of this size leaves)"""
        n = len(vs); mean = sum(vs) / n; sd = (sum((v - mean) ** 2 for v in vs) / n) ** 0.5
        if d == "u":
            lo, hi = min(a), max(a); m = (lo + hi) / 2; s = (hi - lo) / 12 ** 0.5
            if hi - lo > 20 and (vs[0] > lo + (hi - lo) * 0.08 or vs[-1] < hi - (hi - lo) * 0.08): return [V("range-not-covered", lo=vs[0], hi=vs[-1], args=a)]
            lim = (0.8, 1.2)
        elif d == "n":
            if abs(a[1]) < 5 * a[2]: return []
            m, s = abs(a[1]), a[2]; lim = (0.75, 1.3)
        elif d == "g": m, s = a[1] * a[2], a[1] ** 0.5 * a[2]; lim = (0.4, 2.5)
        else:
            q = lambda p: (1 - p) ** (-1 / a[1])
            bad = []
            for p in (0.5, 0.8):
                v = vs[int(n * p)]
                if not q(p - 0.13) - 1 <= v <= q(p + 0.13) + 1: bad.append(V("shape", quantile=p, got=v, expected=q(p)))
            return bad
        if abs(mean - m) > 7 * s / n ** 0.5 + 0.6: return [V("shape", mean=mean, expected=m)]
        if s > 20 and not lim[0] <= sd / s <= lim[1]: return [V("shape", spread=sd, expected=s)]
        return []

# ================================================================================================ P21
class P21(OutcomeProp):
    """recipe trees over bids that are distinct within every category, and with ties"""
    id = "P21"; protos = ("rt", "ri")
    def gen(self, rng, tier):
        cases = []
        for _ in range(rng.choice([1, 2, 3, 4, 5, 6])):
            c = gen_case(rng, self.protos, noise=0 if rng.random() < 0.9 else None)
            if rng.random() < 0.75: c.pop("counts", None)
            if rng.random() < 0.6:
                for x in c["cats"]: x[1] = distinct(rng, x[1])
            cases.append(c)
        return session(rng, cases)
    def key(self, scn, res):
        ks = []
        for ph, t, i, op, r, case in completed(scn, res):
            if case["p"] in ("rt", "ri") and ref.case_opt(case)[2] > 0:
                ks.append((case["recipe"], case.get("counts"), [c[1] for c in case["cats"]]))
        return hash_key(ks) if ks else None
    def oracle(self, case, out, rec, ctx): return ref.o_ratio(case, out) if case["p"] in ("rt", "ri") else []

# ================================================================================================ P24
def unservable(rng, m, k):
    """a request no auction can serve: (operation, names of the errors it may be refused with)"""
    p = rng.choice(["mc", "tr", "aa", "opt", "rt", "ri"])
    q = {"k": "bad", "m": m, "p": p}
    if p in ("mc", "tr", "aa", "opt"):
        x = rng.random()
        base = [rng.choice([1, 1, 1, 2, 3, 0]) for _ in range(k)] if p != "mc" else [1] * k
        if x < 0.3: q["recipe"] = base + [rng.choice([0, 1, 1, 2])] * rng.choice([1, 1, 2])
        elif x < 0.55: q["recipe"] = base[:-1] if rng.random() < 0.8 else []
        elif x < 0.75: q["recipe"] = [0] * k
        elif p != "mc":                                      # a negative number of traders
            base[rng.randrange(k)] = rng.choice([-1, -1, -2]); q["recipe"] = base
        else:
            base[rng.randrange(k)] = rng.choice([0, 2, 3])
            q["recipe"] = base
        q["err"] = ["ValueError"]
    else:
        st, _ = gen.tree(rng, max(2, k) if rng.random() < 0.8 else max(2, k - 1))
        def nodes(s):
            for i in range(0, len(s), 2):
                yield s, i
                if s[i + 1]: yield from nodes(s[i + 1])
        ns = list(nodes(st)); x = rng.random()
        if x < 0.45:                                         # an odd list somewhere in the structure
            l, i = rng.choice([n for n in ns if n[1] == len(n[0]) - 2]); del l[-1]
            q["err"] = ["ValueError"] if k > 1 else None     # with one category the structure also names one that does not exist
        elif x < 0.55: st = []; q["err"] = None
        elif x < 0.8 or p == "rt":                           # a category the market does not have
            l, i = rng.choice(ns); l[i] = k + rng.choice([0, 1, 5]) if rng.random() < 0.6 else -rng.choice([1, 1, k, k + 1]); q["err"] = None
        elif x < 0.9 and k > 1:                              # a category that takes part with no trader, or fewer
            st, _ = gen.tree(rng, k); q["counts"] = [rng.choice([1, 1, 2]) for _ in range(k)]
            q["counts"][rng.choice(gen.tree_indices(st))] = rng.choice([0, -1, -2]); q["err"] = None
        else:                                                # fewer counts than categories in the tree
            st, _ = gen.tree(rng, k); q["counts"] = [rng.choice([1, 1, 2]) for _ in range(rng.randint(1, k - 1))] if k > 1 else None
            if k < 2: st = []
            q["err"] = None
        q["recipe"] = st
    return q

class P24(Prop):
    """sessions of good requests with unservable ones among them; the good ones are compared with the same session without the others"""
    id = "P24"
    def gen(self, rng, tier):
        cases = [gen_case(rng, big=False) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
        scn = session(rng, cases, evolve=False, sharing=rng.random() < 0.5)
        if scn.get("faults") and rng.random() < 0.5: scn["faults"] = []
        def size(o, sh): return len(gen.tree_indices(resolve(o, sh)["recipe"])) if o["p"] in ("rt", "ri") else len(resolve(o, sh)["recipe"])
        for n in range(rng.choice([1, 2, 3, 5])):
            ops = rng.choice(scn["threads"])
            aucs = [o for o in scn["setup"] + ops if o["k"] == "mk"]
            if not aucs: continue
            o = rng.choice(aucs)
            last = max([i for i, x in enumerate(ops) if x is o] + [-1])
            at = len(ops) if rng.random() < 0.5 else rng.randint(last + 1, len(ops))
            # insert behind the faults of this thread, so that their positions stay true
            at = max([at] + [f["op"] + 1 for f in scn.get("faults", []) if f.get("t") == scn["threads"].index(ops) and "op" in f])
            q = unservable(rng, o["m"], len(o["cats"]))
            if at > len(ops): at = len(ops)
            ops.insert(at, q)
            if rng.random() < 0.3: ops.insert(at + 1, dict(q))
        aucs = [(t, o) for t, ops in enumerate(scn["threads"]) for o in ops if o["k"] == "auc"]
        for t, o in rng.sample(aucs, min(len(aucs), 2)):         # an honest request after the refusals
            scn["threads"][t].append(dict({k: v for k, v in o.items() if k not in ("keep", "reuse")}))
        return scn
    def key(self, scn, res):
        ks = [(op["p"], op["recipe"], op.get("counts")) for ph, t, i, op, r in walk(scn, res) if op["k"] == "bad" and r.get("exc")]
        return hash_key(ks) if ks else None
    def judge(self, scn, res, ctx):
        bad = [dict(v) for v in res.get("viol", [])]
        if res.get("abort"): bad.append(V("abort", why=res["abort"]))
        n = 0
        for ph, t, i, op, r in walk(scn, res):
            if op["k"] != "bad" or not isinstance(r, dict) or "fault" in r or "in" not in r: continue
            n += 1; w = where(ph, t, i, op)
            if res.get("solverfail"): continue
            if not r.get("exc"): bad.append(dict(V("answered", request=[op["recipe"], op.get("counts")]), **w))
            elif r["exc"] == "BudgetExceeded": bad.append(dict(V("endless", request=[op["recipe"], op.get("counts")]), **w))
            elif op["err"] and r["exc"] not in op["err"]: bad.append(dict(V("wrong-error", request=[op["recipe"], op.get("counts")], got=r["exc"], expected=op["err"]), **w))
        if bad or not n: return bad
        # the same session without the unservable requests
        if any(f.get("site") == "linprog" for f in scn.get("faults", [])): return bad
        keep = [[i for i, o in enumerate(ops) if o["k"] != "bad"] for ops in scn["threads"]]
        s2 = copy.deepcopy(scn)
        s2["threads"] = [[s2["threads"][t][i] for i in ks] for t, ks in enumerate(keep)]
        for f in s2.get("faults", []):
            if "op" in f and f["t"] >= 0: f["op"] = keep[f["t"]].index(f["op"]) if f["op"] in keep[f["t"]] else 10 ** 6
        s2["sched"] = []
        r2 = ctx.run(s2)
        if "harness" in r2: return bad
        for t, ks in enumerate(keep):
            for i, a, b in zip(ks, [res["threads"][t][i] for i in ks if i < len(res["threads"][t])], r2["threads"][t]):
                if scn["threads"][t][i]["k"] != "auc" or "fault" in a or "fault" in b: continue
                if a.get("in") == b.get("in") and (a.get("exc"), a.get("r")) != (b.get("exc"), b.get("r")):
                    bad.append(dict(V("later-outcome-changed", with_refusals=str(a.get("r") or a.get("exc"))[:200], without=str(b.get("r") or b.get("exc"))[:200]), **where("run", t, i, scn["threads"][t][i])))
        return bad

# ================================================================================================ P25
class P25(Prop):
    """trees asked about their structure by several threads, again and again, while traders leave and join their categories"""
    id = "P25"
    def gen(self, rng, tier):
        nt = rng.choice([1, 1, 2, 3]); threads = [[] for _ in range(nt)]; faults = []
        for n in range(rng.randint(1, 6)):
            t = rng.randrange(nt); v = rng.choice(["rt", "rt", "ri", "ri", "ri", "ro"])
            k = rng.choice([1, 2, 3, 4, 5, 6, 7, 9, 12]); st, _ = gen.tree(rng, k); pad = rng.choice([0, 0, 1, 2])
            if rng.random() < 0.15:
                for _ in range(rng.randint(1, 3)):
                    threads[t].append({"k": "calc", "recipe": st, "n": k + pad, "q": [rng.choice(["size", "list", "kids"]) for _ in range(rng.randint(1, 4))], "scrib": int(rng.random() < 0.5)})
                    if rng.random() < 0.1: faults.append({"t": t, "op": len(threads[t]) - 1, "at": rng.randint(1, 30), "exc": rng.choice(gen.EXCS)})
            names = ["c%d" % j for j in range(k + pad)]
            if rng.random() < 0.3: names = [rng.choice(gen.NAMES + gen.ODD) for _ in names]
            cats = [[names[j], sorted((rng.randint(-9, 9) for _ in range(rng.choice([0, 1, 2, 3, 4, 6, 9, 20]))), reverse=True)] for j in range(k + pad)]
            if rng.random() < 0.3:
                z = rng.randint(1, 5); cats = [[c[0], [1] * z] for c in cats]
            op = {"k": "shape", "c": "s%d" % n, "v": v, "cats": cats, "recipe": st}
            if v == "ri" and rng.random() < 0.6: op["counts"] = [rng.choice([1, 1, 2, 3, 4]) for _ in range(k + pad)]
            if rng.random() < 0.1: op["names"] = 1
            for _ in range(rng.randint(1, 6)):
                q = ["paths", "names", "names2", "recipes"] + ([] if op.get("names") else ["lci", "lcn", "num"] + ["expl"] * (v == "ro"))
                o = dict(op, q=[rng.choice(q) for _ in range(rng.randint(1, 5))])
                if rng.random() < 0.3:
                    m = rng.randint(1, 8)
                    o["q"] = o["q"] + [["rfp", rng.sample(range(m), rng.randint(0, m)), m, [rng.randint(1, 5) for _ in range(m)] if rng.random() < 0.5 and v != "ro" else None]]
                if rng.random() < 0.5 and not op.get("names"):
                    o["pop"] = [rng.randrange(k + pad) for _ in range(rng.randint(1, 4))]
                    if rng.random() < 0.6: o["join"] = [[rng.randrange(k + pad), rng.randint(-9, 9)] for _ in range(len(o["pop"]) if rng.random() < 0.8 else rng.randint(1, 3))]
                if rng.random() < 0.3: o["scrib"] = 1
                threads[t].append(o)
                if rng.random() < 0.1: faults.append({"t": t, "op": len(threads[t]) - 1, "at": rng.randint(1, 40), "exc": rng.choice(gen.EXCS)})
        return {"setup": [], "threads": threads, "post": [], "sched": gen.schedule(rng, nt), "faults": faults, "log": gen.log_spec(rng, 0.1)}
    def key(self, scn, res):
        ks = [(op.get("v"), op["recipe"], op.get("counts"), r.get("in"), op["q"]) for ph, t, i, op, r in walk(scn, res) if r.get("r")]
        return hash_key(ks) if ks else None
    def judge(self, scn, res, ctx):
        bad = [dict(v) for v in res.get("viol", [])]
        for ph, t, i, op, r in walk(scn, res):
            w = where(ph, t, i, op)
            if op["k"] == "calc" and "sink" in str(r.get("msg")) and (scn.get("log") or {}).get("sink"): continue      # they print, and the simulated output failed
            if r.get("exc") and "fault" not in r: bad.append(dict(V("failed", exc=r["exc"], msg=str(r.get("msg"))[:120]), **w)); continue
            if r.get("r") is None: continue
            if op["k"] == "calc":
                ix = gen.tree_indices(op["recipe"]); P = ref.tree_paths(op["recipe"])
                kids = [0] * op["n"]
                def count(s):
                    for j in range(0, len(s), 2):
                        kids[s[j]] = len(s[j + 1]) // 2 if s[j + 1] else 1
                        if s[j + 1]: count(s[j + 1])
                count(op["recipe"])
                for q, o in zip(op["q"], r["r"]):
                    want = [max(len(p) for p in P), max(ix)] if q == "size" else max(ix) + 1 if q == "list" else kids
                    if o != want: bad.append(dict(V("structure", query=q, got=str(o)[:200], expected=str(want)[:200]), **w)); break
                continue
            cnt = op.get("counts") if op["v"] == "ri" else None
            names = [c[0] for c in op["cats"]]; k = len(names)
            P = ref.tree_paths(op["recipe"])
            R = [[(cnt[j] if cnt else 1) if j in p else 0 for j in range(k)] for p in P]
            for q, o in zip(op["q"], r["r"]):
                if q == "paths": want = P
                elif q in ("names", "names2"): want = [[names[j] for j in p] for p in P]
                elif q == "recipes": want = R
                elif q == "num": want = ref.max_deals([[0] * n for n in r["in"]], op["recipe"], cnt)
                elif q == "expl": want = ref.explained_old(r["in"], names, op["recipe"])
                elif q in ("lci", "lcn") and op["v"] == "ro":
                    big, comb, who = ref.largest_old(r["in"], op["recipe"])
                    want = [big, comb, who if q == "lci" else [names[j] for j in who]]; o = list(o)
                elif q in ("lci", "lcn"):
                    comb, who = ref.largest(r["in"], op["recipe"], cnt)
                    want = who if q == "lci" else [names[j] for j in who]
                    if abs(float(o[1]) - float(comb)) > 1e-9: bad.append(dict(V("structure", query=q, got=o[1], expected=float(comb)), **w)); break
                    sizes = [r["in"][j] / (cnt[j] if cnt else 1) for j in who]
                    if abs(float(o[0]) - max(sizes)) > 1e-9: bad.append(dict(V("structure", query=q, got=o[0], expected=max(sizes)), **w)); break
                    o = list(o[2])
                else: want = [(q[3][j] if q[3] else 1) if j in q[1] else 0 for j in range(q[2])]
                if o != want: bad.append(dict(V("structure", query=q, got=str(o)[:200], expected=str(want)[:200]), **w)); break
        return bad

register()
