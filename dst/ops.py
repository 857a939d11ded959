"""Operations of a simulated marketplace session, executed against the real code of /repo (child side)."""
import threading, sys, copy, logging, random, gc
import engine
from engine import SIM, MODULES, BudgetExceeded, SimAbort, SimInterrupt, OUT, SOLVER

def num(x):
    """canonical JSON number: keeps int/float distinction where JSON can"""
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    try: return float(x)
    except Exception: return repr(x)

def nums(xs):
    return None if xs is None else [num(x) for x in xs]

def cats_of(categories):
    return [[c.name, nums(c.values)] for c in categories]

def protocols():
    return {
        "mc": MODULES["mcafee_protocol"].mcafee_trade_reduction,
        "tr": MODULES["trade_reduction_protocol"].budget_balanced_trade_reduction,
        "aa": MODULES["ascending_auction_protocol"].budget_balanced_ascending_auction,
        "rt": MODULES["ascending_auction_recipetree_protocol"].budget_balanced_ascending_auction,
        "ri": MODULES["ascending_auction_recipetree_integer_protocol"].budget_balanced_ascending_auction,
        "lg": getattr(MODULES.get("old.ascending_auction_multirecipe_protocol"), "budget_balanced_ascending_auction", None),
    }

def canon_trade(t, proto):
    """everything a user can read from an announced trade (reads only the public surface)"""
    K = t.num_of_deals()
    d = {"K": num(K), "prices": nums(t.prices), "cats": cats_of(t.categories)}
    if proto in ("rt", "ri"):
        d["gft"] = num(t.gain_from_trade())
        d["gft0"] = num(t.gain_from_trade(False))
        d["kmin"] = num(t.min_num_of_deals()); d["kmax"] = num(t.max_num_of_deals())
        o = t.optimal_trade()
        d["opt"] = [num(o[1]), num(o[2])]
    elif proto == "lg":
        if K == 0: d["gft"] = num(t.gain_from_trade()); d["gft0"] = num(t.gain_from_trade(False))
    else:
        d["gft"] = num(t.gain_from_trade(including_auctioneer=True))
        d["gft0"] = num(t.gain_from_trade(including_auctioneer=False))
    d["repr"] = repr(t)
    return d


def same(a, b): return a == b and repr(a) == repr(b)

class Env:
    def __init__(self, scn):
        self.scn = scn
        self.markets = {}
        self.expected = {}        # market name -> snapshot the caller believes in
        self.mutating = {}        # market name -> tid currently mutating it
        self.trades = {}
        self.trees = {}
        self.shared = copy.deepcopy(scn.get("shared", {}))
        self.shared_snap = copy.deepcopy(self.shared)
        self.liveargs = {}        # (tid, opno) -> (live, snapshot)
        self.viol = []
        self.faults = {}
        for f in scn.get("faults", []):
            if "at" in f:
                self.faults[(f["t"], f["op"])] = f
        self.protos = protocols()
        self.AC = MODULES["agents"].AgentCategory
        self.MK = MODULES["markets"].Market
        self.clocks = {}
        self.clocklog = []
        self.maxlines = 0

    # -- caller's state ----------------------------------------------------------------------------------------
    def snap(self, m):
        return [[c.name, list(c.values)] for c in m.categories] + [m.num_categories]

    def believe(self, name):
        self.expected[name] = self.snap(self.markets[name])

    def probe(self, where, thread=None):
        for name, m in self.markets.items():
            if name in self.mutating:
                continue
            now = self.snap(m)
            if now != self.expected[name] or not all(type(x) is type(y) for c, d in zip(now[:-1], self.expected[name][:-1]) for x, y in zip(c[1], d[1])):
                self.viol.append({"kind": "market-changed", "market": name, "at": where,
                                  "expected": [list(x) if isinstance(x, list) else x for x in self.expected[name]], "got": now})
                self.expected[name] = now
        if not same(self.shared, self.shared_snap):
            self.viol.append({"kind": "argument-changed", "at": where, "expected": copy.deepcopy(self.shared_snap),
                              "got": copy.deepcopy(self.shared)})
            self.shared_snap = copy.deepcopy(self.shared)
        for key, (live, snap) in list(self.liveargs.items()):
            if not same(live, snap):
                self.viol.append({"kind": "argument-changed", "at": where, "expected": copy.deepcopy(snap),
                                  "got": copy.deepcopy(live)})
                self.liveargs[key] = (live, copy.deepcopy(live))

    def arg(self, v):
        """a caller-owned argument: '$name' refers to an object shared between calls"""
        if isinstance(v, str) and v.startswith("$"):
            return self.shared[v[1:]]
        return copy.deepcopy(v)

    # -- operations --------------------------------------------------------------------------------------------
    def run(self, op, t):
        rec = {}
        key = (t.tid, t.opno)
        f = self.faults.get(key)
        start = t.n
        if f:
            t.fault_at = t.n + f["at"]; t.fault_exc = f["exc"]
        t.budget_at = t.n + self.budget(op)
        t.relimit()
        nf = len(t.fired); sf = SOLVER.fired
        k = op["k"]
        w0 = world() if self.scn.get("world") and self.alone and k not in UNWORLDLY else None
        mname = op.get("m")
        mutator = k in ("mk", "rnd", "app", "appl", "ps", "rmh", "rml", "rmhs", "clone", "drop", "settle")
        target = op.get("to") if k == "clone" else mname
        if mutator:
            self.mutating[target] = t.tid
        try:
            try:
                rec["r"] = getattr(self, "op_" + k)(op, t, rec)
            finally:
                t.fault_at = t.budget_at = 1 << 60; t.relimit()
        except SimAbort:
            rec["exc"] = "SimAbort"
            raise
        except BudgetExceeded:
            rec["exc"] = "BudgetExceeded"
        except BaseException as e:
            rec["exc"] = type(e).__name__; rec["msg"] = str(e)[:200]
            e = None
        rec["lines"] = t.n - start
        if len(t.fired) > nf or SOLVER.fired > sf:
            rec["fault"] = (t.fired[-1] if len(t.fired) > nf else ["solver"])
        if mutator:
            self.mutating.pop(target, None)
            if target in self.markets:
                self.believe(target)
                rec["m"] = cats_of(self.markets[target].categories)
            else:
                self.expected.pop(target, None)
        self.probe("after op %s/%s %s" % (t.tid, t.opno, k), t)
        self.liveargs.pop(key, None)
        if w0 is not None:
            w1 = world()
            d = [x for x in w0 if w0[x] != w1[x]]
            if d: rec["world"] = d
        return rec
    @property
    def alone(self): return SIM.cur is None or SIM.cur.tid < 0 or len(SIM.threads) <= 1

    def budget(self, op):
        """lines of repository code one operation may execute: a generous polynomial in the size of its market"""
        m = self.markets.get(op.get("m"))
        n = sum(len(c.values) for c in m.categories) if m is not None else 0
        k = len(m.categories) if m is not None else 0
        return (60000 + 1500 * (n + 1) * (k + 1)) * (40 if self.scn.get("instr") else 1)

    def own(self, t, *live):
        self.liveargs[(t.tid, t.opno)] = (list(live), copy.deepcopy(list(live)))

    def op_mk(self, op, t, rec):
        vals = [[n, list(v)] for n, v in op["cats"]]
        self.own(t, vals)
        mk = [self.AC(n, tuple(v) if op.get("tup") else v) for n, v in vals]
        self.markets[op["m"]] = self.MK(mk)
        self.expected[op["m"]] = None
        if op.get("reuse"): self.reuse(t, [v for n, v in vals])
    def reuse(self, t, lists):
        """the caller goes on using the list objects it handed over"""
        self.probe("during op %s/%s" % (t.tid, t.opno), t)
        self.liveargs.pop((t.tid, t.opno), None)
        for L in lists:
            L.reverse(); L.append(31337); del L[:len(L) // 2]
    def op_drop(self, op, t, rec):
        self.markets.pop(op["m"], None)
    def op_clone(self, op, t, rec):
        self.markets[op["to"]] = self.markets[op["m"]].clone()
    def op_app(self, op, t, rec):
        self.markets[op["m"]].append_trader(op["c"], op["v"])
    def op_appl(self, op, t, rec):
        vs = list(op["vs"]); self.own(t, vs)
        self.markets[op["m"]].categories[op["c"]].append(vs)
        if op.get("reuse"): self.reuse(t, [vs])
    def op_ps(self, op, t, rec):
        vs = list(op["vs"]); self.own(t, vs)
        self.markets[op["m"]].append_PS(vs)
        if op.get("reuse"): self.reuse(t, [vs])
    def op_rmh(self, op, t, rec):
        c = self.markets[op["m"]].categories[op["c"]]
        if op.get("one"): c.remove_highest_agent()
        else: c.remove_highest_agents(op["n"])
    def op_rml(self, op, t, rec):
        self.markets[op["m"]].categories[op["c"]].remove_lowest_agent()
    def op_rmhs(self, op, t, rec):
        self.markets[op["m"]].remove_highest_agents(self.arg(op["recipe"]))
    def op_q(self, op, t, rec):
        """queries"""
        m = self.markets[op["m"]]
        out = {"str": str(m), "empty": bool(m.has_empty_category()), "size": [[len(c), c.size()] for c in m.categories],
               "cstr": [[str(c), repr(c)] for c in m.categories]}
        r = self.arg(op["recipe"]); self.own(t, r)
        h = m.get_highest_agents(r)
        out["high"] = None if h is None else nums(h); out["hightype"] = type(h).__name__
        ends = []
        for c in m.categories:
            if len(c):
                ends.append([num(c.highest_agent_value()), num(c.lowest_agent_value()), nums(c.highest_agent_values(op["n"]))])
            else: ends.append(None)
        out["ends"] = ends
        out["emptycats"] = cats_of(m.empty_agent_categories())
        if all(len(c) for c in m.categories):
            out["best"] = nums(m.best_containing_PS(op["c"], op["v"]))
        return out

    def op_auc(self, op, t, rec):
        m = self.markets[op["m"]]
        rec["in"] = cats_of(m.categories)
        fn = self.protos[op["p"]]
        r = self.arg(op["recipe"])
        if op.get("tup"): r = tuple(r)
        kw = {}
        if op["p"] == "lg" and not isinstance(r[0], list): r = [r]
        args = [m, r]
        if op["p"] == "ri" and op.get("counts") is not None:
            cnt = self.arg(op["counts"]); args.append(cnt); self.own(t, r, cnt)
        else:
            self.own(t, r)
        if op["p"] == "mc" and "heur" in op: kw["price_heuristic"] = op["heur"]
        if op["p"] == "tr" and "gft0" in op: kw["including_gft_0"] = op["gft0"]
        if op["p"] == "aa" and "maxit" in op: kw["max_iterations"] = op["maxit"]
        IN_AUCTION.on = True
        try: tr = fn(*args, **kw)
        finally: IN_AUCTION.on = False
        t.fault_at = 1 << 60; t.relimit()            # reading the answer is not part of the interrupted call
        if op.get("keep"):
            self.trades[op["keep"]] = (tr, op["p"])
        return canon_trade(tr, op["p"])

    def op_bad(self, op, t, rec):
        """a request the auction cannot honour: whatever it answers, nothing of the caller's may change"""
        m = self.markets[op["m"]]
        rec["in"] = len(m.categories)
        r = self.arg(op["recipe"]); cnt = self.arg(op.get("counts")); self.own(t, r, cnt)
        args = [m, r] + ([cnt] if op["p"] == "ri" and cnt is not None else [])
        if op["p"] == "opt": m.optimal_trade(r)
        else: self.protos[op["p"]](*args)
        return None

    def op_lie(self, op, t, rec):
        """the same session, had one trader bid something else (b) than its true value (v); b None = stayed away"""
        m = self.markets[op["m"]]
        cats = [[c.name, list(c.values)] for c in m.categories]
        if op["v"] not in cats[op["c"]][1]: return None
        cats[op["c"]][1].remove(op["v"])
        if op["b"] is not None: cats[op["c"]][1].append(op["b"])
        self.markets["~lie"] = lied = self.MK([self.AC(n, v) for n, v in cats])
        self.expected["~lie"] = self.snap(lied)
        try:
            return self.op_auc(dict(op, m="~lie"), t, rec)
        finally:
            self.markets.pop("~lie", None)

    def op_setshared(self, op, t, rec):
        """the caller re-uses its own list object for a different recipe"""
        live = self.shared[op["name"]]
        live[:] = copy.deepcopy(op["value"])
        self.shared_snap = copy.deepcopy(self.shared)

    def op_reread(self, op, t, rec):
        if op["t"] not in self.trades: return None
        tr, p = self.trades[op["t"]]
        return canon_trade(tr, p)

    def op_scribble(self, op, t, rec):
        """the caller edits the announced trade: nothing else may change"""
        if op["t"] not in self.trades: return None
        tr, p = self.trades.pop(op["t"])
        for c in tr.categories:
            c.values.append(12345); c.values.reverse()
            c.name = "scribbled"
        tr.categories.clear() if isinstance(tr.categories, list) else None
        if isinstance(tr.prices, list):
            for i in range(len(tr.prices)): tr.prices[i] = 777

    def op_settle(self, op, t, rec):
        """the winners of an announced trade leave the market (lottery drawn by the simulator)"""
        if op["t"] not in self.trades or op["m"] not in self.markets: return None
        tr, p = self.trades[op["t"]]
        m = self.markets[op["m"]]
        K = tr.num_of_deals()
        if p in ("rt", "ri"): counts = [0] * m.num_categories
        else: counts = [K * r for r in tr.ps_recipe]
        rng = random.Random(op["seed"])
        gone = []
        for i, c in enumerate(m.categories):
            win = sorted(tr.categories[i].values)
            win = rng.sample(win, min(len(win), counts[i]))
            for v in win: c.values.remove(v)
            gone.append(nums(win))
        return gone

    def op_opt(self, op, t, rec):
        m = self.markets[op["m"]]
        rec["in"] = cats_of(m.categories)
        r = self.arg(op["recipe"]); self.own(t, r)
        kw = {}
        if "zero" in op: kw["include_zero_gft_ps"] = op["zero"]
        if "maxit" in op: kw["max_iterations"] = op["maxit"]
        tr, rem = m.optimal_trade(r, **kw)
        t.fault_at = 1 << 60; t.relimit()
        d = {"K": num(tr.num_of_deals()), "gft": num(tr.gain_from_trade()), "ps": [nums(p) for p in tr.procurement_sets],
             "types": sorted(set(type(p).__name__ for p in tr.procurement_sets)), "rem": cats_of(rem.categories), "repr": repr(tr)}
        if op.get("scrib"):
            for c in rem.categories: c.values.append(4242)
        return d

    def op_tree(self, op, t, rec):
        """optimal trade of a recipe tree over a private copy of the market's categories"""
        m = self.markets[op["m"]]
        rec["in"] = cats_of(m.categories)
        mod = MODULES[TREES[op["v"]]]
        s = self.arg(op["recipe"]); args = [m.clone().categories if op.get("copy", True) else m.categories, s]
        if op["v"] == "ri" and op.get("counts") is not None:
            c = self.arg(op["counts"]); args.append(c); self.own(t, s, c)
        else: self.own(t, s)
        if op.get("keep"):          # a tree over the live categories, kept by the caller between requests
            if op["keep"] not in self.trees: self.trees[op["keep"]] = mod.RecipeTree(m.categories, *args[1:])
            tree = self.trees[op["keep"]]
        else: tree = mod.RecipeTree(*args)
        out = {}
        for q in op["q"]:
            if q == "opt":
                o = tree.optimal_trade()
                out["opt"] = {"ps": [nums(x if isinstance(x, (list, tuple)) else [x]) for x in o[0]], "K": num(o[1]), "gft": num(o[2])}
            elif q == "ctr":
                o = tree.optimal_trade_with_counters()
                out["ctr"] = {"sums": [num(sum(x[0]) if isinstance(x[0], (list, tuple)) else x[0]) for x in o[0]], "K": num(o[1]), "gft": num(o[2]), "kmin": num(o[3]), "kmax": num(o[4])}
            elif q == "gft":
                out.setdefault("gft", []).append(num(tree.optimal_trade_GFT()))
            elif q == "num":
                out["num"] = num(tree.num_of_deals())
        return out

    def op_shape(self, op, t, rec):
        """a recipe tree kept by the caller and asked about its structure while traders leave its categories"""
        if op["c"] not in self.trees:
            mod = MODULES[TREES[op["v"]]]
            cats = [n if op.get("names") else self.AC(n, list(v)) for n, v in op["cats"]]
            s = self.arg(op["recipe"]); args = [cats, s]
            if op["v"] == "ri" and op.get("counts") is not None:
                c = self.arg(op["counts"]); args.append(c); self.own(t, s, c)
            else: self.own(t, s)
            self.trees[op["c"]] = (mod.RecipeTree(*args), cats, mod.RecipeTree)
        tree, cats, cls = self.trees[op["c"]]
        for j in op.get("pop", []):
            if cats[j].values: cats[j].values.pop()
        for j, v in op.get("join", []): cats[j].append(v)
        rec["in"] = None if op.get("names") else [len(c.values) for c in cats]
        out = []
        for q in op["q"]:
            if q == "paths": o = tree.paths_to_leaf(indices=True)
            elif q == "names": o = tree.paths_to_leaf()
            elif q == "names2": o = tree.paths_to_leaf(indices=False)
            elif q == "recipes": o = tree.recipes()
            elif q == "lci": o = tree.largest_categories(indices=True)
            elif q == "lcn": o = tree.largest_categories()
            elif q == "num": o = tree.num_of_deals()
            elif q == "expl": o = list(tree.num_of_deals_explained([7 * j + 1 for j in range(len(cats))]))
            else: o = cls.recipe_from_path(list(q[1]), q[2], *([list(q[3])] if q[3] else []))
            out.append(copy.deepcopy(o))
            if op.get("scrib"):                      # the answer belongs to the caller
                for l in ([o] + list(o) if isinstance(o, (list, tuple)) else []):
                    if isinstance(l, list): l.append(777); l.reverse()
        return out

    def op_calc(self, op, t, rec):
        """the stand-alone calculators the tree experiments draw their categories with"""
        T = MODULES["tree_calculations"]
        s = self.arg(op["recipe"]); self.own(t, s)
        out = []
        for q in op["q"]:
            if q == "size": out.append(list(T.get_depth_and_agents_size(s)))
            elif q == "list": out.append(len(T.get_agents_analyze(s)))
            else:
                sizes = [1] * op["n"]
                o = T.get_children_counts(s, sizes)
                out.append(list(o) if sizes == [1] * op["n"] else "changed its argument")
                if op.get("scrib"): o[:] = [777] * len(o)
        return out

    def op_trade(self, op, t, rec):
        """a trade object built directly (settlement accounting)"""
        T = MODULES["trade"]
        cats = [self.AC(n, list(v)) for n, v in op["cats"]]
        tr = T.TradeWithSinglePrice(cats, self.arg(op["recipe"]), self.arg(op["prices"]))
        out = []
        for _ in range(2):
            out.append([num(tr.num_of_deals()), num(tr.gain_from_trade(including_auctioneer=True)), num(tr.gain_from_trade(including_auctioneer=False))])
        rec["text"] = repr(tr)
        out.append([num(tr.num_of_deals()), num(tr.gain_from_trade()), num(tr.gain_from_trade(False))])
        return out

    # -- price clock -------------------------------------------------------------------------------------------
    def op_clk(self, op, t, rec):
        mod = MODULES[op["mod"]]
        if op["kind"] == "single":
            init = self.arg(op["init"]); r = self.arg(op["recipe"]); ac = [self.arg(op["ac"])] if op.get("ac") else []; self.own(t, r, ac)
            self.clocks[op["c"]] = ("single", mod.AscendingPriceVector(r, init, *ac), op)
        else:
            rs = self.arg(op["recipes"]); ac = [self.arg(op["ac"])] if op.get("ac") else []; self.own(t, rs, ac)
            self.clocks[op["c"]] = ("multi", mod.SimultaneousAscendingPriceVectors(rs, op["init"], *ac), op)
        return self.clkstate(op["c"])
    def clkstate(self, c):
        kind, v, op = self.clocks[c]
        st = v.status
        if kind == "single":
            pr = nums(v.prices); got = [num(v[i]) for i in range(len(v.prices))]
        else:
            pr = nums(v.map_category_index_to_price()); got = pr
        return {"prices": pr, "got": got, "sum": num(v.price_sum()), "status": None if st is None else st.name, "str": str(v)}
    def op_inc(self, op, t, rec):
        if op["c"] not in self.clocks: return None
        kind, v, cop = self.clocks[op["c"]]
        rec["before"] = self.clkstate(op["c"])
        try:
            cur = v.prices if kind == "single" else v.map_category_index_to_price()
            if "bup" in op: op = dict(op, bound=v.price_sum() + op["bup"])
            room = op.get("bound", 0) - v.price_sum()       # a target may be given by where it would bring the sum: just short of the bound, on it, just past it
            inc = [(a, float("inf") if d == "inf" else cur[a] + max(0, room / d["w"] + d["gap"]) if isinstance(d, dict) else cur[a] + d, n) for a, d, n in op["inc"]]
            rec["req"] = [[a, num(b)] for a, b, n in inc]
            rec["bound"] = num(op.get("bound", 0))
            self.own(t, inc)
            if kind == "single":
                a, b, n = inc[0]
                v.increase_price_up_to_balance(a, b, n, *([op["bound"]] if "bound" in op else []))
            else:
                v.increase_prices(inc, *([op["bound"]] if "bound" in op else []))
        finally:
            t.fault_at = 1 << 60; t.relimit()
            rec["after"] = self.clkstate(op["c"])
        return rec["after"]

    # -- randomly drawn markets --------------------------------------------------------------------------------
    def op_rseed(self, op, t, rec):
        random.seed(op["s"])
    def op_stream(self, op, t, rec):
        """from here on the random generator favours extreme draws"""
        rng = random.Random(op["s"]); ends = [0.0, 1.0 - 2.0 ** -53, 2.0 ** -53, 0.5, 1e-9, 1 - 1e-9]
        inst = random.uniform.__self__
        def draw():
            return rng.choice(ends) if rng.random() < op["x"] else rng.random()
        inst.random = draw; random.random = draw
    def op_rnd(self, op, t, rec):
        make = getattr(self.AC, {"u": "uniformly_random", "n": "normalvariate_random", "g": "gammavariate_random", "p": "paretovariate_random"}[op["d"]])
        c = make(op["name"], op["n"], *op["args"])
        vs = list(c.values)
        d = {"name": c.name, "values": nums(vs), "ints": all(type(v) is int for v in vs), "size": c.size(), "type": type(c) is self.AC}
        if op.get("m"): self.markets[op["m"]] = self.MK([c])
        return d

    def op_log(self, op, t, rec):
        set_logging(op["log"])


TREES = {"rt": "recipetree", "ri": "recipetree_integer", "ro": "recipetree_old"}

def set_logging(spec):
    if not spec: return
    lv = {"off": logging.WARNING, "info": logging.INFO, "debug": logging.DEBUG}[spec.get("level", "off")]
    which = spec.get("which")
    for n in MODULES:
        l = logging.getLogger(n)
        if which is None or n in which:
            l.setLevel(lv)
            for h in l.handlers: h.setLevel(logging.NOTSET)
            if not l.handlers and spec.get("handlers", True) and lv < logging.WARNING:
                l.addHandler(logging.StreamHandler(OUT))
        else:
            l.setLevel(logging.WARNING)
    sink = spec.get("sink")
    if sink:
        OUT.enabled = True
        OUT.fail = set(sink.get("fail", [])); OUT.fail_from = sink.get("from"); OUT.err = sink.get("err", 28)


IN_AUCTION = threading.local()

def world():
    """the process-wide state an auction shares with the rest of its program"""
    import os, signal, decimal, warnings, locale, builtins, hashlib, numpy, _thread, time
    h = lambda x: hashlib.sha256(repr(x).encode()).hexdigest()[:12]
    loggers = {n: l for n, l in logging.root.manager.loggerDict.items() if isinstance(l, logging.Logger)}
    loggers["root"] = logging.root
    u = os.umask(0o22); os.umask(u)
    ns = numpy.random.get_state()
    return {
        "random": h(random.getstate()), "numpy.random": h((ns[0], ns[1].tobytes(), ns[2:])), "numpy": h((numpy.geterr(), numpy.get_printoptions())),
        "logging": h((sorted((n, l.level, l.disabled, l.propagate, [(id(x), x.level, len(x.filters)) for x in l.handlers], len(l.filters)) for n, l in loggers.items()
                             if l.level or l.disabled or not l.propagate or l.handlers or l.filters),      # a logger that was merely named is no change
                      logging.root.manager.disable, logging.raiseExceptions, logging.getLoggerClass().__name__)),
        "recursion limit": sys.getrecursionlimit(), "switch interval": sys.getswitchinterval(),
        "streams and hooks": [id(x) for x in (sys.stdin, sys.stdout, sys.stderr, sys.excepthook, sys.displayhook, threading.excepthook)] + [sys.gettrace() is None, sys.getprofile() is None],
        "sys.path": h(sys.path), "argv": h(sys.argv), "directory": os.getcwd(), "environment": h(sorted(os.environ.items())), "umask": u,
        "signals": [str(signal.getsignal(x)) for x in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGUSR1)] + list(signal.getitimer(signal.ITIMER_REAL)),
        "decimal": h((decimal.getcontext().prec, decimal.getcontext().rounding, [str(k) for k, v in decimal.getcontext().traps.items() if v])),
        "warnings": h(warnings.filters), "locale": locale.setlocale(locale.LC_ALL), "builtins": h(sorted((n, id(v)) for n, v in vars(builtins).items() if n != "_")),
        "threads": _thread._count(), "gc": [gc.isenabled(), list(gc.get_threshold())], "files": sorted(os.listdir(".")), "open files": len(os.listdir("/proc/self/fd")),
        "digits": sys.get_int_max_str_digits(), "time zone": time.tzname,
    }
UNWORLDLY = ("log", "rnd", "rseed", "stream", "settle")      # operations of the caller that touch that state on purpose

class ClockWatch:
    """observes the price clocks used inside running auctions, through their public methods"""
    def __init__(self): self.log = []; self.on = False
    def install(self):
        for modname in ("prices", "prices_integer"):
            mod = MODULES[modname]
            for cname, meth in (("AscendingPriceVector", "increase_price_up_to_balance"), ("SimultaneousAscendingPriceVectors", "increase_prices")):
                cls = getattr(mod, cname, None)
                if cls is None or not hasattr(cls, meth): continue
                self.wrap(cls, meth, cname)
    def wrap(self, cls, meth, cname):
        orig = getattr(cls, meth)
        watch = self
        def wrapper(self, *a, **k):
            if not watch.on or not getattr(IN_AUCTION, 'on', False) or len(watch.log) > 3000:
                return orig(self, *a, **k)
            e = {"cls": cname, "before": watch.state(self), "req": watch.req(a, k)}
            watch.log.append(e)
            try:
                return orig(self, *a, **k)
            except BaseException as x:
                e["exc"] = type(x).__name__
                raise
            finally:
                e["after"] = watch.state(self)
        setattr(cls, meth, wrapper)
    def state(self, v):
        try:
            if hasattr(v, "map_category_index_to_price"):
                return {"prices": nums(v.map_category_index_to_price()), "recipes": [self.weighted(v, r) for r in v.ps_recipes], "status": getattr(v.status, "name", None)}
            return {"prices": nums(v.prices), "recipes": [self.weighted(v, v.ps_recipe)], "status": getattr(v.status, "name", None)}
        except AttributeError:
            return None
    def weighted(self, v, r):
        ac = getattr(v, "agent_counts", None)
        return [x * y for x, y in zip(r, ac)] if ac else list(r)
    def req(self, a, k):
        try:
            r = a[0] if a else None
            if isinstance(r, list): return [[i, num(p)] for (i, p, _) in r]
            return [[r, num(a[1])]]
        except Exception:
            return None

def run_session(scn):
    """execute one scenario; returns the JSON-able record of everything that happened"""
    random.seed(scn.get("rseed", 0)); SOLVER.rng = random.Random(scn.get("rseed", 0))
    gc.disable()
    if scn.get("world"):        # on, as in a real program, but never due: no collection decides anything
        gc.set_threshold(1 << 30, 10, 10); gc.enable()
    if scn.get("instr"):
        engine.set_granularity(True)
    env = Env(scn)
    SIM.probe = env.probe
    watch = None
    if scn.get("watch"):
        watch = ClockWatch(); watch.install()
    for f in scn.get("faults", []):
        if f.get("site") == "linprog":
            SOLVER.plan[f["nth"]] = f["kind"]
    set_logging(scn.get("log"))
    res = {}
    if scn.get("world"):
        import tempfile, os
        os.chdir(tempfile.mkdtemp(prefix="w-", dir=os.environ.get("DST_SCRATCH") or None))
    if watch: watch.on = True
    res["setup"] = SIM.run_inline(scn.get("setup", []), env.run, -1)
    w0 = world() if scn.get("world") and not any(o["k"] in UNWORLDLY for ops in scn.get("threads", []) for o in ops) else None
    res["threads"] = SIM.run_threads(scn.get("threads", []), scn.get("sched", []), env.run)
    if w0 is not None:
        engine.settle_threads(w0["threads"])
        w1 = world()
        d = [x for x in w0 if w0[x] != w1[x]]
        if d: res["world"] = d
    # all faults stop here
    SOLVER.plan = {}
    OUT.fail = set(); OUT.fail_from = None
    if SIM.abort: res["abort"] = SIM.abort
    SIM.abort = None
    res["post"] = SIM.run_inline(scn.get("post", []), env.run, -2)
    if SIM.abort: res["abort"] = SIM.abort
    env.probe("end")
    res["viol"] = env.viol[:5]
    res["switches"] = SIM.switches
    res["fired"] = [x for t in SIM.threads for x in t.fired]
    res["sinkfail"] = OUT.failed; res["solverfail"] = SOLVER.fired; res["logbytes"] = OUT.bytes
    res["trace"] = SIM.trace.hexdigest()[:16]
    res["events"] = SIM.events[:60]
    if watch: res["clock"] = watch.log
    if scn.get("world"):
        import shutil, os
        d = os.getcwd(); os.chdir("/")
        if os.path.basename(d).startswith("w-"): shutil.rmtree(d, ignore_errors=True)
    return res
