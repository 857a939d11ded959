"""Properties of the laboratory: P12 durability of results files, P13 truth of their rows, P14 stock data."""
import json, math, os, random, re
from fractions import Fraction as Fr
from collections import Counter
from ref import V, opt_single, opt_tree, F
from props import hash_key
import gen as G

def r2(rng, lo, hi): return rng.randint(lo, hi)

# ================================================================================================ scenario pieces
def price(rng, style):
    if style == 0: return rng.randint(1, 12)
    if style == 1: return rng.randint(8, 400) / 8
    return rng.randint(2, 8) / 8
def stock_csv(rng, n, style=None):
    style = rng.choice([0, 1, 1, 2]) if style is None else style
    rows = [[price(rng, style) for _ in range(4)] for _ in range(n)]
    lines = ["Date,Open,High,Low,Close,Volume"]
    for i, (o, h, l, c) in enumerate(rows): lines.append("2020-01-%02d,%s,%s,%s,%s,%d" % (i + 1, o, h, l, c, rng.randint(1, 9)))
    return "\n".join(lines) + "\n", {"Open": [r[0] for r in rows], "High": [r[1] for r in rows], "Low": [r[2] for r in rows], "Close": [r[3] for r in rows]}
def parse_stock(text):
    lines = [l.split(",") for l in text.strip().split("\n")]
    h = lines[0]
    return {c: [float(l[h.index(c)]) for l in lines[1:]] for c in ("Open", "High", "Low", "Close")}
def stock_files(rng, nmax=4):
    names = rng.sample(["A", "AA", "BRK.B", "MSFT", "T", "X", "csv", "GOOG", "a", "T1"], rng.randint(1, nmax))
    out = {}
    for n in names: out["stocks/%s.csv" % n] = stock_csv(rng, rng.randint(1, 6))[0]
    if rng.random() < 0.25: out["stocks/old/Z.csv"] = stock_csv(rng, 2)[0]
    return out
def stocks_of(files): return {os.path.basename(p)[:-4]: parse_stock(t) for p, t in files.items() if p.startswith("stocks/") and p.count("/") == 1}

UNITS = [[1, 1], [1, 1], [1, 1, 1], [1, 1, 1, 1]]
MULTI = [[1, 2], [2, 1], [1, 1, 2], [2, 1, 1], [1, 2, 3], [2, 2]]
def rec_auctions(rng, n, recipe):
    pool = ["aa", "aa", "tr"]
    if all(r == 1 for r in recipe): pool += ["mc0"] + (["mc"] if len(recipe) == 2 else [])
    return [rng.choice(pool) for _ in range(n)]
def sizes(rng, hi=6, n=None):
    return rng.sample(range(1, hi + 1), n or rng.choice([1, 2, 2, 3, 4]))
TREES = [[0, [1, None]], [0, [1, [2, None]]], [0, [1, None, 2, None]], [0, [1, None, 2, [3, None]]], [0, [1, [2, None, 3, None]]], [0, [1, [2, None, 3, None], 4, None]]]
def tree_k(st): return max(G.tree_indices(st)) + 1

def stock_lists(rng, recipe, counts=None):
    """caller-supplied prices: one list per category"""
    n = rng.randint(1, 3); out = []
    for _ in range(n):
        m = rng.randint(1, 8)
        out.append([[(1 if i == 0 else -1) * rng.randint(1, 30) * (sum(recipe[1:]) if i == 0 else recipe[0]) for _ in range(max(1, m * r + rng.choice([0, 0, 1, -1])))] for i, r in enumerate(recipe)])
    return out, ["S%d" % i for i in range(n)]

def run_op(rng, exp=None, file="res.csv", allow_dir=True):
    exp = exp or rng.choice(["experiment"] * 4 + ["experiment_comparing_sbb", "experiment_ascending_auction_recipetree_random", "experiment_ascending_auction_recipetree_integer_random",
                     "experiment_ascending_auction_recipetree_stock", "experiment_ascending_auction_recipetree_integer_stock", "experiment_stock", "experiment_stock",
                     "experiment_compare_iterations_autions", "experiment_compare_iterations_autions", "experiment_compare_iterations_autions_without_mcafee", "experiment_compare_sbb_shufled_stock"])
    op = {"k": "run", "exp": exp, "file": file, "seed": rng.randrange(1 << 30), "order": rng.randrange(1 << 20)}
    recipe = rng.choice(UNITS + MULTI)
    hi = rng.choice([3, 10, 100, 1000])
    T = rng.choice([1, 1, 2, 3])
    if exp == "experiment":
        kw = {"auction_function": rec_auctions(rng, 1, recipe)[0], "auction_name": rng.choice(["sbb", "McAfee", "a,b", "x y"]), "recipe": recipe,
              "value_ranges": [[1, hi * (sum(recipe[1:]) if rng.random() < 0.5 else 1)]] + [[-hi, -1]] * (len(recipe) - 1), "nums_of_agents": sizes(rng), "num_of_iterations": T}
        if rng.random() < 0.1: kw["value_ranges"] = [[1, 2]] + [[-hi * 3, -hi * 2]] * (len(recipe) - 1)      # nothing can trade
    elif exp == "experiment_comparing_sbb":
        kw = {"recipes": [rng.choice(UNITS + MULTI) for _ in range(rng.randint(1, 3))], "value_ranges": [[1, hi]] + [[-hi, -1]] * 3, "nums_of_agents": sizes(rng, n=rng.choice([1, 2, 3])), "num_of_iterations": rng.choice([1, 1, 2])}
    elif "recipetree" in exp:
        integer = exp.endswith("integer_random")
        st = rng.choice(TREES); k = tree_k(st)
        cnt = [rng.choice([1, 1, 2]) for _ in range(k)] if integer else [1] * k
        kw = {"recipe": st, "agent_counts": [rng.choice([1, 1, 2, 0.5]) * c for c in cnt], "agent_values": [rng.choice([1, 2, 3, 1.5]) for _ in range(k)], "num_of_iterations": T, "nums_of_agents": sizes(rng, 5, rng.choice([1, 2]))}
        if exp.endswith("random"):
            kw["value_ranges"] = [[1, hi], [-hi, -1]]
            if integer: kw["recipe_tree_agent_counts"] = cnt
        else:
            n = rng.randint(1, 3)
            kw["stocks_prices"] = [[[(1 if i == 0 else -1) * rng.randint(1, 30) * (2 if i == 0 else 1) for _ in range(rng.randint(1, rng.choice([6, 6, 14])))] for i in range(k)] for _ in range(n)]
            kw["stock_names"] = ["S%d" % i for i in range(n)]
            if rng.random() < 0.35 and allow_dir: del kw["stocks_prices"], kw["stock_names"]
            kw["agent_values"] = [rng.choice([1, 2, 3]) for _ in range(k)]; kw["agent_counts"] = [rng.choice([1, 1, 2]) for _ in range(k)]
            if rng.random() < 0.12: del kw["nums_of_agents"]
    elif exp == "experiment_stock":
        recipe = rng.choice([[1, 1], [1, 1], [1, 2], [2, 1], [1, 1, 1], [2, 1, 1]])
        kw = {"auction_function": rec_auctions(rng, 1, recipe)[0], "auction_name": rng.choice(["sbb", "mc"]), "recipe": recipe}
        if rng.random() < 0.5 or not allow_dir: kw["stocks_prices"], kw["stock_names"] = stock_lists(rng, recipe)
    else:
        names = rng.choice([["SBB_ext", "SBB_asc"], ["SBB_ext", "SBB_asc"], ["SBB_a"], ["One", "Two", "SBB_x"], ["SBB1", "mcafee", "SBB2", "SBB3"], ["SBB_x", "mcafee_ext"], ["mcafee"]])
        if exp == "experiment_compare_iterations_autions" or exp == "experiment_compare_sbb_shufled_stock":
            kw = {"auction_functions": None, "auction_names": names, "recipe": recipe, "nums_of_agents": sizes(rng, 4, rng.choice([1, 2, 3]))}
            if exp.endswith("shufled_stock"): kw["iterations"] = T
            else:
                kw["num_of_iterations"] = T
                kw["run_with_stock_prices"] = rng.random() < 0.6
                kw["report_diff"] = rng.random() < 0.3
            if rng.random() < 0.5 or not allow_dir:
                n = rng.randint(1, 3)
                kw["stocks_prices"] = [[rng.randint(1, 40) * rng.choice([1, 25]) for _ in range(rng.randint(2, rng.choice([24, 24, 70])))] for _ in range(n)]; kw["stock_names"] = ["S%d" % i for i in range(n)]
        else:
            recipe = rng.choice([[1, 1], [1, 1], [1, 2], [2, 1], [1, 1, 1], [2, 1, 1]])
            kw = {"auction_functions": None, "auction_names": names, "recipe": recipe, "nums_of_agents": sorted(sizes(rng, 6, rng.choice([1, 2, 3])))}
            if rng.random() < 0.5 or not allow_dir: kw["stocks_prices"], kw["stock_names"] = stock_lists(rng, recipe)
            if rng.random() < 0.2: del kw["nums_of_agents"]
        kw["auction_functions"] = rec_auctions(rng, len(names), recipe)
        if names[-1] == "SBB_asc" and rng.random() < 0.7:
            kw["auction_functions"] = rng.choice([["aa", "tr"], ["tr", "aa"]])
            if recipe == [1, 1] and rng.random() < 0.5: kw["auction_functions"] = rng.choice([["mc", "tr"], ["mc", "aa"], ["aa", "mc"]])
    op["kw"] = kw
    return op

def uses_dir(op): return op["exp"] in ("experiment_stock", "experiment_compare_iterations_autions", "experiment_compare_iterations_autions_without_mcafee",
                                       "experiment_compare_sbb_shufled_stock", "experiment_ascending_auction_recipetree_stock", "experiment_ascending_auction_recipetree_integer_stock") and "stocks_prices" not in op["kw"]

# ================================================================================================ the model of a row
class Skip(Exception): pass

def figures(call, out):
    """independent figures of one auction: optimal and achieved deals and gains"""
    key, cats, recipe, extra = call
    d = {}
    if key in ("rt", "ri"):
        cnt = (extra or [None])[0]
        f, best, _, _ = None, None, None, None
        _, _, best, _ = opt_tree(cats, recipe, cnt)
        d["ogft"] = best
        d["ocount"], ogft, d["kmin"], d["kmax"] = out["ctr"]
        d["count"] = out["K"]
        _, _, b, _ = opt_tree(out["cats"], recipe, cnt)
        d["total"] = b; d["market"] = b
        return d
    ks, ka, OPT, _ = opt_single(cats, recipe)
    d["ocount"] = ka; d["ocount_pos"] = ks; d["ogft"] = OPT
    K = out["K"]; value = Fr(0); paid = Fr(0)
    if K > 0:
        for i, r in enumerate(recipe):
            if r == 0: continue
            vs = out["cats"][i]
            value += Fr(K * r, len(vs)) * sum(F(v) for v in vs); paid += F(out["prices"][i]) * K * r
    d["count"] = K; d["total"] = value; d["market"] = value - paid
    return d

def S(figs, k): return sum((F(f[k]) for f in figs), Fr(0))
def ratio(a, b): return 0 if b == 0 else a / b * 100

def c_(x, tol): return ("num", float(x), tol + 1e-9 * abs(float(x)))

def capped(nums, avail):
    """sizes that are run, as (asked, effective): sizes beyond the data are run once, on all the data"""
    last = False; out = []
    for n in nums:
        e = min(n, avail)
        if e < n:
            if last: break
            last = True
        out.append((n, e))
    return out

def luck(got, source):
    """chance that a fair shuffle of source begins with exactly the sequence got"""
    rem = Counter(source); n = len(source); p = 1.0
    for v in got:
        if not rem[v]: return 0.0
        p *= rem[v] / n; rem[v] -= 1; n -= 1
    return p
def luckset(groups, source):
    """chance that a fair shuffle of source, dealt out in groups of these sizes, gives each group exactly these values"""
    rem = Counter(source); n = len(source); p = 1.0
    for g in groups:
        for v, m in Counter(g).items():
            p *= math.comb(rem[v], m); rem[v] -= m
        p /= math.comb(n, len(g)) if len(g) <= n else 1; n -= len(g)
    return p
RARE = 1e-11
def half_shuffled(got, st):
    """got begins a shuffle of a stock's prices; says how it is visibly less than a shuffle of all of them (chance under RARE for a fair one)"""
    cols = [[int(x * 1000) for x in st[k]] for k in ("High", "Close", "Open", "Low")]; flat = sum(cols, []); got = list(got)
    if got == flat[:len(got)]: return "not at all" if luck(got, flat) < RARE else None
    n = len(cols[0]); blocks = [got[i:i + n] for i in range(0, len(got) - n + 1, n)][:4]
    owners = [[q for q, c in enumerate(cols) if Counter(c) == Counter(b)] for b in blocks]
    if blocks and all(owners) and 24 * luckset(blocks, flat) < RARE: return "only within columns"
    once = Counter(flat); once = {v for v, m in once.items() if m == 1}
    for name, src in (("backwards", flat[::-1]), ("in place", flat)):
        if sum(a == b and a in once for a, b in zip(got, src)) >= 16: return "mostly " + name
    return None
def drawn(groups, rounds):
    """bids drawn from wide ranges are spread over the range and drawn anew in every round.
    groups: {(lo, hi): [values]}; rounds: [(market, number of its bids drawn from a wide range)]"""
    bad = []
    for (lo, hi), vs in groups.items():
        if hi - lo < 60: continue
        if len(vs) >= 8 and len(set(vs)) == 1: bad.append(V("draws-all-equal", range=[lo, hi], value=vs[0]))
        elif len(vs) >= 45 and (max(vs) < (lo + hi) / 2 or min(vs) > (lo + hi) / 2): bad.append(V("draws-on-one-side", range=[lo, hi], n=len(vs)))
    seen = {}
    for i, (m, n) in enumerate(rounds):
        k = json.dumps(m)
        if n >= 8 and k in seen: bad.append(V("rounds-not-redrawn", rounds=[seen[k], i]))
        seen[k] = i
    return bad
def wide(cats, ranges): return sum(len(c) for c, (lo, hi) in zip(cats, ranges) if hi - lo >= 60)

def noted(what, found, figs, A, key, both):
    """the diagnostics of the comparison: the first later SBB auction that differs from (both) / falls short of the first one, round by round"""
    bad = []; want = []; maybe = 0
    names = [j for j, a in enumerate(A) if "SBB" in a]
    for f in figs:
        if len(names) < 2: break
        first = F(f[names[0]][key])
        for rule in (["differs"] if both else []) + ["less"]:
            for j in names[1:]:
                x = F(f[j][key])
                if x != first and abs(x - first) < Fr(1, 10 ** 6) or x == first and any(F(y).denominator not in (1, 2, 4) for y in (x, first)): maybe += 1; break
                if x < first or x > first and rule == "differs": want.append((first, x)); break
    if not maybe:
        if len(found) != len(want): return [V("diagnostics-missing" if len(found) < len(want) else "diagnostics-false", what=what, noted=len(found), expected=len(want))]
        for (a, b), (x, y) in zip(found, want):
            try: ok = abs(F(float(a)) - x) < Fr(1, 10 ** 6) * (1 + abs(x)) and abs(F(float(b)) - y) < Fr(1, 10 ** 6) * (1 + abs(y))
            except ValueError: ok = False
            if not ok: bad.append(V("diagnostics-false", what=what, noted=[a, b], real=[float(x), float(y)])); break
    elif not len(want) <= len(found) <= len(want) + maybe * 2: bad.append(V("diagnostics-count", what=what, noted=len(found), expected=len(want)))
    return bad

def model(op, calls, outs, stocks, order_names, notes=None):
    """the rows this run must have produced, plus complaints about the markets it built: (rows, bad)"""
    kw = op["kw"]; exp = op["exp"]; bad = []
    figs = [figures(c, o) for c, o in zip(calls, outs)]
    pos = [0]
    def take(n):
        if pos[0] + n > len(calls): raise Skip()
        r = list(range(pos[0], pos[0] + n)); pos[0] += n
        return r
    def check_sizes(i, want, what):
        got = [len(c) for c in calls[i][1]]
        if got != want: bad.append(V("market-size", call=i, got=got, want=want, what=what))
    rows = []
    recipe = kw.get("recipe"); groups = {}; rounds = []
    if exp == "experiment":
        T = kw["num_of_iterations"]
        for n in kw["nums_of_agents"]:
            ix = take(T); f = [figs[i] for i in ix]
            for i in ix:
                check_sizes(i, [n * r for r in recipe], "agents per category")
                for c, (lo, hi) in zip(calls[i][1], kw["value_ranges"]):
                    if any(v < lo - 0.5 or v > hi + 0.5 for v in c): bad.append(V("value-range", call=i))
                    groups.setdefault((lo, hi), []).extend(c)
                rounds.append((calls[i][1], wide(calls[i][1], kw["value_ranges"])))
            rows.append({"iterations": c_(T, 0), "auction_name": kw["auction_name"], "recipe": ":".join(map(str, recipe)), "num_of_agents": c_(n, 0),
                "mean_optimal_count": c_(S(f, "ocount") / T, .0051), "mean_auction_count": c_(S(f, "count") / T, .0051), "count_ratio": c_(ratio(S(f, "count"), S(f, "ocount")), .0101),
                "mean_optimal_gft": c_(S(f, "ogft") / T, .0051), "mean_auction_total_gft": c_(S(f, "total") / T, .0051), "total_gft_ratio": c_(ratio(S(f, "total"), S(f, "ogft")), .0051),
                "mean_auction_market_gft": c_(S(f, "market") / T, .0051), "market_gft_ratio": c_(ratio(S(f, "market"), S(f, "ogft")), .0051)})
    elif exp == "experiment_comparing_sbb":
        T = kw["num_of_iterations"]
        for rc in kw["recipes"]:
            n_ = len(kw["nums_of_agents"])
            lo = {"g": [0, 0, 0], "k": [0, 0, 0]}; amb = {"g": 0, "k": 0}
            for n in kw["nums_of_agents"]:
                ix = take(2 * T)
                ext = [figs[i] for i in ix if calls[i][0] == "tr"]; asc = [figs[i] for i in ix if calls[i][0] == "aa"]
                if len(ext) != T or len(asc) != T: bad.append(V("auctions-per-round", ext=len(ext), asc=len(asc), rounds=T)); raise Skip()
                mult = [sum(rc) - rc[0]] + [rc[0]] * (len(rc) - 1)
                rs = [(lo_ * m, hi_ * m) for (lo_, hi_), m in zip(kw["value_ranges"], mult)]
                for i in ix: check_sizes(i, [n * r for r in rc], "agents per category")
                for a, b in zip([i for i in ix if calls[i][0] == "tr"], [i for i in ix if calls[i][0] == "aa"]):
                    if calls[a][1] != calls[b][1]: bad.append(V("markets-differ", call=a))
                    for c, (lo_, hi_) in zip(calls[a][1], rs):
                        if any(v < lo_ - 0.5 or v > hi_ + 0.5 for v in c): bad.append(V("value-range", call=a))
                        groups.setdefault((lo_, hi_), []).extend(c)
                    rounds.append((calls[a][1], wide(calls[a][1], rs)))
                for key, col in (("g", "total"), ("k", "count")):
                    a, b = S(ext, col), S(asc, col)
                    if a != b and abs(a - b) < Fr(1, 10 ** 6) or (a == b and col == "total" and not all(F(x[col]).denominator in (1, 2, 4) for x in ext + asc)): amb[key] += 1
                    else: lo[key][0 if a > b else 1 if a == b else 2] += 1
            row = {"recipe": "(" + ", ".join(map(str, rc)) + ")"}
            for key, names in (("g", ("external_wins_gft", "tie_gft", "ascending_wins_gft")), ("k", ("external_wins_k", "tie_k", "ascending_wins_k"))):
                for x, nm in zip(lo[key], names):
                    row[nm] = ("range", int(x * 100 / n_) - .001, int((x + amb[key]) * 100 / n_) + .001)
            for x, nm in zip(lo["g"], ("external_wins", "tie", "ascending_wins")): row[nm] = ("range", x - .001, x + amb["g"] + .001)
            rows.append(row)
    elif exp in ("experiment_ascending_auction_recipetree_random", "experiment_ascending_auction_recipetree_integer_random"):
        T = kw["num_of_iterations"]; eps = 5.1e-6 if "integer" in exp else 1e-7
        for n in kw["nums_of_agents"]:
            ix = take(T); f = [figs[i] for i in ix]
            for i in ix:
                check_sizes(i, [int(n * a) for a in kw["agent_counts"]], "agents per category")
                for q, c in enumerate(calls[i][1]):
                    lo, hi = kw["value_ranges"][0 if q == 0 else 1]; m = kw["agent_values"][q]
                    if any(v < lo * m - 0.51 or v > hi * m + 0.51 for v in c): bad.append(V("value-range", call=i, category=q))
                    groups.setdefault((lo * m, hi * m), []).extend(c)
                rounds.append((calls[i][1], wide(calls[i][1], [[x * m for x in kw["value_ranges"][min(q, 1)]] for q, m in enumerate(kw["agent_values"])])))
            km = S(f, "kmin") / T
            rows.append({"iterations": c_(T, 0), "recipe": str(kw["recipe"]).replace(",", "-"), "numofagents": c_(n, 0),
                "meanoptimalcount": c_(S(f, "ocount") / T, eps), "meanoptimalkmin": c_(km, eps), "meanoptimalkmax": c_(S(f, "kmax") / T, eps),
                "gftformula": c_(max(0, (km - 1) / (km + 1) * 100), eps), "meanauctioncount": c_(S(f, "count") / T, eps), "countratio": c_(ratio(S(f, "count"), S(f, "ocount")), eps),
                "meanoptimalgft": c_(S(f, "ogft") / T, eps), "meanauctiontotalgft": c_(S(f, "total") / T, eps), "totalgftratio": c_(ratio(S(f, "total"), S(f, "ogft")), eps)})
    elif exp in ("experiment_ascending_auction_recipetree_stock", "experiment_ascending_auction_recipetree_integer_stock"):
        T = kw.get("num_of_iterations", 1)
        per = {}; first = {}; still = True; still_p = 1.0
        if "stocks_prices" in kw: lens = [[len(c) for c in s] for s in kw["stocks_prices"]]; srcs = kw["stocks_prices"]
        else:
            lens = []; srcs = None
            for nm in order_names:
                tot = sum(len(v) for v in stocks[nm].values())
                lens.append([int(tot / sum(kw["agent_counts"]) * a) for a in kw["agent_counts"]])
        for s, ln in enumerate(lens):
            last = srcs[s] if srcs is not None else None
            for _ in range(T):
                longest = None
                for n, e in capped(kw.get("nums_of_agents", [10000000]), ln[0]):
                    i, = take(1)
                    want = list(ln) if e < n else [min(l, int(e * a)) for l, a in zip(ln, kw["agent_counts"])]
                    check_sizes(i, want, "agents per category")
                    for q, c in enumerate(calls[i][1]):
                        if srcs is not None and Counter(c) - Counter(srcs[s][q]): bad.append(V("foreign-price", call=i, category=q))
                        if any((v < 0) if q == 0 else (v > 0) for v in c): bad.append(V("sign", call=i, category=q))
                    per.setdefault(n, []).append(figs[i]); first.setdefault(n, e)
                    if longest is None or sum(map(len, calls[i][1])) > sum(map(len, longest)): longest = calls[i][1]
                if longest is not None and srcs is not None:
                    p = 1.0; same = True
                    for c, x, y in zip(longest, last, srcs[s]):
                        same &= sorted(c) == sorted(x[:len(c)]); p *= luckset([c], y) if not Counter(c) - Counter(y) else 1.0
                    still = still and same; still_p *= p
                    if same and p < RARE: bad.append(V("not-shuffled", stock=s, round=_))
                    # the same sample again in the next round is the same arrangement again
                    last = longest if _ == 0 and not same else [[]] * len(ln) if not same else last
        if still and still_p < RARE and srcs is not None: bad.append(V("never-shuffled"))
        for n in kw.get("nums_of_agents", [10000000]):
            f = per.get(n)
            if not f: continue
            m = len(f); km = S(f, "kmin") / m
            rows.append({"stockname": "Average", "recipe": str(kw["recipe"]).replace(",", "->"), "optimalkmin": c_(km, 1e-7), "optimalkmax": c_(S(f, "kmax") / m, 1e-7),
                "gftformula": c_(0 if km <= 1 else (1 - 1 / km) * 100, 1e-7), "optimalcount": c_(S(f, "ocount") / m, 1e-7), "optimalgft": c_(S(f, "ogft") / m, 1e-7),
                "auctioncount": c_(S(f, "count") / m, 1e-7), "gft": c_(S(f, "total") / m, 1e-7),
                "countratio": c_(sum(ratio(F(x["count"]), F(x["ocount"])) for x in f) / m, 1e-7), "gftratio": c_(sum(ratio(F(x["total"]), F(x["ogft"])) for x in f) / m, 1e-7)})
    elif exp == "experiment_stock":
        lists, names = supplied(op, stocks, order_names, lambda st: prices_model(st, recipe))
        for s, nm in zip(lists, names):
            i, = take(1); f = figs[i]
            if [sorted(c) for c in calls[i][1]] != [sorted(c) for c in s]: bad.append(V("foreign-price", call=i, stock=nm))
            rows.append({"stock_name": nm, "auction_name": kw["auction_name"], "recipe": ":".join(map(str, recipe)), "num_possible_trades": c_(min(Fr(len(c), r) for c, r in zip(s, recipe)), .51),
                "optimal_count": c_(f["ocount"], .0051), "auction_count": c_(f["count"], .0051), "count_ratio": c_(ratio(F(f["count"]), F(f["ocount"])), .00101), "optimal_gft": c_(f["ogft"], .0051),
                "auction_gft": c_(f["total"], .0051), "auction_gft_ratio": c_(ratio(F(f["total"]), F(f["ogft"])), .00051), "auction_market_gft": c_(f["market"], .0051), "market_gft_ratio": c_(ratio(F(f["market"]), F(f["ogft"])), .00051)})
    elif exp == "experiment_compare_iterations_autions_without_mcafee":
        lists, names = supplied(op, stocks, order_names, lambda st: prices_model(st, recipe))
        A = kw["auction_names"]
        for s, nm in zip(lists, names):
            avail = min(len(c) // r for c, r in zip(s, recipe))
            for n, e in capped(kw.get("nums_of_agents", [10000000]), avail):
                ix = take(len(A)); f = [figs[i] for i in ix]
                for i in ix:
                    if calls[i][1] != calls[ix[0]][1]: bad.append(V("markets-differ", call=i))
                    check_sizes(i, [len(c) for c in s] if e < n else [e * r for r in recipe], "agents per category")
                    if any(Counter(c) - Counter(x) for c, x in zip(calls[i][1], s)): bad.append(V("foreign-price", call=i, stock=nm))
                row = {"stock_name": nm, "recipe": ":".join(map(str, recipe)), "num_possible_trades": c_(e, 0), "optimal_count": c_(f[0]["ocount_pos"], 0), "optimal_count_with_gft_zero": c_(f[0]["ocount"], 0), "optimal_gft": c_(f[0]["ogft"], .0051)}
                for a, x in zip(A, f):
                    row.update({a + "_auction_count": c_(x["count"], 0), a + "_count_ratio": c_(ratio(F(x["count"]), F(x["ocount"])), .00101), a + "_gft": c_(x["market"], .0051), a + "_gft_ratio": c_(ratio(F(x["market"]), F(x["ogft"])), .00051)})
                rows.append(row)
    elif exp == "experiment_compare_iterations_autions":
        lists, names = supplied(op, stocks, order_names, lambda st: shuffled_model(st))
        A = kw["auction_names"]; T = kw["num_of_iterations"]; per = {}; every = []; still = True; still_p = 1.0
        for s, nm in zip(lists, names):
            last = None; again = 1.0
            for n in kw["nums_of_agents"]:
                for _ in range(T):
                    ix = take(len(A)); f = [figs[i] for i in ix]; every.append(f)
                    fac = (sum(recipe) - recipe[0]) / recipe[0]
                    cats = calls[ix[0]][1]
                    if kw.get("run_with_stock_prices", True):
                        src = list(s)
                        while len(src) < n * sum(recipe): src = src + src
                        at = 0; same = True; groups_ = []
                        for q, c in enumerate(cats):
                            g = src[at:at + n * recipe[q]]; at += n * recipe[q]; groups_.append(g)
                            same &= sorted(c) == sorted(int(x * (fac if q == 0 else -1)) for x in g)
                        if "stocks_prices" in kw:
                            big = list(s)
                            while len(big) < max(kw["nums_of_agents"]) * sum(recipe): big = big + big
                            p = luckset(groups_, big) if fac >= 1 else 1.0
                            still = still and same; still_p *= p
                            if same and p < RARE: bad.append(V("not-shuffled", stock=nm))
                        if fac >= 1:
                            inv = {int(x * fac): x for x in s}
                            real = [[inv.get(v, v) if q == 0 else -v for v in c] for q, c in enumerate(cats)]
                            big = list(s)
                            while len(big) < max(kw["nums_of_agents"]) * sum(recipe): big = big + big
                            if last is not None and list(map(sorted, real)) == list(map(sorted, last)) and not Counter(v for c in real for v in c) - Counter(big):
                                again *= luckset(real, big)
                                if again < RARE: bad.append(V("not-reshuffled", stock=nm))
                            else: again = 1.0
                            last = real
                    else:
                        rs = [(fac, 100000 * fac)] + [(-100000, -1)] * (len(recipe) - 1)
                        for c, (lo, hi) in zip(cats, rs):
                            if any(v < lo - .51 or v > hi + .51 for v in c): bad.append(V("value-range", stock=nm))
                            groups.setdefault((lo, hi), []).extend(c)
                        rounds.append((cats, wide(cats, rs)))
                    for i in ix:
                        if calls[i][1] != calls[ix[0]][1]: bad.append(V("markets-differ", call=i))
                        check_sizes(i, [n * r for r in recipe], "agents per category")
                        fac = (sum(recipe) - recipe[0]) / recipe[0]
                        for q, c in enumerate(calls[i][1]):
                            if kw.get("run_with_stock_prices", True) and not {int(p * (fac if q == 0 else -1)) for p in s} >= set(c): bad.append(V("foreign-price", call=i, stock=nm, category=q))
                            if any((v < 0) if q == 0 else (v > 0) for v in c): bad.append(V("sign", call=i, category=q))
                        if kw.get("run_with_stock_prices", True) and fac == 1:
                            need = n * sum(recipe); m = len(s); times = 1
                            while m * times < need: times *= 2
                            got = Counter(abs(v) for c in calls[i][1] for v in c); have = Counter(abs(p) for p in s)
                            # the price list may have grown for an earlier, larger size
                            big = max(kw["nums_of_agents"]) * sum(recipe); tb = 1
                            while m * tb < big: tb *= 2
                            if got - Counter({k: v * tb for k, v in have.items()}): bad.append(V("price-reused", call=i, stock=nm))
                    per.setdefault(n, []).append(f)
        if kw.get("run_with_stock_prices", True) and "stocks_prices" in kw and still and still_p < RARE: bad.append(V("never-shuffled"))
        if notes is not None:
            for what, key in (("gft", "total"), ("k", "count")): bad += noted(what, notes.get(what, []), every, A, key, kw.get("report_diff"))
        for n in kw["nums_of_agents"]:
            P = per[n]; N = len(P)
            col = lambda fn, tol: c_(sum((F(fn(f)) for f in P), Fr(0)) / N, tol)
            allones = min(recipe) == max(recipe) and recipe[0] == 1
            row = {"iterations": c_(T, 0), "stockname": "Average", "recipe": ":".join(map(str, recipe)), "numpossibletrades": c_(n, 0),
                "optimalcount": col(lambda f: f[0]["ocount_pos"], .0101), "optimalcountwithgftzero": col(lambda f: f[0]["ocount"], .0101), "optimalgft": col(lambda f: f[0]["ogft"], .0101), "optimalgftwithgftzero": col(lambda f: f[0]["ogft"], .0101),
                "gftratioformula": col(lambda f: Fr((f[0]["ocount_pos"] - 1) * 100, f[0]["ocount_pos"] + (0 if allones else 1)) if f[0]["ocount_pos"] > 1 else 0, .00101)}
            for j, a in enumerate(A):
                row.update({a + "count": col(lambda f: f[j]["count"], .0101), a + "countratio": col(lambda f: 0 if f[j]["ocount_pos"] == 0 else ratio(F(f[j]["count"]), F(f[j]["ocount"])), .0101),
                    a + "totalgft": col(lambda f: f[j]["total"], .0101), a + "totalgftratio": col(lambda f: ratio(F(f[j]["total"]), F(f[j]["ogft"])), .00101), a + "marketgft": col(lambda f: f[j]["market"], .0101),
                    a + "marketgftratio": col(lambda f: ratio(F(f[j]["market"]), F(f[j]["ogft"])), .00101), a + "withoutgftzerocountratio": col(lambda f: ratio(F(f[j]["count"]), F(f[j]["ocount_pos"])), .0101),
                    a + "withoutgftzerototalgft": col(lambda f: f[j]["total"], .0101), a + "withoutgftzerototalgftratio": col(lambda f: ratio(F(f[j]["total"]), F(f[j]["ogft"])), .00101)})
                row = {k: (v[0], v[1], v[2]) if isinstance(v, tuple) else v for k, v in row.items()}
            rows.append(row)
    elif exp == "experiment_compare_sbb_shufled_stock":
        lists, names = supplied(op, stocks, order_names, lambda st: shuffled_model(st))
        A = kw["auction_names"]; T = kw["iterations"]; per = {}
        def mk(nm, e, vals, tols):
            row = {"stockname": nm, "recipe": ":".join(map(str, recipe))}
            if e is not None: row["numpossibletrades"] = c_(e, 0)
            for k, v in vals.items(): row[k] = c_(v, tols)
            return row
        for s, nm in zip(lists, names):
            avail = len(s) // sum(recipe); started = False
            for n in kw["nums_of_agents"]:
                e = min(n, avail); reps = T
                if e < n:
                    if started: continue
                    reps = 1
                started = True
                fs = []
                for _ in range(reps):
                    ix = take(len(A)); f = [figs[i] for i in ix]; fs.append(f)
                    for i in ix:
                        if calls[i][1] != calls[ix[0]][1]: bad.append(V("markets-differ", call=i))
                        check_sizes(i, [e * r for r in recipe], "agents per category")
                        b = recipe[0]; rest = sum(recipe) - b
                        got = Counter()
                        for q, c in enumerate(calls[i][1]):
                            m = rest if q == 0 else -b
                            for v in c: got[Fr(v) / m] += 1
                        if got - Counter(Fr(p) for p in s): bad.append(V("foreign-price", call=i, stock=nm))
                R = len(fs)
                vals = {"optimalcount": S([f[0] for f in fs], "ocount_pos") / R, "optimalcountwithgftzero": S([f[0] for f in fs], "ocount") / R, "optimalgft": S([f[0] for f in fs], "ogft") / R}
                for j, a in enumerate(A):
                    g = [f[j] for f in fs]
                    vals.update({a + "auctioncount": S(g, "count") / R, a + "gft": S(g, "market") / R, a + "countratio": sum(ratio(F(x["count"]), F(x["ocount"])) for x in g) / R, a + "gftratio": sum(ratio(F(x["market"]), F(x["ogft"])) for x in g) / R})
                rows.append(mk(nm, e, vals, 1e-6)); per.setdefault(n, []).append(vals)
        for n in kw["nums_of_agents"]:
            if n in per:
                L = per[n]
                row = mk("Average", None, {}, 0)
                for k in L[0]:
                    row[k] = c_(sum((F(x[k]) for x in L), Fr(0)) / len(L), .00101 if "ratio" in k else .051)
                rows.append(row)
    bad += drawn(groups, rounds)
    if pos[0] != len(calls): bad.append(V("rounds", auctions_run=len(calls), expected=pos[0]))
    return rows, bad

def supplied(op, stocks, order_names, derive):
    kw = op["kw"]
    if "stocks_prices" in kw: return kw["stocks_prices"], kw["stock_names"]
    return [derive(stocks[n]) for n in order_names], order_names

def prices_model(st, recipe):
    H, C, O, L = (st[k] for k in ("High", "Close", "Open", "Low"))
    up = lambda xs: [int(x * 1000) for x in xs]
    neg = lambda xs: [int(-x * 1000) for x in xs]
    add = lambda a, b: [x + y for x, y in zip(a, b)]
    r = tuple(recipe)
    if r == (1, 1): return [up(H + C), neg(O + L)]
    if r == (2, 1): return [up(H + C), neg(add(O, L))]
    if r == (1, 2): return [up(add(H, C)), neg(O + L)]
    if r == (2, 1, 1): return [up(H + C), neg(O), neg(L)]
    if r == (1, 1, 1): return [up(add(H, C)), neg(O), neg(L)]
    raise Skip()
def shuffled_model(st): return [int(x * 1000) for k in ("High", "Close", "Open", "Low") for x in st[k]]

def norm(cell):
    try: return float(cell)
    except (TypeError, ValueError): return None if cell in ("", None) else cell
def norm_rows(t): return None if t is None else [[norm(c) for c in r] for r in t[1:]] if t else []
def same_cell(a, b):
    if isinstance(a, float) and isinstance(b, float): return a == b or (a != a and b != b) or abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))
    return a == b
def same_row(a, b): return len(a) == len(b) and all(same_cell(x, y) for x, y in zip(a, b))
def prefix(a, b): return len(a) <= len(b) and all(same_row(x, y) for x, y in zip(a, b))
def same_rows(a, b): return len(a) == len(b) and prefix(a, b)

def match_row(row, header, want):
    bad = []
    for k, w in want.items():
        if k not in header: bad.append(V("missing-column", column=k)); continue
        c = row[header.index(k)]
        if isinstance(w, tuple):
            x = norm(c)
            if not isinstance(x, float): bad.append(V("not-a-number", column=k, cell=c)); continue
            if w[0] == "num":
                if abs(x - w[1]) > w[2]: bad.append(V("wrong-figure", column=k, cell=c, real=w[1]))
            elif not (w[1] <= x <= w[2]): bad.append(V("wrong-figure", column=k, cell=c, between=[w[1], w[2]]))
        elif c != w: bad.append(V("wrong-label", column=k, cell=c, real=w))
    return bad

class LabProp:
    def key(self, scn, res):
        rows = sum(len(v or []) for l in res["lives"] for v in (l.get("disk") or {}).values())
        fired = any(o.get("fired") or o.get("auction_failed") or o.get("fault") or o.get("crashed") for l in res["lives"] for o in l.get("ops", []))
        return hash_key([[l.get("ops") or l.get("threads") for l in scn["lives"]]]) if rows or fired else None
    def stats(self, scn, res, S_):
        for l in res["lives"]:
            for o in l.get("ops", []) + [x for t in l.get("threads", []) for x in t]:
                S_["ops"] += 1; S_["lines"] += o.get("lines", 0); S_["probe_io_events"] += o.get("io", 0); S_["probe_auctions_run"] += o.get("finished", 0)
                S_["probe_rows_written"] += o.get("added", 0)
                for f in o.get("fired", []): S_["fault_disk_%s_on_%s" % (f[2], f[1])] += 1
                if o.get("auction_failed"): S_["fault_auction_failure"] += 1
                if "fault" in o: S_["fault_" + o["fault"][1]] += 1
                if o.get("exc") and not (o.get("fired") or o.get("auction_failed") or "fault" in o): S_["op_exc_" + o["exc"]] += 1
            if l.get("crash"): S_["fault_process_crash"] += 1
            if l.get("restored"): S_["probe_operator_restores"] += 1
            S_["switches"] += l.get("switches", 0)
            S_["probe_process_lifetimes"] += 1

# ================================================================================================ P12
def calls_per_row(op):
    """auctions run before each row is handed to the table (None: rows come only at the end)"""
    kw = op["kw"]; e = op["exp"]
    if e == "experiment" or e.endswith("_random"): return kw["num_of_iterations"]
    if e == "experiment_comparing_sbb": return 2 * kw["num_of_iterations"] * len(kw["nums_of_agents"])
    if e == "experiment_stock": return 1
    if e == "experiment_compare_iterations_autions_without_mcafee": return len(kw["auction_names"])
    return None

class P12(LabProp):
    id = "P12"
    def gen(self, rng, tier):
        file = rng.choice(["res.csv", "res.csv", "out/res.csv"])
        op = run_op(rng, file=file)
        lives = []
        if rng.random() < 0.7: lives.append({"ops": [dict(op, seed=rng.randrange(1 << 30))]})
        for _ in range(rng.choice([1, 1, 2, 3])):
            o = dict(op, seed=rng.randrange(1 << 30))
            x = rng.random()
            if x < 0.30: o["fault"] = {"io": {str(self.ionth(rng)): "crash"}}
            elif x < 0.55: o["fault"] = {"io": {str(self.ionth(rng)): rng.choice(["EIO", "ENOSPC", "ENOSPC", "EACCES"])}}
            elif x < 0.75: o["fault"] = {"line": G.fault_line(rng) if rng.random() < 0.5 else rng.randint(1, 4000), "exc": rng.choice(["crash", "crash", "KeyboardInterrupt", "MemoryError", "OSError", "SimInterrupt"])}
            elif x < 0.88: o["fault"] = {"auction": rng.choice([1, 2, 3, 4, 5, 6, 8])}
            elif x < 0.94: o["fault"] = {"row": rng.choice([1, 1, 2, 2, 3, 4, 6]), "exc": rng.choice(["crash", "crash", "KeyboardInterrupt"])}
            lives.append({"ops": [o]})
            if rng.random() < 0.5: lives.append({"ops": [dict(op, seed=o["seed"] if rng.random() < 0.5 else rng.randrange(1 << 30))]})
        if uses_dir(op) or op["exp"].endswith("_autions"): pass
        files = stock_files(rng)
        if file.startswith("out/"): files["out/readme.txt"] = "x"
        if rng.random() < 0.1: files["res.temp.csv"] = "left,over\n1,2\n"
        for l in lives:      # several runs in one process
            if "fault" not in l["ops"][0] and rng.random() < 0.25: l["ops"].append(dict(op, seed=rng.randrange(1 << 30)))
        return {"files": files, "lives": lives}
    def ionth(self, rng): return rng.choice([rng.randint(1, 12), rng.randint(1, 40), rng.randint(1, 120)])
    def judge(self, scn, res, ctx):
        bad = []
        refs = {}
        for li, (life, rec) in enumerate(zip(scn["lives"], res["lives"])):
            before = rec["before"]
            for oi, op in enumerate(life["ops"]):
                if oi >= len(rec["ops"]): break
                o = rec["ops"][oi]
                name = op["file"]
                tname = name.replace(".csv", ".temp.csv")
                after = o.get("after") if "after" in o else rec["disk"]
                existed = before.get(name) is not None
                k = json.dumps([{x: y for x, y in op.items() if x != "fault"}, existed and op["exp"] == "experiment_compare_iterations_autions", random_state(life, oi)])
                if k not in refs:
                    refs[k] = self.reference(scn, life, oi, op, existed, ctx)
                want = refs[k]
                if want is None: before = after; continue
                where = {"life": li, "op": oi, "exp": op["exp"], "p": op["exp"]}
                for v in self.step(op, o, before, after, name, tname, want, rec): bad.append(dict(v, **where))
                before = after
        return bad
    def reference(self, scn, life, oi, op, existed, ctx):
        """the rows of this run when nothing goes wrong, executed in a process of its own with nothing on disk"""
        ops = [dict({x: y for x, y in q.items() if x != "fault"}, file="q%d.csv" % i) for i, q in enumerate(life["ops"][:oi + 1])]
        if existed and op["exp"] == "experiment_compare_iterations_autions": return {"header": None, "rows": [], "skips": True}
        r = ctx.run({"files": {k: v for k, v in scn.get("files", {}).items() if k.startswith("stocks/")}, "lives": [{"ops": ops}]})
        if "harness" in r: return None
        o = r["lives"][0]["ops"][-1]
        if "exc" in o: return {"fails": o["exc"]}
        t = r["lives"][0]["disk"].get("q%d.csv" % oi)
        if not t: return {"norows": True, "rows": []}
        return {"header": t[0], "rows": norm_rows(t)}
    def step(self, op, o, before, after, name, tname, want, rec):
        E = norm_rows(before.get(name)) or []
        final = norm_rows(after.get(name)); temp = norm_rows(after.get(tname))
        torn = o.get("torn"); crashed = o.get("crashed"); failed = "exc" in o or crashed
        injected = o.get("fired") or o.get("auction_failed") or "fault" in o or crashed
        if "fails" in want:
            return [] if injected else [V("run-fails", exc=want["fails"])]
        if "norows" in want: return [V("no-results-file")] if not failed else []
        R = want["rows"]; full = E + R
        bad = []
        if not failed:
            if final is None: return [V("no-results-file")]
            if want.get("skips"):
                if not same_rows(final, E): bad.append(V("rows-changed-by-skipped-run"))
                return bad
            if not same_rows(final, full):
                if not prefix(E, final): kind = "earlier-rows-lost"
                elif len(final) < len(full): kind = "rows-lost-silently"
                elif len(final) > len(full): kind = "rows-duplicated"
                else: kind = "rows-differ"
                bad.append(V(kind, earlier=len(E), expected=len(full), found=len(final), injected=bool(injected)))
            if temp is not None and before.get(tname) != after.get(tname): bad.append(V("working-file-left"))
            return bad
        if not injected: return [V("run-fails", exc=o.get("exc"), msg=o.get("msg"))]
        base = os.path.basename
        torn_final = torn == base(name); torn_temp = torn == base(tname)
        stale = base(tname) not in o.get("wrote", [])
        okfinal = final is not None and not torn_final; oktemp = temp is not None and not torn_temp and not stale
        # 1. earlier rows are still there
        if E and not (okfinal and prefix(E, final)) and not (oktemp and prefix(E, temp)):
            bad.append(V("earlier-rows-lost", earlier=len(E), torn=torn, final=None if final is None else len(final), temp=None if temp is None else len(temp)))
        # 2. completed rows are recoverable
        m = 0; cpr = calls_per_row(op)
        if cpr and o.get("started", 0): m = (o["started"] - 1) // cpr
        m = min(m, len(R))
        m = max(m, min(o.get("added", 0), len(R)))
        have = [x for x, ok in ((final, okfinal), (temp, oktemp)) if ok]
        if m and not torn_temp and not any(prefix(E + R[:m], x) for x in have) and not want.get("skips"):
            bad.append(V("completed-rows-lost", completed=m, final=None if final is None else len(final), temp=None if temp is None else len(temp)))
        if torn_final and not (oktemp and same_rows(temp, full)) and not (okfinal and same_rows(final, full)):
            bad.append(V("rows-lost-in-final-write", temp=None if temp is None else len(temp), expected=len(full)))
        # 3. nothing but true rows in what is intact
        if oktemp and not prefix(temp, full): bad.append(V("false-rows", where="working file"))
        if okfinal and final and not (same_rows(final, E) or same_rows(final, full)): bad.append(V("half-finished-results-file", found=len(final), earlier=len(E), expected=len(full)))
        return bad

def random_state(life, oi): return json.dumps([q for q in life["ops"][:oi]]) if oi else ""

# ================================================================================================ P13
class P13(LabProp):
    id = "P13"
    def gen(self, rng, tier):
        lives = []
        files = stock_files(rng)
        ops = []
        for n in range(rng.choice([1, 1, 2, 3])):
            o = run_op(rng, file="r%d.csv" % (n if rng.random() < 0.8 else 0))
            if n and rng.random() < 0.3: o = dict(ops[0], seed=rng.randrange(1 << 30), file=o["file"] if rng.random() < 0.6 else ops[0]["file"])
            if any(q["file"] == o["file"] and q["exp"] != o["exp"] for q in ops): o["file"] = "r%d.csv" % n
            if any(q["file"] == o["file"] and (q["exp"] != o["exp"] or q["kw"].get("auction_names") != o["kw"].get("auction_names")) for q in ops): o["file"] = "s%d.csv" % n
            ops.append(o)
        if len(ops) > 1:
            for o in ops[:-1]:
                x = rng.random()
                if x < 0.25: o["fault"] = {"auction": rng.randint(1, 4)}
                elif x < 0.4: o["fault"] = {"line": rng.randint(1, 3000), "exc": rng.choice(["KeyboardInterrupt", "MemoryError", "SimInterrupt"])}
        lives.append({"ops": ops})
        o = rng.choice(ops)
        lives.append({"ops": [dict({k: v for k, v in o.items() if k != "fault"}, file="again.csv")]})
        return {"files": files, "lives": lives, "same": ops.index(o)}
    def judge(self, scn, res, ctx):
        bad = []
        stocks = stocks_of(scn.get("files", {}))
        newrows = {}
        todo = []
        for li, (life, rec) in enumerate(zip(scn["lives"], res["lives"])):
            before = rec["before"]
            for oi, op in enumerate(life["ops"]):
                if oi >= len(rec["ops"]): break
                o = rec["ops"][oi]; after = o.get("after", rec["disk"])
                if op["k"] == "run":
                    if "exc" in o:
                        if not (o.get("fired") or o.get("auction_failed") or "fault" in o): bad.append(V("run-fails", exc=o["exc"], msg=o.get("msg"), life=li, op=oi, p=op["exp"]))
                    elif not (op["exp"] == "experiment_compare_iterations_autions" and before.get(op["file"]) is not None):
                        t = after.get(op["file"])
                        if t is None: bad.append(V("no-results-file", life=li, op=oi, p=op["exp"]))
                        else:
                            E = before.get(op["file"]) or []
                            n0 = max(0, len(E) - 1)
                            new = t[1 + n0:]
                            newrows[(li, oi)] = (t[0] if t else [], new)
                            todo.append((li, oi, op, o, t[0], new))
                before = after
        # the same run in a fresh process with nothing behind it
        if len(scn["lives"]) > 1 and scn.get("same") is not None:
            a = newrows.get((0, scn["same"])); b = newrows.get((1, 0))
            o0 = scn["lives"][0]["ops"]
            if a and b and scn["same"] < len(o0) and dict(o0[scn["same"]], file=0, fault=0) == dict(scn["lives"][1]["ops"][0], file=0, fault=0):
                if a[0] != b[0] or len(a[1]) != len(b[1]) or not all(same_row([norm(c) for c in x], [norm(c) for c in y]) for x, y in zip(a[1], b[1])):
                    if not self.history_of_cache(scn): bad.append(V("rows-depend-on-history", first=a[1][:2], second=b[1][:2], p=o0[scn["same"]]["exp"]))
        calls = []
        for x in todo: calls += x[3].get("calls", [])
        if not todo or not calls and not any(1 for _ in ()): 
            if not todo: return bad
        r = ctx.run({"files": {}, "lives": [{"ops": [{"k": "exec", "calls": calls}]}]}) if calls else None
        outs = []
        if r is not None:
            if "harness" in r: return bad
            x = r["lives"][0]["ops"][0]
            if "exc" in x: return bad
            outs = x["r"]
        pos = 0
        for li, oi, op, o, header, new in todo:
            n = len(o.get("calls", []))
            cs, os_ = o.get("calls", []), outs[pos:pos + n]; pos += n
            w = {"life": li, "op": oi, "p": op["exp"]}
            names = None
            if uses_dir(op):
                names = listing_order(op, stocks, scn)
                if names is None: continue
            try: rows, complaints = model(op, cs, os_, stocks, names, o.get("notes"))
            except Skip:
                bad.append(dict(V("rounds", auctions_run=n), **w)); continue
            bad += [dict(c, **w) for c in complaints]
            if len(rows) != len(new): bad.append(dict(V("row-count", rows=len(new), expected=len(rows)), **w)); continue
            for q, (row, want) in enumerate(zip(new, rows)):
                for v in match_row(row, header, want): bad.append(dict(v, row=q, **w))
        return bad
    def history_of_cache(self, scn):
        """shuffled stock prices are drawn once per process: a later run of the same process sees another order"""
        return any(uses_dir(o) and o["exp"] in ("experiment_compare_iterations_autions", "experiment_compare_sbb_shufled_stock") for o in scn["lives"][0]["ops"])

def listing_order(op, stocks, scn):
    import lab
    every = sorted({p.split("/")[1] for p in scn["files"] if p.startswith("stocks/")})
    r = random.Random(op.get("order", 0)); r.shuffle(every)
    return [e[:-4] for e in every if e.endswith(".csv") and e[:-4] in stocks]

# ================================================================================================ P14
class P14(LabProp):
    id = "P14"
    def gen(self, rng, tier):
        files = stock_files(rng, 5)
        if rng.random() < 0.4: files[rng.choice(sorted(f for f in files if f.count("/") == 1))] = stock_csv(rng, rng.randint(8, 40))[0]
        lives = []
        for _ in range(rng.choice([1, 1, 2])):
            ops = []
            for _ in range(rng.randint(1, 6)):
                x = rng.random()
                if x < 0.35: o = {"k": "get", "what": "prices", "recipe": rng.choice([[1, 1], [1, 1], [1, 2], [2, 1], [2, 1, 1], [1, 1, 1], [2, 2, 2], [1, 1, 1, 1], [1, 2, 3], [2, 2]])}
                elif x < 0.7: o = {"k": "get", "what": "shuffled"}
                else:
                    st = rng.choice(TREES); k = tree_k(st)
                    o = {"k": "get", "what": "tree", "recipe": st, "counts": [rng.choice([1, 1, 2, 0.5, 3]) for _ in range(k)], "values": [rng.choice([1, 1, 2, 3]) for _ in range(k)]}
                o["order"] = rng.randrange(1 << 20); o["seed"] = rng.randrange(1 << 30)
                if rng.random() < 0.3: o["scribble"] = True
                if rng.random() < 0.25: o["fault"] = {"io": {str(rng.randint(1, 14)): rng.choice(["EIO", "EACCES", "EMFILE"])}}
                elif rng.random() < 0.2: o["fault"] = {"line": rng.choice([rng.randint(1, 40), rng.randint(1, 300)]), "exc": rng.choice(["KeyboardInterrupt", "MemoryError", "SimInterrupt", "OSError"])}
                ops.append(o)
            if rng.random() < 0.25: ops.insert(rng.randrange(len(ops) + 1), run_op(rng, rng.choice(["experiment_stock", "experiment_compare_iterations_autions", "experiment_compare_sbb_shufled_stock", "experiment_compare_iterations_autions_without_mcafee"]), file="run%d_%d.csv" % (len(lives), len(ops))))
            if rng.random() < 0.3:
                nt = rng.choice([2, 2, 3]); th = [[] for _ in range(nt)]
                for o in ops:
                    if o["k"] == "get": th[rng.randrange(nt)].append({k: v for k, v in o.items() if k not in ("seed", "scribble") and not (k == "fault" and "io" in v)})
                lives.append({"threads": th, "sched": G.schedule(rng, nt), "order": rng.randrange(1 << 20)})
            else: lives.append({"ops": ops})
        return {"files": files, "lives": lives}
    def key(self, scn, res):
        return hash_key([scn["lives"], sorted(scn["files"])]) if any(("r" in o) for l in res["lives"] for o in l.get("ops", []) + [x for t in l.get("threads", []) for x in t]) else None
    def judge(self, scn, res, ctx):
        bad = []
        stocks = stocks_of(scn.get("files", {}))
        for li, (life, rec) in enumerate(zip(scn["lives"], res["lives"])):
            if rec.get("abort"): bad.append(V("deadlock", what=rec["abort"]))
            pairs = list(zip(life.get("ops", []), rec.get("ops", []))) if "ops" in life else [(o, r) for os_, rs in zip(life["threads"], rec.get("threads", [])) for o, r in zip(os_, rs)]
            for i, (op, r) in enumerate(pairs):
                w = {"life": li, "op": i, "p": op.get("what") or op.get("exp")}
                if op["k"] == "run":
                    if "exc" in r:
                        bad.append(dict(V("run-fails", exc=r["exc"], msg=r.get("msg")), **w)); continue
                    if uses_dir(op): bad += [dict(v, **w) for v in self.markets(op, r, stocks)]
                    continue
                if "exc" in r:
                    if not (r.get("fired") or "fault" in r): bad.append(dict(V("request-fails", exc=r["exc"], msg=r.get("msg")), **w))
                    continue
                if "r" not in r: continue
                if r.get("fired") and any(f[1] in ("open-r", "read", "listdir") for f in r["fired"]): pass      # the answer must be complete all the same
                bad += [dict(v, **w) for v in self.check(op, r["r"], stocks)]
        return bad
    def check(self, op, ans, stocks):
        data, names = ans
        bad = []
        if sorted(names) != sorted(stocks): return [V("stocks-missing-or-extra", got=sorted(names), have=sorted(stocks), injected=True)]
        if len(data) != len(names): return [V("lists-of-different-length", data=len(data), names=len(names))]
        for nm, d in zip(names, data):
            st = stocks[nm]; every = Counter(shuffled_model(st))
            if op["what"] == "shuffled":
                flat = shuffled_model(st)
                how = half_shuffled(d, st)
                if how: bad.append(V("not-shuffled", stock=nm, how=how))
                if Counter(d) != every: bad.append(V("not-this-stock", stock=nm, got=len(d), want=sum(every.values())))
            elif op["what"] == "prices":
                try: want = prices_model(st, op["recipe"])
                except Skip: want = None
                if want is not None:
                    if len(d) != len(want) or any(sorted(a) != sorted(b) for a, b in zip(d, want)): bad.append(V("not-this-stock", stock=nm, recipe=op["recipe"]))
                else: bad += self.general(op, nm, d, st)
            else:
                cn, vl = op["counts"], op["values"]
                tot = sum(every.values()); used = Counter()
                if len(d) != len(cn): bad.append(V("categories", stock=nm, got=len(d), want=len(cn))); continue
                for q, c in enumerate(d):
                    want = tot / sum(cn) * cn[q]
                    if abs(len(c) - want) > 1 + 1e-9 or (want == int(want) and float(sum(cn)).is_integer() and len(c) != int(want) and tot % sum(cn) == 0): bad.append(V("category-size", stock=nm, category=q, got=len(c), want=want))
                    for v in c:
                        x = Fr(v) / (1 if q == 0 else -1) / Fr(vl[q])
                        used[x] += 1
                extra = used - Counter({Fr(k): n for k, n in every.items()})
                flat = shuffled_model(st); got = [Fr(v) / (1 if q == 0 else -1) / Fr(vl[q]) for q, c in enumerate(d) for v in c]
                how = half_shuffled(got, st)
                if how: bad.append(V("not-shuffled", stock=nm, how=how))
                if extra: bad.append(V("foreign-or-repeated-price", stock=nm, example=float(next(iter(extra)))))
        return bad
    def general(self, op, nm, d, st):
        """other recipes: buyers are this stock's buyer prices scaled up by the number of sellers in a deal, sellers its seller prices"""
        bad = []
        rc = op["recipe"]
        H, C, O, L = (st[k] for k in ("High", "Close", "Open", "Low"))
        if len(d) != len(rc): return [V("categories", stock=nm, got=len(d), want=len(rc))]
        if len(rc) == 3 and rc[1:] == rc[:-1]:
            want = prices_model(st, [1, 1, 1])
            return [V("not-this-stock", stock=nm, recipe=rc)] if any(sorted(a) != sorted(b) for a, b in zip(d, want)) else []
        rest = sum(rc) - rc[0]
        want0 = Counter(int(x * rest * 1000) for x in H + C for _ in range(rc[0]))
        if Counter(d[0]) != want0: bad.append(V("not-this-stock", stock=nm, recipe=rc, category=0))
        sellers = {int(-x * 1000) for x in O + L}
        tot = Counter()
        for q in range(1, len(rc)):
            if not set(d[q]) <= sellers: bad.append(V("not-this-stock", stock=nm, recipe=rc, category=q))
            if len(d[q]) != 2 * len(O) * rc[q]: bad.append(V("category-size", stock=nm, recipe=rc, category=q, got=len(d[q]), want=2 * len(O) * rc[q]))
        if all(x == rc[1] for x in rc[1:]) and Counter(v for c in d[1:] for v in c) != Counter(int(-x * 1000) for x in O + L for _ in range((len(rc) - 1) * rc[1])): bad.append(V("not-this-stock", stock=nm, recipe=rc, category="sellers"))
        return bad
    def markets(self, op, r, stocks):
        """every market an experiment builds from the directory comes from one stock, signed"""
        bad = []
        rc = op["kw"]["recipe"]
        for i, (key, cats, _, _) in enumerate(r.get("calls", [])):
            if op["exp"] == "experiment_compare_iterations_autions" and not op["kw"].get("run_with_stock_prices", True): continue
            ok = False
            for nm, st in stocks.items():
                if op["exp"] in ("experiment_stock", "experiment_compare_iterations_autions_without_mcafee"):
                    m = prices_model(st, rc)
                    if op["exp"] == "experiment_stock": ok |= [sorted(c) for c in cats] == [sorted(c) for c in m]
                    else: ok |= not any(Counter(c) - Counter(x) for c, x in zip(cats, m))
                else:
                    b = rc[0]; rest = sum(rc) - b
                    fac = [rest / b if "iterations" in op["exp"] else rest] + [-1 if "iterations" in op["exp"] else -b] * (len(rc) - 1)
                    ok |= all(set(c) <= {int(p * fac[q]) for p in shuffled_model(st)} for q, c in enumerate(cats))
            if not ok: bad.append(V("market-of-no-stock", call=i)); break
            if any((v < 0) if q == 0 else (v > 0) for q, c in enumerate(cats) for v in c): bad.append(V("sign", call=i)); break
        return bad

# ================================================================================================ P26
SERIES = {"mcafee_experiment.py": 2, "stock/comparing_results_for_demo_11.py": 4, "ascending_auction_experiment.py": 3, "comparing_sbbs.py": 1, "experiment_comparing_mcafee_to_sbb.py": 4,
          "experiment_recpietree.py": 2, "experiment_recpietree_integer.py": 1, "experiment_sbb_with_two_categories.py": 4,
          "experiment_sbb_with_vectors_of_ones.py": 8, "stock/ascending_auction_experiment_stock.py": 6, "stock/mcafee_experiment_stock.py": 2,
          "stock/experiment_comparing_all_with_all_recipes.py": 40, "stock/experiment_comparing_mcafee_to_sbb_stock.py": 1,
          "stock/experiment_sbb_stock_vectors_multi.py": 13, "stock/experiment_sbb_stock_vectors_multi_shuffled.py": 4,
          "stock/experiment_sbb_stock_vectors_ones.py": 4, "stock/experiment_sbb_stock_vectors_ones_shuffled.py": 4,
          "stock/experiment_sbb_with_vectors_of_ones_stock.py": 1}
DEMOS = ["ascending_auction_demo_11.py", "ascending_auction_demo_111.py", "ascending_auction_demo_12.py", "ascending_auction_demo_223.py",
         "ascending_auction_demo_23.py", "ascending_auction_recipetree_demo.py", "mcafee_demo.py", "trade_reduction_demo_11.py",
         "trade_reduction_demo_111.py", "trade_reduction_demo_lemonade.py", "stock/ascending_auction_demo_bad.py",
         "stock/ascending_auction_demo_12_stock.py", "stock/trade_reduction_demo_difference_gft0.py",
         "stock/trade_reduction_demo_difference_gft0_simple.py", "old/ascending_auction_multirecipe_demo.py"]
CLASH = ({"stock/experiment_sbb_stock_vectors_ones.py", "stock/experiment_sbb_with_vectors_of_ones_stock.py"},      # older and newer versions of a series:
         {"stock/experiment_sbb_stock_vectors_multi.py", "stock/experiment_sbb_stock_vectors_multi_shuffled.py"},   # the same file, other columns
         {"stock/experiment_comparing_mcafee_to_sbb_stock.py", "stock/experiment_comparing_all_with_all_recipes.py"},
         {"stock/experiment_comparing_all_with_all_recipes.py", "stock/experiment_sbb_stock_vectors_multi.py"},
         {"stock/experiment_comparing_all_with_all_recipes.py", "stock/experiment_sbb_stock_vectors_multi_shuffled.py"},
         {"stock/experiment_comparing_all_with_all_recipes.py", "stock/experiment_sbb_stock_vectors_ones_shuffled.py"})
LABELS = ("iterations", "auction_name", "recipe", "num_of_agents", "stockname", "numpossibletrades", "stock_name", "num_of_possible_ps", "agent_counts", "agent_values", "prefix", "suffix")
SHUFFLED = ("experiment_compare_iterations_autions", "experiment_compare_iterations_autions_without_mcafee", "experiment_compare_sbb_shufled_stock")
def labels_only(header, rows):
    at = [i for i, h in enumerate(header) if str(h).strip() in LABELS]
    return [[r[i] for i in at if i < len(r)] for r in rows]

class P26(LabProp):
    """the shipped programs"""
    id = "P26"
    def __init__(self): self.ref = {}
    def demo(self, rng, faulty=False):
        op = {"k": "drive", "prog": rng.choice(DEMOS), "calls": [], "sizes": [], "rounds": 1, "seed": 1}
        if faulty: op["fault"] = {"line": rng.choice([rng.randint(1, 60), rng.randint(1, 1500), rng.randint(1, 20000)]), "exc": rng.choice(["KeyboardInterrupt", "MemoryError", "SimInterrupt"])}
        return op
    def series(self, rng, beside=None):
        while True:
            prog = rng.choice(list(SERIES))
            if prog == beside or not any({prog, beside} == c for c in CLASH): break
        n = SERIES[prog]
        calls = sorted(rng.sample(range(n), min(n, rng.choice([1, 2, 3, 4]))))
        return {"k": "drive", "prog": prog, "calls": calls, "sizes": sorted(rng.sample(range(1, 7), rng.choice([1, 2]))), "rounds": rng.choice([1, 1, 2]),
                "order": rng.randrange(20)}
    def fault(self, rng):
        x = rng.random()
        if x < 0.3: return {"io": {str(rng.choice([rng.randint(1, 12), rng.randint(1, 60), rng.randint(1, 200)])): rng.choice(["crash", "crash", "EIO", "ENOSPC"])}}
        if x < 0.7: return {"line": rng.choice([rng.randint(1, 300), rng.randint(1, 5000), rng.randint(1, 40000)]), "exc": rng.choice(["crash", "crash", "crash", "KeyboardInterrupt", "MemoryError"])}
        if x < 0.85: return {"row": rng.choice([1, 1, 2, 2, 3, 4, 6, 8]), "exc": rng.choice(["crash", "crash", "KeyboardInterrupt"])}
        return {"auction": rng.choice([1, 2, 3, 4, 6, 8, 12])}
    def gen(self, rng, tier):
        files = stock_files(rng, 3)
        if not any(p == "stocks/T.csv" for p in files): files["stocks/T.csv"] = stock_csv(rng, rng.randint(2, 5))[0]
        lives = []
        if rng.random() < 0.4:                       # demonstrations after one another, some of them stopped on the way
            lives.append({"ops": [self.demo(rng, rng.random() < 0.25) for _ in range(rng.randint(2, 5))]})
            if rng.random() < 0.5: lives[0]["ops"].insert(rng.randrange(2), dict(self.series(rng), seed=rng.randrange(1 << 30)))
            return {"files": files, "lives": lives}
        op = self.series(rng)
        for _ in range(rng.choice([1, 1, 2])):
            o = dict(op, seed=rng.randrange(1 << 30))
            if rng.random() < 0.75: o["fault"] = self.fault(rng)
            lives.append({"ops": [o]})
        lives.append({"ops": [dict(op, seed=rng.randrange(1 << 30))]})
        if rng.random() < 0.3: lives[rng.randrange(len(lives))]["ops"].insert(0, self.demo(rng))
        if rng.random() < 0.3: lives[-1]["ops"].append(self.demo(rng))
        if rng.random() < 0.3: lives[-1]["ops"].append(dict(self.series(rng, op["prog"]), seed=rng.randrange(1 << 30)))
        return {"files": files, "lives": lives}
    def key(self, scn, res): return hash_key([l["ops"] for l in scn["lives"]])
    def stocks(self, scn): return {k: v for k, v in scn.get("files", {}).items() if k.startswith("stocks/")}
    def printed(self, scn, op, ctx):
        k = json.dumps([op["prog"], self.stocks(scn) if op["prog"].startswith("stock") else None], sort_keys=True)
        if k not in self.ref:
            r = ctx.run({"files": self.stocks(scn), "lives": [{"ops": [{x: y for x, y in op.items() if x != "fault"}]}]})
            self.ref[k] = None if "harness" in r or not r["lives"][0]["ops"] else r["lives"][0]["ops"][0]
        return self.ref[k]
    def alone(self, scn, op, i, ctx):
        """the file and the rows of one experiment of the series, run in a process of its own with nothing on disk"""
        o = dict({x: y for x, y in op.items() if x != "fault"}, calls=[i])
        r = ctx.run({"files": self.stocks(scn), "lives": [{"ops": [o]}]})
        if "harness" in r or not r["lives"][0]["ops"]: return None
        a = r["lives"][0]["ops"][0]
        tabs = {n: t for n, t in (a.get("after") or {}).items()}
        return {"exc": a.get("exc"), "msg": a.get("msg"), "exps": a.get("exps") or [], "tables": tabs}
    def judge(self, scn, res, ctx):
        bad = []
        for li, (life, rec) in enumerate(zip(scn["lives"], res["lives"])):
            before = rec["before"]
            for oi, op in enumerate(life["ops"]):
                if oi >= len(rec["ops"]): break
                o = rec["ops"][oi]
                after = o.get("after") if "after" in o else rec["disk"]
                where = {"life": li, "op": oi, "prog": op["prog"], "p": op["prog"]}
                failed = "exc" in o or o.get("crashed")
                injected = o.get("fired") or o.get("auction_failed") or "fault" in o or o.get("crashed")
                if op["prog"] in DEMOS:
                    want = self.printed(scn, op, ctx)
                    if want is None: before = after; continue
                    if not failed:
                        if not injected and "exc" not in want and o.get("text") != want.get("text"): bad.append(V("demonstration-prints-differently", found=(o.get("text") or "")[-200:], expected=(want.get("text") or "")[-200:], **where))
                    elif not injected: bad.append(V("demonstration-fails", exc=o.get("exc"), msg=o.get("msg"), **where))
                    if before != after: bad.append(V("demonstration-touches-results", **where))
                else:
                    if failed and not injected: bad.append(V("series-fails", exc=o.get("exc"), msg=o.get("msg"), **where))
                    else:
                        for v in self.series_step(scn, op, o, before, after, rec, ctx): bad.append(dict(v, **where))
                before = after
        return bad
    def series_step(self, scn, op, o, before, after, rec, ctx):
        bad = []
        failed = "exc" in o or o.get("crashed")
        exps = o.get("exps") or []
        if not failed and [e["i"] for e in exps if e["done"]] != [i for i in op["calls"] if i < o.get("ncalls", 0)]: bad.append(V("experiments-not-run", found=[e["i"] for e in exps]))
        torn = o.get("torn")
        want = {}; partial = {}
        for e in exps:
            f = e["file"]
            skips = e["exp"] == "experiment_compare_iterations_autions" and (before.get(f) is not None or f in want)
            if skips: want.setdefault(f, []); continue
            a = self.alone(scn, op, e["i"], ctx)
            if a is None: return bad
            if a["exc"]: bad.append(V("experiment-fails-alone", exc=a["exc"], msg=a["msg"])); continue
            mine = [x for x in a["exps"] if x["i"] == e["i"]]
            if not mine or mine[0]["file"] != f: continue
            t = a["tables"].get(f)
            other = [n for n in a["tables"] if n != f]
            if other: bad.append(V("working-file-left", files=other))
            if not t or len(t) < 2: 
                bad.append(V("experiment-leaves-no-rows", file=f)); continue
            if e["done"]: want.setdefault(f, []).append((e, t))
            else: partial[f] = (e, t)
        for f in sorted(set(want) | set(partial) | {n for n in before if ".temp." not in n}):
            E = norm_rows(before.get(f)) or []
            ts = want.get(f, [])
            got = norm_rows(after.get(f))
            if torn == os.path.basename(f): continue      # torn in the final write: the working file has the rows (P12)
            rows = E + [r for _, t in ts for r in norm_rows(t)]
            full = rows + (norm_rows(partial[f][1]) if f in partial else [])
            loose = any(e["exp"] in SHUFFLED for e, _ in ts + ([partial[f]] if f in partial else []))
            if got is None:
                if rows: bad.append(V("results-file-missing", file=f))
                continue
            if loose:
                h = after[f][0]
                ok = lambda x: same_rows(labels_only(h, got), labels_only(h, x)) and same_rows(got[:len(E)], E)
            else: ok = lambda x: same_rows(got, x)
            if ok(rows) or (f in partial and ok(full)): continue
            if not prefix(E, got): kind = "earlier-rows-lost"
            elif len(got) < len(rows): kind = "rows-lost"
            elif len(got) > len(full): kind = "rows-of-no-experiment"
            else: kind = "rows-not-those-of-the-experiment-alone"
            bad.append(V(kind, file=f, expected=len(rows), found=len(got)))
        if not failed:
            left = [n for n in after if ".temp." in n and after[n] != before.get(n)]
            if left: bad.append(V("working-file-left", files=left))
        return bad

ALL = {p.id: p() for p in (P12, P13, P14, P26)}
