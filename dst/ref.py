"""
Reference models and oracles (pure; never import code of /repo).
Exact rational arithmetic over the bids as given.
"""
from fractions import Fraction as Fr
from math import floor, ceil
from collections import Counter

MAXV = 100000000

def F(x): return Fr(x)

# ------------------------------------------------------------------------------------------------ optimal trade
def opt_single(vals, recipe):
    """vals: list of lists.  Returns (k_strict, k_all, OPT, gains) where gains[j] = total gain of the best j deals."""
    d = [sorted((F(v) for v in vs), reverse=True) for vs in vals]
    cap = min([len(v) // r for v, r in zip(d, recipe) if r > 0])
    g = [Fr(0)]
    for j in range(cap):
        g.append(g[-1] + sum(sum(v[j * r:(j + 1) * r]) for v, r in zip(d, recipe) if r > 0))
    best = max(g)
    ks = [j for j, x in enumerate(g) if x == best]
    return ks[0], ks[-1], best, g

def marginals(g): return [b - a for a, b in zip(g, g[1:])]

NEG = None
def tree_f(vals, st, counts):
    """list f[D] = best total gain of exactly D deals through node st=[index, children]"""
    i, kids = st[0], st[1]
    c = counts[i] if counts else 1
    v = sorted((F(x) for x in vals[i]), reverse=True)
    own = [Fr(0)]
    for j in range(len(v) // c):
        own.append(own[-1] + sum(v[j * c:(j + 1) * c]))
    if not kids: return own
    acc = [Fr(0)]
    for q in range(0, len(kids), 2):
        f = tree_f(vals, kids[q:q + 2], counts)
        lim = min(len(own) - 1, len(acc) - 1 + len(f) - 1)
        new = [None] * (lim + 1)
        for a in range(len(acc)):
            for b in range(len(f)):
                if a + b > lim: break
                x = acc[a] + f[b]
                if new[a + b] is None or x > new[a + b]: new[a + b] = x
        acc = new
    n = min(len(own), len(acc))
    return [own[j] + acc[j] for j in range(n)]

def opt_tree(vals, st, counts):
    f = tree_f(vals, st, counts)
    best = max(f)
    ks = [j for j, x in enumerate(f) if x == best]
    return ks[0], ks[-1], best, f

def path_counts(vals, st, counts):
    """number of optimal-trade deals along every path (leaf), or None where equal deals of different paths leave it open"""
    amb = [False]
    def rec(n):
        i, kids = n[0], n[1]
        c = counts[i] if counts else 1
        v = sorted((F(x) for x in vals[i]), reverse=True)
        own = [sum(v[q:q + c]) for q in range(0, len(v) - c + 1, c)]
        if not kids: return [(x, i) for x in own]
        sub = sum([rec(kids[q:q + 2]) for q in range(0, len(kids), 2)], [])
        sub.sort(key=lambda d: -d[0])
        if any(a[0] == b[0] and a[1] != b[1] for a, b in zip(sub, sub[1:])): amb[0] = True
        return [(x + d[0], d[1]) for x, d in zip(own, sub)]
    out = {}
    for x, leaf in rec(st):
        if x >= 0: out[leaf] = out.get(leaf, 0) + 1
    return None if amb[0] else out

def deals_cap(sizes, st, counts):
    i, kids = st[0], st[1]
    own = sizes[i] // (counts[i] if counts else 1)
    if not kids: return own
    return min(own, sum(deals_cap(sizes, kids[q:q + 2], counts) for q in range(0, len(kids), 2)))

# ------------------------------------------------------------------------------------------------ participation
def frac_tree(sizes, st, counts):
    """probability of each category's selected trader to trade when every choice is a uniform lottery"""
    out = {}
    def d(n): return deals_cap(sizes, n, counts)
    def rec(n, D):
        i, kids = n[0], n[1]
        c = counts[i] if counts else 1
        out[i] = Fr(D * c) / sizes[i] if sizes[i] else Fr(0)
        if kids:
            ks = [kids[q:q + 2] for q in range(0, len(kids), 2)]
            S = sum(d(x) for x in ks)
            for x in ks: rec(x, Fr(D) * d(x) / S if S else Fr(0))
    rec(st, d(st))
    return out

def frac_single(K, sizes, recipe):
    return {i: (Fr(K * r, n) if n else Fr(0)) for i, (r, n) in enumerate(zip(recipe, sizes))}

def participation(case, out):
    sizes = [len(c[1]) for c in out["cats"]]
    if case["p"] in ("rt", "ri"):
        return frac_tree(sizes, case["recipe"], case.get("counts"))
    return frac_single(out["K"], sizes, case["recipe"])

# ------------------------------------------------------------------------------------------------ reference mechanisms
def ref_optimal_sets(vals, recipe, zero=True, maxit=None):
    d = [sorted((F(v) for v in vs), reverse=True) for vs in vals]
    sets = []
    while maxit is None or len(sets) < maxit:
        if any(len(v) < r for v, r in zip(d, recipe)): break
        ps = [x for v, r in zip(d, recipe) for x in v[:r]]
        s = sum(ps)
        if s < 0 or (s == 0 and not zero): break
        sets.append(ps)
        d = [v[r:] for v, r in zip(d, recipe)]
    sets = sorted(sets, key=sum)
    return sets, d

def ref_mcafee(vals, heur):
    k = len(vals)
    sets, rest = ref_optimal_sets(vals, [1] * k)
    if not sets: return 0, [0] * k, [[] for _ in range(k)]
    last = sets[0]
    price = None
    if heur and k <= 2:                          # the middle price is a notion of two-sided markets
        nxt = [r[0] if r else Fr(-MAXV) for r in rest]
        c = sum(abs(x) for x in nxt) / k
        seller = [v < 0 or (v == 0 and max(last) > 0) for v in last]
        if all((c <= v if not s else -c <= v) for v, s in zip(last, seller)):
            price = [-c if s else c for s in seller]
    if price is None:
        price = last; sets = sets[1:]
    return len(sets), price, [[s[i] for s in sets] for i in range(k)]

def ref_tr(vals, recipe, gft0=True):
    """reduction by external competition"""
    k = len(vals)
    sets, rest = ref_optimal_sets(vals, recipe)
    if not sets: return 0, None, [[] for _ in range(k)]
    rest = [list(r) for r in rest]
    queue = list(sets)
    if all(len(v) >= r for v, r in zip(rest, recipe)):
        queue.insert(0, [x for v, r in zip(rest, recipe) for x in v[:r]])
        rest = [v[r:] for v, r in zip(rest, recipe)]
    for v in rest:
        if not v: v.append(Fr(-MAXV))
    owner = [i for i, r in enumerate(recipe) for _ in range(r)]
    order = []; off = 0
    for r in recipe:
        order += list(range(off + r - 1, off - 1, -1)); off += r
    traders = [[] for _ in range(k)]
    prices = None
    for ps in queue:
        for pos in order:
            i = owner[pos]; x = ps[pos]
            if prices is not None:
                traders[i].append(x); continue
            others = sum(max(rest[j]) * recipe[j] for j in range(k) if j != i)
            g = others + x * recipe[i]
            if g > 0 or (gft0 and g == 0):
                prices = [max(rest[j]) if j != i else -others / recipe[i] for j in range(k)]
                traders[i].append(x)
            else:
                rest[i].append(x)
    K = min(len(t) // r for t, r in zip(traders, recipe) if r > 0)
    return K, prices, traders

def ref_aa(vals, recipe):
    """ascending auction, one recipe"""
    k = len(vals)
    rem = [sorted((F(v) for v in vs), reverse=True) for vs in vals]
    p = [Fr(-MAXV)] * k
    part = [i for i in range(k) if recipe[i] > 0]
    while True:
        main = part[0]
        for i in part[1:]:
            if Fr(len(rem[i]), recipe[i]) > Fr(len(rem[main]), recipe[main]): main = i
        if not rem[main]: break
        target = rem[main][-1]
        others = sum(p[j] * recipe[j] for j in part if j != main)
        if others + target * recipe[main] >= 0:
            p[main] = -others / recipe[main]
            break
        p[main] = target
        rem[main].pop()
    K = min(len(rem[i]) // recipe[i] for i in part)
    return K, p, rem

def ref_tree(vals, st, counts, integer, p0):
    """simultaneous ascending auction over a recipe tree; p0: initial prices (checked separately)"""
    k = len(vals)
    rem = [sorted((F(v) for v in vs), reverse=True) for vs in vals]
    cnt = lambda i: counts[i] if counts else 1
    recipes = []
    def rec(n, path):
        path = path + [n[0]]
        if not n[1]: recipes.append(path)
        else:
            for q in range(0, len(n[1]), 2): rec(n[1][q:q + 2], path)
    rec(st, [])
    p = [F(x) for x in p0]
    def total(): return sum(p[i] * cnt(i) for i in recipes[0])
    def largest(n):
        i = n[0]; kids = [n[1][q:q + 2] for q in range(0, len(n[1] or []), 2)]
        own = Fr(len(rem[i]), cnt(i))
        below = sum(ceil(Fr(len(rem[c[0]]), cnt(c[0]))) for c in kids)
        if own > below or below == 0: return own, [i]
        return own, [x for c in kids for x in largest(c)[1]]
    steps = 0
    while True:
        comb, who = largest(st)
        if comb == 0: break
        steps += 1
        if steps > 100000: return None
        room = -total()
        incs = [(rem[i][-1] - p[i]) * cnt(i) for i in who if rem[i]]
        inc = min(incs + [room])
        for i in who: p[i] += inc / cnt(i)
        if inc == room: break
        for i in who:
            if rem[i] and rem[i][-1] <= p[i]: rem[i].pop()
    K = deals_cap([len(r) for r in rem], st, counts)
    return K, p, rem

def ref_legacy(vals, recipes, clock):
    """the superseded auction with several recipes of zeros and ones: categories common to all recipes, the others unique to one"""
    k = len(vals)
    while True:
        p0 = clock(recipes)
        if p0 is None: return None
        p = [F(x) for x in p0]; rem = [sorted((F(v) for v in vs), reverse=True) for vs in vals]
        used = [j for j in range(k) if any(r[j] for r in recipes)]
        uniq = [[j for j in range(k) if r[j] and sum(1 for q in recipes if q[j]) == 1] for r in recipes]
        common = [j for j in used if len(recipes) > 1 and all(r[j] for r in recipes)]
        drop = None
        while True:
            size = lambda j: len(rem[j])
            c = max(common, key=size) if common else None
            us = [max(u, key=size) for u in uniq]
            total = sum(map(size, us))
            if total == 0: break
            if c is not None and size(c) >= total: who = [c]
            else:
                who = us
                drop = next((n for n, j in enumerate(us) if not rem[j]), None)
                if drop is not None: break
            room = -sum(p[j] for j in range(k) if recipes[0][j])
            inc = min([rem[j][-1] - p[j] for j in who] + [room])
            for j in who: p[j] += inc
            if inc == room: break
            for j in who:
                if rem[j] and rem[j][-1] <= p[j]: rem[j].pop()
        if drop is not None: recipes = recipes[:drop] + recipes[drop + 1:]; continue
        K = sum(min(len(rem[j]) for j in u) for u in uniq)
        if common: K = min([K] + [len(rem[j]) for j in common])
        return K, [p[j] if j in used else None for j in range(k)], rem, recipes

def is_dyadic(vals, bits=20):
    """numbers the code's floating point handles exactly next to the starting prices"""
    m = 2 ** bits
    return all(m % F(v).denominator == 0 and abs(v) < 2 ** 30 for vs in vals for v in vs)

# ------------------------------------------------------------------------------------------------ oracles over one completed auction
def scale_of(case):
    m = 1.0
    for c in case["cats"]:
        for v in c[1]:
            if abs(v) > m: m = abs(v)
    return m

def tol_of(case):
    """how far floating point alone can move a price: ascending clocks start at -1e8, where a step rounds at 1.5e-8"""
    p = case["p"]
    if p in ("mc", "tr"): return 1e-9 * max(1.0, scale_of(case))
    if p == "aa": return 1e-6
    cnt = case.get("counts")
    if (not cnt or all(c == 1 for c in cnt)) and is_dyadic([c[1] for c in case["cats"]]): return 1e-7
    return 1e-5

def V(kind, **kw):
    d = {"kind": kind}; d.update(kw); return d

def recipes_of(case):
    if case["p"] in ("rt", "ri"):
        from gen import tree_recipes
        return tree_recipes(case["recipe"], len(case["cats"]), case.get("counts"))
    return [case["recipe"]]

def o_budget(case, out):
    if out["K"] <= 0: return []
    t = tol_of(case); bad = []
    for r in recipes_of(case):
        s = sum(a * b for a, b in zip(r, out["prices"]) if a)
        if s != s or (s < -t if case["p"] == "mc" else abs(s) > t):
            bad.append(V("budget", sum=s, recipe=r, prices=out["prices"]))
    return bad

def o_ir(case, out):
    if out["K"] <= 0: return []
    f = participation(case, out); t = tol_of(case); bad = []
    for i, c in enumerate(out["cats"]):
        if f.get(i, 0) > 0 and c[1] and not (min(c[1]) >= out["prices"][i] - t):
            bad.append(V("worse-off", category=i, bid=min(c[1]), price=out["prices"][i]))
    return bad

def o_noregret(case, out):
    if out["K"] <= 0: return []
    if case["p"] == "tr" and any(r != 1 for r in case["recipe"]): return []
    f = participation(case, out); t = tol_of(case); bad = []
    for i, c in enumerate(out["cats"]):
        if f.get(i, 0) <= 0: continue
        x = Counter(case["cats"][i][1]); x.subtract(c[1])
        left = [v for v, n in x.items() if n > 0]
        if left and max(left) > out["prices"][i] + t:
            bad.append(V("left-out", category=i, bid=max(left), price=out["prices"][i]))
    return bad

def case_opt(case):
    vals = [c[1] for c in case["cats"]]
    if case["p"] in ("rt", "ri"): return opt_tree(vals, case["recipe"], case.get("counts"))
    return opt_single(vals, case["recipe"])

def o_feasible(case, out, opt=None):
    bad = []
    t = tol_of(case)
    if len(out["cats"]) != len(case["cats"]): return [V("categories", n=len(out["cats"]))]
    for i, c in enumerate(out["cats"]):
        x = Counter(c[1]); x.subtract(case["cats"][i][1])
        extra = [v for v, n in x.items() if n > 0]
        if extra: bad.append(V("phantom-trader", category=i, values=extra[:3]))
        if c[0] != case["cats"][i][0]: bad.append(V("category-name", category=i, name=c[0]))
    K = out["K"]
    if not isinstance(K, int) or K < 0: return bad + [V("deal-count", K=K)]
    sizes = [len(c[1]) for c in out["cats"]]
    if case["p"] in ("rt", "ri"):
        cap = deals_cap(sizes, case["recipe"], case.get("counts"))
    else:
        cap = min(n // r for n, r in zip(sizes, case["recipe"]) if r > 0)
    if K > cap: bad.append(V("too-many-deals", K=K, cap=cap))
    ks, ka, OPT, g = opt or case_opt(case)
    slack = [j for j, x in enumerate(g) if x >= OPT - Fr(1, 10 ** 6)]      # float noise around zero-gain deals
    if K > max(slack): bad.append(V("more-deals-than-optimal", K=K, optimal=ka))
    if out["gft"] > float(OPT) + t * max(1, len(g)): bad.append(V("gain-above-optimal", gft=out["gft"], optimal=float(OPT)))
    return bad

def o_near(case, out, opt=None):
    if case["p"] in ("rt", "ri") and len(recipes_of(case)) > 1: return []
    ks, ka, OPT, g = opt or case_opt(case)
    m = marginals(g)
    k = sum(1 for x in m if x > Fr(1, 10 ** 6))
    bad = []
    t = tol_of(case)
    if out["K"] < k - 1: bad.append(V("lost-deals", K=out["K"], k=k))
    if k >= 1:
        G = g[k]
        if out["gft"] < float(G * (k - 1) / k) - t * (1 + k): bad.append(V("lost-gain", gft=out["gft"], optimal=float(G), k=k))
    return bad

def o_ratio(case, out):
    """recipe trees: at most one deal lost per recipe of the optimum, and gain at least (1 - 1/kmin) of the optimum"""
    vals = [c[1] for c in case["cats"]]; cnt = case.get("counts")
    ks, ka, OPT, g = case_opt(case)
    if OPT <= 0: return []
    bad = []; t = tol_of(case)
    k = sum(1 for x in marginals(g) if x > Fr(1, 10 ** 6))
    if cnt and any(c != 1 for c in cnt):
        n = len(recipes_of(case))
        if out["K"] < k - n: bad.append(V("lost-deals", K=out["K"], k=k, recipes=n))
        return bad
    pc = path_counts(vals, case["recipe"], None)
    if not pc:                                   # equal deals of different recipes: which recipes the optimum uses is open
        n = len(recipes_of(case))
        return [V("lost-deals", K=out["K"], k=k, recipes=n)] if out["K"] < k - n else []
    used = sum(1 for x in pc.values() if x); km = min(x for x in pc.values() if x)
    if out["K"] < k - used: bad.append(V("lost-deals", K=out["K"], k=k, recipes=used))
    if out["gft"] < float(OPT * (km - 1) / km) - t * (1 + k): bad.append(V("lost-gain", gft=out["gft"], optimal=float(OPT), kmin=km))
    return bad

def o_legacy(case, recipes, out):
    """the superseded auction: real, willing traders; balanced prices; no more deals than the announced traders allow"""
    bad = []; pr = out["prices"]; k = len(case["cats"]); t = 1e-6
    if len(out["cats"]) != k or len(pr) != k: return [V("categories", n=len(out["cats"]), prices=len(pr))]
    for i, c in enumerate(out["cats"]):
        x = Counter(c[1]); x.subtract(case["cats"][i][1])
        if any(n > 0 for n in x.values()): bad.append(V("phantom-trader", category=i))
        if c[0] != case["cats"][i][0]: bad.append(V("category-name", category=i, name=c[0]))
    act = [r for r in recipes if all(pr[j] is not None and pr[j] > -MAXV / 2 for j in range(k) if r[j])]      # an abandoned recipe's own categories keep no or the starting price
    used = [j for j in range(k) if any(r[j] for r in act)]
    K = out["K"]
    if not isinstance(K, int) or K < 0: return bad + [V("deal-count", K=K)]
    if K == 0: return bad
    if not act: return bad + [V("deal-count", K=K)]
    size = lambda j: len(out["cats"][j][1])
    cap = sum(min([size(j) for j in range(k) if r[j] and (len(act) == 1 or not all(q[j] for q in act))] or [0]) for r in act)
    if len(act) > 1: cap = min([cap] + [size(j) for j in used if all(r[j] for r in act)])
    if K > cap: bad.append(V("too-many-deals", K=K, cap=cap))
    for r in act:
        s = sum(pr[j] for j in range(k) if r[j])
        if not abs(s) <= t: bad.append(V("budget", sum=s, recipe=r, prices=pr))
    for j in used:
        vs = out["cats"][j][1]
        if vs and not min(vs) >= pr[j] - t: bad.append(V("worse-off", category=j, bid=min(vs), price=pr[j]))
    return bad

def o_legacy_exact(vals, recipes, out, clock):
    r = ref_legacy(vals, recipes, clock)
    if r is None: return []
    K, pr, tr, act = r
    bad = []
    if out["K"] != K: bad.append(V("deals", K=out["K"], expected=K))
    if K > 0 or out["K"] > 0:
        if any(y is not None and (x is None or not close(x, float(y), 1e-6)) for x, y in zip(out["prices"], pr)):
            bad.append(V("prices", prices=out["prices"], expected=[None if x is None else float(x) for x in pr]))
        for i in range(len(vals)):
            if pr[i] is not None and not multiset_close(out["cats"][i][1], tr[i]): bad.append(V("winners", category=i, got=out["cats"][i][1][:12], expected=[float(x) for x in tr[i]][:12]))
    return bad

def close(a, b, t): return a == b or abs(a - b) <= t

def multiset_close(a, b): return Counter(F(x) for x in a) == Counter(F(x) for x in b)

def o_refine(case, out, p0=None):
    """outcome equals the published procedure"""
    vals = [c[1] for c in case["cats"]]
    if not is_dyadic(vals): return []
    t = tol_of(case)
    p = case["p"]
    if p == "mc": K, pr, tr = ref_mcafee(vals, case.get("heur", True))
    elif p == "tr": K, pr, tr = ref_tr(vals, case["recipe"], case.get("gft0", True))
    elif p == "aa": K, pr, tr = ref_aa(vals, case["recipe"])
    else:
        cnt = case.get("counts")
        if cnt and any(c not in (1, 2, 4) for c in cnt): return []
        if p0 is None or any(x != int(x) for x in p0): return []
        r = ref_tree(vals, case["recipe"], cnt, p == "ri", p0)
        if r is None: return []
        K, pr, tr = r
    bad = []
    if out["K"] != K: bad.append(V("deals", K=out["K"], expected=K))
    if K > 0 or out["K"] > 0:
        if out["prices"] is None or pr is None: bad.append(V("prices", prices=out["prices"], expected=None if pr is None else [float(x) for x in pr]))
        else:
            part = set(range(len(vals))) if p in ("rt", "ri") else {i for i, r in enumerate(case["recipe"]) if r > 0}
            if any(not close(out["prices"][i], float(pr[i]), t) for i in part):
                bad.append(V("prices", prices=out["prices"], expected=[float(x) for x in pr]))
        part = set(range(len(vals))) if p in ("rt", "ri") else {i for i, r in enumerate(case["recipe"]) if r > 0}
        for i in part:
            if not multiset_close(out["cats"][i][1], tr[i]):
                bad.append(V("winners", category=i, got=out["cats"][i][1][:12], expected=[float(x) for x in tr[i]][:12]))
    return bad

def o_settle(case, out):
    """reported gains versus a settlement of the announced outcome"""
    t = tol_of(case) * max(1, sum(len(c[1]) for c in out["cats"]))
    bad = []
    if case["p"] in ("rt", "ri"):
        vals = [c[1] for c in out["cats"]]
        _, _, best, _ = opt_tree(vals, case["recipe"], case.get("counts"))
        for name in ("gft", "gft0"):
            if not close(out[name], float(best), t): bad.append(V("tree-gain", which=name, gft=out[name], realised=float(best)))
        return bad
    K = out["K"]
    value = Fr(0); paid = Fr(0)
    if K > 0:
        for i, r in enumerate(case["recipe"]):
            if r == 0: continue
            vs = out["cats"][i][1]
            value += Fr(K * r, len(vs)) * sum(F(v) for v in vs)
            paid += F(out["prices"][i]) * K * r
    if not close(out["gft"], float(value), t): bad.append(V("gain", gft=out["gft"], realised=float(value)))
    if not close(out["gft0"], float(value - paid), t): bad.append(V("traders-gain", gft=out["gft0"], realised=float(value - paid)))
    return bad


# ------------------------------------------------------------------------------------------------ explanatory texts
def text_category(c): return "%s: %s" % (c[0], c[1])

def text_single(out, recipe):
    """the printed description that the figures of a single-recipe trade call for"""
    K = out["K"]
    if K == 0: return "No trade"
    lines = []
    for c, n, p in zip(out["cats"], recipe, out["prices"]):
        if n <= 0: continue
        need, have = n * K, len(c[1])
        who = "all %s" % have if need == have else "random %s out of %s" % (need, have)
        lines.append("%s: %s agents trade and pay %s" % (text_category(c), who, p))
    return "\n".join(lines)

def text_tree(out, st, counts, word):
    K = out["K"]
    if K == 0: return "No trade"
    cats, prices = out["cats"], out["prices"]
    sizes = [len(c[1]) for c in cats]
    lines = []
    def rec(n):
        i, kids = n[0], n[1]
        c = counts[i] if counts else 1
        own = sizes[i] // c
        if not kids:
            lines.append("%s: %s potential deals, price=%s" % (cats[i][0], own, prices[i]))
            return own
        ks = [kids[q:q + 2] for q in range(0, len(kids), 2)]
        S = sum([rec(x) for x in ks])
        d = min(own, S)
        lines.append("%s: %s traders selected, price=%s" % (cats[i][0], "all %s" % sizes[i] if d * c == sizes[i] else "%s out of %s" % (d * c, sizes[i]), prices[i]))
        lines.append("%s: %s %s selected" % (" + ".join(cats[x[0]][0] for x in ks), "all %s" % S if d == S else "%s out of %s" % (d, S), word))
        return d
    total = rec(st)
    lines.append("%s deals overall" % total)
    return "\n".join(lines)

def o_text(case, out):
    want = text_tree(out, case["recipe"], case.get("counts"), "traders" if case["p"] == "rt" else "deals") if case["p"] in ("rt", "ri") else text_single(out, case["recipe"])
    if out["repr"] != want:
        a, b = out["repr"].split("\n"), want.split("\n")
        d = next((x for x in range(max(len(a), len(b))) if a[x:x + 1] != b[x:x + 1]), 0)
        return [V("text", line=d, got=a[d:d + 1], expected=b[d:d + 1])]
    if case["p"] in ("rt", "ri") and "kmin" in out:                 # the extreme numbers of potential deals the text names per leaf
        cnt = case.get("counts") if case["p"] == "ri" else None
        def leaves(st):
            for i in range(0, len(st), 2):
                if st[i + 1]: yield from leaves(st[i + 1])
                else: yield len(out["cats"][st[i]][1]) // (cnt[st[i]] if cnt else 1)
        L = list(leaves(case["recipe"])); pos = [x for x in L if x > 0]
        if out["kmax"] != max(L) or out["kmin"] not in (min(L), min(pos) if pos else 0): return [V("extreme-deals", kmin=out["kmin"], kmax=out["kmax"], potential=L)]
    return []


def max_deals(vals, struct, counts=None):
    """the greatest number of deals the sizes of the categories permit (a category is needed counts[c] times per deal)"""
    def forest(s):
        n = 0
        for i in range(0, len(s), 2):
            own = len(vals[s[i]]) // (counts[s[i]] if counts else 1)
            n += own if not s[i + 1] else min(own, forest(s[i + 1]))
        return n
    return forest(struct)


def tree_paths(struct):
    """all root-to-leaf paths of a recipe tree given as [index, children]"""
    i, kids = struct[0], struct[1]
    if not kids: return [[i]]
    return [[i] + p for j in range(0, len(kids), 2) for p in tree_paths(kids[j:j + 2])]

def largest_old(sizes, struct):
    """the superseded tree: a subtree supplies what its root and its children together can; returns (size of the largest category chosen, supply of the tree, the categories chosen)"""
    def go(i, kids):
        if not kids: return sizes[i], sizes[i], [i]
        below = [go(kids[j], kids[j + 1]) for j in range(0, len(kids), 2)]
        supply = sum(b[1] for b in below)
        if supply < sizes[i]: return sizes[i], supply, [i]
        return max(b[0] for b in below), sizes[i], [x for b in below for x in b[2]]
    return go(struct[0], struct[1])

def explained_old(sizes, names, struct):
    """the superseded tree's text: bottom up, how many of the possible deals each category and each group of branches takes part in"""
    def part(who, n, of, price): return "%s: %s traders selected%s\n" % (who, "all %d" % of if n == of else "%d out of %d" % (n, of), price)
    def go(i, kids):
        price = ", price=%d" % (7 * i + 1)
        if not kids: return [sizes[i], "%s: %d potential deals%s\n%d deals overall\n" % (names[i], sizes[i], price, sizes[i])]
        below = [go(kids[j], kids[j + 1]) for j in range(0, len(kids), 2)]
        supply = sum(b[0] for b in below); n = min(supply, sizes[i])
        return [n, "".join(b[1] for b in below) + part(names[i], n, sizes[i], price)
                + part(" + ".join(names[kids[j]] for j in range(0, len(kids), 2)), n, supply, "") + "%d deals overall\n" % n]
    return go(struct[0], struct[1])

def largest(sizes, struct, counts=None):
    """(relative size of the root, the categories in which most deals are possible, one on each path)"""
    rel = lambda i: Fr(sizes[i], counts[i] if counts else 1)
    def go(i, kids):
        kids = [kids[j:j + 2] for j in range(0, len(kids or []), 2)]
        below = sum(ceil(rel(c[0])) for c in kids)
        if rel(i) > below or below == 0: return [i]
        return [x for c in kids for x in go(*c)]
    return rel(struct[0]), go(struct[0], struct[1])
