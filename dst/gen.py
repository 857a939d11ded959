"""Seeded generators of markets, recipes, trees, schedules and faults."""
import random

NAMES = ["buyer", "seller", "mediator", "producer", "shipper", "broker", "tax", "agent h", "Z", "insurer", "bank", "notary", "carrier", "guard", "x14", "x15", "x16"]

ODD = ["{a}", "{}", "100%", "%s", "%d of %(x)s", "", " ", "agent", "\u05e7\u05d5\u05e0\u05d4", "caf\u00e9 \u2615", "a: [1, 2]", "it's", 'a "b"', "No trade", "None", "0", "-1", "x" * 60, "tab\there", "back\\slash", "a,b", "all 3 agents trade and pay 7"]

def size(rng, big=False):
    x = rng.random()
    if x < 0.06: return 0
    if x < 0.30: return rng.randint(1, 2)
    if x < 0.68: return rng.randint(2, 5)
    if x < 0.95: return rng.randint(5, 12)
    if x < 0.992 or not big: return rng.randint(12, 40)
    return rng.randint(60, 150)

STYLES = ["tiny", "small", "small", "mid", "large", "quarter", "cents", "uniform", "equal", "ap", "zeros", "huge", "near", "near"]
EXACT_STYLES = ["tiny", "small", "small", "mid", "large", "quarter", "equal", "ap", "zeros", "huge", "near", "near"]

def draw(rng, style, hi):
    if style == "tiny": return rng.randint(1, 4)
    if style == "small": return rng.randint(1, 12)
    if style == "mid": return rng.randint(1, 100)
    if style == "large": return rng.randint(1, 5000)
    if style == "huge": return rng.randint(1, 900000)
    if style == "near": return rng.randint(1, 9) + rng.choice([0, 0, 0, 1, 1, -1, 2, -2]) * 2.0 ** -rng.choice([7, 10, 14, 17, 17, 19, 20])     # bids that all but coincide
    if style == "quarter": return rng.randint(1, 80) / 4
    if style == "cents": return round(rng.uniform(0.01, 60), 2)
    if style == "uniform": return rng.uniform(0.001, 30)
    if style == "equal": return hi
    if style == "zeros": return rng.choice([0, 0, 1, 2, 3])
    if style == "ap": return rng.randint(1, 8) * hi
    raise ValueError(style)

def bids(rng, n, style, sign, factor, hi, noise=0.0):
    out = []
    for _ in range(n):
        v = draw(rng, style, hi) * factor * sign
        if rng.random() < noise: v = -v
        if style not in ("cents", "uniform") and isinstance(v, float) and rng.random() < 0.5 and v == int(v):
            v = int(v)
        elif isinstance(v, int) and rng.random() < 0.1: v = float(v)
        if v == 0: v = 0
        out.append(v)
    return out

def names(rng, k):
    x = rng.random()
    if x < 0.8: return NAMES[:k]
    if x < 0.88: return [rng.choice(["A", "B"]) for _ in range(k)]
    if x < 0.94: return [rng.choice(ODD) for _ in range(k)]
    return ["c%d" % i for i in range(k)]

def flat_market(rng, k=None, exact=False, recipe=None, unit=False, big=True, noise=None):
    """a single-recipe market: returns (cats, recipe)"""
    xl = big and rng.random() < 0.006           # rarely: far more traders than usual
    if k is None: k = rng.choice([2, 2, 2, 3, 3, 3, 4, 4, 5, 6]) if rng.random() > 0.03 else rng.choice([1, 1, 7, 8, 9, 10, 12])
    if recipe is None:
        x = rng.random()
        if unit or x < 0.4: recipe = [1] * k
        elif x < 0.85: recipe = [rng.choice([1, 1, 2, 2, 3]) for _ in range(k)]
        else: recipe = [rng.choice([1, 2, 3, 4, 6, 8]) for _ in range(k)]
        if not unit and rng.random() < 0.08 and k > 2:
            for i in rng.sample(range(k), rng.choice([1, 1, 2]) if k > 3 else 1): recipe[i] = 0
    style = rng.choice(EXACT_STYLES if exact else STYLES)
    nb = 1 if rng.random() < 0.8 or k < 3 else rng.randint(1, k - 1)
    buyers = set(rng.sample(range(k), nb)) if rng.random() < 0.35 else set(range(nb))
    hi = rng.choice([1, 2, 3, 5, 10, 7])
    sells = sum(recipe[i] for i in range(k) if i not in buyers) or 1
    buys = sum(recipe[i] for i in buyers) or 1
    f = rng.choice([1, 1, 2, max(1, sells // buys), max(1, -(-sells // buys)), sells])
    if noise is None: noise = rng.choice([0, 0, 0, 0, 0, 0.15])
    sz = [size(rng, big) for _ in range(k)]
    if rng.random() < 0.3:
        n = rng.randint(1, 10); sz = [n * max(1, recipe[i]) + rng.choice([0, 0, 0, 1, -1]) for i in range(k)]
    elif rng.random() < 0.5:
        sz = [min(60 if big else 24, s * max(1, recipe[i])) for i, s in enumerate(sz)]
    sz = [max(0, s) for s in sz]
    if xl: n = rng.randint(150, 700); sz = [n * max(1, r) + rng.choice([0, 0, 0, 1, -1, 30]) for r in recipe] if sum(recipe) <= 8 else [rng.randint(150, 400) for _ in recipe]
    # keep runtime bounded: ascending clocks are quadratic
    nm = names(rng, k)
    cats = [[nm[i], bids(rng, sz[i], style, 1 if i in buyers else -1, f if i in buyers else 1, hi, noise)] for i in range(k)]
    if rng.random() < 0.15 and not noise:      # mixed magnitudes
        for c in cats:
            if rng.random() < 0.5 and style not in ("uniform", "cents"): c[1] = [v * 2 for v in c[1]]
    return cats, recipe

def tree(rng, k, shuffle=True):
    labels = list(range(k))
    if shuffle and rng.random() < 0.5:
        if rng.random() < 0.5: rng.shuffle(labels)
        else: labels = labels[::-1]
    ch = {i: [] for i in range(k)}
    kind = rng.random()
    for i in range(1, k):
        if kind < 0.2: par = i - 1                       # chain
        elif kind < 0.4: par = 0                         # star
        elif kind < 0.7: par = rng.randrange(max(0, i - 3), i)
        else: par = rng.randrange(i)
        ch[par].append(i)
    def b(i):
        kids = sum([b(c) for c in ch[i]], [])
        return [labels[i], kids or None]
    return b(0), labels[0]

def tree_market(rng, k=None, exact=False, counts="some", big=True, noise=None, powers=False):
    xl = big and rng.random() < 0.004
    if k is None: k = rng.choice([2, 2, 3, 3, 4, 4, 5, 6, 7]) if rng.random() > 0.03 else rng.choice([1, 1, 8, 9, 10, 12, 14])
    s, root = tree(rng, k)
    cnt = None
    if counts == "some" and rng.random() < 0.5:
        cnt = [rng.choice([1, 2, 4] if powers else [1, 1, 2, 2, 3, 4]) for _ in range(k)]
    style = rng.choice(EXACT_STYLES if exact else STYLES)
    if powers and style in ("quarter", "near"): style = "mid"
    hi = rng.choice([1, 2, 3, 5, 10])
    depth = max(1, k // 2)
    f = rng.choice([1, 2, 2, 3, depth, k])
    if noise is None: noise = rng.choice([0, 0, 0, 0, 0, 0.12])
    nm = names(rng, k)
    cats = []
    for i in range(k):
        n = size(rng, False)
        if xl: n = rng.randint(60, 160)
        elif cnt and rng.random() < 0.7: n = min(36, n * cnt[i])
        if i == root and rng.random() < 0.6: n = min(320 if xl else 40, n * 2 + 1)
        cats.append([nm[i], bids(rng, n, style, 1 if i == root else -1, f * (sum(cnt) // (k * cnt[i]) + 1 if cnt else 1) if i == root else 1, hi, noise)])
    if rng.random() < 0.12:                              # categories that the tree does not mention
        for _ in range(rng.choice([1, 1, 2])):
            at = rng.randint(0, len(cats))
            cats.insert(at, [rng.choice(["idle", "c0", "buyer", "x y"]), bids(rng, size(rng, False), style, rng.choice([1, -1]), 1, hi, noise)])
            if cnt: cnt.insert(at, rng.choice([1, 1, 2, 3]))
            s = relabel(s, lambda i: i + (i >= at))
    return cats, s, cnt

def relabel(s, f):
    return s and [f(x) if j % 2 == 0 else relabel(x, f) for j, x in enumerate(s)]

def edits(rng, m, cats):
    """operations by which a caller changes its market between two runs, most leaving sizes or sums (what a careless cache looks at) as they were"""
    ops = []
    ne = [i for i in range(len(cats)) if cats[i][1]]
    if not ne: return ops, cats
    cats = [[n, sorted(v, reverse=True)] for n, v in cats]
    for _ in range(rng.choice([1, 1, 2])):
        ne = [i for i in range(len(cats)) if cats[i][1]]
        if not ne: break
        i = rng.choice(ne); v = cats[i][1]
        n = rng.randint(1, min(4, len(v)))
        top = v[:n]; x = rng.random()
        if x < 0.35 and n >= 2:                     # same size and sum
            d = rng.choice([1, 2, 3, 5]); new = list(top); a, b = rng.sample(range(n), 2); new[a] += d; new[b] -= d
        elif x < 0.6:                               # same size
            new = [u + rng.choice([-2, -1, 0, 1, 3]) for u in top]
        elif x < 0.75: new = list(top)              # leave and come back
        elif x < 0.9: new = top[:-1] + [top[-1] - 1, 1] if rng.random() < 0.5 else top + [rng.choice(v)]
        else: new = []
        ops.append({"k": "rmh", "m": m, "c": i, "n": n})
        rest = list(new); rng.shuffle(rest)
        if rng.random() < 0.5: ops += [{"k": "app", "m": m, "c": i, "v": u} for u in rest]
        elif rest: ops.append({"k": "appl", "m": m, "c": i, "vs": rest})
        cats[i][1] = sorted(v[n:] + new, reverse=True)
    return ops, cats

def tree_indices(s):
    out = []
    for i in range(0, len(s), 2):
        out.append(s[i])
        if s[i + 1]: out += tree_indices(s[i + 1])
    return out

def tree_recipes(s, k, counts=None):
    out = []
    def rec(st, path):
        for i in range(0, len(st), 2):
            p = path + [st[i]]
            if st[i + 1]: rec(st[i + 1], p)
            else:
                r = [0] * k
                for j in p: r[j] = counts[j] if counts else 1
                out.append(r)
    rec(s, [])
    return out

def schedule(rng, nthreads, n=None):
    if nthreads == 0: return []
    n = n if n is not None else rng.choice([0, 3, 10, 25, 60])
    style = rng.random()
    out = []
    if style > 0.75:            # few preemptions, at points spread evenly over all scales
        for _ in range(min(n, rng.choice([1, 1, 2, 2, 3, 4, 6]))):
            out.append([rng.randrange(nthreads), int(2 ** rng.uniform(0, 11))])
        return out
    if style > 0.68 and nthreads > 1:      # switch right after a lock was taken
        for _ in range(max(n, 10)):
            out.append([rng.randrange(nthreads), rng.choice([1 << 20, 1 << 20, 300]), 1])
        return out
    for _ in range(n):
        t = rng.randrange(nthreads)
        x = rng.random()
        if style < 0.3: m = rng.randint(1, 12)
        elif style < 0.6: m = rng.choice([1, 2, 5, 20, 60, 200])
        else: m = int(rng.expovariate(1 / 40)) + 1
        out.append([t, m])
    return out

EXCS = ["KeyboardInterrupt", "MemoryError", "RuntimeError", "SimInterrupt", "KeyboardInterrupt"]

def fault_line(rng):
    x = rng.random()
    if x < 0.35: return rng.randint(1, 30)
    if x < 0.75: return rng.randint(1, 200)
    return rng.randint(1, 1500)

def auction_op(rng, mname, cats, kind=None, exact=False, recipe=None, **kw):
    pass

def log_spec(rng, p=0.25, sinkfail=0.5):
    if rng.random() > p: return None
    mods = ["mcafee_protocol", "trade_reduction_protocol", "ascending_auction_protocol", "ascending_auction_recipetree_protocol",
            "ascending_auction_recipetree_integer_protocol", "prices", "prices_integer", "recipetree", "recipetree_integer"]
    d = {"level": rng.choice(["info", "info", "debug"])}
    if rng.random() < 0.3: d["which"] = rng.sample(mods, rng.randint(1, 5))
    if rng.random() < sinkfail:
        if rng.random() < 0.5: d["sink"] = {"fail": sorted(rng.sample(range(1, 60), rng.randint(1, 10))), "err": rng.choice([28, 5, 32])}
        else: d["sink"] = {"fail": [], "from": rng.randint(1, 60), "err": rng.choice([28, 5, 32])}
    return d
