"""Delta debugging over explicit scenarios: fewer threads, operations, faults, context switches, bids, smaller numbers."""
import copy, json, time

def size(scn): return len(json.dumps(scn))

def _lists(scn):
    """(container, key) of every list of operations"""
    out = []
    for k in ("setup", "post", "ops"):
        if scn.get(k): out.append((scn, k))
    for i in range(len(scn.get("threads", []))):
        if scn["threads"][i]: out.append((scn["threads"], i))
    return out

def drop_op(scn, li, i):
    """remove one operation and re-index faults that refer to later operations of the same thread"""
    s = copy.deepcopy(scn)
    c, k = _lists(s)[li]
    del c[k][i]
    if c is s.get("threads"):
        nf = []
        for f in s.get("faults", []):
            if f.get("t") == k and "op" in f:
                if f["op"] == i: continue
                if f["op"] > i: f["op"] -= 1
            nf.append(f)
        s["faults"] = nf
    return s

def candidates(scn):
    # whole threads
    T = scn.get("threads", [])
    for i in range(len(T)):
        if T[i]:
            s = copy.deepcopy(scn); s["threads"][i] = []
            s["faults"] = [f for f in s.get("faults", []) if f.get("t") != i]
            yield s
    for key in ("sched", "faults"):
        L = scn.get(key) or []
        n = len(L)
        if n:
            s = copy.deepcopy(scn); s[key] = []; yield s
            step = n // 2
            while step >= 1:
                for i in range(0, n, step):
                    s = copy.deepcopy(scn); del s[key][i:i + step]; yield s
                step //= 2
    if scn.get("post"):
        s = copy.deepcopy(scn); s["post"] = []; yield s
    for li, (c, k) in enumerate(_lists(scn)):
        n = len(c[k])
        for i in reversed(range(n)):
            yield drop_op(scn, li, i)
    for key in ("log", "instr", "watch"):
        if scn.get(key):
            s = copy.deepcopy(scn); s[key] = None; yield s
    # whole categories' worth of bids, single bids, smaller numbers
    def paths(o, p=()):
        if isinstance(o, dict):
            for k, v in o.items():
                if k in ("cats", "vals"): 
                    for ci, cv in enumerate(v):
                        vals = cv[1] if (len(cv) == 2 and isinstance(cv[1], list)) else cv
                        yield p + (k, ci) + ((1,) if vals is not cv else ())
                elif k == "vs": yield p + (k,)
                elif k in ("setup", "threads", "post", "ops", "lies"):
                    yield from paths(v, p + (k,))
        elif isinstance(o, list):
            for i, v in enumerate(o): yield from paths(v, p + (i,))
    def get(o, p):
        for x in p: o = o[x]
        return o
    for p in list(paths(scn)):
        L = get(scn, p)
        n = len(L)
        if n > 3:
            for half in (slice(0, n // 2), slice(n // 2, n)):
                s = copy.deepcopy(scn); M = get(s, p); del M[half]; yield s
        if n <= 14:
            for i in range(n):
                s = copy.deepcopy(scn); M = get(s, p); del M[i]; yield s
    for i, f in enumerate(scn.get("faults", []) or []):
        if f.get("at", 0) > 1:
            for v in (1, f["at"] // 2):
                s = copy.deepcopy(scn); s["faults"][i]["at"] = v; yield s
    for p in list(paths(scn)):
        L = get(scn, p)
        if len(L) <= 8:
            for i, v in enumerate(L):
                if isinstance(v, float) and v != int(v) and abs(v) < 1e15:
                    s = copy.deepcopy(scn); get(s, p)[i] = int(v); yield s
                elif isinstance(v, (int, float)) and abs(v) > 12:
                    s = copy.deepcopy(scn); get(s, p)[i] = int(v / 2); yield s

def shrink(scn, fails, max_execs=400, max_secs=20):
    """greedy first-improvement; `fails(scn)` re-executes and says whether the same class of violation persists"""
    best = scn; execs = 0; end = time.monotonic() + max_secs
    seen = set()
    improved = True
    while improved and execs < max_execs and time.monotonic() < end:
        improved = False
        for s in candidates(best):
            k = json.dumps(s, sort_keys=True)
            if k in seen or size(s) >= size(best): continue
            seen.add(k)
            execs += 1
            try: ok = fails(s)
            except Exception: ok = False
            if ok:
                best = s; improved = True
                break
            if execs >= max_execs or time.monotonic() > end: break
    return best, execs
