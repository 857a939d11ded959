"""One worker interpreter: a pristine fork server that generates, runs, judges and minimises sessions."""
import sys, os, json, time, random, hashlib, collections
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pool, shrink

def seed_of(seed, prop, i):
    return int.from_bytes(hashlib.sha256(("%s:%s:%s" % (seed, prop, i)).encode()).digest()[:8], "big")

class Ctx:
    def __init__(self, runner): self.runner = runner; self.extra = 0
    def run(self, scn):
        self.extra += 1
        return pool.run_in_child(self.runner, scn)

def emit(obj):
    os.write(REAL_OUT, (json.dumps(obj) + "\n").encode())

def load(prop_id):
    """import the repository for this property's engine; returns (prop, runner)"""
    import engine
    import registry
    prop, runner = registry.load(prop_id)
    return prop, runner

def stats_of(scn, res, S):
    S["ops"] += sum(1 for _ in _recs(res))
    for r in _recs(res):
        if isinstance(r, dict):
            S["lines"] += r.get("lines", 0)
            if "fault" in r: S["op_interrupted"] += 1
            if r.get("exc") and "fault" not in r: S["op_exc_" + r["exc"]] += 1
    S["switches"] += res.get("switches", 0)
    for x in res.get("fired", []): S["fault_" + x[1]] += 1
    S["fault_logsink"] += res.get("sinkfail", 0)
    S["fault_solver"] += res.get("solverfail", 0)
    for k, n in res.get("faults", {}).items(): S["fault_" + k] += n
    for k, n in res.get("probes", {}).items(): S["probe_" + k] += n

def _recs(res):
    for r in res.get("setup", []): yield r
    for t in res.get("threads", []):
        for r in t: yield r
    for r in res.get("post", []): yield r

def tb():
    import traceback
    return traceback.format_exc()[-600:]

def digest(res):
    """everything the session's callers saw (not how many lines it took)"""
    def strip(o):
        if isinstance(o, dict): return {k: strip(v) for k, v in o.items() if k not in ("lines", "tb")}
        if isinstance(o, list): return [strip(v) for v in o]
        return o
    return hashlib.sha256(json.dumps(strip({k: res.get(k) for k in ("setup", "threads", "post", "abort")}), sort_keys=True).encode()).hexdigest()[:16]

def serve(prop_id):
    """answer scenario lines with digests (used to minimise a hash-seed dependence)"""
    prop, runner = load(prop_id)
    import gc
    gc.collect(); gc.freeze()
    for line in sys.stdin:
        r = pool.run_in_child(runner, json.loads(line))
        emit({"d": None if "harness" in r else digest(r)})

def main():
    if sys.argv[1] == "--serve":
        global REAL_OUT
        REAL_OUT = os.dup(1)
        os.dup2(os.open("/dev/null", os.O_WRONLY), 1)
        return serve(sys.argv[2])
    if sys.argv[1] == "--gen":
        REAL_OUT = os.dup(1)
        os.dup2(os.open("/dev/null", os.O_WRONLY), 1)
        prop, runner = load(sys.argv[2])
        return emit(dict(prop.gen(random.Random(seed_of(int(sys.argv[4]), sys.argv[2], int(sys.argv[5]))), sys.argv[3]), sched=[]))
    prop_id, tier, seed, wid, nw, count, wall = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5]), int(sys.argv[6]), float(sys.argv[7])
    replay_dir = sys.argv[8]
    REAL_OUT = os.dup(1)
    os.dup2(os.open("/dev/null", os.O_WRONLY), 1)
    try:
        prop, runner = load(prop_id)
    except BaseException as e:
        import traceback
        emit({"type": "loaderror", "err": "%s: %s" % (type(e).__name__, e), "tb": traceback.format_exc()[-1500:]})
        return
    import gc
    gc.collect(); gc.freeze()
    ctx = Ctx(runner)
    S = collections.Counter(); keys = set(); traces = set(); samples = []
    start = time.monotonic()
    inconclusive = []
    known = collections.Counter()
    done = 0
    digests = {}
    import registry
    if wid == 0:                     # the listed findings are re-executed on every run
        for e in registry.known_findings()["open"]:
            if e["property"] == prop_id and "scenario" in e:
                r = pool.run_in_child(runner, e["scenario"])
                if "harness" not in r:
                    for k in registry.split_known(prop_id, prop.judge(e["scenario"], r, ctx), e["scenario"])[1]: known[k] += 1
    for i in range(min(getattr(prop, "cross", 0), count)):
        # the same sessions in every worker interpreter: the hash seed is a schedule the simulator controls across processes
        scn = prop.gen(random.Random(seed_of(seed, prop_id, i)), tier)
        if any(f.get("site") != "linprog" for f in scn.get("faults", []) or []) or scn.get("instr"): continue
        scn = dict(scn, sched=[])
        r = pool.run_in_child(runner, scn)
        if "harness" not in r: digests[i] = digest(r)
    for i in range(wid, count, nw):
        if time.monotonic() - start > wall: break
        try:
            rng = random.Random(seed_of(seed, prop_id, i))
            scn = prop.gen(rng, tier)
        except Exception as e:
            inconclusive.append([i, "generator: %s: %s" % (type(e).__name__, e), tb()]); break
        res = pool.run_in_child(runner, scn)
        done += 1
        if "harness" in res:
            inconclusive.append([i, res["harness"], res.get("tb", "")[-600:]])
            if len(inconclusive) > 20: break
            continue
        prop.stats(scn, res, S) if hasattr(prop, "stats") else stats_of(scn, res, S)
        try: bad = prop.judge(scn, res, ctx)
        except Exception as e:
            inconclusive.append([i, "oracle: %s: %s" % (type(e).__name__, e), tb()])
            if len(inconclusive) > 20: break
            continue
        bad, kn = registry.split_known(prop_id, bad, scn)
        for k in kn: known[k] += 1
        k = prop.key(scn, res)
        if k is not None:
            keys.add(k)
            if len(samples) < 2 and len(json.dumps(scn)) < 2500: samples.append(scn)
        if res.get("switches"): traces.add(res["trace"])
        if bad:
            v = bad[0]
            def fails(s):
                r = pool.run_in_child(runner, s)
                if "harness" in r: return False
                b, _ = registry.split_known(prop_id, prop.judge(s, r, ctx), s)
                return any(x["kind"] == v["kind"] for x in b)
            # confirm determinism before reporting
            if not fails(scn):
                S["unconfirmed"] += 1
                inconclusive.append([i, "violation not reproduced: %s" % json.dumps(v)[:300], ""])
                continue
            if os.environ.get("DST_NOSHRINK"): small, ex = scn, 0
            else: small, ex = shrink.shrink(scn, fails, max_execs=500 if tier == "quick" else 2000, max_secs=25 if tier == "quick" else 120)
            r = pool.run_in_child(runner, small)
            b, _ = registry.split_known(prop_id, prop.judge(small, r, ctx), small)
            b = [x for x in b if x["kind"] == v["kind"]] or b
            path = os.path.join(replay_dir, "%s-%d-%d.json" % (prop_id, seed, i))
            os.makedirs(replay_dir, exist_ok=True)
            with open(path, "w") as f:
                json.dump({"property": prop_id, "run_seed": i, "verif_seed": seed, "hashseed": os.environ.get("PYTHONHASHSEED"),
                           "violation": b[0] if b else v, "trace": r.get("trace"), "events": r.get("events"), "scenario": small,
                           "shrunk_in": ex, "original_size": shrink.size(scn), "size": shrink.size(small),
                           "replay_with": "python3 dst/replay.py " + path}, f, indent=1, default=str)
            emit({"type": "violation", "path": path, "v": b[0] if b else v, "i": i})
            S["violations"] += 1
            break
    emit({"type": "done", "runs": done, "extra": ctx.extra, "stats": dict(S), "keys": sorted(keys), "traces": sorted(traces), "samples": samples,
          "inconclusive": inconclusive, "known": dict(known), "digests": digests, "hs": os.environ.get("PYTHONHASHSEED"), "wall": time.monotonic() - start})

if __name__ == "__main__":
    main()
