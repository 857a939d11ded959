#!/usr/bin/env python3
"""replay.py FILE: re-executes a recorded violation in a fresh process under the recorded hash seed; exit 1 if it reproduces."""
import sys, os, json, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
def main():
    path = sys.argv[1]
    d = json.load(open(path))
    if d.get("cross"):
        from check import Server
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", PYTHONWARNINGS="ignore")
        ss = [Server(d["property"], h, env) for h in d["cross"]]
        ds = [x.digest(d["scenario"]) for x in ss]
        [x.close() for x in ss]
        print(json.dumps({"reproduced": ds[0] != ds[1], "hashseeds": d["cross"], "digests": ds}))
        return 1 if ds[0] != ds[1] else 0
    if os.environ.get("DST_CHILD") != "1":
        from check import python
        env = dict(os.environ, DST_CHILD="1", PYTHONHASHSEED=str(d["hashseed"]), PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", PYTHONWARNINGS="ignore")
        return subprocess.call([python(), os.path.abspath(__file__), os.path.abspath(path)], env=env, cwd=os.path.dirname(HERE))
    out = os.dup(1); os.dup2(os.open("/dev/null", os.O_WRONLY), 1)
    import worker, pool, registry
    prop, runner = registry.load(d["property"])
    ctx = worker.Ctx(runner)
    r = pool.run_in_child(runner, d["scenario"])
    bad = [] if "harness" in r else prop.judge(d["scenario"], r, ctx)
    bad, _ = registry.split_known(d["property"], bad, d["scenario"])
    same = any(v["kind"] == d["violation"]["kind"] for v in bad)
    msg = json.dumps({"reproduced": same, "trace_identical": r.get("trace") == d.get("trace"), "violations": bad[:3], "events": r.get("events", [])[:20]}, indent=1, default=str)
    os.write(out, (msg + "\n").encode())
    return 1 if same else 0
if __name__ == "__main__":
    sys.exit(main())
