#!/usr/bin/env python3
"""determinism.py [RUNS] [PROP...]: execute the same seeds in two fresh interpreters and compare everything recorded (answers, event traces, line
counts, fault sites).  Equal hash seed must give identical records; another hash seed must give identical answers."""
import sys, os, json, hashlib, subprocess, random
HERE = os.path.dirname(os.path.abspath(__file__)); DST = os.path.join(os.path.dirname(HERE), "dst")
if len(sys.argv) > 1 and sys.argv[1] == "--one":
    sys.path.insert(0, DST)
    REAL = os.dup(1); os.dup2(os.open("/dev/null", os.O_WRONLY), 1)
    import worker, pool, gc
    prop, runner = worker.load(sys.argv[2]); gc.collect(); gc.freeze()
    out = []
    for i in range(int(sys.argv[3])):
        scn = prop.gen(random.Random(worker.seed_of(77, sys.argv[2], i)), "quick")
        res = pool.run_in_child(runner, scn)
        h = lambda x: hashlib.sha256(json.dumps(x, sort_keys=True, default=repr).encode()).hexdigest()[:16]
        out.append([h(scn), h(res), worker.digest(res), res.get("trace"), bool(res.get("harness"))])
    os.write(REAL, json.dumps(out).encode())
    sys.exit(0)
N = int(sys.argv[1]) if len(sys.argv) > 1 else 200
props = sys.argv[2:] or ["P%02d" % i for i in range(1, 21)]
def start(p, hs):
    env = dict(os.environ, PYTHONHASHSEED=str(hs), PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONWARNINGS="ignore")
    return subprocess.Popen(["/opt/venv/bin/python", os.path.abspath(__file__), "--one", p, str(N)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)
bad = 0
for p in props:
    ps = [start(p, 3), start(p, 3), start(p, 11)]
    a, b, c = [json.loads(q.communicate()[0]) for q in ps]
    same = sum(x == y for x, y in zip(a, b)); ans = sum(x[2] == y[2] for x, y in zip(a, c)); har = sum(x[4] for x in a)
    bad += (same < N) + har
    print("%s: %d sessions, identical records %d, identical answers under another hash seed %d, distinct records %d, harness errors %d" % (p, N, same, ans, len({x[1] for x in a}), har), flush=True)
sys.exit(1 if bad else 0)
