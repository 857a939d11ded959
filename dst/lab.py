"""
Simulated laboratory: the repository's experiment runners and stock-data reader, run for real in a scratch directory, with the
disk, the directory listing order, the random generator, process death and the failing of auctions behind seams.

A session is a sequence of process lifetimes.  Every lifetime is a fork of the pristine interpreter (so nothing but the scratch
directory survives); a crash is a real process end without any clean-up, at a chosen source line or a chosen I/O event.
"""
import os, sys, io, re, json, random, builtins, errno, csv, math, shutil, tempfile, gc, time, hashlib
import engine, pool
from engine import SIM, MODULES, SimThread, BudgetExceeded, SimAbort

EXPS = ["experiment", "experiment_comparing_sbb", "experiment_ascending_auction_recipetree_random",
        "experiment_ascending_auction_recipetree_integer_random", "experiment_ascending_auction_recipetree_stock",
        "experiment_ascending_auction_recipetree_integer_stock", "get_stocks_data", "experiment_stock",
        "experiment_compare_iterations_autions", "experiment_compare_iterations_autions_without_mcafee", "experiment_compare_sbb_shufled_stock"]
BASE = ["agents", "trade", "markets", "prices", "prices_integer", "recipetree", "recipetree_integer",
        "mcafee_protocol", "trade_reduction_protocol", "ascending_auction_protocol",
        "ascending_auction_recipetree_protocol", "ascending_auction_recipetree_integer_protocol"]
ORIG = {}

class Disk:
    """the scratch directory as the system sees it: every access below `root` is an event that can fail or end the process"""
    def __init__(self):
        self.root = None; self.events = 0; self.plan = {}; self.fired = []; self.order = 0
        self.crash = None; self.log = []; self.torn = None; self.writing = []; self.wrote = set()
    def arm(self, root, plan, order):
        self.root = os.path.realpath(root) + os.sep; self.plan = dict(plan); self.order = order; self.events = 0; self.fired = []; self.log = []; self.wrote = set()
    def ours(self, path):
        if self.root is None: return False
        try: p = os.fspath(path)
        except TypeError: return False
        if isinstance(p, bytes): p = os.fsdecode(p)
        return os.path.realpath(p).startswith(self.root)
    def event(self, what, path):
        """returns the fault kind to apply now, or None"""
        self.events += 1
        if len(self.log) < 300: self.log.append("%d %s %s" % (self.events, what, os.path.basename(str(path))))
        k = self.plan.get(self.events)
        if k is None: return None
        self.fired.append([self.events, what, k])
        if k == "crash" and what != "write": self.crash("io %s" % what)
        return k
DISK = Disk()

def err(kind): 
    return OSError(getattr(errno, kind if kind in ("EIO", "ENOSPC", "EACCES", "EMFILE") else "EIO"), "simulated " + kind)

class SimFile:
    def __init__(self, f, path, writing):
        self._f = f; self._path = path; self._w = writing; self._closed = False
        if writing: DISK.writing.append(self._path); DISK.wrote.add(os.path.basename(self._path))
    def write(self, s):
        k = DISK.event("write", self._path)
        if k:
            half = s[:len(s) // 2]
            self._f.write(half)
            if k == "crash":
                self._f.flush(); DISK.torn = os.path.basename(self._path); DISK.crash("io torn write")
            DISK.torn = os.path.basename(self._path)
            raise err(k)
        return self._f.write(s)
    def writelines(self, lines):
        for l in lines: self.write(l)
    def flush(self):
        if self._w:
            k = DISK.event("flush", self._path)
            if k: DISK.torn = os.path.basename(self._path); raise err(k)
        self._f.flush()
    def read(self, *a):
        if not self._w:
            k = DISK.event("read", self._path)
            if k: raise err(k)
        return self._f.read(*a)
    def readline(self, *a):
        if not self._w:
            k = DISK.event("read", self._path)
            if k: raise err(k)
        return self._f.readline(*a)
    def readlines(self, *a):
        return list(self)
    def __iter__(self): return self
    def __next__(self):
        l = self.readline()
        if not l: raise StopIteration
        return l
    def close(self):
        if self._closed: return
        self._closed = True
        if self._w:
            try:
                k = DISK.event("close", self._path)
                if k:                       # what was still buffered is lost
                    self._f.flush(); n = self._f.seek(0, 2) if self._f.seekable() else 0
                    os.truncate(self._path, n // 2)
                    self._f.close()
                    DISK.torn = os.path.basename(self._path)
                    raise err(k)
            finally:
                if self._path in DISK.writing: DISK.writing.remove(self._path)
        self._f.close()
    def __enter__(self): return self
    def __exit__(self, *a): self.close()
    def __getattr__(self, n): return getattr(self._f, n)
    def __del__(self):
        try:
            if not self._closed and self._w and self._path in DISK.writing: DISK.writing.remove(self._path)
        except Exception: pass

def sim_open(file, mode="r", *a, **k):
    if isinstance(file, int) or not DISK.ours(file): return ORIG["open"](file, mode, *a, **k)
    w = any(c in mode for c in "wax+")
    kind = DISK.event("open-w" if w else "open-r", file)
    if kind and kind != "crash": raise err(kind)
    f = ORIG["open"](file, mode, *a, **k)
    return SimFile(f, os.path.realpath(os.fspath(file)), w)

def wrap_path_fn(name, npaths):
    orig = getattr(os, name); ORIG[name] = orig
    def fn(*a, **k):
        if a and DISK.ours(a[0]):
            kind = DISK.event(name, a[0])
            if kind and kind != "crash": raise err(kind)
        return orig(*a, **k)
    fn.__name__ = name
    setattr(os, name, fn)

def permuted(names):
    names = sorted(names)
    random_ = random.Random(DISK.order); random_.shuffle(names)
    DISK.order += 1                       # every listing may come in another order
    return names

def sim_listdir(path="."):
    if isinstance(path, int) or not DISK.ours(os.path.join(os.fspath(path), "x")): return ORIG["listdir"](path)
    kind = DISK.event("listdir", path)
    if kind and kind != "crash": raise err(kind)
    return permuted(ORIG["listdir"](path))

class ScanDir:
    def __init__(self, path):
        self.it = {e.name: e for e in ORIG["scandir"](path)}
        self.names = iter(permuted(self.it))
    def __iter__(self): return self
    def __next__(self): return self.it[next(self.names)]
    def __enter__(self): return self
    def __exit__(self, *a): pass
    def close(self): pass

def sim_scandir(path="."):
    if isinstance(path, int) or not DISK.ours(os.path.join(os.fspath(path), "x")): return ORIG["scandir"](path)
    return ScanDir(path)

def load():
    import scipy.optimize, anytree, pandas, numpy             # noqa
    pandas.read_csv(io.StringIO("a,b\n1,2\n"))
    ORIG["open"] = builtins.open; ORIG["listdir"] = os.listdir; ORIG["scandir"] = os.scandir
    for n in ("remove", "unlink", "rename", "replace", "truncate"): wrap_path_fn(n, 1)
    os.listdir = sim_listdir; os.scandir = sim_scandir
    builtins.open = sim_open; io.open = sim_open
    engine.load_repo([os.path.join(engine.REPO, "stock")], BASE + EXPS)
    engine.EXC["crash"] = None

# ---------------------------------------------------------------------------------------------------- one lifetime
class Capture:
    """stands between an experiment and the auctions it calls: records the market each auction was given"""
    def __init__(self): self.calls = []; self.fail_at = self.row_at = None; self.n = 0; self.started = 0; self.fired = 0
    def wrap(self, key, fn):
        if getattr(fn, "_sim", False): return fn
        cap = self
        def call(market, recipe, *a, **k):
            if cap.depth: return fn(market, recipe, *a, **k)
            cap.started += 1
            if cap.fail_at == cap.started:
                cap.fired += 1
                raise RuntimeError("simulated auction failure")
            if len(cap.calls) < 4000:
                cap.calls.append([key, [list(c.values) for c in market.categories], jsonable(recipe), jsonable(a)])
            cap.depth += 1
            try: r = fn(market, recipe, *a, **k)
            finally: cap.depth -= 1
            cap.n += 1
            return r
        call._sim = True
        return call
    depth = 0
CAP = Capture()

def auction(key):
    from functools import partial
    M = MODULES
    return {"aa": M["ascending_auction_protocol"].budget_balanced_ascending_auction,
            "tr": M["trade_reduction_protocol"].budget_balanced_trade_reduction,
            "mc": M["mcafee_protocol"].mcafee_trade_reduction,
            "mc0": partial(M["mcafee_protocol"].mcafee_trade_reduction, price_heuristic=False),
            "rt": M["ascending_auction_recipetree_protocol"].budget_balanced_ascending_auction,
            "ri": M["ascending_auction_recipetree_integer_protocol"].budget_balanced_ascending_auction}[key]

def hook_auctions():
    for key in ("aa", "tr", "mc", "rt", "ri"):
        orig = auction(key); w = CAP.wrap(key, orig)
        for m in list(MODULES.values()):
            for n, v in list(vars(m).items()):
                if v is orig: setattr(m, n, w)

ADDED = []
def hook_table():
    """a row counts as handed over once the table writer's add() has returned (seam: third-party class)"""
    try: from tee_table.tee_table import TeeTable
    except Exception: return
    orig = TeeTable.add
    def add(self, row):
        r = orig(self, row)
        ADDED.append([os.path.basename(self.csvFileName), len(ADDED)])
        if CAP.row_at == len(ADDED):                  # stopped just after a row was written
            CAP.fired += 1
            if CAP.row_exc == "crash": DISK.crash("after row %d" % len(ADDED))
            raise engine.EXC[CAP.row_exc]("simulated")
        return r
    TeeTable.add = add

def read_rows(path):
    """header, rows of a results file, or None"""
    try:
        with ORIG["open"](path, newline="") as f: data = f.read()
    except OSError: return None
    rows = list(csv.reader(io.StringIO(data)))
    return rows

def table_state(root):
    """every table under the root (the stock data aside), by relative path"""
    out = {}
    for sub in [""] + [n for n in sorted(ORIG["listdir"](root)) if n != "stocks" and os.path.isdir(os.path.join(root, n))]:
        for n in sorted(ORIG["listdir"](os.path.join(root, sub))):
            p = os.path.join(root, sub, n)
            if n.endswith(".csv") and os.path.isfile(p): out[os.path.join(sub, n)] = read_rows(p)
    return out

def notes_size(root):
    out = {}
    for n in ("diff_in_sbbs_gft.txt", "diff_in_sbbs_k.txt"):
        try: out[n] = os.stat(os.path.join(root, n)).st_size
        except OSError: out[n] = 0
    return out

def notes_since(root, sizes):
    """the pairs of figures noted in the diagnostics files of the comparison experiment since the sizes given"""
    out = {}
    for n, at in sizes.items():
        try:
            with ORIG["open"](os.path.join(root, n)) as f: f.seek(at); text = f.read()
        except OSError: text = ""
        out[n.split("_")[-1][:-4]] = [[a, b] for a, b in re.findall(r"between two auctions: (\S+) (\S+)\n", text)]
    return out

def jsonable(x):
    if isinstance(x, (list, tuple)): return [jsonable(v) for v in x]
    if isinstance(x, dict): return {str(k): jsonable(v) for k, v in x.items()}
    if x is None or isinstance(x, (bool, int, float, str)): return x
    try:
        f = float(x)
        return int(f) if f == int(f) and type(x).__name__.startswith(("int", "uint")) else f
    except Exception: return repr(x)

class Life:
    def __init__(self, scn, li, fd): 
        self.scn = scn; self.life = scn["lives"][li]; self.fd = fd; self.rec = {"ops": [], "crash": None}; self.cur = None; self.li = li
    def crash(self, where):
        if self.cur is not None: self.rec["ops"].append(dict(self.cur, crashed=True, **self.counters()))
        if DISK.writing: DISK.torn = os.path.basename(DISK.writing[-1])      # died between opening a file and closing it
        self.rec["crash"] = where; self.rec["torn"] = DISK.torn
        if self.rec["ops"] and self.rec["ops"][-1].get("crashed"): self.rec["ops"][-1]["torn"] = DISK.torn
        self.send(); os._exit(0)
    def counters(self):
        return {"calls": CAP.calls, "started": CAP.started, "finished": CAP.n, "added": len(ADDED), "io": DISK.events, "fired": list(DISK.fired), "auction_failed": CAP.fired,
                "lines": SIM.cur.n - self.n0 if SIM.cur else 0, "torn": DISK.torn, "wrote": sorted(DISK.wrote), "iolog": DISK.log[-40:]}
    def send(self):
        b = json.dumps(self.rec).encode()
        while b:
            n = os.write(self.fd, b[:65536]); b = b[n:]
    def run(self):
        os.chdir(self.scn["_root"])
        random.seed(0)
        import numpy; numpy.random.seed(0)
        gc.disable()
        DISK.crash = self.crash
        engine.CRASH = self.crash
        hook_auctions(); hook_table()
        threads = self.life.get("threads")
        if threads:
            DISK.arm(self.scn["_root"], {}, self.life.get("order", 0))
            self.rec["threads"] = SIM.run_threads(threads, self.life.get("sched", []), self.op_threaded)
            self.rec["switches"] = SIM.switches; self.rec["trace"] = SIM.trace.hexdigest()[:16]
            self.rec["abort"] = SIM.abort
        else:
            SIM.run_inline(self.life["ops"], self.op)
        self.send()
    def op_threaded(self, op, t):
        r = {"k": op["k"]}
        n0 = t.n
        self.limits(op, t)
        try: r["r"] = getattr(self, "op_" + op["k"])(op)
        except SimAbort: raise
        except BaseException as e: r["exc"] = type(e).__name__; r["msg"] = str(e)[:200]
        finally:
            t.fault_at = t.budget_at = 1 << 60; t.relimit()
        if t.fired and t.fired[-1][0] == t.opno: r["fault"] = t.fired[-1]
        r["lines"] = t.n - n0
        return r
    def limits(self, op, t):
        f = op.get("fault") or {}
        if "line" in f: t.fault_at = t.n + f["line"]; t.fault_exc = f.get("exc", "crash")
        t.budget_at = t.n + 30_000_000
        t.relimit()
    def op(self, op, t):
        global ADDED
        CAP.__init__(); CAP.depth = 0; ADDED.clear(); DISK.torn = None
        f = op.get("fault") or {}
        DISK.arm(self.scn["_root"], {int(k): v for k, v in (f.get("io") or {}).items()}, op.get("order", 0))
        CAP.fail_at = f.get("auction"); CAP.row_at = f.get("row"); CAP.row_exc = f.get("exc", "crash")
        self.n0 = t.n
        self.cur = r = {"k": op["k"]}
        if "seed" in op:
            random.seed(op["seed"])
            import numpy; numpy.random.seed(op["seed"] % (2 ** 32))
        notes = notes_size(self.scn["_root"])
        self.limits(op, t)
        try: r["r"] = getattr(self, "op_" + op["k"])(op)
        except SimAbort: raise
        except BaseException as e: r["exc"] = type(e).__name__; r["msg"] = str(e)[:200]
        finally:
            t.fault_at = t.budget_at = 1 << 60; t.relimit()
        r.update(self.counters())
        r["notes"] = notes_since(self.scn["_root"], notes)
        DISK.root = None
        if t.fired and t.fired[-1][0] == t.opno: r["fault"] = t.fired[-1]
        if op["k"] in ("run", "drive"): r["after"] = table_state(self.scn["_root"])
        self.rec["ops"].append(r); self.cur = None
        return r
    # -- operations
    def op_run(self, op):
        kw = json.loads(json.dumps(op["kw"]))          # every run gets its own copies, as after a replay
        mod = MODULES[op["exp"]]
        for k in ("auction_function",):
            if k in kw: kw[k] = CAP.wrap(kw[k], auction(kw[k]))
        if "auction_functions" in kw: kw["auction_functions"] = [CAP.wrap(k, auction(k)) for k in kw["auction_functions"]]
        for k in ("recipe",):
            if k in kw and op.get("tuple", True) and not any(isinstance(x, (list, type(None))) for x in kw[k]): kw[k] = tuple(kw[k])
        if "recipes" in kw: kw["recipes"] = [tuple(r) for r in kw["recipes"]]
        MODULES["get_stocks_data"].STOCKS = "stocks"
        first = {"stocks_prices": None}
        mod.experiment(op["file"], **kw)
    def op_drive(self, op):
        """one shipped program (an experiment series or a demonstration) executed as the main program; its experiments are cut to the
        sizes and rounds given, and only the chosen ones are run"""
        import inspect, contextlib, logging
        MODULES["get_stocks_data"].STOCKS = "stocks"
        for d in ("results", "stock", "stock/results"): os.makedirs(d, exist_ok=True)
        self.cur["exps"] = exps = []
        n = [-1]; undo = []
        def wrap(name, orig):
            sig = inspect.signature(orig)
            def experiment(*a, **k):
                n[0] += 1; i = n[0]
                if i not in op["calls"]: return
                b = sig.bind(*a, **k); b.apply_defaults(); kw = b.arguments
                if kw.get("nums_of_agents") is not None: kw["nums_of_agents"] = [min(x, y) for x, y in zip(list(kw["nums_of_agents"]), op["sizes"])]
                for q in ("num_of_iterations", "iterations"):
                    if q in kw: kw[q] = min(kw[q], op["rounds"])
                e = {"i": i, "exp": name, "file": os.path.normpath(str(kw["results_csv_file"])), "done": False}
                exps.append(e)
                random.seed(op["seed"] + i); import numpy; numpy.random.seed(op["seed"] + i)
                DISK.order = op.get("order", 0) * 1000 + i
                r = orig(*b.args, **b.kwargs)
                e["done"] = True
                return r
            return experiment
        for name in EXPS:
            m = MODULES.get(name)
            if m is not None and hasattr(m, "experiment"): undo.append((m, m.experiment)); m.experiment = wrap(name, m.experiment)
        loggers = [logging.getLogger()] + [l for l in logging.root.manager.loggerDict.values() if isinstance(l, logging.Logger)]
        levels = [(l, l.level) for l in loggers]
        text = io.StringIO()
        streams = [(h, h.stream) for l in loggers for h in l.handlers if isinstance(h, logging.StreamHandler) and not isinstance(h, logging.FileHandler)]
        path = os.path.join(engine.REPO, op["prog"])
        try:
            for h, _ in streams: h.stream = text
            with contextlib.redirect_stdout(text):
                with ORIG["open"](path) as f: code = compile(f.read(), path, "exec")
                exec(code, {"__name__": "__main__", "__file__": path, "__builtins__": builtins})
        finally:
            for h, s in streams: h.stream = s
            for l, v in levels: l.setLevel(v)
            for m, f in undo: m.experiment = f
            self.cur["text"] = text.getvalue()[-60000:]
            self.cur["ncalls"] = n[0] + 1
    def op_exec(self, op):
        """independent re-execution of recorded markets"""
        AC, MK = MODULES["agents"].AgentCategory, MODULES["markets"].Market
        out = []
        for key, cats, recipe, extra in op["calls"]:
            mk = lambda: MK([AC("agent", list(c)) for c in cats])
            tr = auction(key)(mk(), recipe, *extra)
            d = {"K": jsonable(tr.num_of_deals()), "prices": jsonable(list(tr.prices)) if tr.prices is not None else None, "cats": [jsonable(list(c.values)) for c in tr.categories]}
            if key in ("rt", "ri"):
                RT = MODULES["recipetree" if key == "rt" else "recipetree_integer"].RecipeTree
                t = RT(mk().categories, recipe, *extra)
                d["ctr"] = jsonable(list(t.optimal_trade_with_counters())[1:])
            out.append(d)
        return out
    def op_rm(self, op):
        ORIG["remove"](op["file"])
    def op_get(self, op):
        m = MODULES["get_stocks_data"]; m.STOCKS = "stocks"
        if op["what"] == "prices": d = m.getStocksPrices(tuple(op["recipe"]))
        elif op["what"] == "shuffled": d = m.getStocksPricesShuffled()
        else: d = m.getStocksTreePrices(op["recipe"], list(op["counts"]), list(op["values"]))
        out = jsonable(d)
        if op.get("scribble"):              # what the experiments do with what they get: shuffle it in place
            for x in d[0]:
                if isinstance(x, list) and x and not isinstance(x[0], list): random.shuffle(x)
        return out

def run_session(scn):
    root = tempfile.mkdtemp(prefix="lab-", dir=os.environ.get("DST_SCRATCH") or None)
    try:
        scn = dict(scn, _root=root)
        for name, content in scn.get("files", {}).items():
            p = os.path.join(root, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with ORIG["open"](p, "w", newline="") as f: f.write(content)
        out = {"lives": [], "probes": {}}
        for li, life in enumerate(scn["lives"]):
            before = table_state(root)
            rec = run_life(scn, li)
            if "harness" in rec: return rec
            rec["before"] = before; rec["disk"] = table_state(root)
            if life.get("operator", True) and rec.get("crash"):
                # after a crash in the middle of the final write, the operator puts the working file in place
                for n in list(rec["disk"]):
                    t = n.replace(".csv", ".temp.csv")
                    if rec.get("torn") == os.path.basename(n) and t in rec["disk"]:
                        shutil.copyfile(os.path.join(root, t), os.path.join(root, n)); rec["restored"] = n
            elif rec.get("ops") and any(o.get("torn") and o.get("exc") for o in rec["ops"]):
                for o in rec["ops"]:
                    n = next((x for x in rec["disk"] if os.path.basename(x) == o.get("torn")), None); t = (n or "").replace(".csv", ".temp.csv")
                    if n and ".temp." not in n and os.path.exists(os.path.join(root, t)):
                        shutil.copyfile(os.path.join(root, t), os.path.join(root, n)); rec["restored"] = n
            if rec.get("switches"): out["switches"] = out.get("switches", 0) + rec["switches"]; out["trace"] = out.get("trace", "") + rec["trace"]
            out["lives"].append(rec)
        return out
    finally:
        shutil.rmtree(root, ignore_errors=True)

def run_life(scn, li):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try: Life(scn, li, w).run()
            except BaseException as e:
                import traceback
                os.write(w, json.dumps({"harness": "%s: %s" % (type(e).__name__, str(e)[:300]), "tb": traceback.format_exc()[-1500:]}).encode())
        finally:
            os._exit(0)
    os.close(w)
    chunks = []
    while True:
        b = os.read(r, 1 << 18)
        if not b: break
        chunks.append(b)
    os.close(r); os.waitpid(pid, 0)
    try: return json.loads(b"".join(chunks))
    except Exception: return {"harness": "life died"}
