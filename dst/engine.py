"""
The simulated runtime in which the code of /repo is executed.

One session = one explicit scenario (plain JSON) executed by `run_session` inside a freshly forked child of a
pristine interpreter.  The session's result is a pure function of (scenario, code of /repo, hash seed):

* caller threads are real Python threads, but exactly one of them ever holds the baton; who runs, and for how many
  source lines (or bytecode instructions) of repository code, is read from the scenario's schedule;
* interruptions (KeyboardInterrupt, MemoryError, ...) are raised inside repository code at a given line count;
* the log stream, the LP solver and locks created by repository code are stand-ins under the simulator's control;
* work is measured in executed repository lines, never in seconds.
"""
import sys, os, gc, types, io, json, hashlib, errno, copy, time
import _thread

REPO = os.environ.get("DST_REPO", "/repo")
MON = sys.monitoring
TOOL = 4
_real_allocate = _thread.allocate_lock
_real_sleep = time.sleep

# ----------------------------------------------------------------------------------------------------------------
# exceptions used by the simulator.  BaseException: repository code must not be able to swallow them by accident.
class BudgetExceeded(BaseException): pass
class SimAbort(BaseException): pass
class SimCrash(BaseException): pass
class SimInterrupt(BaseException): pass           # a "cancelled" caller (like greenlet/asyncio cancellation)

EXC = {
    "KeyboardInterrupt": KeyboardInterrupt,
    "MemoryError": MemoryError,
    "OSError": OSError,
    "RuntimeError": RuntimeError,
    "SimInterrupt": SimInterrupt,
}

CRASH = None            # set by the laboratory: ends the process without any clean-up

class SimThread:
    __slots__ = ("tid", "ops", "n", "limit", "slice_end", "fault_at", "fault_exc", "budget_at", "lock", "done",
                 "blocked_on", "results", "opno", "fired", "lockslice")
    def __init__(self, tid, ops):
        self.tid = tid; self.ops = ops
        self.n = 0
        self.slice_end = self.fault_at = self.budget_at = self.limit = 1 << 60
        self.fault_exc = None
        self.lock = _real_allocate(); self.lock.acquire()
        self.done = False; self.blocked_on = None
        self.results = []; self.opno = -1; self.fired = []; self.lockslice = False
    def relimit(self):
        self.limit = min(self.slice_end, self.fault_at, self.budget_at)


class Sim:
    """scheduler + fault controller of one session"""
    def __init__(self):
        self.cur = None
        self.threads = []
        self.sched = []
        self.sched_pos = 0
        self.switches = 0
        self.trace = hashlib.sha256()
        self.events = []
        self.done_lock = None
        self.probe = None            # called at every slice boundary
        self.abort = None
        self.total = 0

    # -- the hot path ----------------------------------------------------------------------------------------
    def on_event(self, code, where):
        t = self.cur
        if t is None:
            return
        t.n += 1
        if t.n >= t.limit:
            self.hit(t, code, where)

    def hit(self, t, code, where):
        if in_with_header(code, where):    # entering/leaving a with block is atomic for an interrupt (CPython runs handlers at calls and jumps only)
            return
        if self.abort:
            raise SimAbort()
        if t.n >= t.budget_at:
            t.budget_at = t.n + 1          # keep raising, should somebody swallow it
            t.relimit()
            raise BudgetExceeded()
        if t.n >= t.fault_at:
            exc = t.fault_exc
            t.fault_at = 1 << 60; t.relimit()
            t.fired.append([t.opno, exc, "%s:%s" % (code.co_name, where)])
            self.note("fault", t.tid, exc, code.co_name, where)
            if exc == "crash": CRASH("%s:%s" % (code.co_name, where))
            e = EXC[exc]
            if e is OSError:
                raise OSError(errno.EIO, "simulated")
            raise e("simulated")
        if t.n >= t.slice_end:
            self.note("slice", t.tid, "", code.co_name, where)
            if self.probe:
                self.probe("%s:%s %s" % (os.path.basename(code.co_filename), where, code.co_name), t)
            t.slice_end = 1 << 60; t.relimit()
            self.reschedule(t)

    def note(self, kind, tid, what, fn, where):
        s = "%s|%d|%s|%s|%s\n" % (kind, tid, what, fn, where)
        self.trace.update(s.encode())
        if len(self.events) < 400:
            self.events.append(s.strip())

    # -- scheduling ------------------------------------------------------------------------------------------
    def runnable(self, t):
        return (not t.done) and t.blocked_on is None

    def pick(self):
        while self.sched_pos < len(self.sched):
            tid, n = self.sched[self.sched_pos][:2]
            lockslice = len(self.sched[self.sched_pos]) > 2     # this slice also ends when the thread takes a lock
            self.sched_pos += 1
            if 0 <= tid < len(self.threads) and self.runnable(self.threads[tid]):
                t = self.threads[tid]
                t.slice_end = t.n + max(1, n); t.relimit(); t.lockslice = lockslice
                return t
        for t in self.threads:
            if self.runnable(t):
                t.slice_end = 1 << 60; t.relimit(); t.lockslice = False
                return t
        return None

    def reschedule(self, me):
        nxt = self.pick()
        if nxt is me:
            return
        if nxt is None and any(not t.done for t in self.threads):
            self.abort = "deadlock"
            for t in self.threads:      # everybody is let go, one after the other, with SimAbort
                t.blocked_on = None
            self.note("deadlock", me.tid, "", "", "")
            if not me.done:
                raise SimAbort()
            nxt = self.pick()
        if nxt is None:                 # the last thread is done: hand over to the main thread, touching nothing afterwards
            self.cur = None
            self.finish()
            return
        self.switches += 1
        self.cur = nxt
        nxt.lock.release()
        if not me.done:
            me.lock.acquire()
            if self.abort:
                raise SimAbort()

    def finish(self):
        try: self.done_lock.release()
        except RuntimeError: pass

    def thread_main(self, t, run_op):
        t.lock.acquire()
        try:
            for i, op in enumerate(t.ops):
                t.opno = i
                t.results.append(run_op(op, t))
        except SimAbort:
            pass
        except BaseException as e:   # harness problem
            t.results.append({"harness": repr(e)})
        t.done = True
        t.limit = 1 << 60
        try:
            self.reschedule(t)
        except SimAbort:
            pass

    def run_threads(self, opslists, sched, run_op):
        self.threads = [SimThread(i, ops) for i, ops in enumerate(opslists)]
        self.sched = sched; self.sched_pos = 0
        if not self.threads:
            return []
        self.done_lock = _real_allocate(); self.done_lock.acquire()
        for t in self.threads:
            _thread.start_new_thread(self.thread_main, (t, run_op))
        first = self.pick()
        self.cur = first
        first.lock.release()
        self.done_lock.acquire()
        self.cur = None
        return [t.results for t in self.threads]

    def run_inline(self, ops, run_op, tid=-1):
        """run ops on the main thread without scheduling (setup / post phases)"""
        t = SimThread(tid, ops)
        prev = self.cur
        self.cur = t
        try:
            for i, op in enumerate(ops):
                t.opno = i
                t.results.append(run_op(op, t))
        except SimAbort:
            pass
        finally:
            self.cur = prev
        return t.results


SIM = Sim()

def settle_threads(n):
    """wait for the simulated threads, all done, to leave the interpreter"""
    for _ in range(200):
        if _thread._count() <= n: return
        _real_sleep(0.001)


# ----------------------------------------------------------------------------------------------------------------
# locks seen by repository code (and by the log handlers it creates)
class SimLock:
    """Lock/RLock whose waiting is a scheduling decision of the simulator"""
    reentrant = False
    def __init__(self):
        self.owner = None; self.count = 0
    def acquire(self, blocking=True, timeout=-1):
        t = SIM.cur
        if t is not None and t.tid < 0: t = None          # setup, quiet phase: the main thread, alone
        me = t if t is not None else "main"
        while self.owner is not None and not (self.reentrant and self.owner is me):
            if not blocking:
                return False
            if t is None:                                  # held by a thread that ended (or by itself): nobody will ever release it
                SIM.abort = "deadlock"
                raise SimAbort()
            t.blocked_on = self
            SIM.note("block", t.tid, "", "", "")
            SIM.reschedule(t)
        self.owner = me; self.count += 1
        if t is not None and t.lockslice:
            SIM.note("lock", t.tid, "", "", "")
            t.lockslice = False; t.slice_end = 1 << 60; t.relimit()
            SIM.reschedule(t)
        return True
    def release(self):
        self.count -= 1
        if self.count <= 0:
            self.count = 0; self.owner = None
            for t in SIM.threads:
                if t.blocked_on is self:
                    t.blocked_on = None
    def locked(self): return self.owner is not None
    __enter__ = acquire
    def __exit__(self, *a): self.release()
    def _is_owned(self):
        return self.owner is (SIM.cur if SIM.cur is not None and SIM.cur.tid >= 0 else "main")
    def _at_fork_reinit(self):
        self.owner = None; self.count = 0
class SimRLock(SimLock):
    reentrant = True


class SimOut(io.TextIOBase):
    """the log sink / stdout of the session"""
    def __init__(self):
        self.writes = 0; self.bytes = 0; self.fail = {}; self.fail_from = None; self.err = errno.ENOSPC
        self.failed = 0; self.tail = []
        self.enabled = False
    def writable(self): return True
    def write(self, s):
        self.writes += 1
        if self.enabled:
            if self.writes in self.fail or (self.fail_from is not None and self.writes >= self.fail_from):
                self.failed += 1
                raise OSError(self.err, "simulated log sink failure")
        self.bytes += len(s)
        return len(s)
    def flush(self): pass
    def isatty(self): return False
    @property
    def encoding(self): return "utf-8"


class NullErr(io.TextIOBase):
    def __init__(self): self.n = 0
    def writable(self): return True
    def write(self, s): self.n += len(s); return len(s)
    def flush(self): pass

OUT = SimOut()
ERR = NullErr()

# ----------------------------------------------------------------------------------------------------------------
MODULES = {}

def load_repo(extra_paths=(), modules=None, more=()):
    """import the repository in this (zygote) process, with the stand-ins in place"""
    import warnings
    warnings.simplefilter("ignore")
    import threading, logging, random     # noqa
    logging.Handler.handleError = lambda self, record: None      # the complaint on stderr about a failing sink
    import scipy.optimize                 # noqa  (so that children do not import it again)
    import anytree                        # noqa
    sys.dont_write_bytecode = True
    for p in list(extra_paths) + [REPO]:
        if p not in sys.path:
            sys.path.insert(0, p)
    sys.stdout = OUT
    logging.raiseExceptions = True
    threading.Lock = SimLock
    threading.RLock = SimRLock
    install_solver()
    import importlib, importlib.util
    names = modules or ["agents", "trade", "markets", "prices", "prices_integer", "recipetree", "recipetree_integer",
                        "mcafee_protocol", "trade_reduction_protocol", "ascending_auction_protocol",
                        "ascending_auction_recipetree_protocol", "ascending_auction_recipetree_integer_protocol"]
    for n in list(names) + list(more):
        MODULES[n] = importlib.import_module(n)
    old = os.path.join(REPO, "recipetree.old.py")                # the dot in its name makes it importable only by its path
    if "recipetree" in MODULES and os.path.exists(old):
        spec = importlib.util.spec_from_file_location("recipetree_old", old)
        MODULES["recipetree_old"] = sys.modules["recipetree_old"] = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(MODULES["recipetree_old"])
    if "recipetree" in MODULES and os.path.exists(os.path.join(REPO, "tree_calculations.py")):
        MODULES["tree_calculations"] = importlib.import_module("tree_calculations")
    instrument()
    return MODULES


_headers = {}                  # file -> lines of with-statement headers
def with_headers(filename):
    if filename not in _headers:
        import ast
        lines = set()
        try:
            for n in ast.walk(ast.parse(open(filename, "rb").read())):
                if isinstance(n, (ast.With, ast.AsyncWith)):
                    lines.update(range(n.lineno, max(n.lineno + 1, n.body[0].lineno)))
        except Exception: pass
        _headers[filename] = lines
    return _headers[filename]
GRAN = {"instr": False}
_offs = {}
def in_with_header(code, where):
    h = _headers.get(code.co_filename)
    if h is None: h = with_headers(code.co_filename)
    if not h: return False
    if GRAN["instr"]:
        if code not in _offs:
            _offs[code] = {o: l for a, b, l in code.co_lines() for o in range(a, b)}
        where = _offs[code].get(where)
    return where in h

_codes = set()
def instrument(events=None):
    """switch on line events for every code object that belongs to a file under REPO"""
    global _codes
    if not MON.get_tool(TOOL):
        MON.use_tool_id(TOOL, "dst")
    MON.register_callback(TOOL, MON.events.LINE, SIM.on_event)
    MON.register_callback(TOOL, MON.events.INSTRUCTION, SIM.on_event)
    ev = MON.events.LINE if events is None else events
    prefix = os.path.realpath(REPO) + os.sep
    def rec(c):
        if c in _codes: return
        _codes.add(c)
        for k in c.co_consts:
            if isinstance(k, types.CodeType): rec(k)
    for f in gc.get_objects():
        if isinstance(f, types.FunctionType):
            fn = f.__code__.co_filename
            if fn.startswith(prefix) or os.path.realpath(fn).startswith(prefix):
                rec(f.__code__)
    for c in _codes:
        with_headers(c.co_filename)
        MON.set_local_events(TOOL, c, ev)

def set_granularity(instr):
    ev = MON.events.INSTRUCTION if instr else MON.events.LINE
    GRAN["instr"] = bool(instr)
    for c in _codes:
        MON.set_local_events(TOOL, c, ev)

# ----------------------------------------------------------------------------------------------------------------
class Solver:
    """stand-in around scipy.optimize.linprog: counts calls, may fail the n-th one as scipy can"""
    def __init__(self): import random; self.rng = random.Random(0); self.real = None; self.calls = 0; self.plan = {}; self.fired = 0
    def __call__(self, *a, **k):
        self.calls += 1
        kind = self.plan.get(self.calls)
        if kind:
            self.fired += 1
            if kind == "raise":
                raise ValueError("simulated solver failure")
            if kind == "memory":
                raise MemoryError("simulated")
            r = self.solve(*a, **k)
            r.status = 4; r.success = False; r.message = "simulated numerical difficulties"
            return r
        return self.solve(*a, **k)
    def solve(self, *a, **k):
        """the solver picks columns with numpy's process-wide generator: its draws come from the scenario, the generator is left alone"""
        import numpy
        st = numpy.random.get_state()
        numpy.random.seed(self.rng.getrandbits(32))
        try: return self.real(*a, **k)
        finally: numpy.random.set_state(st)
SOLVER = Solver()
def install_solver():
    import scipy.optimize as so
    if not isinstance(so.linprog, Solver):
        SOLVER.real = so.linprog
        so.linprog = SOLVER


def jdump(x): return json.dumps(x, sort_keys=True, default=repr)
