"""Fork server: every session runs in a fresh child of this pristine interpreter."""
import os, sys, json, select, signal, time, resource, gc

WALL_KILL = float(os.environ.get("DST_WALL_KILL", "60"))    # safety net only; a killed session is never a verdict

def run_in_child(fn, arg, wall=None):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            try:
                out = fn(arg)
                data = json.dumps(out)
            except BaseException as e:
                import traceback
                data = json.dumps({"harness": "%s: %s" % (type(e).__name__, str(e)[:300]), "tb": traceback.format_exc()[-1500:]})
            b = data.encode()
            while b:
                n = os.write(w, b[:65536]); b = b[n:]
        finally:
            os._exit(0)
    os.close(w)
    chunks = []
    end = time.monotonic() + (wall or WALL_KILL)
    killed = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            os.kill(pid, signal.SIGKILL); killed = True
            break
        rd, _, _ = select.select([r], [], [], left)
        if rd:
            b = os.read(r, 1 << 18)
            if not b: break
            chunks.append(b)
    os.close(r)
    os.waitpid(pid, 0)
    if killed:
        return {"harness": "wall-timeout"}
    try:
        return json.loads(b"".join(chunks))
    except Exception:
        return {"harness": "child died"}
