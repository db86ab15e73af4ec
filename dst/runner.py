"""Batches of simulated runs: fork per run, aggregate, minimise, report."""

import importlib
import json
import os
import select
import shutil
import signal
import sys
import tempfile
import time as _time
import traceback

from . import core, seams
from .core import Ctx, HarnessError, Violation, rng_for

_now = _time.monotonic  # captured before the seams replace it
_sleep = _time.sleep

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN_WALL = 40.0  # seconds of real time before a run is examined for lack of progress
STEP_LIMIT = 6_000_000


def load(prop):
    return importlib.import_module(f"dst.props.{prop.lower()}")


def in_package(e):
    """Place in the package an exception came from; None if it was raised by (or for) the check itself."""
    if isinstance(e, HarnessError):
        return None
    codes = [f.f_code for f, _ in traceback.walk_tb(e.__traceback__)]
    own = os.path.join(VERIF, "dst") + os.sep
    if not codes or codes[-1].co_filename.startswith(own):
        return None
    for c in reversed(codes):
        if c.co_filename.startswith(core.PKG):
            return f"{os.path.basename(c.co_filename)} in {c.co_name}"
    return None


def _execute(mod, plan, scratch, steps=False):
    """One run in this process -> result dict."""
    ctx = Ctx(scratch)
    out = {"violation": None, "error": None}
    ctx.log("plan", core.canon(plan))
    seams.sim_id()
    try:
        if steps:
            with seams.StepBudget(STEP_LIMIT):
                mod.execute(plan, ctx)
        else:
            mod.execute(plan, ctx)
    except Violation as v:
        out["violation"] = [v.cls, v.message[:2000]]
        ctx.log("VIOLATION", v.cls, v.message)
    except seams.StepBudget.Exceeded:
        out["violation"] = ["no-progress", f"not finished after {STEP_LIMIT} lines of the package"]
        ctx.log("VIOLATION no-progress")
    except Exception as e:
        where = in_package(e)
        if where:  # a scenario which has to succeed ended in an error of the code under test
            out["violation"] = ["error:" + type(e).__name__, f"{where}: {type(e).__name__}: {e}"[:2000]]
            ctx.log("VIOLATION", *out["violation"])
        else:
            out["error"] = traceback.format_exc(limit=-12)
    except BaseException:
        out["error"] = traceback.format_exc()
    out.update(ctx.result())
    if out["violation"] or out["error"]:
        out["tail"] = ctx.tail
    return out


def clean(path):
    for name in os.listdir(path):
        p = os.path.join(path, name)
        if os.path.isdir(p) and not os.path.islink(p):
            for root, dirs, files in os.walk(p):
                for d in dirs:
                    try:
                        os.chmod(os.path.join(root, d), 0o755)
                    except OSError:
                        pass
            shutil.rmtree(p, ignore_errors=True)
        else:
            os.unlink(p)


def run_forked(mod, plan, scratch, wall=RUN_WALL, steps=False):
    """One run in a forked child -> result dict (hangs and crashes are results too)."""
    clean(scratch)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_IGN)
            os.chdir(scratch)
            res = json.dumps(_execute(mod, plan, scratch, steps)).encode()
            with os.fdopen(w, "wb") as f:
                f.write(res)
        except BaseException:
            code = 70
            try:
                sys.__stderr__.write(traceback.format_exc())
                sys.__stderr__.flush()
            except BaseException:
                pass
        finally:
            os._exit(code)
    os.close(w)
    data, end, hung = b"", _now() + wall, False
    while True:
        left = end - _now()
        if left <= 0:
            hung = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            continue
        piece = os.read(r, 1 << 16)
        if not piece:
            break
        data += piece
    os.close(r)
    if hung:
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    _, status = os.waitpid(pid, 0)
    if hung:
        if steps:
            return {"violation": None, "error": "run did not end, and not by executing the package", "hung": True}
        return run_forked(mod, plan, scratch, wall=280.0, steps=True)
    if os.WIFSIGNALED(status):
        return {"violation": ["process-crash", f"the process died of signal {os.WTERMSIG(status)}"], "error": None,
                "digest": "crash", "sched": "", "counters": {}, "simtime": 0, "nontrivial": True, "switches": None, "events": 0}
    if not data:
        return {"violation": None, "error": f"child ended with {status} without a result"}
    return json.loads(data)


def _worker(mod, prop, seed, tier, idx, shared, scratch, fd, deadline, keep):
    os.makedirs(scratch, exist_ok=True)
    f = os.fdopen(fd, "w")
    errors = 0
    for i in idx:
        if _now() > deadline:
            f.write(json.dumps({"i": -1, "stopped": True}) + "\n")
            break
        stop_at = int.from_bytes(os.pread(shared, 8, 0), "little")
        if i > stop_at:
            break
        try:
            plan = mod.gen(rng_for(seed, prop, i), tier, i)
            res = run_forked(mod, plan, scratch)
        except Exception:
            res = {"violation": None, "error": "generator: " + traceback.format_exc()}
            plan = None
        res["i"] = i
        if res.get("error"):  # the check itself failed: go on for a while, another run may still decide
            res["plan"] = plan
            errors += 1
            if errors >= 3 or res.get("hung"):
                f.write(json.dumps(res) + "\n")
                break
        elif res.get("violation"):
            res["plan"] = plan
            cur = int.from_bytes(os.pread(shared, 8, 0), "little")
            if i < cur:
                os.pwrite(shared, i.to_bytes(8, "little"), 0)
        elif i in keep:
            res["plan"] = plan
        if not (res.get("violation") or res.get("error")):
            res.pop("switches", None)
            res.pop("tail", None)
        f.write(json.dumps(res) + "\n")
        f.flush()
    f.close()
    clean(scratch)


def batch(prop, seed, tier, runs, workers, wall, base, keep=()):
    """Execute runs 0..runs-1; returns (results sorted by index, incomplete?)."""
    mod = load(prop)
    shared_path = os.path.join(base, "stop")
    shared = os.open(shared_path, os.O_RDWR | os.O_CREAT)
    os.pwrite(shared, (1 << 62).to_bytes(8, "little"), 0)
    deadline = _now() + wall
    kids, pipes = [], {}
    for wk in range(workers):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                for q in pipes:
                    os.close(q)
                _worker(mod, prop, seed, tier, range(wk, runs, workers), shared, os.path.join(base, f"w{wk}", "s"), w, deadline, set(keep))
            except BaseException:
                traceback.print_exc(file=sys.__stderr__)
                sys.__stderr__.flush()
                os._exit(71)
            os._exit(0)
        os.close(w)
        pipes[r] = b""
        kids.append(pid)
    results, incomplete = [], False
    open_fds = set(pipes)
    while open_fds:
        ready, _, _ = select.select(list(open_fds), [], [])
        for r in ready:
            piece = os.read(r, 1 << 16)
            if not piece:
                open_fds.discard(r)
                os.close(r)
            else:
                pipes[r] += piece
    for r, data in pipes.items():
        for line in data.decode().splitlines():
            d = json.loads(line)
            if d.get("stopped"):
                incomplete = True
            else:
                results.append(d)
    for pid in kids:
        _, st = os.waitpid(pid, 0)
        if st != 0:
            raise HarnessError(f"a worker ended with status {st}")
    os.close(shared)
    results.sort(key=lambda d: d["i"])
    return results, incomplete


def explicit(mod, plan, res):
    """Replace a random schedule by the explicit one that was taken."""
    if res.get("switches") and "sched" in plan and plan["sched"].get("mode") != "list":
        plan = dict(plan)
        plan["sched"] = {"mode": "list", "switches": res["switches"]}
    return plan


def _sched_shrinks(plan):
    sw = plan.get("sched", {}).get("switches") if isinstance(plan.get("sched"), dict) else None
    if not sw:
        return
    n = len(sw)
    size = max(1, n // 2)
    while size >= 1:
        for i in range(0, n, size):
            yield {**plan, "sched": {"mode": "list", "switches": sw[:i] + sw[i + size:]}}
        if size == 1:
            break
        size //= 2


def minimise(mod, plan, res, scratch, wall=100.0, log=lambda *a: None):
    """Greedy delta debugging while the same class of violation persists."""
    cls = res["violation"][0]
    end = _now() + wall
    tries = 0

    def fails(p):
        nonlocal tries
        tries += 1
        q = run_forked(mod, p, scratch)
        return q if (q.get("violation") and q["violation"][0] == cls) else None

    cand = explicit(mod, plan, res)
    if cand is not plan:
        q = fails(cand)
        if q:
            plan, res = cand, q
    progress = True
    while progress and _now() < end:
        progress = False
        for source in (_sched_shrinks, mod.shrinks):
            again = True
            while again and _now() < end:
                again = False
                for p in source(plan):
                    if _now() > end:
                        break
                    if len(core.canon(p)) >= len(core.canon(plan)) and p.get("_w", 0) >= plan.get("_w", 0):
                        continue
                    q = fails(p)
                    if q:
                        plan, res = p, q
                        progress = again = True
                        break
    return plan, res, tries
