"""Deterministic scheduler: real threads, parked and released one at a time at points the simulator intercepts.

Yield points: every line (or every bytecode, or every function entry) the package executes, every simulated system
call, every operation on a lock the package creates. Which thread continues is decided by the plan alone:

  {"mode": "walk", "seed": s, "p": p}        switch to a random thread with probability p per yield point
  {"mode": "pct", "seed": s, "points": [..]} priorities, the running thread is demoted at the given steps
  {"mode": "hot", "seed": s, "frac": f, "p": p, "q": q}   as walk, with probability p in a seeded part of the functions, else q
  {"mode": "meet", "seed": s, "frac": f, "p": p, "burst": n}   threads wait in a seeded part of the functions until another thread gets
                                              there too; then they alternate with probability p for n yield points
  {"mode": "list", "switches": [[step, tid], ...]}   explicit (replay, minimisation)

The switches actually taken are recorded and form an explicit schedule equivalent to the run.
"""

import sys
import threading
import _thread

from . import seams
from .core import PKG, REPO, HarnessError, Violation, rng_for

_RealLock = _thread.allocate_lock
_real_threading_lock = threading.Lock
_real_threading_rlock = threading.RLock


class Killed(BaseException):
    """Ends parked threads of an abandoned run."""


class _T:
    def __init__(self, tid, fn):
        self.tid, self.fn = tid, fn
        self.gate = _RealLock()
        self.gate.acquire()
        self.done = False
        self.blocked_on = None
        self.result = None
        self.exc = None


class Scheduler:
    def __init__(self, ctx, plan, gran="line", limit=3_000_000, kills=()):
        self.ctx, self.plan, self.gran, self.limit = ctx, plan, gran, limit
        self.threads = []
        self.step = 0
        self.cur = None
        self.main_gate = _RealLock()
        self.main_gate.acquire()
        self.switches = []
        self.dead = None
        mode = plan["mode"]
        self.rng = rng_for("sched", plan.get("seed", 0)) if mode != "list" else None
        self.list = {int(s): t for s, t in plan.get("switches", [])}
        self.points = set(plan.get("points", []))
        self.prio = None
        self.where = None  # function of the package at the current yield point
        self.hotness = {}
        self.parked = {}  # thread -> function it waits in
        self.burst = 0
        self.kills = {int(k["step"]): k["kind"] for k in kills}  # interrupts delivered to whoever runs at that step

    def spawn(self, fn):
        t = _T(len(self.threads), fn)
        self.threads.append(t)
        return t

    # -- inside of managed threads ---------------------------------------------------------------
    def me(self):
        ident = _thread.get_ident()
        for t in self.threads:
            if getattr(t, "ident", None) == ident:
                return t
        return None

    def yield_point(self, what):
        t = self.me()
        if t is None:
            return
        if self.dead is not None:
            raise Killed()
        self.step += 1
        if self.step > self.limit:
            self._die(Violation("no-progress", f"not finished after {self.limit} scheduling steps"))
            raise Killed()
        nxt = self._choose(t)
        if nxt is not t:
            self._switch(t, nxt, what)
        if self.step in self.kills:
            kind = self.kills[self.step]
            self.ctx.fault(kind + "@thread")
            self.ctx.mark("kill", self.step, t.tid, kind)
            raise seams.make_fault(kind)

    def _runnable(self):
        return [x for x in self.threads if not x.done and x.blocked_on is None]

    def _choose(self, t):
        mode = self.plan["mode"]
        if mode == "list":
            want = self.list.get(self.step)
            if want is None or want >= len(self.threads):
                return t
            x = self.threads[want]
            return x if (not x.done and x.blocked_on is None) else t
        run = self._runnable()
        if mode == "walk":
            if self.rng.random() < self.plan["p"]:
                return self.rng.choice(run)
            return t
        if mode == "pct":
            if self.step in self.points:
                self.prio.remove(t.tid)
                self.prio.append(t.tid)
            for tid in self.prio:
                x = self.threads[tid]
                if not x.done and x.blocked_on is None:
                    return x
            return t
        if mode == "hot":
            p = self.plan["p"] if self._hot(self.where) else self.plan["q"]
            return self.rng.choice(run) if self.rng.random() < p else t
        if mode == "meet":
            return self._meet(t, run)
        raise HarnessError(mode)

    def _hot(self, name):
        h = self.hotness.get(name)
        if h is None:
            h = self.hotness[name] = rng_for("hot", self.plan.get("seed", 0), name).random() < self.plan["frac"]
        return h

    def _meet(self, t, run):
        if self.burst > 0:
            self.burst -= 1
            return self.rng.choice(run) if self.rng.random() < self.plan["p"] else t
        here = self.where
        if self._hot(here) and t.tid not in self.parked:
            there = [x for x, f in self.parked.items() if f == here]
            if there:
                for x in there:
                    del self.parked[x]
                self.burst = self.plan["burst"]
                return self.rng.choice(run)
            if self.rng.random() < 0.5:
                self.parked[t.tid] = here
        return self._unparked(t, run)

    def _unparked(self, t, run):
        free = [x for x in run if x.tid not in self.parked]
        if not free:
            x = self.rng.choice(run)
            self.parked.pop(x.tid, None)
            return x
        return t if t in free else self.rng.choice(free)

    def _switch(self, t, nxt, what):
        self.switches.append([self.step, nxt.tid])
        self.ctx.mark("switch", self.step, nxt.tid)
        self.ctx.log("switch", self.step, t.tid, "->", nxt.tid, what)
        self.ctx.count("preemptions")
        self.cur = nxt
        nxt.gate.release()
        t.gate.acquire()
        if self.dead is not None:
            raise Killed()

    def _die(self, violation):
        self.dead = violation
        for x in self.threads:
            if not x.done and x is not self.cur:
                x.gate.release()

    def _next_after(self, t):
        """The current thread cannot continue (finished or blocked)."""
        run = self._runnable()
        if not run:
            if all(x.done for x in self.threads):
                self.main_gate.release()
                return None
            self._die(Violation("deadlock", "all threads wait for each other: "
                                + ", ".join(f"{x.tid} on {x.blocked_on}" for x in self.threads if not x.done)))
            return None
        mode = self.plan["mode"]
        self.parked.pop(t.tid, None)
        if mode in ("walk", "hot"):
            nxt = self.rng.choice(run)
        elif mode == "meet":
            nxt = self._unparked(None, run)
        elif mode == "pct":
            nxt = min(run, key=lambda x: self.prio.index(x.tid))
        else:
            want = self.list.get(-self.step)  # forced switches are recorded with negative step
            nxt = next((x for x in run if x.tid == want), run[0])
        self.switches.append([-self.step, nxt.tid])
        self.ctx.mark("next", self.step, nxt.tid)
        self.cur = nxt
        nxt.gate.release()
        return nxt

    def block(self, lock):
        t = self.me()
        t.blocked_on = lock
        self.step += 1
        self.ctx.count("lock waits")
        self._next_after(t)
        t.gate.acquire()
        if self.dead is not None:
            raise Killed()

    def unblock(self, lock):
        for x in self.threads:
            if x.blocked_on is lock:
                x.blocked_on = None

    def _body(self, t):
        t.ident = _thread.get_ident()
        t.gate.acquire()
        try:
            if self.dead is None:
                sys.settrace(self._trace)
                try:
                    t.result = t.fn()
                finally:
                    sys.settrace(None)
        except Killed:
            pass
        except BaseException as e:
            t.exc = e
        t.done = True
        if self.dead is not None:
            if all(x.done for x in self.threads):
                self.main_gate.release()
            return
        self.step += 1
        self._next_after(t)
        if self.dead is not None and all(x.done for x in self.threads):
            self.main_gate.release()

    def _trace(self, frame, event, arg):
        if event == "call" and frame.f_code.co_filename.startswith(PKG):
            if self.gran == "call":
                self.where = frame.f_code.co_name
                self.yield_point("call")
                return None
            if self.gran == "opcode":
                frame.f_trace_opcodes = True
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == self.gran:
            self.where = frame.f_code.co_name
            self.yield_point(frame.f_lineno)
        return self._local

    # -- outside ------------------------------------------------------------------------------------
    def run(self):
        """Run all threads to the end; results in thread.result / thread.exc."""
        real = []
        if self.plan["mode"] == "pct":
            self.prio = list(range(len(self.threads)))
            self.rng.shuffle(self.prio)
        for t in self.threads:
            th = threading.Thread(target=self._body, args=(t,), daemon=True)
            th.start()
            while not hasattr(t, "ident"):
                th.join(0.0005)
            real.append(th)
        seams.SCHED = self
        try:
            if self.plan["mode"] == "list":
                first = self.threads[self.list.get(0, 0) % len(self.threads)]
            elif self.plan["mode"] == "pct":
                first = self.threads[self.prio[0]]
            else:
                first = self.rng.choice(self.threads)
            self.switches.append([0, first.tid])
            self.ctx.mark("first", first.tid)
            self.cur = first
            first.gate.release()
            self.main_gate.acquire()
        finally:
            seams.SCHED = None
        for th in real:
            th.join(20)
        self.ctx.switches = self.switches
        self.ctx.count("scheduling steps", self.step)
        if len([s for s in self.switches if s[0] > 0]) > 0:
            self.ctx.nontrivial = True
        if self.dead is not None:
            raise self.dead
        for t in self.threads:
            if isinstance(t.exc, (Violation, HarnessError)):
                raise t.exc
        return self.threads


class SimLock:
    """threading.Lock / RLock for the package: waiting is a scheduling decision."""

    def __init__(self, reentrant=False):
        self._re = reentrant
        self._owner = None
        self._n = 0

    def acquire(self, blocking=True, timeout=-1):
        s = seams.SCHED
        me = _thread.get_ident()
        if s is not None and s.me() is not None:
            s.yield_point("lock")
        while self._n and not (self._re and self._owner == me):
            if not blocking:
                return False
            if s is None or s.me() is None:
                raise Violation("deadlock", "a lock is taken again by its only user")
            if timeout is not None and timeout >= 0:
                return False  # simulated time passes at once
            s.block(self)
        self._n += 1
        self._owner = me
        return True

    def release(self):
        if not self._n:
            raise RuntimeError("release unlocked lock")
        if self._re and self._owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._n -= 1
        if self._n == 0:
            self._owner = None
            s = seams.SCHED
            if s is not None:
                s.unblock(self)

    def locked(self):
        return self._n > 0

    def _is_owned(self):
        return self._n > 0 and self._owner == _thread.get_ident()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


def _from_repo(depth=2):
    f = sys._getframe(depth)
    return f is not None and f.f_code.co_filename.startswith(REPO + "/")


def install():
    """Locks created by the package (also at import) are simulated ones; everybody else gets real ones."""

    def lock():
        return SimLock() if _from_repo() else _real_threading_lock()

    def rlock(*a, **k):
        return SimLock(True) if _from_repo() else _real_threading_rlock(*a, **k)

    threading.Lock = lock
    threading.RLock = rlock


def random_plan(rng, nthreads, length=4000):
    """A seeded scheduling policy."""
    r = rng.random()
    if r < 0.25:
        return {"mode": "walk", "seed": rng.getrandbits(48), "p": rng.choice([0.5, 0.1, 0.02, 0.004])}
    if r < 0.45:
        return {"mode": "hot", "seed": rng.getrandbits(48), "frac": rng.choice([0.1, 0.3]), "p": rng.choice([0.5, 0.2]), "q": rng.choice([0, 0.002])}
    if r < 0.75:
        return {"mode": "meet", "seed": rng.getrandbits(48), "frac": rng.choice([0.05, 0.15, 0.4]), "p": rng.choice([0.5, 0.2]),
                "burst": rng.choice([10, 40, 150])}
    k = rng.randint(1, 4)
    return {"mode": "pct", "seed": rng.getrandbits(48), "points": sorted(rng.randrange(1, length) for _ in range(k))}
