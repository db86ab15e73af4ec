"""C07: an export that reports success has written a complete, correct file."""

import os
import pathlib

from .. import seams, simutil as su, workload
from ..core import Violation, close
from . import common

RUNS = {"quick": 2500, "thorough": 100000}
RULE = ("one case: a simulation and one export (summary, layer metrics, event series, submodel times, 2D plot, velocity plot) to a new or "
        "existing file, possibly in missing directories, with short and interrupted writes and small buffers, and one fault: an error of "
        "open, write, close or mkdir at a seeded call (once or lasting), a full disk at a seeded size, an interruption at a seeded point "
        "of the package, a failing console, or a crash at a seeded system call after which a seeded prefix of the data survives and the "
        "process restarts; then the export is repeated. Non-trivial: a fault, short write or older file was involved.")
REAL = common.REAL_ALL + ["matplotlib, PIL (plots)"]
STUBS = ["raw file layer (all writes of the package and its libraries)", "mkdir", "asynchronous interruption", "console (captured)", "process crash (fork)"]
ASSUMPTIONS = common.ASSUME + ["after a crash any prefix of the bytes handed to the operating system may have survived"]

KINDS = {
    "open": ["EACCES", "EMFILE", "ENOSPC", "EROFS", "EISDIR", "NOMEM", "INT"],
    "write": ["ENOSPC", "EIO", "EDQUOT", "INT", "EPIPE", "ESTALE"],
    "close": ["EIO", "ENOSPC", "EDQUOT"],
    "mkdir": ["EACCES", "ENOSPC", "EROFS", "RACE", "RACE"],
}
MAKES_DIRS = ("summary", "layers", "events")


def gen(rng, tier, i):
    plot = rng.random() < 0.07
    plan = common.base_plan(rng, n=rng.randint(2, 6) if plot else common.length(rng, rng.choice([rng.randint(2, 10), rng.randint(10, 30)])), layers=rng.random() < 0.85)
    plan["unit"] = rng.choice(["SImm", "SImm", "SI", "inch"])
    plan["what"] = rng.choice(["plot2d", "plotvel"]) if plot else rng.choice(su.EXPORTS)
    if plan["what"] == "layers" and not plan["cue"]:
        plan["what"] = "events"
    plan["opt"] = {"unit": rng.choice([None, "SI"]), "delimiter": rng.choice([";", ",", "\t"]), "points": rng.random() < 0.3,
                   "colvar": rng.choice(["Velocity", "Velocity", None]), "steps": rng.choice([5, 12]),
                   "extra": rng.choice([{}, {"note": "x" * 300, "list": list(range(40))}])}
    plan["deep"] = rng.choice([0, 0, 1, 3]) if plan["what"] in MAKES_DIRS else 0
    plan["pre"] = rng.choice([None, None, "longer", "shorter"]) if not plan["deep"] else None
    plan["as"] = rng.choice(["str", "Path"])
    plan["fs"] = {"write_chunks": rng.choice([[], [], [1, 7], [5], [64], [64, 700, 3]])}
    if rng.random() < 0.6:
        plan["fs"]["buf"] = rng.choice([16, 100, 1000])
        plan["fs"]["text_chunk"] = rng.choice([1, 16, 200])
    plan["eintr"] = rng.random() < 0.15
    r = rng.random()
    if r < 0.14:
        plan["fault"] = None
    elif r < 0.6:
        op = rng.choice(["open", "write", "write", "write", "close"] + (["mkdir"] * 2 if plan["what"] in MAKES_DIRS else []))
        plan["fault"] = {"op": op, "at": round(rng.random(), 6), "kind": rng.choice(KINDS[op]), "sticky": rng.random() < 0.3}
    elif r < 0.7:
        plan["fault"] = {"op": "quota", "at": round(rng.random(), 6)}
    elif r < 0.8:
        plan["fault"] = {"op": "call", "at": round(rng.random(), 6), "kind": rng.choice(["INT", "NOMEM"])}
    elif r < 0.87:
        plan["fault"] = {"op": "console", "at": round(rng.random(), 6), "kind": rng.choice(["EPIPE", "EIO", "ENCODE", "CLOSED"])}
    else:
        plan["fault"] = {"op": "crash", "at": round(rng.random(), 6), "keep": round(rng.choice([rng.random(), 1.0, 0.0]), 4)}
    return plan


def execute(plan, ctx):
    console = seams.SimConsole(ctx)
    with seams.sim_console(console):
        _execute(plan, ctx, console)


def _execute(plan, ctx, console):
    what, fault = plan["what"], plan["fault"]
    d = os.path.join(ctx.scratch, "out", *["d"] * plan["deep"])
    target = os.path.join(d, "report.png" if what.startswith("plot") else "report.txt")
    path = target if plan["as"] == "str" else pathlib.Path(target)
    os.makedirs(os.path.join(ctx.scratch, "out"))
    g, p = su.scenario(ctx, "job", plan["gcode"], {"printer": plan["printer"]})

    def new():
        return su.must("simulation", su.make_sim, g, su.make_setup(p, "printer", plan.get("initial"), plan.get("cue")), plan["unit"])

    def content():
        try:
            return su.peek(target).hex()
        except OSError:
            return None

    def run(sim):
        return su.plain(su.export(sim, what, path, plan["opt"]))

    def alone():
        r = su.plain(su.attempt(run, new()))
        return [r, content()]

    def before():
        """What is there when the export starts."""
        if plan["deep"]:
            e = os.path.join(ctx.scratch, "out", "d")
            if os.path.isdir(e):
                for root, dirs, files in os.walk(e, topdown=False):
                    for f in files:
                        os.unlink(os.path.join(root, f))
                    os.rmdir(root)
        elif os.path.exists(target):
            os.unlink(target)
        if plan["pre"]:
            n = len(want[1] or "") // 2
            su.write(target, b"old content\n" * (n // 6 + 3) if plan["pre"] == "longer" else b"old\n")

    want = su.baseline("export", alone)
    if want[0][0] != "ok":
        # (a summary of a print without extrusion is refused)
        ctx.count("probe:refused export")
        if what != "summary":
            raise Violation("error:" + what, f"{what} failed without any fault: {want[0][1]}")
    elif want[1] is None:
        raise Violation("nothing-written", f"{what} returned normally, but there is no file")

    fs = seams.SimFS(ctx, [os.path.join(ctx.scratch, "out")], plan["fs"])

    def judge(outcome, fatal, tag):
        left = [os.path.basename(str(h.name)) for h in fs.open_handles()]
        if left:
            raise Violation("handle-left-open", f"{tag}: after {outcome[0]} ({fs.fired}): {left}")
        if outcome[0] == "ok":
            if want[0][0] != "ok":
                raise Violation("wrong-success", f"{tag}: succeeded, but raised {want[0][1]} elsewhere")
            c = content()
            if c != want[1]:
                raise Violation("incomplete-file", f"{tag}: {what} returned normally ({fs.fired}), but the file {differs(c, want[1])}")
            diff = close(outcome[1], want[0][1], 0, 0)
            if diff:
                raise Violation("wrong-return", f"{tag}: {what}: {diff}")
            if fatal:
                raise Violation("fault-swallowed", f"{tag}: {what} returned normally despite {fs.fired or fatal}")
        elif not fatal and not [f for f in fs.fired if f[2] not in ("RACE", "EINTR")] and want[0][0] == "ok":
            raise Violation("spurious-failure", f"{tag}: {what} raised {outcome[1]} although nothing failed")

    sim = new()
    ctx.simtime += su.t_end(sim)
    # no fault, but short writes, small buffers, old content
    before()
    with seams.sim_files(fs):
        n0 = console.n
        with seams.Interrupter(ctx, -1, "INT") as it:
            out = su.attempt(run, sim)
        lines = console.n - n0
    judge(out, None, "without fault")
    calls, counts, total, written = it.n, dict(fs.counts), fs.total, fs.written
    ctx.log("ops", counts, calls)
    if plan["pre"] or plan["fs"]["write_chunks"]:
        ctx.nontrivial = True
    if fault is None:
        return

    before()
    if fault["op"] == "crash":
        crash(plan, ctx, fs, total, run, new, target, content, want)
        return
    faults, k, quota, cons = [], -1, None, None
    if fault["op"] == "quota":
        quota = int(fault["at"] * written)
    elif fault["op"] == "call":
        k = int(fault["at"] * calls)
    elif fault["op"] == "console":
        console.plan = {"faults": [{"n": console.n + int(fault["at"] * lines), "kind": fault["kind"]}]}
    else:
        faults = [{"op": fault["op"], "n": int(fault["at"] * counts.get(fault["op"], 0)), "kind": fault["kind"], "sticky": fault["sticky"]}]
    if plan["eintr"]:
        faults.append({"op": "write", "n": int(fault["at"] * 2), "kind": "EINTR"})
    fs.reset({**plan["fs"], "faults": faults, **({"quota": quota} if quota is not None else {})})
    with seams.sim_files(fs):
        with seams.Interrupter(ctx, k, fault["kind"] if k >= 0 else "INT") as it:
            try:
                outcome = ["ok", run(sim)]
            except (Exception, KeyboardInterrupt) as e:
                outcome = ["raise", type(e).__name__]
    ctx.log("outcome", outcome[0], fs.fired, it.fired, console.fired)
    console.plan = {}
    # a close that failed, or an interruption, has to be reported in any case; other errors could have been overcome
    fatal = bool(it.fired) or any(o == "close" or kind in ("INT", "NOMEM") for o, _, kind in fs.fired)
    if outcome[0] == "raise" and console.fired:
        fatal = True
    judge(outcome, fatal, f"fault {fault}")
    # again, without fault
    fs.reset(plan["fs"])
    with seams.sim_files(fs):
        out = su.attempt(run, sim)
    judge(out, None, f"again after {fault}")


def crash(plan, ctx, fs, total, run, new, target, content, want):
    """The process dies at a system call; a prefix of what was written survives; restart and repeat."""
    at = int(plan["fault"]["at"] * total)

    def dies():
        fs.reset({**plan["fs"], "crash_at": at})
        sim = new()
        with seams.sim_files(fs):
            try:
                r = run(sim)
            except seams.SimCrash:
                return ["crashed", list(fs.fired)]
        return ["ok", r]

    r = su.isolated(dies)
    if "ok" not in r:
        if want[0][0] != "ok":
            return
        raise Violation("error:export", f"{plan['what']} before the crash: {r.get('type')} {r.get('text')}")
    ctx.log("crash", at, r["ok"])
    if r["ok"][0] == "crashed":
        ctx.fault("crash@" + r["ok"][1][-1][0])
        ctx.mark("crash", at)
        if os.path.exists(target):
            os.truncate(target, int(plan["fault"]["keep"] * os.path.getsize(target)))
            ctx.count("probe:torn file left by a crash", int(os.path.getsize(target) > 0))

    def restart():
        fs.reset(plan["fs"])
        with seams.sim_files(fs):
            out = su.plain(su.attempt(run, new()))
        return [out, content()]

    got = su.baseline("export after restart", restart)
    diff = close(got[0], want[0], 0, 0)
    if diff or got[1] != want[1]:
        raise Violation("retry-differs", f"after a crash at system call {at} and restart, {plan['what']} gives "
                        f"{diff or 'a file that ' + differs(got[1], want[1])}")


def differs(got, want):
    if got is None:
        return "does not exist"
    if want is None:
        return "exists"
    n = next((i for i in range(0, min(len(got), len(want)), 2) if got[i:i + 2] != want[i:i + 2]), min(len(got), len(want))) // 2
    return (f"has {len(got) // 2} instead of {len(want) // 2} bytes, and differs at byte {n}: {bytes.fromhex(got)[n:n + 40]!r} "
            f"instead of {bytes.fromhex(want)[n:n + 40]!r}")


def shrinks(plan):
    f = plan["fault"]
    if f:
        yield {**plan, "fault": None}
        if f.get("sticky"):
            yield {**plan, "fault": {**f, "sticky": False}}
        if f.get("at"):
            yield {**plan, "fault": {**f, "at": 0.0}}
    if plan["eintr"]:
        yield {**plan, "eintr": False}
    if plan["pre"]:
        yield {**plan, "pre": None}
    if plan["deep"]:
        yield {**plan, "deep": plan["deep"] - 1}
    if plan["fs"] != {"write_chunks": []}:
        yield {**plan, "fs": {"write_chunks": []}}
    yield from common.shrink_common(plan)
