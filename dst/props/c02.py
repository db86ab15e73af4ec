"""C02: faults while reading inputs are reported; nothing partial, nothing left open, retry gives the fault-free result."""

import os
import pathlib

from .. import seams, simutil as su, workload
from ..core import PKG, Violation, close
from . import common

RUNS = {"quick": 4000, "thorough": 150000}
RULE = ("one case: a program, a way to start (setup + simulation, machine name with the shipped presets, states only), the reads it needs "
        "counted in a fault-free run with the same short-read pattern, and one or two faults placed at a seeded position among them (or an "
        "interruption on entry of a seeded function call). Non-trivial: the fault was delivered.")
REAL = common.REAL_ALL
STUBS = ["raw file layer (open/read errors, short reads)", "asynchronous interruption", "console (captured)"]
ASSUMPTIONS = common.ASSUME + ["interruptions strike at function entries of the package and at system calls"]

REQUIRED = ["p_vel", "p_acc", "jerk", "vX", "vY", "vZ", "vE", "firmware"]
BAD = ["unknown printer", "unknown printer selected", "missing parameter", "misspelled parameter", "no machine", "contradiction",
       "unknown unit system", "unknown default machine", "no presets", "no gcode", "no printer selected", "presets cut short"]
KINDS = {"open": ["EMFILE", "EACCES", "ENOENT", "EIO", "INT", "NOMEM", "EPERM"], "read": ["EIO", "EIO", "INT", "NOMEM", "ESTALE", "EISDIR", "EAGAIN"]}


def gen(rng, tier, i):
    plan = common.base_plan(rng, n=common.length(rng, rng.randint(2, 15)))
    plan["via"] = rng.choice(["simulation"] * 4 + ["machine_name", "states", "setup"])
    plan["pad"] = rng.choice([0, 0, 3000, 9000, 20000])
    plan["fs"] = {"read_chunks": rng.choice([[], [5], [64], [64, 700], [4096], [13, 1, 200]])}
    if rng.random() < 0.4:
        plan["fs"]["buf"] = rng.choice([16, 100, 1000])
    if rng.random() < 0.7:
        op = rng.choice(["open", "read", "read", "read"])
        plan["fault"] = {"op": op, "at": round(rng.random(), 6), "kind": rng.choice(KINDS[op]), "sticky": rng.random() < 0.3}
    else:
        plan["fault"] = {"op": "call", "at": round(rng.random(), 6), "kind": rng.choice(["INT", "NOMEM"])}
    plan["eintr"] = rng.random() < 0.2
    plan["bad"] = [rng.choice(BAD), rng.choice(REQUIRED)] if rng.random() < 0.4 else None
    return plan


def execute(plan, ctx):
    with seams.sim_console(seams.SimConsole(ctx)):
        _execute(plan, ctx)


def _execute(plan, ctx):
    A = su.api()
    lines = plan["gcode"] + ([";" + "p" * plan["pad"], plan["gcode"][-1]] if plan["pad"] else [])
    g, p = su.scenario(ctx, "job", lines, {"printer": plan["printer"], "other": plan["printer"]})
    existing = su.must("simulation", su.build, ctx, plan, "old", sub="old")
    before = su.flat(existing)
    shared_setup = su.must("setup", su.make_setup, p, "printer", plan.get("initial"), plan.get("cue"))
    setup_before = su.plain(shared_setup.get_dict())

    def start():
        """The operation under test -> its result as data."""
        via = plan["via"]
        if via == "machine_name":
            sim = A.gi.simulation(gcode_path=g, machine_name="anisoprint_a4")
        elif via == "simulation":
            sim = su.make_sim(g, su.make_setup(p, "printer", plan.get("initial"), plan.get("cue")))
        elif via == "states":
            return [su.flat_states(A.sg.generate_states(filepath=g, initial_machine_setup=shared_setup.get_dict()))]
        elif via == "setup":
            return [su.plain(su.make_setup(p, "printer", plan.get("initial"), plan.get("cue")).get_dict())]
        return [su.flat_states(sim.states), su.flat(sim)]

    fs = seams.SimFS(ctx, [ctx.scratch, PKG + "data"], plan["fs"])
    fault = plan["fault"]
    with seams.sim_files(fs):
        with seams.Interrupter(ctx, -1, "INT") as it:
            want = su.must(plan["via"], start)
        calls, counts = it.n, dict(fs.counts)
        if plan["via"] == "machine_name":
            twin = A.gi.simulation(gcode_path=g, initial_machine_setup=A.gi.setup(PKG + "data/default_printer_presets.yaml", "anisoprint_a4"))
            d = close([su.flat_states(twin.states), su.flat(twin)], want, 0, 0)
            if d:
                raise Violation("argument-dependent", f"the named default machine differs from its shipped presets: {d}")
        if fs.open_handles():
            raise Violation("handle-left-open", f"after success: {[os.path.basename(h.name) for h in fs.open_handles()]}")
        # with the fault
        if fault["op"] == "call":
            faults, k = [], int(fault["at"] * calls)
        else:
            n = counts.get(fault["op"], 0)
            faults, k = [{"op": fault["op"], "n": int(fault["at"] * n), "kind": fault["kind"], "sticky": fault.get("sticky", False)}], -1
        if plan["eintr"]:
            faults.append({"op": "read", "n": 1 + int(fault["at"] * 3), "kind": "EINTR"})
        fs.reset({**plan["fs"], "faults": faults})
        outcome, left = None, None
        with seams.Interrupter(ctx, k, fault["kind"] if k >= 0 else "INT") as it:
            try:
                outcome = ["ok", start()]
            except (Exception, KeyboardInterrupt) as e:
                outcome = ["raise", type(e).__name__]
                left = [os.path.basename(h.name) for h in fs.open_handles()]  # while the exception is still being handled
        fired = bool(it.fired) or any(kind != "EINTR" for _, _, kind in fs.fired)
        ctx.log("outcome", outcome[0], "fired", fired, fs.fired, it.fired)
        ctx.count("probe:fault in the middle of a file", int(any(o == "read" and n > 0 for o, n, _ in fs.fired)))
        if outcome[0] == "ok":
            left = [os.path.basename(h.name) for h in fs.open_handles()]
            if fired:
                d = close(outcome[1], want)
                raise Violation("fault-swallowed", f"{fs.fired or it.fired} was not reported; result {'differs: ' + d if d else 'looks complete'}")
            d = close(outcome[1], want, 0, 0)
            if d:
                raise Violation("delivery-dependent", f"without a (fatal) fault the result differs: {d}")
        elif not fired:
            raise Violation("spurious-failure", f"raised {outcome[1]} although nothing failed")
        if left:
            raise Violation("handle-left-open", f"after {outcome[0]} ({fs.fired or it.fired}): {left}")
        # nothing else was harmed
        d = close(su.flat(existing), before, 0, 0)
        if d:
            raise Violation("bystander-changed", f"an existing simulation changed: {d}")
        d = close(su.plain(shared_setup.get_dict()), setup_before, 0, 0)
        if d:
            raise Violation("bystander-changed", f"an existing setup changed: {d}")
        # the fault is gone
        fs.reset(plan["fs"])
        d = close(su.must("retry", start), want, 0, 0)
        if d:
            raise Violation("retry-differs", f"after the failure a retry gives another result: {d}")
        if fs.open_handles():
            raise Violation("handle-left-open", "after retry")
        if plan.get("bad"):
            bad_input(plan, ctx, A, fs, g, p, shared_setup, want)
            d = close([su.flat(existing), su.plain(shared_setup.get_dict())], [before, setup_before], 0, 0)
            if d:
                raise Violation("bystander-changed", f"bad input ({plan['bad']}) changed what existed: {d}")


def bad_input(plan, ctx, A, fs, g, p, stp, want):
    """Inputs which can not be used: the call has to raise; its well-formed twin has to succeed."""
    what, key = plan["bad"]
    printer = dict(plan["printer"])
    odd = os.path.join(ctx.scratch, "odd.yaml")

    def preset(d):
        su.write(odd, workload.presets_yaml({"printer": d}))
        return su.make_setup(odd, "printer", plan.get("initial"), plan.get("cue"))

    twin = None
    if what == "unknown printer":
        f = lambda: A.gi.simulation(gcode_path=g, initial_machine_setup=A.gi.setup(presets_file=p, printer="Printer"))
    elif what == "unknown printer selected":
        f = lambda: stp.select_printer("print")
    elif what == "missing parameter":
        f = lambda: su.make_sim(g, preset({k: v for k, v in printer.items() if k != key}))
        twin = lambda: su.make_sim(g, preset(printer))
    elif what == "misspelled parameter":
        f = lambda: su.make_sim(g, preset({**printer, key + "_": 10}))
        twin = lambda: su.make_sim(g, preset({**printer, "nozzle_diam": 0.4}))
    elif what == "no machine":
        f = lambda: A.gi.simulation(gcode_path=g)
    elif what == "contradiction":
        f = lambda: A.gi.simulation(gcode_path=g, machine_name="other", initial_machine_setup=stp)
        twin = lambda: A.gi.simulation(gcode_path=g, machine_name="printer", initial_machine_setup=stp)
    elif what == "unknown unit system":
        f = lambda: su.make_sim(g, stp, unit="mm")
        twin = lambda: su.make_sim(g, stp, unit="inch")
    elif what == "unknown default machine":
        f = lambda: A.gi.simulation(gcode_path=g, machine_name="anisoprint")
    elif what == "no presets":
        f = lambda: su.make_setup(str(p) + ".yml", "printer")
    elif what == "no gcode":
        f = lambda: su.make_sim(str(g) + ".txt", stp)
    elif what == "no printer selected":
        f = lambda: A.gi.setup(presets_file=p).set_property({"jerk": 5})
    else:
        su.write(odd, "printer: {p_vel: 35, p_acc: [1\n")
        f = lambda: su.make_setup(odd, "printer")
    got = su.attempt(f)
    ctx.count("probe:bad input " + what)
    ctx.log("bad input", what, got[0])
    if got[0] == "ok":
        raise Violation("bad-input-accepted", f"{what} ({key}) was not reported")
    if fs.open_handles():
        raise Violation("handle-left-open", f"after {what}: {[os.path.basename(h.name) for h in fs.open_handles()]}")
    if twin:
        sim = su.must("input without the mistake", twin)
        if plan["via"] == "simulation":
            d = close([su.flat_states(sim.states), su.flat(sim)], want, 0, 0)
            if d:
                raise Violation("argument-dependent", f"the same simulation without the mistake ({what}) differs: {d}")


def shrinks(plan):
    if plan.get("bad"):
        yield {**plan, "bad": None}
        if plan["bad"][1] != "jerk":
            yield {**plan, "bad": [plan["bad"][0], "jerk"]}
    if plan["pad"]:
        yield {**plan, "pad": 0}
    if plan["eintr"]:
        yield {**plan, "eintr": False}
    if plan["fault"].get("sticky"):
        yield {**plan, "fault": {k: v for k, v in plan["fault"].items() if k != "sticky"}}
    if plan["fault"]["at"] != 0.0:
        yield {**plan, "fault": {**plan["fault"], "at": 0.0}}
    for key in list(plan["fs"]):
        yield {**plan, "fs": {k: v for k, v in plan["fs"].items() if k != key}}
    yield from common.shrink_common(plan)
