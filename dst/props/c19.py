"""C19: the effort is proportional to the program and does not grow with the history."""

import collections
import gc
import os
import sys
import types

from .. import effort, seams, simutil as su, workload
from ..core import Violation
from . import common

RUNS = {"quick": 1200, "thorough": 40000}
RULE = ("one case: either a generated program executed 3, 6 and 12 times in one file, or a program holding runs of 60, 120 and 240 lines without "
        "movement (comments, settings, repeated positions, temperatures): the lines executed and the elements touched when creating, refreshing, querying "
        "and reporting may grow in proportion only; or a history of 6-10 rounds of the same operations (queries, refreshes, reports, plots, failing exports, interrupted "
        "calls, other simulations) of which the last may neither take more steps nor keep more objects alive or values stored than the first ones. "
        "Non-trivial: all.")
REAL = common.REAL_ALL
STUBS = ["time (counted in executed lines of the package and in elements touched by library calls)", "raw file layer (failing exports)", "asynchronous interruption", "console (captured)"]
ASSUMPTIONS = common.ASSUME + [
    "effort is the number of executed lines of the package, and the number of elements of the containers, arrays and texts which its library calls, "
    "slices, membership tests, concatenations and displays touch (effort.py); what the libraries do on their own beyond that is not seen",
    "the moves which have to be planned together (up to the next stop) do not grow with the program"]

QUIET = ["", "; c", "M106 S5", "G92 E0", "G1 F1500", "M204 P700", "M104 S210", "G2 X3 Y3 I1 J1", "G28 X Y", "M117 G1 X1", "mixed"]
PLOTS = ["plotvel", "plot2d"]


def gen(rng, tier, i):
    kind = rng.choice(["repeat", "quiet", "rounds", "rounds"])
    plan = common.base_plan(rng, n=rng.randint(3, 10), layers=rng.random() < 0.5)
    plan["kind"] = kind
    plan["exports"] = rng.sample(su.EXPORTS, rng.randint(1, 3)) + (rng.sample(PLOTS, 1) if rng.random() < 0.15 else [])
    plan["opt"] = {"box": [rng.uniform(0, 60), rng.uniform(0, 60), 0, 20.3, 17.7, 9.1]}
    plan["f"] = round(rng.random(), 6)
    plan["distinct"] = rng.random() < 0.5
    if kind == "repeat" and len(plan["gcode"]) < 7:
        plan["reps"] = rng.choice([3, 5, 10])
    if kind == "quiet":
        plan["filler"] = [[rng.choice(QUIET), rng.randrange(50)] for _ in range(rng.choice([1, 1, 2]))]
    if kind == "rounds":
        plan["other"] = workload.program(rng, common.setup_of(plan), n=rng.randint(2, 8), feats=workload.features(rng))
        plan["rounds"] = rng.randint(6, 10)
        plan["ops"] = []
        for _ in range(rng.randint(1, 4)):
            plan["ops"].append(rng.choice([
                ["refresh"], ["refresh"], ["refresh", "states"], ["get", round(rng.random(), 6)], ["get", 1.0], ["bad"], ["export", rng.choice(su.EXPORTS)],
                ["failed export", rng.choice(su.EXPORTS), rng.choice(["open", "write", "close"])], ["int", "refresh", rng.randrange(600)],
                ["int", "get", rng.randrange(20)], ["int", "layers", rng.randrange(60)], ["new"], ["other"], ["load"], ["extent"],
                ["export", rng.choice(PLOTS) if rng.random() < 0.3 else "events"]]))
    return plan


def execute(plan, ctx):
    import matplotlib.pyplot as plt

    with seams.sim_console(seams.SimConsole(ctx)):
        su.api()
        ctx.nontrivial = True
        if plan["kind"] == "rounds":
            rounds(plan, ctx)
        else:
            sizes(plan, ctx)
        plt.close("all")


def cost(f, *a, **k):
    """Executed lines of the package and elements touched in library calls, and the result."""
    before = effort.N
    with seams.StepBudget(1 << 60) as s:
        r = f(*a, **k)
    return (s.n, effort.N - before), r


# -- size ------------------------------------------------------------------------------------------------------------

RESET = ["G90", "M82", "G21", "G92 E0"]


def program(plan, k):
    """The program in its k-th size, optionally without equal lines."""
    lines = repeated(plan, k)
    if plan.get("distinct"):
        lines = [x if ";" in x or "M11" in x else f"{x} ; {j}" for j, x in enumerate(lines)]
    return lines


def repeated(plan, k):
    if plan["kind"] == "repeat":
        # every repetition ends with a stop
        return (RESET + plan["gcode"] + ["G4 P10"]) * (plan.get("reps", 3) << k)
    out = list(plan["gcode"])
    for what, at in plan["filler"]:
        n = 60 << k
        lines = [QUIET[j % 10] for j in range(n)] if what == "mixed" else [what] * n
        at %= len(out) + 1
        out = out[:at] + lines + out[at:]
    return out


def sizes(plan, ctx):
    table = {}
    for k in range(3):
        lines = program(plan, k)

        def note(name, n):
            table.setdefault(name, []).append(n[0])
            table.setdefault(name + " (elements)", []).append(n[1])

        n, sim = cost(su.must, "simulation", su.build, ctx, {**plan, "gcode": lines}, f"job{k}")
        note("creation", n)
        te = su.t_end(sim)
        note("refresh", cost(su.must, "refresh", sim.refresh)[0])
        note("query at the end", cost(su.must, "get_values", sim.get_values, te)[0])
        note("query", cost(su.must, "get_values", sim.get_values, plan["f"] * te)[0])
        note("extent", cost(su.attempt, sim.extrusion_extent)[0])
        note("max speed", cost(su.attempt, sim.extrusion_max_vel)[0])
        for e in plan["exports"]:
            note(e, cost(su.export_result, sim, e, os.path.join(ctx.scratch, f"{e}{k}.out"), plan["opt"])[0])
        ctx.simtime += te
    for name, (a, b, c) in table.items():
        ctx.log(name, a, b, c)
        ctx.count("lines of the package", a + b + c)
        # doubling the difference of two sizes at most doubles the additional effort
        if c - b > 2 * 1.12 * max(b - a, 0) + 0.05 * a + 200:
            raise Violation("effort-grows", f"{name}: {a}, {b} and {c} steps for {len(program(plan, 0))}, {len(program(plan, 1))} and "
                            f"{len(program(plan, 2))} lines ({plan['kind']})")


# -- history ---------------------------------------------------------------------------------------------------------

def alive():
    """Objects of the package, by type, after collecting garbage."""
    gc.collect()
    out = {}
    for o in gc.get_objects():
        t = type(o)
        if t.__module__.startswith("pyGCodeDecode"):
            out[t.__name__] = out.get(t.__name__, 0) + 1
    return out


def stored(sim):
    """Number of values which the package and the simulation hold on to, of whatever type."""
    todo = [sim] + [m for n, m in sorted(sys.modules.items()) if n.split(".")[0] == "pyGCodeDecode"]
    seen, n = set(), 0
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        t = type(o)
        if isinstance(o, (list, tuple, set, frozenset, dict, collections.deque)):
            n += len(o)
        elif isinstance(o, (str, bytes)):
            n += len(o) // 64
            continue
        elif isinstance(o, (types.ModuleType, type, types.FunctionType)):
            if not (getattr(o, "__module__", None) or o.__name__ or "").startswith("pyGCodeDecode"):
                continue
        elif not (t.__module__.startswith("pyGCodeDecode") or t.__module__ == "functools" or isinstance(o, types.CellType)):
            continue
        todo.extend(gc.get_referents(o))
    return n


def rounds(plan, ctx):
    import matplotlib.pyplot as plt

    sim = su.must("simulation", su.build, ctx, plan, "job")
    if workload.has_motion(plan["other"], common.setup_of(plan)):
        donors = [su.must("simulation", su.build, ctx, {**plan, "gcode": plan["other"]}, "other").states, sim.states]
    else:
        donors = [sim.states, sim.states]
    g, p = su.scenario(ctx, "again", plan["gcode"], {"printer": plan["printer"]})
    fs = seams.SimFS(ctx, [ctx.scratch])

    def interrupted(f, k):
        with seams.Interrupter(ctx, k, "INT"):
            try:
                f()
            except KeyboardInterrupt:
                pass

    def one(op, r):
        if op[0] == "refresh":
            su.must("refresh", sim.refresh, *([donors[r % 2]] if len(op) > 1 else []))
        elif op[0] == "get":
            su.must("get_values", sim.get_values, su.t_end(sim) * op[1])
        elif op[0] == "bad":
            su.attempt(sim.get_values, su.t_end(sim) + 1)
            su.attempt(sim.get_values, 0.0, "furlong")
        elif op[0] == "export":
            su.export_result(sim, op[1], os.path.join(ctx.scratch, f"{op[1]}.out"), plan["opt"])
        elif op[0] == "failed export":
            fs.reset({"faults": [{"op": op[2], "n": 0, "kind": "EIO"}]})
            with seams.sim_files(fs):
                su.attempt(su.export, sim, op[1], os.path.join(ctx.scratch, "failed.out"), plan["opt"])
        elif op[0] == "int":
            f = {"refresh": sim.refresh, "get": lambda: sim.get_values(su.t_end(sim) / 2),
                 "layers": lambda: su.export(sim, "layers", os.path.join(ctx.scratch, "int.out"))}[op[1]]
            interrupted(f, op[2])
        elif op[0] == "new":
            su.must("simulation", su.build, ctx, plan, "job")
        elif op[0] == "other":
            q = su.must("simulation", su.make_sim, g, su.make_setup(p, "printer", plan.get("initial"), plan.get("cue")))
            q.get_values(su.t_end(q))
        elif op[0] == "load":
            s = su.must("setup", su.make_setup, p, "printer", {"X": 1, "Y": r % 2, "Z": 0, "E": 0})
            s.set_property({"p_vel": 10.0 + r % 2})
            s.get_dict()
        else:
            su.attempt(sim.extrusion_extent)

    spent, kept, figures = [], [], []
    for r in range(plan["rounds"]):
        spent.append([])
        for op in plan["ops"]:
            if op[0] in ("int", "failed export"):  # (the tracer belongs to the interruption)
                one(op, r)
                spent[-1].append(0)
            else:
                spent[-1].append(sum(cost(one, op, r)[0]))
        plt.close("all")
        kept.append({**alive(), "value": stored(sim)})
        ctx.log("round", r, spent[-1], sorted(kept[-1].items()))
    ctx.simtime += su.t_end(sim)
    ctx.count("lines of the package", sum(map(sum, spent)))
    # the first two rounds may fill caches (of a fixed size); round parity is the only thing that differs afterwards
    for k, op in enumerate(plan["ops"]):
        first, last = max(s[k] for s in spent[:3]), max(s[k] for s in spent[-2:])
        if last > 1.03 * first + 30:
            raise Violation("effort-grows", f"{op} took {[s[k] for s in spent]} steps in {plan['rounds']} rounds of {plan['ops']}")
    n = len(kept)
    for t in sorted({t for c in kept for t in c}):
        seq = [c.get(t, 0) for c in kept]
        if all(seq[j + 2] > seq[j] for j in range(1, n - 2)):
            raise Violation("objects-pile-up", f"{seq} objects of type {t} are kept after the rounds of {plan['ops']}")


def shrinks(plan):
    if plan["kind"] == "rounds":
        for c in common.shrink_list(plan["ops"], 1):
            yield {**plan, "ops": c}
        if plan["rounds"] > 6:
            yield {**plan, "rounds": 6}
        for c in workload.shrink_lines(plan["other"], common.setup_of(plan)):
            yield {**plan, "other": c}
    elif plan["kind"] == "quiet":
        for c in common.shrink_list(plan["filler"], 1):
            yield {**plan, "filler": c}
    if plan["distinct"]:
        yield {**plan, "distinct": False}
    for c in common.shrink_list(plan["exports"]):
        yield {**plan, "exports": c}
    yield from common.shrink_common(plan)
