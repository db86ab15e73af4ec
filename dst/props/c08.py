"""C08: queries and exports are read-only: the simulation, the process and the arguments stay as they were."""

import copy
import decimal
import gc
import locale
import logging
import os
import random
import signal
import sys
import threading
import warnings

from .. import seams, simutil as su
from ..core import Violation, close
from . import common
from .c16 import Plotter

RUNS = {"quick": 3000, "thorough": 100000}
RULE = ("one case: a seeded history of queries, reports, exports and plots on one simulation, started under a seeded process state, each "
        "possibly failing (open/write/close/mkdir error, full disk, dead console, interruption, unknown locale, no extrusion). The process "
        "state is compared around every operation, results with those of an untouched simulation in a pristine process. Non-trivial: an "
        "operation failed, or the locale differed from the one of the environment.")
REAL = common.REAL_ALL + ["matplotlib (Agg)", "C library locales", "pyvista/VTK mesh generation and native VTK writer"]
STUBS = ["pyvista.Plotter (rendering)", "raw file layer (open/write/close/mkdir faults)", "console (failing)", "asynchronous interruption"]
ASSUMPTIONS = common.ASSUME + ["interruptions strike in computations and system calls, not inside of clean-up handlers"]

CORE = ("planner_block.py", "utils.py", "state.py", "junction_handling.py")
LOCALES = [None, None, "C", "C.utf8", "POSIX"]


def gen(rng, tier, i):
    plan = common.base_plan(rng, n=common.length(rng, rng.randint(2, 12), long=(60, 150)))
    plan["locale"] = rng.choice(["C", "C", "C.utf8", "mixed"])
    plan["unit"] = rng.choice(["SImm", "SImm", "SI", "inch"])
    plan["times"] = [common.time_spec(rng) for _ in range(3)]
    plots = rng.random() < 0.12
    ops = []
    for _ in range(rng.randint(1, 8)):
        what = rng.choice(["values", "width", "extent", "max_vel"] + su.EXPORTS * 2 + (["plot2d", "plotvel", "plot3d"] * 2 if plots else []))
        op = {"what": what}
        if what in ("values", "width"):
            op["spec"] = common.time_spec(rng)
        if what == "layers":
            op["locale"] = rng.choice(LOCALES)
        if what == "events":
            op["unit"] = rng.choice([None, "SI", "inch"])
        if what in su.EXPORTS:
            op["file"] = rng.choice((["flat"] if what == "submodel" else ["flat", "flat", "sub/dir"]) + (["none"] if what in ("layers", "submodel") else []))
        if rng.random() < 0.45:
            kind = rng.choice(["fs", "fs", "console", "call", "locale" if what == "layers" else "fs"])
            if kind == "fs":
                op["fault"] = {"kind": "fs", "op": rng.choice(["open", "write", "close", "mkdir"]), "n": rng.choice([0, 0, 0, 1, 2]),
                               "how": rng.choice(["EIO", "ENOSPC", "EACCES", "INT", "NOMEM"])}
            elif kind == "console":
                op["fault"] = {"kind": "console", "n": rng.randrange(3), "how": rng.choice(["EPIPE", "ENCODE", "INT", "CLOSED"])}
            elif kind == "call":
                op["fault"] = {"kind": "call", "n": rng.choice([0, 1, 5, 20, 60, 150]) + rng.randrange(5), "how": rng.choice(["INT", "NOMEM"])}
            else:
                op["fault"] = {"kind": "locale"}
        ops.append(op)
        if what == "plot2d":
            op["colvar"], op["points"] = rng.choice(["Velocity", "Velocity", None]), rng.random() < 0.4
        if what == "plotvel":
            op["jv"], op["segments"] = rng.random() < 0.3, rng.random() < 0.3
        if what == "plot3d":
            op["only"], op["vtk"] = rng.random() < 0.5, rng.random() < 0.5
    plan["figure"] = plots and rng.random() < 0.5
    plan["ops"] = ops
    return plan


def figure(fig):
    """The caller's own open figure."""
    import matplotlib.pyplot as plt

    if fig is None:
        return None
    return [fig.number in plt.get_fignums(), len(fig.axes), [len(a.get_children()) for a in fig.axes], [a.get_title() for a in fig.axes]]


def snapshot(fig=None):
    import matplotlib
    import matplotlib.pyplot as plt
    import numpy as np
    import pyvista
    import yaml

    state = np.random.get_state()
    return {
        "locale": {c: locale.setlocale(getattr(locale, c)) for c in ("LC_CTYPE", "LC_COLLATE", "LC_TIME", "LC_MONETARY", "LC_NUMERIC")},
        "working directory": os.getcwd(),
        "environment": dict(os.environ),
        "random": random.getstate(),
        "numpy random": [state[0], state[1].tolist(), *state[2:]],
        "streams": [id(sys.stdout), id(sys.stderr), id(sys.stdin)],
        "numpy errors": np.geterr(),
        "numpy print options": {k: str(v) for k, v in np.get_printoptions().items()},
        "warning filters": [str(f) for f in warnings.filters],
        "umask": _umask(),
        "open figure": figure(fig),
        "figures": (plt.get_fignums(), plt._pylab_helpers.Gcf.get_active() and plt._pylab_helpers.Gcf.get_active().num),
        "matplotlib settings": {k: str(v) for k, v in matplotlib.rcParams.items()},
        "pyvista settings": str(sorted(pyvista.global_theme.to_dict().items(), key=str)),
        "limits": [sys.getrecursionlimit(), sys.getswitchinterval(), gc.isenabled(), gc.get_threshold(), sys.get_int_max_str_digits()],
        "module path": list(sys.path),
        "hooks": [sys.excepthook, sys.displayhook, threading.excepthook, sys.gettrace() is None, sys.getprofile() is None],
        "signal handlers": [str(signal.getsignal(k)) for k in (signal.SIGINT, signal.SIGTERM, signal.SIGPIPE, signal.SIGALRM)],
        "decimal context": str(decimal.getcontext()),
        "logging": [logging.root.level, len(logging.root.handlers), logging.root.manager.disable],
        "yaml": [len(x.__dict__.get("yaml_representers", {})) for x in (yaml.Dumper, yaml.SafeDumper)]
        + [len(x.yaml_constructors) for x in (yaml.Loader, yaml.SafeLoader)],
        "threads": threading.active_count(),
        "open files": open_files(),
    }


def open_files():
    out = []
    for fd in sorted(os.listdir("/proc/self/fd"), key=int):
        try:
            name = os.readlink(f"/proc/self/fd/{fd}")
        except FileNotFoundError:  # (the listing itself)
            continue
        if not name.endswith((".ttf", ".afm", ".otf", ".so")):  # (fonts stay open)
            out.append([fd, name])
    return out


def _umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def set_locale(name):
    locale.setlocale(locale.LC_ALL, "C" if name == "mixed" else name)
    if name == "mixed":
        locale.setlocale(locale.LC_CTYPE, "C.utf8")
        locale.setlocale(locale.LC_TIME, "POSIX")


def execute(plan, ctx):
    set_locale(plan["locale"])
    random.seed(7)
    console = seams.SimConsole(ctx)
    with seams.sim_console(console):
        _execute(plan, ctx, console)


def whole(sim, plan, ctx):
    segs = su.flat(sim)
    b = su.bundle(sim, [common.resolve(t, segs) for t in plan["times"]] + [segs[-1][1]], ctx.scratch, "all")
    return su.plain({"trajectory": segs, "states": su.flat_states(sim.states), **b})


def _execute(plan, ctx, console):
    sim = su.must("simulation", su.build, ctx, plan, "job", plan["unit"])
    setup_before = su.plain(sim.initial_machine_setup)
    want = su.baseline("baseline", lambda: whole(sim, plan, ctx))
    segs = want["trajectory"]
    fs = seams.SimFS(ctx, [ctx.scratch])
    results = {}
    fig = None
    if plan.get("figure"):
        import matplotlib.pyplot as plt

        fig = plt.figure()
        fig.add_subplot().plot([0, 1], [1, 0])
    for j, op in enumerate(plan["ops"]):
        args = {"box": [20, 20, 0.2, 21.3, 17.7, 1.1], "extra": {"note": [1, {"a": 2}]}, "locale": op.get("locale"), "unit": op.get("unit"),
                "steps": 20 if j % 2 else "constrained", "points": op.get("points", False),
                "colvar": op.get("colvar"), "jv": op.get("jv", False), "segments": op.get("segments", False)}
        if op["what"] == "plot3d" and want["extent"][0] == "raise":
            op = {**op, "only": False}  # (VTK complains about empty meshes)
        fault = op.get("fault")
        if fault and fault["kind"] == "locale":
            args["locale"] = "xx_YY.nowhere"
        args_before = copy.deepcopy(args)
        path = os.path.join(ctx.scratch, f"op{j}" if op.get("file", "flat") == "flat" else f"d{j}/{op['file']}/op{j}")
        if op.get("file") == "none":
            path = None
        fs.reset({"faults": [{"op": fault["op"], "n": fault["n"], "kind": fault["how"]}]} if fault and fault["kind"] == "fs" else {})
        # (the prefix locale of the process differs per run, a change shows)
        before = snapshot(fig)
        console.fired = []
        if fault and fault["kind"] == "console":
            console.plan = {"faults": [{"n": console.n + fault["n"], "kind": fault["how"]}]}
        it = seams.Interrupter(ctx, fault["n"] if fault and fault["kind"] == "call" else -1, fault["how"] if fault and fault["kind"] == "call" else "INT", CORE)
        with seams.sim_files(fs), it:
            try:
                r = ["ok", run(sim, op, segs, path, args)]
            except (Exception, KeyboardInterrupt) as e:
                r = ["raise", type(e).__name__]
        console.plan = {}
        fired = bool(it.fired or fs.fired or console.fired)
        after = snapshot(fig)
        ctx.log("op", j, op["what"], r[0], "fired", fired)
        for key in before:
            if before[key] != after[key]:
                raise Violation("process-state:" + key, f"op {j} {op['what']} ({r[0]}, {fault}): {key} was {str(before[key])[:150]}, "
                                f"is {str(after[key])[:150]}")
        d = close(su.plain(args), su.plain(args_before), 0, 0)
        if d:
            raise Violation("arguments-changed", f"op {j} {op['what']}: {d}")
        if fault and fault["kind"] == "locale":
            ctx.fault("unknown locale")
            if r[0] == "ok" and plan["cue"]:
                raise Violation("unknown-locale-accepted", f"op {j}")
            continue
        if r[0] == "raise" and not fired:
            # only what fails in the baseline as well may fail (nothing extruded)
            base = {"extent": want["extent"], "max_vel": want["max_vel"], "summary": want["summary"][0]}.get(op["what"])
            if base is None or base[0] == "ok":
                raise Violation("error:" + op["what"], f"op {j} failed without a fault: {r[1]}")
        if r[0] == "ok" and not fired:
            key = str([op["what"], op.get("unit"), op.get("spec")])
            if key in results:
                d = close(su.plain(r[1]), results[key], 0, 0)
                if d:
                    raise Violation("later-result-differs", f"op {j} {op['what']}: {d}")
            results[key] = su.plain(r[1])
    with seams.sim_console(seams.SimConsole(ctx)):
        got = whole(sim, plan, ctx)
    for key in want:
        d = close(got[key], want[key], 0, 0)
        if d:
            raise Violation("simulation-changed", f"after {[o['what'] for o in plan['ops']]}: {key} {d}")
    d = close(su.plain(sim.initial_machine_setup), setup_before, 0, 0)
    if d:
        raise Violation("simulation-changed", f"setup of the simulation: {d}")
    if plan["locale"] != "C.utf8":
        ctx.nontrivial = True
    ctx.simtime += segs[-1][1]


def run(sim, op, segs, path, args):
    what = op["what"]
    if what == "values":
        return sim.get_values(common.resolve(op["spec"], segs))
    if what == "width":
        return sim.get_width(common.resolve(op["spec"], segs), 0.2, 1.75)
    if what == "extent":
        return sim.extrusion_extent()
    if what == "max_vel":
        return sim.extrusion_max_vel()
    if what == "plot3d":
        import pyvista
        from vtkmodules.vtkCommonCore import vtkLogger

        su.api().gi.pv.Plotter = pyvista.Plotter = Plotter
        vtkLogger.SetStderrVerbosity(vtkLogger.VERBOSITY_OFF)
        mesh = sim.plot_3d(extrusion_only=op["only"], vtk_path=f"{path}.vtk" if op["vtk"] else None)
        shown = [mesh.points.tolist(), {k: v.tolist() for k, v in mesh.point_data.items()}]
        sim.plot_3d(mesh=mesh)
        if [mesh.points.tolist(), {k: v.tolist() for k, v in mesh.point_data.items()}] != shown:
            raise Violation("arguments-changed", "showing a mesh changed it")
        return None
    return su.export(sim, what, path, args)


def shrinks(plan):
    for c in common.shrink_list(plan["ops"]):
        yield {**plan, "ops": c}
    for k, o in enumerate(plan["ops"]):
        if "fault" in o:
            yield {**plan, "ops": plan["ops"][:k] + [{a: b for a, b in o.items() if a != "fault"}] + plan["ops"][k + 1:]}
    yield from common.shrink_common(plan, ["times"])
    if plan.get("figure"):
        yield {**plan, "figure": False}
    if plan["locale"] != "C":
        yield {**plan, "locale": "C"}
