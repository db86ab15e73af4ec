"""C05: simulations, queries and exports in parallel threads give the sequential results."""

import os
import pathlib

from .. import sched, seams, simutil as su, workload
from ..core import Violation, close
from . import common

RUNS = {"quick": 3000, "thorough": 60000}
RULE = ("one case: 2-4 threads under the deterministic scheduler. Each thread runs a seeded list of operations: load a presets file, create "
        "a simulation (own program, or the program and presets of another thread, or with one setup object shared by all), query, refresh, "
        "edit and export its own simulation, query and export one simulation shared by all, fail on missing input or "
        "invalid questions; in some runs one thread is interrupted for good. Every result of the others must equal that of the same thread running alone in a pristine process. "
        "Non-trivial: at least one preemption.")
REAL = common.REAL_ALL
STUBS = ["thread scheduler (real threads, released one at a time at lines, bytecodes or calls of the package)", "locks created by the package",
         "raw file layer", "console (captured)"]
ASSUMPTIONS = common.ASSUME + ["no plots and no locale change inside threads (both change process-wide state by their nature)",
                               "library code outside the package runs without preemption"]

UNITS = ["SImm", "SImm", "SI", "inch"]


def gen(rng, tier, i):
    nt = rng.choice([2, 2, 2, 3, 4])
    jobs = []
    for _ in range(rng.choice([1, 2, nt])):
        j = common.base_plan(rng, n=rng.randint(2, 9), layers=rng.random() < 0.6)
        if jobs and rng.random() < 0.6:
            # much the same program on the same machine
            lines = workload.variant(rng, jobs[0]["gcode"])
            if workload.has_motion(lines, common.setup_of(jobs[0])):
                j = {**jobs[0], "gcode": lines}
        jobs.append(j)
    shared = rng.random() < 0.6
    plan = {"jobs": jobs, "shared": rng.choice(["setup", "sim", "both"]) if shared else None, "unit": rng.choice(UNITS)}
    clients = []
    # in some runs every thread already has a simulation, and all do little but the same kind of thing
    plan["ready"] = rng.random() < 0.45
    theme = use(rng, "own")
    for _ in range(nt):
        ops = []
        own = False
        if plan["ready"]:
            for _ in range(rng.randint(1, 3)):
                o = dict(theme) if rng.random() < 0.6 else use(rng, "own") if rng.random() < 0.8 else {"op": "refresh", "job": None}
                o["of"] = "shared" if plan["shared"] in ("sim", "both") and rng.random() < 0.5 else "own"
                ops.append(o)
            clients.append(ops)
            continue
        for _ in range(rng.randint(1, 5)):
            r = rng.random()
            if plan["shared"] in ("sim", "both") and r < 0.45:
                ops.append(use(rng, "shared"))
            elif not own or r < 0.55:
                own = True
                ops.append({"op": "make", "job": rng.randrange(len(jobs)), "unit": rng.choice(UNITS),
                            "setup": "shared" if plan["shared"] in ("setup", "both") and rng.random() < 0.6 else "own"})
            elif r < 0.65:
                ops.append({"op": "refresh", "job": rng.choice([None, rng.randrange(len(jobs))])})
            elif r < 0.72:
                ops.append({"op": "load", "job": rng.randrange(len(jobs))})
            elif r < 0.78:
                ops.append({"op": "fail", "how": rng.choice(["missing", "no printer", "bad time", "no width"])})
            else:
                ops.append(use(rng, "own"))
        clients.append(ops)
    plan["clients"] = clients
    plan["gran"] = rng.choice(["line", "line", "line", "opcode", "call"])
    plan["sched"] = sched.random_plan(rng, nt, rng.choice([500, 4000, 20000]))
    if plan["ready"] and plan["sched"]["mode"] == "pct":
        plan["sched"]["points"] = sorted(rng.randrange(1, 400) for _ in range(4))
    if plan["sched"]["mode"] == "walk" and plan["gran"] != "call":
        plan["sched"]["p"] = rng.choice([0.3, 0.05, 0.01, 0.002])
    plan["kills"] = [{"step": rng.randrange(1, rng.choice([200, 4000])), "kind": "INT"}] if rng.random() < 0.2 else []
    if plan["gran"] == "opcode":
        plan["kills"] = []  # (raising out of an opcode trace crashes CPython 3.12)
    plan["fs"] = {"read_chunks": workload.chunks(rng), "write_chunks": workload.chunks(rng)} if rng.random() < 0.5 else {}
    return plan


def use(rng, whose):
    r = rng.random()
    if r < 0.5:
        return {"op": "get", "of": whose, "specs": [common.time_spec(rng) for _ in range(rng.randint(1, 4))],
                "unit": rng.choice([None, None, "SI", "inch"])}
    if r < 0.6:
        return {"op": "width", "of": whose, "spec": common.time_spec(rng)}
    if r < 0.7:
        return {"op": "ask", "of": whose, "what": rng.choice(["extent", "max_vel", "states", "blocks"])}
    return {"op": "export", "of": whose, "what": rng.choice(su.EXPORTS),
            "opt": {"unit": rng.choice([None, "SI", "inch"]), "delimiter": rng.choice([";", ","])}}


def prepare(plan, ctx):
    """Input files of all jobs and the shared objects."""
    paths = []
    for n, j in enumerate(plan["jobs"]):
        g, p = su.scenario(ctx, f"job{n}", j["gcode"], {"printer": j["printer"]})
        paths.append((str(g), str(p), j))
    shared = {}
    g, p, j = paths[0]
    if plan["shared"] in ("setup", "both"):
        shared["setup"] = su.must("setup", su.make_setup, p, "printer", j.get("initial"), j.get("cue"))
    if plan["shared"] in ("sim", "both"):
        shared["sim"] = su.must("simulation", su.make_sim, g, su.make_setup(p, "printer", j.get("initial"), j.get("cue")), plan["unit"])
    if plan["ready"]:
        for c in range(len(plan["clients"])):
            g, p, j = paths[c % len(paths)]
            shared[c] = su.must("simulation", su.make_sim, g, su.make_setup(p, "printer", j.get("initial"), j.get("cue")), plan["unit"])
    return paths, shared


def client(c, ops, plan, ctx, paths, shared):
    """Run one thread's operations; the list of their outcomes as plain data."""
    out = []
    own = [shared.get(c)]

    def one(k, op):
        if op["op"] == "make":
            g, p, j = paths[op["job"]]
            s = shared.get("setup") if op["setup"] == "shared" else None
            if s is None:
                s = su.make_setup(p, "printer", j.get("initial"), j.get("cue"))
            own[0] = None
            own[0] = su.make_sim(g, s, op["unit"])
            return [su.flat(own[0]), su.flat_states(own[0].states)]
        if op["op"] == "load":
            g, p, j = paths[op["job"]]
            s = su.make_setup(p, "printer", j.get("initial"), j.get("cue"))
            d = s.get_dict()
            d["nozzle"] = c  # (an own copy)
            return [s.get_dict(), s.get_printers() if hasattr(s, "get_printers") else None]
        if op["op"] == "refresh":
            if own[0] is None:
                return None
            if op["job"] is None:
                own[0].refresh()
            else:
                g, p, j = paths[op["job"]]
                s = su.make_setup(p, "printer", j.get("initial"), j.get("cue"))
                own[0].refresh(su.api().sg.generate_states(filepath=g, initial_machine_setup=s.get_dict()))
            return su.flat(own[0])
        if op["op"] == "fail":
            if op["how"] == "missing":
                return su.make_sim(os.path.join(ctx.scratch, f"missing{c}.gcode"), su.make_setup(paths[0][1], "printer")) and None
            if op["how"] == "no printer":
                return su.make_setup(paths[0][1], "nobody").get_dict()
            s = shared.get("sim") or own[0]
            if s is None:
                return None
            return s.get_values(-1.0) if op["how"] == "bad time" else s.get_values(su.t_end(s) + 1.0)
        s = shared.get("sim") if op["of"] == "shared" else own[0]
        if s is None:
            return None
        if op["op"] == "get":
            segs = su.flat(s)
            return [su.attempt(s.get_values, common.resolve(x, segs), op["unit"]) for x in op["specs"]]
        if op["op"] == "width":
            return float(s.get_width(common.resolve(op["spec"], su.flat(s)), 0.2, 1.75))
        if op["op"] == "ask":
            return {"extent": lambda: s.extrusion_extent().tolist(), "max_vel": lambda: float(s.extrusion_max_vel()),
                    "states": lambda: su.flat_states(s.states), "blocks": lambda: su.flat(s)}[op["what"]]()
        if op["op"] == "export":
            path = pathlib.Path(ctx.scratch) / f"out{c}_{k}.txt"
            r = su.attempt(su.export, s, op["what"], path, op["opt"])
            try:
                return [r, su.peek(path).decode()]
            except FileNotFoundError:
                return [r, None]
        raise AssertionError(op)

    for k, op in enumerate(ops):
        r = su.plain(su.attempt(one, k, op))
        out.append(r)
        ctx.log("op", c, k, op["op"], r[0])
    return out


def execute(plan, ctx):
    with seams.sim_console(seams.SimConsole(ctx)):
        _execute(plan, ctx)


def _execute(plan, ctx):
    want = []
    for c, ops in enumerate(plan["clients"]):
        def alone(c=c, ops=ops):
            paths, shared = prepare(plan, ctx)
            return client(c, ops, plan, ctx, paths, shared)

        want.append(su.baseline(f"thread {c} alone", alone))
    for f in os.listdir(ctx.scratch):
        if f.startswith("out"):
            os.unlink(os.path.join(ctx.scratch, f))

    paths, shared = prepare(plan, ctx)
    fs = seams.SimFS(ctx, [ctx.scratch], plan["fs"])
    with seams.sim_files(fs):
        s = sched.Scheduler(ctx, plan["sched"], plan["gran"], kills=plan["kills"])
        for c, ops in enumerate(plan["clients"]):
            s.spawn(lambda c=c, ops=ops: client(c, ops, plan, ctx, paths, shared))
        done = s.run()
    killed = [t.exc for t in done if isinstance(t.exc, KeyboardInterrupt)] if plan["kills"] else []
    if fs.open_handles() and not killed:
        raise Violation("handle-leak", f"still open: {fs.open_handles()}")
    for c, t in enumerate(done):
        if t.exc is not None and t.exc in killed:
            continue  # its results are lost, the other threads must not notice
        if t.exc is not None:
            raise Violation("error:thread", f"thread {c}: {type(t.exc).__name__}: {t.exc}")
        for k, (got, ref) in enumerate(zip(t.result, want[c])):
            ctx.count("probe:results compared")
            if got[0] != ref[0]:
                raise Violation("thread-failure", f"thread {c}, operation {k} ({plan['clients'][c][k]}): {brief(got)}, alone: {brief(ref)}")
            d = close(got, ref, 0, 0)
            if d:
                raise Violation("thread-dependent", f"thread {c}, operation {k} ({plan['clients'][c][k]['op']}) differs from running alone: {d}")
    if "sim" in shared:
        ctx.simtime += su.t_end(shared["sim"])


def brief(r):
    return r[1] if r[0] == "raise" else "succeeded"


def shrinks(plan):
    cl = plan["clients"]
    if len(cl) > 2:
        for i in range(len(cl)):
            yield {**plan, "clients": cl[:i] + cl[i + 1:]}
    for i in range(len(cl)):
        for c in common.shrink_list(cl[i], 0):
            yield {**plan, "clients": cl[:i] + [c] + cl[i + 1:]}
    if plan["kills"]:
        yield {**plan, "kills": []}
    if plan["fs"]:
        yield {**plan, "fs": {}}
    if len(plan["jobs"]) > 1 and not plan["ready"]:
        n = len(plan["jobs"]) - 1
        if not any(isinstance(o.get("job"), int) and o["job"] >= n for c in cl for o in c):
            yield {**plan, "jobs": plan["jobs"][:n]}
    for i, j in enumerate(plan["jobs"]):
        setup = common.setup_of(j)
        for g in workload.shrink_lines(j["gcode"], setup):
            yield {**plan, "jobs": plan["jobs"][:i] + [{**j, "gcode": g}] + plan["jobs"][i + 1:]}
        if j.get("initial"):
            yield {**plan, "jobs": plan["jobs"][:i] + [{**j, "initial": None}] + plan["jobs"][i + 1:]}
