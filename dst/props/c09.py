"""C09: a refresh equals a new simulation, and a failing one leaves everything as it was."""

from .. import seams, simutil as su, workload
from ..core import Violation, close
from . import common

RUNS = {"quick": 2500, "thorough": 80000}
RULE = ("one case: one to three program variants for one machine and a history of refreshes of one simulation (its own states edited in "
        "place, or states of another program) mixed with queries and exports; some refreshes are interrupted on entry of a seeded call, lose "
        "the console, or get states that cannot be planned. After each, queries and exports are compared with a new simulation (success) or "
        "with the results before (failure). Non-trivial: a refresh failed, or changed the trajectory.")
REAL = common.REAL_ALL
STUBS = ["asynchronous interruption", "console (failing)", "file layer below io (fault free here)"]
ASSUMPTIONS = common.ASSUME + ["interruptions strike at function entries of the package"]

def edit(states, others, replace):
    """Edit states in place to what those of a variant say."""
    for mine, other in zip(states, others):
        mine.state_p_settings.speed = other.state_p_settings.speed
        mine.state_p_settings.p_acc = other.state_p_settings.p_acc
        mine.pause = other.pause
        mine.comment = other.comment
        if replace:
            mine.state_position = other.state_position
        else:
            for axis in "xyze":
                setattr(mine.state_position, axis, getattr(other.state_position, axis))


def gen(rng, tier, i):
    plan = common.base_plan(rng, n=common.length(rng, rng.randint(3, 14), long=(60, 150, 300)))
    setup = common.setup_of(plan)
    plan["variants"] = [workload.variant(rng, plan["gcode"]) for _ in range(rng.randint(1, 2))]
    plan["others"] = [workload.program(rng, setup, n=rng.randint(2, 16), feats=workload.features(rng) + (["layers"] if plan["cue"] else []))
                      for _ in range(rng.randint(0, 1))]
    plan["times"] = [common.time_spec(rng) for _ in range(4)]
    plan["ops"] = []
    for _ in range(rng.randint(1, 5)):
        r = rng.random()
        if r < 0.2:
            plan["ops"].append({"op": "ask", "spec": common.time_spec(rng)})
        elif r < 0.3:
            plan["ops"].append({"op": "export", "what": rng.choice(su.EXPORTS)})
        else:
            op = {"op": "refresh", "to": rng.choice(["same", "variant", "variant", "other", "back"]), "k": rng.randrange(2)}
            if rng.random() < 0.5:
                op["fail"] = rng.choice([["call", "INT"], ["call", "NOMEM"], ["console", "EIO"], ["console", "ENCODE"], ["states", "p_acc"],
                                         ["states", "position"], ["states", "speed"]])
                op["at"] = round(rng.random(), 6)
            plan["ops"].append(op)
    return plan


def execute(plan, ctx):
    console = seams.SimConsole(ctx)
    with seams.sim_console(console):
        _execute(plan, ctx, console)


def whole(sim, plan, ctx, tag):
    """Everything that can be asked."""
    segs = su.flat(sim)
    b = su.bundle(sim, [common.resolve(t, segs) for t in plan["times"]] + [segs[-1][1]], ctx.scratch, tag)
    if b["summary"][1]:
        b["summary"][1] = "\n".join(ln for ln in b["summary"][1].splitlines() if not ln.startswith("filename"))
    return {"trajectory": segs, "states": su.flat_states(sim.states), **b}


def _execute(plan, ctx, console):
    def fresh(lines, name):
        return su.must("simulation", su.build, ctx, {**plan, "gcode": lines}, name)

    memo = {}

    def want(lines):
        key = "\n".join(lines)
        if key not in memo:
            memo[key] = pristine(lines, f"ref{len(memo)}")
        return memo[key]

    # references come from processes in which nothing was simulated before
    pristine = su.Pristine(lambda lines, name: su.plain(whole(fresh(lines, name), plan, ctx, name)))

    sim = fresh(plan["gcode"], "job")
    current = plan["gcode"]  # what the simulation's results have to be
    family = plan["gcode"]  # which program its states come from (variants share the structure)
    A = su.api()
    n_sim = 0
    for j, op in enumerate(plan["ops"]):
        if op["op"] == "ask":
            t = common.resolve(op["spec"], want(current)["trajectory"])
            su.must("get_values", sim.get_values, t)
            continue
        if op["op"] == "export":
            su.export_result(sim, op["what"], ctx.scratch + f"/x{j}.out")
            continue
        variants = [plan["gcode"]] + plan["variants"]
        edited = False
        if op["to"] == "same":
            target = current
        elif op["to"] == "variant" and family is plan["gcode"]:
            target, edited = plan["variants"][op["k"] % len(plan["variants"])], True
        elif op["to"] == "other" and plan["others"]:
            target = plan["others"][op["k"] % len(plan["others"])]
        else:
            target = plan["gcode"]
        n_sim += 1
        states = None
        fail = op.get("fail")
        if target is not current or (fail and fail[0] == "states"):
            if not workload.has_motion(target, common.setup_of(plan)):
                continue
            donor = fresh(target, f"donor{n_sim}")
            if edited and not (fail and fail[0] == "states"):
                # edit the simulation's own states to what the variant says
                edit(sim.states, donor.states, op["k"])
            else:
                states = donor.states
        args = [] if states is None else [states]
        before = whole(sim, plan, ctx, "before")
        if not fail:
            su.must("refresh", sim.refresh, *args)
            expect(sim, want(target), plan, ctx, f"op {j}: refreshed", "refresh-differs")
            ctx.nontrivial = True
            current = target
            family = plan["gcode"] if any(target is v for v in variants) else target
            continue
        # how many calls / console operations does it take
        kind, how = fail
        fired, err = None, None
        if kind == "states":
            moving = [k for k in range(1, len(states))
                      if su.vec(states[k].state_position) != su.vec(states[k - 1].state_position)]
            k = moving[int(op["at"] * len(moving))]
            if how == "p_acc":
                states[k].state_p_settings.p_acc = None
            elif how == "speed":
                states[k].state_p_settings.speed = "fast"
            else:
                states[k].state_position.x = "left"
            ctx.fault("unplannable state")
            err = outcome(sim.refresh, args)
            fired = True
        elif kind == "call":
            twin = fresh(target, f"twin{n_sim}")
            with seams.Interrupter(ctx, -1, how) as it:
                su.must("refresh", twin.refresh)
            with seams.Interrupter(ctx, int(op["at"] * it.n), how) as it:
                err = outcome(sim.refresh, args)
            fired = it.fired
        else:
            n0 = console.n
            su.must("refresh", fresh(target, f"twin{n_sim}").refresh)
            n = console.n - n0
            console.plan = {"faults": [{"n": console.n + int(op["at"] * n * 0.4), "kind": how}]}
            console.fired = []
            err = outcome(sim.refresh, args)
            console.plan = {}
            fired = bool(console.fired)
        ctx.log("refresh", j, fail, "fired", fired, err)
        if err is None:
            if fired and kind != "console":
                raise Violation("failure-swallowed", f"op {j}: refresh reported success although {fail} happened ({fired})")
            expect(sim, want(target), plan, ctx, f"op {j}: refreshed", "refresh-differs")
            current = target
            family = plan["gcode"] if any(target is v for v in variants) else target
            continue
        if not fired:
            raise Violation("error:refresh", f"op {j}: refresh failed without any fault: {err}")
        expect(sim, before, plan, ctx, f"op {j}: refresh failed ({fail}, {fired}: {err})", "failed-refresh-changed", 0.0)
        ctx.count("probe:failed refresh left everything")
        # in place edits stay with the states; put them back so that the model knows them
        if edited and states is None and kind != "states":
            again = outcome(sim.refresh, [])
            if again:
                raise Violation("not-usable-after-failure", f"op {j}: refresh after a failed refresh: {again}")
            expect(sim, want(target), plan, ctx, f"op {j}: refreshed after a failure", "refresh-differs")
            current = target
    # a last refresh always works
    su.must("refresh", sim.refresh)
    expect(sim, want(current), plan, ctx, "final refresh", "refresh-differs")
    ctx.simtime += su.t_end(sim)


def outcome(f, args):
    try:
        f(*args)
        return None
    except (Exception, KeyboardInterrupt) as e:
        return f"{type(e).__name__}: {str(e)[:100]}"


def expect(sim, want, plan, ctx, what, cls, tol=1e-9):
    got = whole(sim, plan, ctx, "got")
    for key in want:
        d = close(got[key], want[key], tol, tol)
        if d:
            raise Violation(cls, f"{what}: {key} {d}")


def shrinks(plan):
    for c in common.shrink_list(plan["ops"]):
        yield {**plan, "ops": c}
    for key in ("others",):
        for c in common.shrink_list(plan[key]):
            yield {**plan, key: c}
    for c in common.shrink_list(plan["variants"], 1):
        yield {**plan, "variants": c}
    for c in common.shrink_list(plan["times"]):
        yield {**plan, "times": c}
    for k, o in enumerate(plan["others"]):
        for c in workload.shrink_lines(o, common.setup_of(plan)):
            yield {**plan, "others": plan["others"][:k] + [c] + plan["others"][k + 1:]}
    # remove the same lines from the program and all its variants
    n = len(plan["gcode"])
    for k in range(n):
        g = plan["gcode"][:k] + plan["gcode"][k + 1:]
        if g and workload.has_motion(g, common.setup_of(plan)):
            yield {**plan, "gcode": g, "variants": [v[:k] + v[k + 1:] for v in plan["variants"]]}
