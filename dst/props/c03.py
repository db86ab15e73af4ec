"""C03: a query is a function of time alone, for every history and interleaving of queries."""

import math

from .. import sched, seams, simutil as su, workload
from ..core import Violation, close
from . import common

RUNS = {"quick": 6000, "thorough": 120000}
RULE = ("one case: a generated program and printer, then a seeded history of queries (random times, segment boundaries and their "
        "floating point neighbours, the end, invalid times, queries interrupted inside, refreshes with the same or a variant's states, queries of "
        "another simulation, which comes and goes), by one caller or by 2-3 threads under the deterministic scheduler; every answer is compared "
        "with that of a fresh simulation asked nothing else. "
        "Non-trivial: at least two queries of which one is not after its predecessor, or a fault or preemption happened.")
REAL = common.REAL_ALL
STUBS = ["thread scheduler", "console (captured)", "file layer below io (fault free here)"]
ASSUMPTIONS = common.ASSUME

UNITS = ["SImm", "SI", "inch", None]


def gen(rng, tier, i):
    plan = common.base_plan(rng, n=common.length(rng, rng.randint(2, 14)))
    plan["unit"] = rng.choice(["SImm", "SImm", "SI", "inch"])
    nthreads = rng.choice([1, 1, 1, 2, 3])

    def ops(n):
        out = []
        pool = [common.time_spec(rng) for _ in range(rng.randint(1, 8))]
        for _ in range(n):
            spec = rng.choice(pool) if rng.random() < 0.5 else common.time_spec(rng)
            r = rng.random()
            if r < 0.72:
                out.append(["get", spec, rng.choice([None, None, "SImm", "SI", "inch"])])
            elif r < 0.82:
                out.append(["width", spec])
            elif r < 0.90:
                out.append(["bad", rng.choice([-1e-9, -5.0, "ulp", 1e-9, 3.0, 1e6])])
            elif r < 0.96:
                out.append(["int", spec, rng.randint(0, 12), rng.choice(["INT", "NOMEM"])])
            else:
                out.append(["refresh"])
            if plan["variant"] and rng.random() < 0.2:
                # the variant: this simulation changes to it (and back), another simulation of it is queried, or made anew
                r = rng.random()
                out.append(["refresh", rng.randrange(2)] if r < 0.3 else ["other", spec] if r < 0.8 else ["anew", rng.randrange(2)])
        return out

    variant = workload.variant(rng, plan["gcode"]) if rng.random() < 0.5 else None
    plan["variant"] = variant if variant and workload.has_motion(variant, common.setup_of(plan)) else None

    plan["clients"] = [ops(rng.randint(2, 25) if nthreads == 1 else rng.randint(1, 7)) for _ in range(nthreads)]
    if nthreads > 1:
        for c in plan["clients"]:
            c[:] = [o for o in c if o[0] not in ("refresh", "int", "anew")] or [["get", {"f": 0.5}, None]]
        plan["sched"] = sched.random_plan(rng, nthreads, 3000)
        plan["gran"] = rng.choice(["line", "line", "opcode"])
    plan["fresh"] = rng.randint(1, 3)
    return plan


def execute(plan, ctx):
    console = seams.SimConsole(ctx)
    with seams.sim_console(console):
        _execute(plan, ctx)


def _execute(plan, ctx):
    programs = [plan["gcode"]] + ([plan["variant"]] if plan["variant"] else [])

    def fresh(k=0):
        return su.must("simulation", su.build, ctx, {**plan, "gcode": programs[k]}, f"job{k}", plan["unit"])

    sim = fresh()
    # which program each of the simulations executes at the moment
    on = {"sim": 0, "other": len(programs) - 1}
    sims = {"sim": sim, "other": fresh(1) if len(programs) > 1 else None}
    paths = [su.flat(sim)] + ([su.flat(sims["other"])] if len(programs) > 1 else [])
    ctx.simtime += sum(p[-1][1] for p in paths)

    answers = []  # (client, op, t, unit, result, program)

    def client(c, ops):
        for op in ops:
            k = on["sim"]
            te = paths[k][-1][1]
            if op[0] in ("get", "width", "other"):
                who = "other" if op[0] == "other" else "sim"
                k = on[who]
                t = common.resolve(op[1], paths[k])
                unit = op[2] if op[0] == "get" else None
                r = su.attempt(sims[who].get_width, t, 0.25, 1.75) if op[0] == "width" else su.attempt(sims[who].get_values, t, unit)
                answers.append((c, "width" if op[0] == "width" else "get", t, unit, r, k))
                ctx.log("answer", c, op[0], repr(t), unit, r)
                ctx.count("probe:query at end", int(t == paths[k][-1][1]))
            elif op[0] == "bad":
                t = op[1]
                if t == "ulp":
                    t = math.nextafter(te, math.inf)
                elif t > 0:
                    t = te + t
                r = su.attempt(sim.get_values, t)
                ctx.fault("invalid time")
                if r[0] == "ok":
                    raise Violation("accepts-invalid-time", f"get_values({t!r}) of a print from 0 to {te!r} returned {r[1]}")
            elif op[0] == "int":
                t = common.resolve(op[1], paths[k])
                with seams.Interrupter(ctx, op[2], op[3]):
                    try:
                        sim.get_values(t)
                    except (KeyboardInterrupt, MemoryError):
                        pass
                    except Exception as e:
                        answers.append((c, "get", t, None, ["raise", type(e).__name__], k))
            elif op[0] == "anew":
                sims["other"] = None
                on["other"] = op[1]
                sims["other"] = fresh(op[1])
            elif len(op) > 1:
                su.must("refresh", sim.refresh, fresh(op[1]).states)
                on["sim"] = op[1]
            elif op[0] == "refresh":
                su.must("refresh", sim.refresh)

    if len(plan["clients"]) == 1:
        client(0, plan["clients"][0])
        seen = [a[2] for a in answers]
        if any(b <= a for a, b in zip(seen, seen[1:])):
            ctx.nontrivial = True
    else:
        s = sched.Scheduler(ctx, plan["sched"], plan.get("gran", "line"))
        for c, ops in enumerate(plan["clients"]):
            s.spawn(lambda c=c, ops=ops: client(c, ops))
        for t in s.run():
            if t.exc is not None:
                raise Violation("error:thread", f"{type(t.exc).__name__}: {t.exc}")

    # every answer that was given must be the right one
    memo = {}
    n_fresh = 0
    refs = [fresh(k) for k in range(len(programs))]
    for c, kind, t, unit, r, k in answers:
        segs, ref = paths[k], refs[k]
        te = segs[-1][1]
        if r[0] != "ok":
            raise Violation("query-failed", f"{kind}({t!r}) of a print from 0 to {te!r} raised {r[1]} (client {c})")
        key = (kind, t, unit, k)
        if key not in memo:
            if n_fresh < plan["fresh"] or t == te:
                q = fresh(k) if n_fresh < plan["fresh"] + 2 else ref
                n_fresh += 1
            else:
                q = ref
                if hasattr(q, "last_index"):
                    q.last_index = None  # (an optimisation hint of the current code; forgetting it is harmless)
            memo[key] = su.attempt(q.get_values, t, unit) if kind == "get" else su.attempt(q.get_width, t, 0.25, 1.75)
        d = close(r, memo[key])
        if d:
            raise Violation("history-dependent", f"{kind}({t!r}, {unit}) gave {r[1]}, but {memo[key][1]} in a fresh simulation: {d}")
        if kind == "get":
            f = {"SImm": 1.0, "SI": 1e-3, "inch": 1 / 25.4}[unit or plan["unit"]]
            v, p, seg = su.ref_at(segs, t)
            d = close([x / f for x in r[1][1]], p, abs_=1e-6)
            if d:
                raise Violation("not-on-trajectory", f"position at {t!r}: {d}")
            near = [v] + [s[5] for s in segs if s[1] == t] + [s[4] for s in segs if s[0] == t]
            if all(close([x / f for x in r[1][0]], w, abs_=1e-6) for w in near):
                raise Violation("wrong-velocity", f"velocity at {t!r} is {r[1][0]} ({unit}), trajectory says {v}")
        else:
            # the cross section of the filament passes through the line that is laid: flow / (height * speed), without motion there is none
            v, p, seg = su.ref_at(segs, t)
            near = [v] + [s[5] for s in segs if s[1] == t] + [s[4] for s in segs if s[0] == t]
            speeds = [math.sqrt(sum(x * x for x in w[:3])) for w in near]
            if all(s == 0 or s > 1e-6 for s in speeds):
                want = [w[3] * math.pi * 1.75**2 / 4 / (0.25 * s) if s > 0 else 0.0 for w, s in zip(near, speeds)]
                if all(close(r[1], x, 1e-6, 1e-6) for x in want):
                    raise Violation("wrong-width", f"width at {t!r} is {r[1]}, speed and flow of the trajectory give {want[0]}")
                ctx.count("probe:width compared")


def shrinks(plan):
    if plan["variant"]:
        yield {**plan, "variant": None, "clients": [[o for o in c if o[0] not in ("other", "anew") and not (o[0] == "refresh" and len(o) > 1)] or [["get", {"f": 0.5}, None]]
                                                    for c in plan["clients"]]}
    for i, ops in enumerate(plan["clients"]):
        for c in common.shrink_list(ops, 1):
            yield {**plan, "clients": plan["clients"][:i] + [c] + plan["clients"][i + 1:]}
        if len(plan["clients"]) > 1:
            yield {**plan, "clients": plan["clients"][:i] + plan["clients"][i + 1:]}
    if plan["variant"]:
        # remove the same lines from the program and its variant
        for k in range(len(plan["gcode"])):
            g, v = (x[:k] + x[k + 1:] for x in (plan["gcode"], plan["variant"]))
            if g and workload.has_motion(g, common.setup_of(plan)) and workload.has_motion(v, common.setup_of(plan)):
                yield {**plan, "gcode": g, "variant": v}
    else:
        yield from common.shrink_common(plan)
    if plan["fresh"] > 1:
        yield {**plan, "fresh": 1}
