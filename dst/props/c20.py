"""C20: look-ahead: every joint between moves is as fast as its corner and the way to the neighbouring stops permit."""

import math

from .. import refmodel, seams, simutil as su
from ..core import Violation
from . import common

RUNS = {"quick": 1500, "thorough": 50000}
RULE = ("one case: a generated program (random features, or a long chain of short moves) on one of five firmwares, then a history of refreshes "
        "with edited speeds, accelerations, jerks, dwells and positions, some interrupted; after each, the speeds at all joints are compared "
        "with those of a reference planner, which gets the limit of a single corner from the real code (the corner alone, with straight "
        "ways before and after) and does the look-ahead over all moves itself. Non-trivial: the look-ahead bounds a joint below its corner limit.")
REAL = common.REAL_ALL
STUBS = ["console (captured)", "asynchronous interruption"]
ASSUMPTIONS = common.ASSUME + ["for MKA the limit of a single corner is taken from the real code, within bounds; for the others the published rule decides"]


def gen(rng, tier, i):
    r = rng.random()
    if r < 0.6:
        plan = common.base_plan(rng, n=rng.choice([None, None, rng.randint(20, 40)]))
    else:
        from .. import workload
        from . import c13

        feats = [f for f in ("tiny", "collinear", "arc", "reverse", "grid", "quiet", "m204", "feed_only", "noop", "multi", "m205", "zhop") if rng.random() < 0.5]
        plan = common.base_plan(rng, n=rng.randint(15, 50), feats=feats)
        if rng.random() < 0.5:
            c = {"shape": rng.choice(c13.SHAPES), "n": rng.choice([20, 60, 60, 150]), "step": rng.choice([0.01, 0.05, 0.2, 1.0]), "seed": rng.getrandbits(32),
                 "f": rng.choice([600, 3000, 9000]), "extra": rng.choice(["", "acc", "feed", "dwell", "retract", "e", "quiet"]),
                 "every": rng.choice([3, 17, 50]), "end": rng.choice(["", "corner", "reverse", "dwell", "retract"])}
            plan["gcode"] = c13.chain(c)[:250]
            plan["_w"] = 1
    plan["ops"] = []
    if rng.random() < 0.03:
        # braking ways over hundreds of moves: fast, gentle and finely divided
        from . import c13

        pr = plan["printer"]
        c = {"shape": rng.choice(["line", "line", "ramp", "arc"]), "n": rng.choice([300, 800, 800, 2500]), "step": rng.choice([0.02, 0.05, 0.1, 0.3]),
             "seed": rng.getrandbits(32), "f": rng.choice([9000, 18000]), "extra": rng.choice(["", "", "e", "acc", "feed", "dwell"]),
             "every": rng.choice([170, 600]), "end": rng.choice(["", "corner", "reverse", "dwell", "retract"])}
        pr.update(p_acc=rng.choice([20, 60, 200]), firmware=rng.choice(["marlin_jd", "marlin_jerk", "klipper"]))
        if c["n"] > 1000:
            c.update(extra="", f=18000, step=max(c["step"], 0.05))
            pr["p_acc"] = 20
        if c["shape"] == "arc":
            pr["jerk"] = 1000
        plan.update(gcode=c13.chain(c), _w=2)
        plan["ops"] = [{"edits": [], "how": "own"}] * rng.randint(0, 1)
        return plan
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        ops = []
        for _ in range(rng.randint(0, 3)):
            what = rng.choice(["speed", "speed", "acc", "jerk", "pause", "pos"])
            v = {"speed": rng.choice([5, 12.5, 40, 120]), "acc": rng.choice([60, 300, 2500]), "jerk": rng.choice([1, 4, 12]), "pause": rng.choice([0.0, 0.1]),
                 "pos": [round(rng.uniform(-8, 8), 2), round(rng.uniform(-8, 8), 2), rng.choice([0, 0, 0.3]), rng.choice([0, 0, 0.4, -0.4])]}[what]
            ops.append([what, rng.randrange(1, 1000), v])
        op = {"edits": ops, "how": rng.choice(["own", "states"])}
        if rng.random() < 0.3:
            op["interrupt"] = [round(rng.random(), 6), rng.choice(["INT", "NOMEM"])]
        plan["ops"].append(op)
    return plan


def execute(plan, ctx):
    with seams.sim_console(seams.SimConsole(ctx)):
        _execute(plan, ctx)


def _execute(plan, ctx):
    ref = refmodel.run_program(plan["gcode"], common.setup_of(plan))
    sim = su.must("simulation", su.build, ctx, plan)
    memo = {}
    analyse(sim, ref, plan, ctx, "after creation", memo)
    pos_cls = type(sim.states[0].state_position)
    for j, op in enumerate(plan["ops"]):
        for what, k, v in op["edits"]:
            k = 1 + k % (len(ref) - 1)
            st, r = sim.states[k], ref[k]
            if what == "speed":
                st.state_p_settings.speed = r["speed"] = v
            elif what == "acc":
                st.state_p_settings.p_acc = r["acc"] = v
            elif what == "jerk":
                st.state_p_settings.jerk = r["jerk"] = v
            elif what == "pause":
                if ref[k - 1]["pos"] != r["pos"]:
                    continue
                st.pause = r["pause"] = v
            else:
                if r["pause"] is not None or (k + 1 < len(ref) and ref[k + 1]["pause"] is not None):
                    continue
                p = [a + b for a, b in zip(su.vec(st.state_position), v)]
                st.state_position = pos_cls(*p)
                r["pos"] = p
        if not any(a["pos"] != b["pos"] for a, b in zip(ref, ref[1:])):
            return
        args = [sim.states] if op["how"] == "states" else []
        if "interrupt" in op:
            at, kind = op["interrupt"]
            twin = su.must("simulation", su.build, ctx, plan, "twin")
            with seams.Interrupter(ctx, -1, kind) as it:
                su.must("refresh", twin.refresh)
            try:
                with seams.Interrupter(ctx, int(at * it.n), kind) as it:
                    sim.refresh(*args)
            except (KeyboardInterrupt, MemoryError):
                pass
        su.must("refresh", sim.refresh, *args)
        ctx.count("probe:refresh", 1)
        analyse(sim, ref, plan, ctx, f"after refresh {j + 1}", memo)


BRISK = 1000000  # mm/s^2


def fmt(v):
    s = f"{v:.9f}".rstrip("0").rstrip(".")
    return "0" if s in ("-0", "") else s


def corner(plan, ctx, memo, m, nxt):
    """Speed at which the real code takes the joint of two moves (or the end of the print) if nothing else limits it.

    m, nxt: moves as [a, b, speed, acc, jerk]; the way before is extended backwards, the way after forwards."""
    a, b, F, acc, jerk = m
    d = [y - x for x, y in zip(a, b)]
    L = xyz(d)
    key = repr((m, nxt))
    if key in memo:
        return memo[key]
    # the lead-in and the run-out are straight and brisk; the two moves themselves keep their lengths and settings
    a0 = [x - 2.0 ** max(0, math.ceil(math.log2(1.0 / L))) * c for x, c in zip(a, d)]
    lines = ["M82", f"M204 P{BRISK}", f"M205 X{fmt(jerk)}", f"G1 {xyze(a)} F{fmt(F * 60)}"]
    lines += [f"M204 P{fmt(acc)}", f"G1 {xyze(b)} F{fmt(F * 60)}"]
    n = len(lines)
    if nxt is not None:
        _, c, F2, acc2, jerk2 = nxt
        d2 = [y - x for x, y in zip(b, c)]
        far = [x + 2.0 ** max(0, math.ceil(math.log2(1.0 / xyz(d2)))) * e for x, e in zip(c, d2)]
        lines += [f"M204 P{fmt(acc2)}", f"M205 X{fmt(jerk2)}", f"G1 {xyze(c)} F{fmt(F2 * 60)}", f"M204 P{BRISK}", f"G1 {xyze(far)}"]
    p = {"printer": plan["printer"], "initial": dict(zip("XYZE", a0)), "gcode": lines}
    iso = su.must("simulation", su.build, ctx, p, "corner")
    for blk in iso.blocklist:
        if blk.state_B.line_number == n:
            v = xyz(su.vec(blk.get_segments()[-1].vel_end))
            memo[key] = v
            ctx.count("corners")
            return v
    raise Violation("line-not-executed", f"the move to {b} is not part of the trajectory of {lines}")


def rule(firmware, m, nxt):
    """Corner limit by the published rule of the firmware, (lower, upper) bounds; None: too close to a threshold to tell."""
    a, b, F, acc, J = m
    F2 = nxt[2] if nxt else 0.0
    top = min(F, F2) if nxt else F
    d0 = [y - x for x, y in zip(a, b)]
    L0 = xyz(d0)
    d0 = [c / L0 for c in d0]
    if nxt:
        d1 = [y - x for x, y in zip(nxt[0], nxt[1])]
        L1 = xyz(d1)
        d1 = [c / L1 for c in d1]
        cos = -sum(x * y for x, y in zip(d0[:3], d1[:3]))  # of the angle enclosed by the two moves
        s = math.sqrt(max(0.0, (1.0 - cos) / 2.0))
    if firmware not in ("marlin_jerk", "marlin_jd", "klipper", "MKA"):
        return 0.0, 0.0
    if firmware == "marlin_jerk":
        jump = math.sqrt(sum((x * F - (y * F2 if nxt else 0.0)) ** 2 for x, y in zip(d0[:3], d1[:3] if nxt else [0, 0, 0])))
        v = F / max(1.0, jump / (2.0 * J))
    elif not nxt:
        v = 0.0
    elif firmware == "marlin_jd":
        theta = 2.0 * math.degrees(math.asin(min(1.0, s)))
        if abs(theta - 162.0) < 1e-4 or abs(theta - 18.0) < 1e-4:
            return None
        v = F if theta > 162.0 else 0.0 if theta < 18.0 else math.sqrt(0.4 * J * J * s / (1.0 - s))
    elif firmware == "klipper":
        if abs(cos - 0.999999) < 1e-9:
            return None
        if cos > 0.999999:
            v = 0.0
        else:
            cos = max(cos, -0.999999)
            s = math.sqrt((1.0 - cos) / 2.0)
            v = math.sqrt(min(J * J * (math.sqrt(2.0) - 1.0) * s / (1.0 - s), 0.5 * L1 * s / math.sqrt((1.0 + cos) / 2.0) * acc))
    else:  # MKA: no axis jumps by more than the jerk; unhindered if none would
        step = max(abs(x - y) if x * y > 0 else max(abs(x), abs(y)) for x, y in zip(d0, d1))  # (a reversing axis stops in between)
        return (F if F == F2 and F * step < J * (1 - 1e-9) else 0.0), min(top, J / step if step > 0 else top)
    v = min(v, top)
    return v, v


def xyze(p):
    return " ".join(c + fmt(v) for c, v in zip("XYZE", p))


def xyz(v):
    return math.sqrt(v[0] ** 2 + v[1] ** 2 + v[2] ** 2)


def analyse(sim, ref, plan, ctx, when, memo):
    by_line = {}
    for blk in sim.blocklist:
        segs = blk.get_segments()
        by_line[blk.state_B.line_number] = [xyz(su.vec(segs[0].vel_begin)), xyz(su.vec(segs[-1].vel_end))]
    # moves of the nozzle; None: the nozzle stands (dwell, extrusion only)
    moves = []
    for a, r in zip(ref, ref[1:]):
        d = [y - x for x, y in zip(a["pos"], r["pos"])]
        if r["pause"] is not None:
            moves.append(None)
        elif xyz(d) > 0:
            if xyz(d) < 1e-7:
                return  # (rounding decides whether that is a move)
            moves.append([a["pos"], r["pos"], r["speed"], r["acc"], r["jerk"], r["line"]])
        elif d[3] != 0:
            if abs(d[3]) < 1e-7:
                return
            moves.append(None)
    lim = [0.0]  # limits at the joints: before the first move, between, after the last
    for m, nxt in zip(moves, moves[1:] + ["end"]):
        if m is None or nxt is None:
            lim.append(0.0)
        else:
            pair = m[:5], None if nxt == "end" else nxt[:5]
            lim.append(corner(plan, ctx, memo, *pair))
            bounds = rule(plan["printer"]["firmware"], *pair)
            if bounds and not (bounds[0] * (1 - 1e-6) - 1e-6 <= lim[-1] <= bounds[1] * (1 + 1e-6) + 1e-6):
                raise Violation("corner-rule", f"{when}: the corner of lines {m[5]} and {nxt if nxt == 'end' else nxt[5]} is taken with {lim[-1]!r} mm/s, "
                                f"the rule of {plan['printer']['firmware']} gives {bounds} mm/s for {pair}")
    v2 = [x * x for x in lim]
    reach = [2 * m[3] * xyz([y - x for x, y in zip(m[0], m[1])]) if m else 0.0 for m in moves]
    for j in range(len(moves)):
        v2[j + 1] = min(v2[j + 1], v2[j] + reach[j])
    for j in reversed(range(len(moves))):
        v2[j] = min(v2[j], v2[j + 1] + reach[j])
    if any(x < 0.98 * y * y for x, y in zip(v2, lim)):
        ctx.nontrivial = True
    ctx.count("joints", len(lim))
    ctx.log("joints", when, [round(x, 6) for x in v2])
    for j, m in enumerate(moves):
        if m is None:
            continue
        if m[5] not in by_line:
            raise Violation("line-not-executed", f"{when}: line {m[5]} moves, but is not part of the trajectory")
        for side, v, want, limit in (("begins", by_line[m[5]][0], v2[j], lim[j]), ("ends", by_line[m[5]][1], v2[j + 1], lim[j + 1])):
            tol = 1e-6 * m[2] ** 2 + 1e-7 * m[3] + 1e-8
            if abs(v * v - want) > tol:
                cls = "joint-too-fast" if v * v > want else "joint-too-slow"
                raise Violation(cls, f"{when}: the move of line {m[5]} {side} with {v!r} mm/s; corner limit {limit}, with the way to the stops "
                                f"before and after {math.sqrt(want)} mm/s (feedrate {m[2]}, acceleration {m[3]})")


def shrinks(plan):
    if "_w" in plan:
        yield {k: v for k, v in plan.items() if k != "_w"}
    for c in common.shrink_list(plan["ops"]):
        yield {**plan, "ops": c}
    for j, op in enumerate(plan["ops"]):
        if "interrupt" in op:
            yield {**plan, "ops": plan["ops"][:j] + [{k: v for k, v in op.items() if k != "interrupt"}] + plan["ops"][j + 1:]}
        for c in common.shrink_list(op["edits"]):
            yield {**plan, "ops": plan["ops"][:j] + [{**op, "edits": c}] + plan["ops"][j + 1:]}
    yield from common.shrink_common(plan)
