"""C04: the trajectory, sampled by a co-simulation with an irregular clock, is a consistent execution of the program."""

import copy
import math

from .. import refmodel, seams, simutil as su
from ..core import Violation
from . import common

RUNS = {"quick": 6000, "thorough": 100000}
RULE = ("one case: a generated program on one of five firmwares, then a history of refreshes with edited speeds, accelerations, dwells and "
        "positions; after each, a co-simulated process samples velocity and position with an irregular clock (bursts, stalls, jumps back, "
        "exact joints) and every sample and every planned move is compared with reference kinematics. Non-trivial: at least one joint at "
        "nonzero speed, a dwell, an extrusion-only move or a refresh took part.")
REAL = common.REAL_ALL
STUBS = ["clock of the co-simulated process", "console (captured)"]
ASSUMPTIONS = common.ASSUME + ["joint speeds themselves (the cornering formula) are taken from the trajectory; C20 decides them"]


def gen(rng, tier, i):
    plan = common.base_plan(rng, n=common.length(rng, rng.choice([None, None, None, rng.randint(25, 60)])))
    plan["ops"] = []
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        ops = []
        for _ in range(rng.randint(0, 3)):
            k = rng.randrange(1, 1000)
            what = rng.choice(["speed", "speed", "acc", "pause", "pos"])
            v = {"speed": rng.choice([5, 12.5, 40, 120]), "acc": rng.choice([60, 300, 2500]), "pause": rng.choice([0.0, 0.1, 1.5]),
                 "pos": [round(rng.uniform(-8, 8), 2), round(rng.uniform(-8, 8), 2), rng.choice([0, 0, 0.3]), rng.choice([0, 0, 0.4, -0.4])]}[what]
            ops.append([what, k, v])
        plan["ops"].append({"edits": ops, "how": rng.choice(["own", "states"])})
    plan["clock"] = {"seed": rng.getrandbits(32), "n": rng.choice([10, 30, 80]), "kind": rng.choice(["jitter", "burst", "stall", "back"])}
    return plan


def execute(plan, ctx):
    with seams.sim_console(seams.SimConsole(ctx)):
        _execute(plan, ctx)


def _execute(plan, ctx):
    ref = refmodel.run_program(plan["gcode"], common.setup_of(plan))
    sim = su.must("simulation", su.build, ctx, plan)
    analyse(sim, ref, plan, ctx, "after creation")
    pos_cls = type(sim.states[0].state_position)
    for j, op in enumerate(plan["ops"]):
        for what, k, v in op["edits"]:
            k = 1 + k % (len(ref) - 1)
            st, r = sim.states[k], ref[k]
            if what == "speed":
                st.state_p_settings.speed = r["speed"] = v
            elif what == "acc":
                st.state_p_settings.p_acc = r["acc"] = v
            elif what == "pause":
                if moved(ref[k - 1]["pos"], r["pos"]):
                    continue  # a dwell line does not move
                st.pause = r["pause"] = v
            elif what == "pos":
                if r["pause"] is not None or (k + 1 < len(ref) and ref[k + 1]["pause"] is not None):
                    continue
                p = [a + b for a, b in zip(su.vec(st.state_position), v)]
                st.state_position = pos_cls(*p)
                r["pos"] = p
        if not any(moved(a["pos"], b["pos"]) for a, b in zip(ref, ref[1:])):
            return
        su.must("refresh", sim.refresh, *([sim.states] if op["how"] == "states" else []))
        ctx.count("probe:refresh", 1)
        ctx.nontrivial = True
        analyse(sim, ref, plan, ctx, f"after refresh {j + 1}")


def moved(a, b, eps=0.0):
    return any(abs(x - y) > eps for x, y in zip(a, b))


def near(a, b, eps):
    return all(abs(x - y) <= eps for x, y in zip(a, b))


POS = 2e-6


def analyse(sim, ref, plan, ctx, when):
    blocks = []
    for b in sim.blocklist:
        segs = su.flat([b])
        if not segs:
            raise Violation("empty-block", f"{when}: a planner block without motion")
        blocks.append([b.state_B.line_number, segs])
    segs = [s for _, bs in blocks for s in bs]
    te = segs[-1][1]
    ctx.simtime += te
    ctx.log("trajectory", when, len(blocks), len(segs), repr(te))

    # every moving or dwelling line is executed once, in order
    by_line = {r["line"]: k for k, r in enumerate(ref)}
    have = [ln for ln, _ in blocks]
    if any(ln not in by_line or ln is None for ln in have) or have != sorted(set(have)):
        raise Violation("lines-out-of-order", f"{when}: executed lines {have}")
    for a, r in zip(ref, ref[1:]):
        if (moved(a["pos"], r["pos"], 1e-9) or r["pause"] is not None) and r["line"] not in have:
            raise Violation("line-not-executed", f"{when}: line {r['line']} moves or dwells, but is not part of the trajectory")

    # contiguous in time and position, from rest at the initial position at time zero
    if segs[0][0] != 0:
        raise Violation("begin", f"{when}: the trajectory begins at {segs[0][0]!r}")
    if not near(segs[0][2], ref[0]["pos"], POS):
        raise Violation("begin", f"{when}: the trajectory begins at {segs[0][2]}, not at {ref[0]['pos']}")
    if not near(segs[0][4], [0, 0, 0, 0], 1e-9):
        raise Violation("begin", f"{when}: the trajectory does not begin at rest but with {segs[0][4]}")
    for a, b in zip(segs, segs[1:]):
        if abs(a[1] - b[0]) > 1e-9 * max(1.0, te):
            raise Violation("time-gap", f"{when}: a segment ends at {a[1]!r}, the next begins at {b[0]!r}")
        if not near(a[3], b[2], POS):
            raise Violation("position-jump", f"{when}: at {a[1]!r} from {a[3]} to {b[2]}")
    for s in segs:
        if s[1] < s[0] - 1e-12 * max(1.0, te):
            raise Violation("time-runs-backwards", f"{when}: segment from {s[0]!r} to {s[1]!r}")

    # each move
    prev_out = 0.0
    info = []
    for ln, bs in blocks:
        k = by_line[ln]
        a, r = ref[k - 1], ref[k]
        t0, t1 = bs[0][0], bs[-1][1]
        T = t1 - t0
        where = f"{when}: line {ln} ({plan['gcode'][ln - 1]!r}) [{t0:.6g}, {t1:.6g}]"
        if r["pause"] is not None:
            if abs(T - r["pause"]) > 1e-9 * max(1.0, te):
                raise Violation("dwell-duration", f"{where}: dwell of {r['pause']} s takes {T!r} s")
            for s in bs:
                if s[4] != [0, 0, 0, 0] or s[5] != [0, 0, 0, 0] or not near(s[2], r["pos"], POS) or not near(s[3], r["pos"], POS):
                    raise Violation("dwell-moves", f"{where}: a dwell does not stand still: {s}")
            if prev_out > 1e-6:
                raise Violation("joint-speed", f"{where}: {prev_out} mm/s at the begin of a dwell")
            prev_out = 0.0
            info.append(None)
            ctx.count("probe:dwell")
            continue
        if not near(bs[-1][3], r["pos"], POS) or not near(bs[0][2], a["pos"], POS):
            raise Violation("wrong-move", f"{where}: from {bs[0][2]} to {bs[-1][3]} instead of {a['pos']} to {r['pos']}")
        d = [y - x for x, y in zip(a["pos"], r["pos"])]
        L = math.sqrt(sum(c * c for c in d[:3]))
        e_only = L == 0
        if e_only:
            L = abs(d[3])
            ctx.count("probe:extrusion-only move")
        if L < 1e-7:
            info.append(None)
            prev_out = xyz(bs[-1][5])
            continue
        u = [c / L for c in d]
        F, acc = r["speed"], r["acc"]
        sp = (lambda v: abs(v[3])) if e_only else xyz
        v_in, v_out = sp(bs[0][4]), sp(bs[-1][5])
        tol = 3e-5 * F + 1e-6
        for s in bs:
            for v in (s[4], s[5]):
                if sp(v) > F + tol:
                    raise Violation("feedrate-exceeded", f"{where}: {sp(v)} mm/s, commanded are {F}")
                if not near(v, [c * sp(v) for c in u], tol * max(1.0, max(map(abs, u)))):
                    raise Violation("off-direction", f"{where}: velocity {v} on a move along {d}")
        xin = xyz(bs[0][4])
        if abs(xin - prev_out) > 1e-6 + 1e-9 * F:
            raise Violation("joint-speed", f"{where}: the nozzle enters with {xin!r} mm/s but left the previous move with {prev_out!r}")
        if xin > 1e-6:
            ctx.count("probe:joint at speed")
            ctx.nontrivial = True
        prev_out = xyz(bs[-1][5])

        def speed_at(tau, F=F, v_in=v_in, v_out=v_out, acc=acc, T=T):
            return min(F, v_in + acc * tau, v_out + acc * (T - tau))

        for s in bs:
            for t, v in ((s[0], s[4]), (s[1], s[5])):
                want = speed_at(t - t0)
                if abs(sp(v) - want) > tol + 2e-9 * acc * max(1.0, te):
                    raise Violation("profile", f"{where}: {sp(v)} mm/s at {t!r}, feedrate {F} and acceleration {acc} between "
                                    f"{v_in} and {v_out} mm/s give {want}")
        if abs(v_out - v_in) > acc * T + tol + 2e-9 * acc * max(1.0, te):
            raise Violation("acceleration-exceeded", f"{where}: from {v_in} to {v_out} mm/s in {T} s with {acc} mm/s^2")
        # the profile covers exactly the length of the move
        s_total = length(F, acc, v_in, v_out, T)
        if abs(s_total - L) > 1e-4 * L + 1e-5:
            raise Violation("profile-length", f"{where}: the profile covers {s_total} mm of {L} mm")
        info.append([t0, t1, a["pos"], u, L, sp, speed_at, tol, where, e_only])
    sample(sim, segs, blocks, info, ref, plan, ctx, when)


def xyz(v):
    return math.sqrt(v[0] ** 2 + v[1] ** 2 + v[2] ** 2)


def length(F, a, v0, v1, T):
    """Integral of min(F, v0 + a t, v1 + a (T - t)) over [0, T]."""
    pts = sorted({0.0, T, *[min(max(x, 0.0), T) for x in ((F - v0) / a, T - (F - v1) / a, (v1 - v0 + a * T) / (2 * a))]})

    def v(t):
        return min(F, v0 + a * t, v1 + a * (T - t))

    return sum((v(x) + v(y)) / 2 * (y - x) for x, y in zip(pts, pts[1:]))


def clock_times(clock, segs):
    """Sampling times of the coupled process, as its clock dictates."""
    from ..core import rng_for

    rng = rng_for("clock", clock["seed"])
    te, n = segs[-1][1], clock["n"]
    t, out = 0.0, [0.0]
    step = te / n if n else te
    for _ in range(n):
        kind = clock["kind"]
        if kind == "jitter":
            t += step * rng.uniform(0.1, 1.9)
        elif kind == "burst":
            t += step * rng.choice([1e-6, 1e-3, 1e-3, 3.0])
        elif kind == "stall":
            t += rng.choice([0.0, 0.0, step * 2])
        else:
            t += step * rng.choice([1.5, 1.5, -0.7])
        if rng.random() < 0.3:
            s = rng.choice(segs)
            t = rng.choice([s[0], s[1], (s[0] + s[1]) / 2])
        if t > te:
            t = te if rng.random() < 0.5 else rng.uniform(0, te)
        out.append(max(t, 0.0))
    out.append(te)
    return out


def sample(sim, segs, blocks, info, ref, plan, ctx, when):
    import bisect

    te = segs[-1][1]
    spans = [(bs[0][0], bs[-1][1]) for _, bs in blocks]
    begins = [s[0] for s in segs]
    last = None
    for t in clock_times(plan["clock"], segs):
        v, p = su.must("get_values", sim.get_values, t)
        ctx.count("samples")
        cands = [j for j, (b, e) in enumerate(spans) if b - 1e-9 <= t <= e + 1e-9]
        ok, why = False, None
        for j in cands:
            if info[j] is None:
                ok = True
                continue
            t0, t1, p0, u, L, sp, speed_at, tol, where, e_only = info[j]
            tol2 = tol + 4e-9 * ref_acc(ref, blocks[j][0]) * max(1.0, te)
            s = sum(x * (c - q) for x, c, q in zip(u[:3], p, p0)) if not e_only else u[3] * (p[3] - p0[3])
            if not (-POS <= s <= L + POS):
                why = ["outside-of-move", f"{where}: at {t!r} the nozzle is {s} mm along a move of {L} mm"]
            elif not near(p, [q + s * c for q, c in zip(p0, u)], POS * max(1.0, max(map(abs, u)))):
                why = ["off-line", f"{where}: at {t!r} position {p} is not on the line to {ref_pos(ref, blocks[j][0])}"]
            elif abs(sp(v) - max(0.0, speed_at(t - t0))) > tol2:
                why = ["profile", f"{where}: sampled {sp(v)} mm/s at {t!r}, expected {speed_at(t - t0)}"]
            elif not near(v, [c * sp(v) for c in u], tol * max(1.0, max(map(abs, u)))):
                why = ["off-direction", f"{where}: sampled velocity {v} at {t!r}"]
            else:
                ok = True
        if not cands:
            raise Violation("time-gap", f"{when}: no move covers {t!r}")
        if not ok:
            raise Violation(*why)
        # velocity is the rate of change of position (exact for a linear velocity between two samples of one segment)
        i = bisect.bisect_right(begins, t) - 1
        if last is not None and last[0] == i and last[1] < t < segs[i][1]:
            _, tl, vl, pl = last
            want = [x + (y + z) / 2 * (t - tl) for x, y, z in zip(pl, vl, v)]
            if not near(p, want, POS + 1e-8 * max(map(abs, v), default=0)):
                raise Violation("rate-of-change", f"{when}: from {tl!r} to {t!r} the position changes to {p}, the velocity gives {want}")
        last = [i, t, v, p]


def ref_acc(ref, line):
    return next(r["acc"] for r in ref if r["line"] == line)


def ref_pos(ref, line):
    return next(r["pos"] for r in ref if r["line"] == line)


def shrinks(plan):
    for c in common.shrink_list(plan["ops"]):
        yield {**plan, "ops": c}
    for j, op in enumerate(plan["ops"]):
        for c in common.shrink_list(op["edits"]):
            yield {**plan, "ops": plan["ops"][:j] + [{**op, "edits": c}] + plan["ops"][j + 1:]}
    if plan["clock"]["n"] > 10:
        yield {**plan, "clock": {**plan["clock"], "n": 1}}
    yield from common.shrink_common(plan)
