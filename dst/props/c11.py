"""C11: all reports describe the trajectory that queries return, at every moment of a history."""

import math
import os

from .. import refmodel, seams, simutil as su, workload
from ..core import Violation, close
from . import common, c09

RUNS = {"quick": 6000, "thorough": 100000}
RULE = ("one case: a simulation and a history of queries, edits, refreshes (own, edited and new states; some interrupted) and failing exports; "
        "at seeded moments all reports are computed and compared with reference reports of the trajectory queries return at that moment. "
        "Non-trivial: a refresh, an edit or a failure came before a report.")
REAL = common.REAL_ALL
STUBS = ["raw file layer (failing exports)", "asynchronous interruption", "console (captured)"]
ASSUMPTIONS = common.ASSUME + ["submodel boxes are crossed, not grazed; positions of states are edited only together with a refresh"]
SCALE = {"SImm": 1.0, "SI": 1e-3, "inch": 1 / 25.4}


def gen(rng, tier, i):
    plan = common.base_plan(rng, n=common.length(rng, rng.choice([rng.randint(2, 15), rng.randint(2, 15), rng.randint(15, 40)])), layers=rng.random() < 0.8)
    plan["unit"] = rng.choice(["SImm", "SImm", "SI", "inch"])
    setup = common.setup_of(plan)
    plan["variants"] = [workload.variant(rng, plan["gcode"])]
    plan["others"] = [workload.program(rng, setup, n=rng.randint(2, 16), feats=workload.features(rng) + (["layers"] if plan["cue"] else []))
                      for _ in range(rng.randint(0, 1))]
    ops = []
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        r = rng.random()
        if r < 0.15:
            ops.append({"op": "ask", "spec": common.time_spec(rng)})
        elif r < 0.3:
            ops.append({"op": "failed export", "what": rng.choice(su.EXPORTS), "io": rng.choice(["open", "write", "close"])})
        elif r < 0.4:
            ops.append({"op": "report"})
        elif r < 0.5:
            ops.append({"op": "edit"})
        else:
            ops += refresh(rng)
    plan["ops"] = ops + [{"op": "report"}]
    plan["boxes"] = [box(rng) for _ in range(rng.randint(1, 3))]
    ref = refmodel.run_program(plan["gcode"], setup)
    moves = [(a["pos"], b["pos"]) for a, b in zip(ref, ref[1:]) if dist(a["pos"], b["pos"]) > 1e-4]
    for _ in range(rng.randint(1, 3)):
        a, b = rng.choice(moves) if moves else ((0, 0, 0), (1, 1, 1))
        plan["boxes"].append(aimed_box(rng, a, b))
    plan["delimiter"] = rng.choice([";", ",", "\t"])
    plan["eunit"] = rng.choice([None, None, "SImm", "SI", "inch"])
    return plan


def refresh(rng):
    op = {"op": "refresh", "to": rng.choice(["variant", "variant", "other", "same", "back"])}
    if rng.random() < 0.25:
        op["int"] = rng.randrange(400)
    return [{"op": "report"}, op] if rng.random() < 0.35 else [op]


def box(rng):
    j = lambda v: round(v + rng.uniform(-0.4, 0.4), 5)  # noqa: E731
    if rng.random() < 0.25:
        # at a point of the program's usual area, large
        return [j(30), j(30), j(0), j(40), j(40), j(8)]
    return [j(rng.uniform(0, 60)), j(rng.uniform(0, 60)), j(rng.choice([0, 0.3, 1])), abs(j(rng.choice([3, 15, 30]))) + 0.1,
            abs(j(rng.choice([3, 15, 30]))) + 0.1, abs(j(rng.choice([1, 2, 9]))) + 0.1]


def aimed_box(rng, a, b):
    """A box with a face across the given move."""
    c, size = [], []
    w = rng.uniform(0.05, 0.95)
    axes = [i for i in range(3) if abs(a[i] - b[i]) > 3e-5]
    axis = rng.choice(axes) if axes else 0
    for i in range(3):
        at = a[i] + w * (b[i] - a[i])
        side = rng.choice([0.3, 3.1, 15.7, 90.0]) + rng.uniform(0, 0.2)
        size.append(side)
        if i == axis:
            c.append(at + rng.choice([-1, 1]) * side / 2)
        else:
            c.append(at + rng.uniform(-0.4, 0.4) * side)
    return c + size


def execute(plan, ctx):
    with seams.sim_console(seams.SimConsole(ctx)):
        _execute(plan, ctx)


def _execute(plan, ctx, report=None):
    report = report or all_reports
    setup = common.setup_of(plan)

    def fresh(lines, name):
        return su.must("simulation", su.build, ctx, {**plan, "gcode": lines}, name, plan["unit"])

    sim = fresh(plan["gcode"], "job")
    current = plan["gcode"]
    fs = seams.SimFS(ctx, [ctx.scratch])
    for j, op in enumerate(plan["ops"]):
        what = f"op {j}"
        if op["op"] == "ask":
            su.must("get_values", sim.get_values, common.resolve(op["spec"], su.flat(sim)))
        elif op["op"] == "failed export":
            fs.reset({"faults": [{"op": op["io"], "n": 0, "kind": "EIO"}]})
            with seams.sim_files(fs):
                su.attempt(su.export, sim, op["what"], os.path.join(ctx.scratch, f"failed{j}.out"))
        elif op["op"] == "edit":
            # not yet refreshed: the reports still describe the trajectory as it is
            for st in sim.states[1:]:
                st.state_p_settings.speed = st.state_p_settings.speed * 0.6
                if st.pause:
                    st.pause = st.pause * 3
            ctx.nontrivial = True
        elif op["op"] == "refresh":
            states = None
            target = current
            if op["to"] == "variant" and workload.has_motion(plan["variants"][0], setup):
                target = plan["variants"][0]
                donor = fresh(target, f"donor{j}").states
                if "int" in op or current is not plan["gcode"]:
                    states = donor
                else:
                    c09.edit(sim.states, donor, j % 2)
            elif op["to"] == "other" and plan["others"]:
                target = plan["others"][0]
                states = fresh(target, f"donor{j}").states
            elif op["to"] == "back":
                target = plan["gcode"]
                states = fresh(target, f"donor{j}").states
            args = [] if states is None else [states]
            ctx.nontrivial = True
            if "int" in op:
                with seams.Interrupter(ctx, op["int"], "INT") as it:
                    try:
                        sim.refresh(*args)
                        current = target
                    except KeyboardInterrupt:
                        pass
            else:
                su.must("refresh", sim.refresh, *args)
                current = target
        else:
            ref = refmodel.run_program(current, setup)
            with su.readable(what):
                report(sim, ref, plan, ctx, what)
    ctx.simtime += su.t_end(sim)


def dist(a, b):
    return math.sqrt(sum((x - y) ** 2 for x, y in zip(a[:3], b[:3])))


def all_reports(sim, ref, plan, ctx, what):
    blocks = [[b.state_B.line_number, su.flat([b])] for b in sim.blocklist]
    segs = [s for _, bs in blocks for s in bs]
    by_line = {r["line"]: k for k, r in enumerate(ref)}
    te = segs[-1][1]
    k = SCALE[plan["unit"]]
    moves = []  # (t0, t1, from, to, line, extruding, layer, segments)
    doubtful = False
    for ln, bs in blocks:
        a, r = ref[by_line[ln] - 1], ref[by_line[ln]]
        de = r["pos"][3] - a["pos"][3]
        doubtful |= 0 < abs(de) < 1e-8
        moves.append([bs[0][0], bs[-1][1], a["pos"], r["pos"], ln, de > 0, r["layer"], bs])
    # extent and speed while extruding
    ext = [m for m in moves if m[5]]
    A = su.api()
    out = os.path.join(ctx.scratch, "report.out")

    def clean():
        if os.path.exists(out):
            os.unlink(out)

    clean()
    r = su.attempt(sim.save_summary, filepath=out)
    e = su.attempt(sim.extrusion_extent)
    v = su.attempt(sim.extrusion_max_vel)
    if doubtful:
        pass
    elif not ext:
        for name, x in (("save_summary", r), ("extrusion_extent", e), ("extrusion_max_vel", v)):
            if x[0] == "ok":
                raise Violation("wrong-summary", f"{what}: {name} gave {su.plain(x[1])} for a print without extrusion")
    else:
        pts = [m[2] for m in ext] + [m[3] for m in ext]
        lo = [k * min(p[i] for p in pts) for i in range(3)]
        hi = [k * max(p[i] for p in pts) for i in range(3)]
        vmax = k * max(max(math.sqrt(sum(c * c for c in w[:3])) for s in m[7] for w in (s[4], s[5])) for m in ext)
        for name, x in (("save_summary", r), ("extrusion_extent", e), ("extrusion_max_vel", v)):
            if x[0] != "ok":
                raise Violation("error:" + name, f"{what}: {x[1]}")
        doc = su.read_yaml(out)
        want = {"t_end": te, "x_min": lo[0], "y_min": lo[1], "z_min": lo[2], "x_max": hi[0], "y_max": hi[1], "z_max": hi[2],
                "max_extrusion_travel_velocity": vmax}
        common.expect_equal("wrong-summary", f"{what}: summary", {x: doc.get(x) for x in want}, want, 1e-6, 1e-6)
        common.expect_equal("wrong-extent", f"{what}: extrusion extent", e[1].tolist(), [lo, hi], 1e-6, 1e-6)
        common.expect_equal("wrong-max-speed", f"{what}: extrusion_max_vel", float(v[1]), vmax, 1e-6, 1e-6)
        ctx.count("probe:summary compared")

    # layers
    if plan["cue"]:
        clean()
        delim = plan["delimiter"]
        layers, durations, travels, speeds = su.must("save_layer_metrics", A.tools.save_layer_metrics, simulation=sim, filepath=out, delimiter=delim)
        want_t, want_d = {}, {}
        for m in moves:
            want_t[m[6]] = want_t.get(m[6], 0.0) + m[1] - m[0]
            want_d[m[6]] = want_d.get(m[6], 0.0) + dist(m[2], m[3])
        if not len(layers) == len(durations) == len(travels) == len(speeds):
            raise Violation("wrong-layers", f"{what}: columns of different length")
        if any(b <= a for a, b in zip(layers, layers[1:])):
            raise Violation("wrong-layers", f"{what}: layers {layers} are not in order")
        for i, t, d, s in zip(layers, durations, travels, speeds):
            common.expect_equal("wrong-layers", f"{what}: layer {i}: time, travel", [float(t), float(d)],
                                [want_t.get(i, 0.0), want_d.get(i, 0.0)], 1e-6, 1e-6)
            if t == 0:
                if str(s).lower() != "nan":
                    raise Violation("wrong-layers", f"{what}: layer {i}: average speed {s} without duration")
            else:
                common.expect_equal("wrong-layers", f"{what}: layer {i}: average speed", float(s), float(d) / float(t), 1e-9, 1e-9)
        for i in want_t:
            if i not in layers and (want_t[i] > 1e-6 or want_d[i] > 1e-6):
                raise Violation("wrong-layers", f"{what}: layer {i} with {want_t[i]} s and {want_d[i]} mm is missing in {layers}")
        common.expect_equal("wrong-layers", f"{what}: sum of the durations", float(sum(durations)), te, 1e-6, 1e-6)
        rows = [[c.strip() for c in ln.split(delim)] for ln in su.read(out).decode().splitlines()]
        if len(rows) != len(layers) + 1:
            raise Violation("wrong-layer-file", f"{what}: {len(rows) - 1} rows for {len(layers)} layers")
        for row, i, t, d, s in zip(rows[1:], layers, durations, travels, speeds):
            common.expect_equal("wrong-layer-file", f"{what}: layer {i}", [float(c) for c in row], [float(i), float(t), float(d), float(s)], 1e-12, 1e-12)
        ctx.count("probe:layers compared", int(len(want_t) > 1))

    # events
    clean()
    ke = SCALE[plan["eunit"] or plan["unit"]]
    series = su.must("generate_abaqus_event_series", A.abq.generate_abaqus_event_series, simulation=sim, filepath=out,
                     output_unit_system=plan["eunit"])
    times = [0.0] + [s[1] for s in segs]
    pos = [segs[0][2]] + [s[3] for s in segs]
    if len(series) != len(times):
        raise Violation("wrong-events", f"{what}: {len(series)} events, the trajectory has {len(times)} vertices")
    lines = su.read(out).decode().splitlines()
    if len(lines) != len(series):
        raise Violation("wrong-event-file", f"{what}: {len(lines)} lines for {len(series)} events")
    for n, (ev, ln, t, p) in enumerate(zip(series, lines, times, pos)):
        common.expect_equal("wrong-events", f"{what}: event {n}", [float(x) for x in ev[:4]], [t] + [ke * c for c in p[:3]], 1e-9, 1e-7 * ke)
        if n + 1 < len(pos):
            de = pos[n + 1][3] - p[3]
            flag = 1 if de > 1e-12 else 0
            if 1e-14 < de < 1e-10:
                flag = ev[4]
        else:
            flag = 0
        if ev[4] != flag:
            raise Violation("wrong-events", f"{what}: event {n} at {t!r} has extrusion flag {ev[4]}, the following piece extrudes {flag}")
        row = [float(c) for c in ln.split(",")]
        common.expect_equal("wrong-event-file", f"{what}: event {n}", row, [float(x) for x in ev], 1e-12, 0.6e-8)
    times_sorted = [ev[0] for ev in series]
    if any(b < a for a, b in zip(times_sorted, times_sorted[1:])):
        raise Violation("wrong-events", f"{what}: times are not in order")
    # ... which queries confirm
    for n in range(0, len(series), max(1, len(series) // 4)):
        t = min(max(float(series[n][0]), 0.0), te)
        got = su.must("get_values", sim.get_values, t, plan["eunit"])
        common.expect_equal("reports-disagree", f"{what}: event {n} at {t!r} and query", [float(x) for x in series[n][1:4]], got[1][:3], 1e-9, 2e-6 * ke)

    # submodel
    for b in plan["boxes"]:
        submodel(sim, moves, b, te, out, ctx, what)


def at_distance(bs, s):
    """Time at which distance s along a move is reached, and the inverse check."""
    done = 0.0
    for t0, t1, p0, p1, v0, v1 in bs:
        L = dist(p0, p1)
        if s <= done + L or (t0, t1) == (bs[-1][0], bs[-1][1]):
            return t0, t1, done
        done += L
    return bs[-1][0], bs[-1][1], done


def travelled(bs, t):
    """Distance along a move at time t."""
    s = 0.0
    for t0, t1, p0, p1, v0, v1 in bs:
        if t >= t1:
            s += dist(p0, p1)
            continue
        if t > t0:
            n0, n1 = (math.sqrt(sum(c * c for c in v[:3])) for v in (v0, v1))
            tau = t - t0
            a = (n1 - n0) / (t1 - t0)
            s += n0 * tau + a * tau * tau / 2
        break
    return s


def crossings(moves, b, grow):
    lo = [b[i] - b[3 + i] / 2 - grow for i in range(3)]
    hi = [b[i] + b[3 + i] / 2 + grow for i in range(3)]
    tin, tout = [], []
    for n, m in enumerate(moves):
        if dist(m[2], m[3]) == 0:
            continue
        c = refmodel.clip_box(m[2][:3], m[3][:3], lo, hi)
        if c:
            L = dist(m[2], m[3])
            if c[0] is not None:
                tin.append((n, c[0] * L))
            if c[1] is not None:
                tout.append((n, c[1] * L))
    return tin, tout


def submodel(sim, moves, b, te, out, ctx, what):
    kinds = [crossings(moves, b, g) for g in (0.0, 5e-6, -5e-6)]
    for x in (0, 1):
        if any([n for n, _ in kinds[0][x]] != [n for n, _ in q[x]] for q in kinds[1:]) or any(
            abs(s - s2) > 1e-2 for q in kinds[1:] for (_, s), (_, s2) in zip(kinds[0][x], q[x])
        ):
            ctx.count("grazed box skipped")
            return
    # a corner of the box hit exactly counts in different planes
    if os.path.exists(out):
        os.unlink(out)
    res = su.must("write_submodel_times", su.api().tools.write_submodel_times, sim, list(b[:3]), b[3], b[4], b[5], filename=out, note="x")
    doc = su.read_yaml(out)
    common.expect_equal("wrong-submodel-file", f"{what}: submodel file", doc, su.plain(res), 1e-12, 1e-12)
    common.expect_equal("wrong-submodel", f"{what}: time_process", res["time_process"], te, 1e-9, 1e-9)
    if res.get("note") != "x" or res["n_filaments"] != len(kinds[0][0]):
        raise Violation("wrong-submodel", f"{what}: n_filaments {res['n_filaments']} (note {res.get('note')}), {len(kinds[0][0])} entries in box {b}")
    for name, want in (("time_in", kinds[0][0]), ("time_out", kinds[0][1])):
        got = [float(t) for t in res[name]]
        if len(got) != len(want):
            raise Violation("wrong-submodel", f"{what}: {len(got)} x {name}, the trajectory has {len(want)} (box {b})")
        if any(y < x for x, y in zip(got, got[1:])):
            raise Violation("wrong-submodel", f"{what}: {name} is not in time order")
        for t, (n, s) in zip(got, want):
            m = moves[n]
            if not (m[0] - 1e-7 <= t <= m[1] + 1e-7):
                raise Violation("wrong-submodel", f"{what}: {name} {t!r} is not in the move of line {m[4]} from {m[0]!r} to {m[1]!r}")
            if abs(travelled(m[7], t) - s) > 3e-6 + 1e-6 * s:
                raise Violation("wrong-submodel", f"{what}: {name} {t!r}: the nozzle is {travelled(m[7], t)} mm along the move of line {m[4]}, "
                                f"the box is crossed at {s} mm")
            ctx.count("probe:box crossed")


def shrinks(plan):
    for c in common.shrink_list(plan["ops"][:-1]):
        yield {**plan, "ops": c + plan["ops"][-1:]}
    for c in common.shrink_list(plan["boxes"]):
        yield {**plan, "boxes": c}
    for c in common.shrink_list(plan["others"]):
        yield {**plan, "others": c}
    if plan["eunit"]:
        yield {**plan, "eunit": None}
    setup = common.setup_of(plan)
    for k in range(len(plan["gcode"])):
        g = plan["gcode"][:k] + plan["gcode"][k + 1:]
        if g and workload.has_motion(g, setup):
            yield {**plan, "gcode": g, "variants": [v[:k] + v[k + 1:] for v in plan["variants"]]}
    for k, o in enumerate(plan["others"]):
        for c in workload.shrink_lines(o, setup):
            yield {**plan, "others": plan["others"][:k] + [c] + plan["others"][k + 1:]}
