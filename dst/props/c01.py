"""C01: the G-code file is an ordered stream of commands, however its bytes arrive and wherever it ends."""

import os

from .. import refmodel, seams, simutil as su, workload
from ..core import Violation, close
from . import common

RUNS = {"quick": 5000, "thorough": 200000}
RULE = ("one case: a generated program over all supported commands and modal states, written with one newline style, optionally padded "
        "across buffer boundaries and cut at an arbitrary byte, read through short/interrupted reads and odd buffer sizes; all states "
        "and the visited positions are compared with an independent command machine. Non-trivial: a short or interrupted read was "
        "delivered, the file was cut, or modal commands beyond plain moves take part.")
REAL = common.REAL_ALL
STUBS = ["raw file layer (short reads, EINTR)", "console (captured)"]
ASSUMPTIONS = common.ASSUME + ["a line cut in the middle may be rejected or taken as it stands"]


def gen(rng, tier, i):
    big = rng.random() < 0.06
    plan = common.base_plan(rng, n=rng.randint(60, 250) if big else rng.randint(3, 40))
    plan["newline"] = rng.choice(["\n", "\n", "\n", "\r\n", "\r"])
    plan["final_newline"] = rng.random() < 0.85
    plan["pad"] = []
    if rng.random() < 0.3:
        for _ in range(rng.randint(1, 3)):
            plan["pad"].append([rng.randrange(len(plan["gcode"])), rng.choice([100, 4000, 8100, 8190, 8192, 16000, 70000]) - rng.randint(0, 40)])
    r = rng.random()
    if r < 0.02:
        # files beyond every buffer: a few very long lines, or very many empty ones
        plan["pad"].append([rng.randrange(len(plan["gcode"])), rng.choice([1 << 20, 1 << 20, 5 << 20]) - rng.randint(0, 40)])
    elif r < 0.024:
        plan["pad"].append([rng.randrange(len(plan["gcode"])), -rng.choice([1000, 4096, 10000, 10000, 30000 if r < 0.021 else 4096]) - rng.randint(0, 9)])
    plan["cut"] = round(rng.random(), 6) if rng.random() < 0.25 else None
    plan["fs"] = {"read_chunks": workload.chunks(rng), "faults": []}
    if rng.random() < 0.4:
        plan["fs"]["buf"] = rng.choice([1, 2, 16, 100, 8191])
    if rng.random() < 0.3:
        plan["fs"]["text_chunk"] = rng.choice([1, 3, 17, 64])
    if any(n > 80000 for _, n in plan["pad"]):
        # (a system call per byte would take minutes)
        plan["fs"]["read_chunks"] = [max(n, 3001) for n in plan["fs"]["read_chunks"]]
        plan["fs"].update({k: max(3001, plan["fs"][k]) for k in ("buf", "text_chunk") if k in plan["fs"]})
    for _ in range(rng.choice([0, 0, 1, 3])):
        plan["fs"]["faults"].append({"op": "read", "n": rng.randrange(12), "kind": "EINTR"})
    return plan


def content(plan):
    out = []
    pads = {}
    for k, n in plan["pad"]:
        pads[k] = n if n < 0 else max(n, pads.get(k, 0) + n)
    for k, line in enumerate(plan["gcode"]):
        if k in pads:
            out += [";" + "x" * pads[k]] if pads[k] >= 0 else [""] * -pads[k]
        out.append(line)
    text = plan["newline"].join(out) + (plan["newline"] if plan["final_newline"] else "")
    data = text.encode("utf-8")
    if plan["cut"] is not None:
        data = data[: int(plan["cut"] * len(data))]
    return data


KEYS = ["pos", "speed", "acc", "jerk", "lim", "pause", "comment", "line", "layer"]


def compare_states(got, want, n):
    for k in range(n):
        for key in KEYS:
            d = close(got[k][key], want[k][key], rel=1e-9, abs_=1e-9)
            if d:
                raise Violation("wrong-state:" + key, f"state {k} (line {want[k]['line']}): {key}: {d}")


def collapse(points, eps=1e-5):
    out = []
    for p in points:
        if not out or max(abs(a - b) for a, b in zip(p, out[-1])) > eps:
            out.append(p)
    return out


def execute(plan, ctx):
    data = content(plan)
    lines, tail = refmodel.split_lines(data.decode("utf-8", "replace"))
    if plan["cut"] is not None:
        ctx.fault("torn file")
    cset = {c for ln in plan["gcode"] for c, _ in refmodel.tokenize(ln)[0]}
    if cset - {"G0", "G1"}:
        ctx.nontrivial = True
    g, p = su.scenario(ctx, "job", [], {"printer": plan["printer"]})
    su.write(g, data)
    setup_ref = common.setup_of(plan)
    want = refmodel.run_program(lines, setup_ref)
    fs = seams.SimFS(ctx, [ctx.scratch], plan["fs"])
    with seams.sim_console(seams.SimConsole(ctx)), seams.sim_files(fs):
        stp = su.must("setup", su.make_setup, p, "printer", plan.get("initial"), plan.get("cue"))
        fs.reset(plan["fs"])
        try:
            states = su.api().sg.generate_states(filepath=g, initial_machine_setup=stp.get_dict())
        except Exception as e:
            if tail is None:
                raise Violation("rejected", f"a valid program was rejected: {type(e).__name__}: {e}")
            ctx.count("probe:cut line rejected")
            # everything before the partial line is complete and has to be accepted
            su.write(g, data[: max(data.rfind(b"\n"), data.rfind(b"\r")) + 1])
            tail = None
            fs.reset(plan["fs"])
            states = su.must("generate_states", su.api().sg.generate_states, filepath=g, initial_machine_setup=stp.get_dict())
        if tail is None:
            unsupported(su.api().sg, g, lines, ctx)
        n = len(want)
        if not isinstance(states, list):
            raise Violation("state-count", f"{type(states).__name__} instead of a list of states")
        if len(states) != n + (1 if tail is not None else 0):
            raise Violation("state-count", f"{len(states)} states from {n - 1} complete lines, partial line: {tail!r}")
        got = su.flat_states(states)
        compare_states(got, want, n)
        ctx.count("lines", n - 1)
        for a, b in zip(states, states[1:]):
            if a.next_state is not b or b.prev_state is not a:
                raise Violation("state-order", "neighbouring states are not linked in order")
        ref = want if tail is None else want + got[n:]
        if not any(close(a["pos"], b["pos"]) for a, b in zip(ref, ref[1:])):
            return  # nothing moves in what is left of the program
        fs.reset(plan["fs"])
        try:
            sim = su.make_sim(g, stp)
        except Exception as e:
            if tail is not None:
                return  # the partial line is a line which can not be planned
            raise Violation("rejected", f"a valid program was rejected: {type(e).__name__}: {e}")
        compare_states(su.flat_states(sim.states), want, n)
        visited = [su.vec(sim.blocklist[0].get_segments()[0].pos_begin)] + [su.vec(b.get_segments()[-1].pos_end) for b in sim.blocklist]
        a, b = collapse([s["pos"] for s in ref]), collapse(visited)
        d = close(b, a, abs_=3e-5)
        if d:
            raise Violation("wrong-path", f"visited positions differ from the commanded ones: {d}")
        ctx.simtime += su.t_end(sim)
        ctx.log("t_end", repr(su.t_end(sim)))


UNSUPPORTED = {"G2", "G3", "G10", "G11", "G28", "G29"}


def unsupported(sg, g, lines, ctx):
    """Commands which are known but not executed are reported to the user with the number of their lines."""
    if not hasattr(sg, "check_for_unsupported_commands") or not hasattr(sg, "read_gcode_to_dict_list"):
        return
    want = {}
    for ln in lines:
        for c in {c for c, _ in refmodel.tokenize(ln)[0]} & UNSUPPORTED:
            want[c] = want.get(c, 0) + 1
    got = su.must("check_for_unsupported_commands", lambda: sg.check_for_unsupported_commands(line_dict_list=sg.read_gcode_to_dict_list(filepath=g)))
    got = {k: int(v) for k, v in got.items() if k in UNSUPPORTED}  # (more commands may become known)
    if got != want:
        raise Violation("wrong-warning", f"unsupported commands reported: {got}, in the program: {want}")
    ctx.count("probe:unsupported commands counted", int(bool(want)))


def shrinks(plan):
    if plan["pad"]:
        yield {**plan, "pad": []}
        for c in common.shrink_list(plan["pad"]):
            yield {**plan, "pad": c}
    if plan["cut"] is not None:
        yield {**plan, "cut": None}
    for key in list(plan["fs"]):
        yield {**plan, "fs": {k: v for k, v in plan["fs"].items() if k != key}}
    if plan["newline"] != "\n":
        yield {**plan, "newline": "\n"}
    yield from common.shrink_common(plan)
