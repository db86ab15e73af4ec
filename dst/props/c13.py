"""C13: planning always completes, and within a stack that does not grow with the program."""

import math
import sys

from .. import seams, simutil as su, workload
from ..core import Violation, rng_for
from . import common

RUNS = {"quick": 1500, "thorough": 60000}
RULE = ("one case: a valid program (a long finely divided path of one of several shapes, or a random program over all features and extreme "
        "settings), planned and refreshed in a process with little stack left: the recursion limit is what a short program of the same kind "
        "needs, plus a constant. Non-trivial: more than 100 moves, or features beyond plain moves.")
REAL = common.REAL_ALL
STUBS = ["stack space (recursion limit)", "console (captured)"]
ASSUMPTIONS = common.ASSUME + ["stack is measured in Python frames", "settings are positive and finite"]
SLACK = 60

SHAPES = ["line", "arc", "zigzag", "spiral", "ramp", "stair", "noise"]


def gen(rng, tier, i):
    pr = workload.printer(rng)
    if rng.random() < 0.3:
        pr["p_acc"] = rng.choice([10, 50, 20000])
        pr["jerk"] = rng.choice([0.1, 0.5, 50, 200])
        pr["p_vel"] = rng.choice([1, 5, 150, 400])
    plan = {"printer": pr, "initial": None, "cue": None}
    r = rng.random()
    if r < 0.35:
        n = rng.choice([150, 400, 900] if r < 0.33 else [2500])
        plan["_w"] = 1  # (shrinks to plain lines)
        plan["chain"] = {"shape": rng.choice(SHAPES), "n": n, "step": rng.choice([0.002, 0.01, 0.05, 0.2, 1.0]), "seed": rng.getrandbits(32),
                         "f": rng.choice([600, 3000, 9000]), "extra": rng.choice(["", "", "acc", "feed", "dwell", "retract", "e", "quiet"]),
                         "every": rng.choice([3, 17, 50]), "end": rng.choice(["", "corner", "reverse", "dwell", "retract"])}
    else:
        big = rng.random() < 0.1
        feats = workload.features(rng)
        for name in ("tiny", "collinear"):
            if rng.random() < 0.4 and name not in feats:
                feats.append(name)
        plan["gcode"] = workload.program(rng, workload.full_setup(pr), n=rng.randint(60, 200) if big else rng.randint(3, 30), feats=feats,
                                         extent=rng.choice([60.0, 60.0, 2.0, 300.0]))
    plan["refresh"] = rng.choice([0, 1, 1, 2])
    plan["speed"] = [[rng.randrange(1000), rng.choice([0.5, 5, 33, 250])] for _ in range(rng.randint(0, 3))]
    return plan


def chain(c, n=None):
    """Lines of a long path."""
    rng = rng_for("chain", c["seed"])
    n = c["n"] if n is None else n
    x, y, e = 10.0, 10.0, 0.0
    out = [f"G1 X{x} Y{y} F{c['f']}"]
    for k in range(n):
        s = c["step"]
        shape = c["shape"]
        if shape == "line":
            x += s
        elif shape == "arc":
            a = k * s / 10.0
            x, y = 20 + 10 * math.sin(a), 10 + 10 * (1 - math.cos(a))
        elif shape == "zigzag":
            x += s
            y += s if k % 2 else -s
        elif shape == "spiral":
            a = k * 0.15
            x, y = 30 + (1 + s * k) * math.cos(a), 30 + (1 + s * k) * math.sin(a)
        elif shape == "ramp":
            x += s * (1 + (k % 40) / 10.0)
        elif shape == "stair":
            if k % 2:
                x += s
            else:
                y += s
        else:
            x += rng.uniform(-s, s)
            y += rng.uniform(-s, s)
        e += s * 0.05
        line = f"G1 X{x:.5f} Y{y:.5f}"
        if c["extra"] == "e":
            line += f" E{e:.5f}"
        out.append(line)
        if (k + 1) % c["every"] == 0:
            if c["extra"] == "acc":
                out.append(f"M204 P{rng.choice([50, 500, 5000])}")
            elif c["extra"] == "feed":
                out.append(f"G1 F{rng.choice([300, 1200, 6000, 12000])}")
            elif c["extra"] == "dwell":
                out.append(rng.choice(["G4 P100", "G4 P0"]))
            elif c["extra"] == "quiet":
                # lines without movement, now and then very many of them
                kinds = rng.choice([["; comment"], [""], ["G1 F1200", "G1 F3000"], [line], ["M204 P500", "; x"], ["G92 E0", "M83", "M82"], ["G4 P0"],
                                    ["; x", "", "M106 S3", "G1 F1200", "M205 X8"]])
                e = 0.0 if kinds[0] == "G92 E0" else e
                run = rng.choice([1, 3, 30, 90, 200])
                out += [rng.choice(kinds) for _ in range(run if len(out) < 1200 else 1)]
            elif c["extra"] == "retract":
                e += 1.0
                out.append(f"G1 E{e - 2:.5f}")
                out.append(f"G1 E{e:.5f}")
    out += {"": [], "corner": [f"G1 Y{y + 5:.5f}"], "reverse": [f"G1 X{x - 5:.5f} Y{y:.5f}"], "dwell": ["G4 P100"],
            "retract": [f"G1 E{e - 3:.5f}"]}[c["end"]]
    return out


def depth():
    f, n = sys._getframe(1), 0
    while f is not None:
        n += 1
        f = f.f_back
    return n


class MaxDepth:
    """Deepest stack of frames below the caller."""

    def __enter__(self):
        self.base = self.cur = depth()
        self.max = self.cur
        sys.setprofile(self._p)
        return self

    def _p(self, frame, event, arg):
        if event == "call":
            self.cur += 1
            if self.cur > self.max:
                self.max = self.cur
        elif event == "return":
            self.cur -= 1

    def __exit__(self, *a):
        sys.setprofile(None)
        self.need = self.max - self.base
        return False


def execute(plan, ctx):
    with seams.sim_console(seams.SimConsole(ctx)):
        _execute(plan, ctx)


def job(plan, lines, name, ctx):
    sim = su.build(ctx, {**plan, "gcode": lines}, name)
    for _ in range(plan["refresh"]):
        for k, v in plan["speed"]:
            sim.states[k % len(sim.states)].state_p_settings.speed = v
        sim.refresh()
    return sim


def _execute(plan, ctx):
    if "chain" in plan:
        lines = chain(plan["chain"])
        ctx.count("probe:chain of " + str(plan["chain"]["n"]))
    else:
        lines = plan["gcode"]
    ctx.nontrivial = True
    short = ["G1 X3 Y4 F3000", "G1 X9 Y4", "G1 X9 Y9 E1", "G4 P100", "G1 E-2", "M104 S200", "G1 X9.1 Y9.1", "G1 X9.2 Y9.2", "G1 X0 Y0"]
    # the deepest call of a short program, after everything was imported
    su.must("simulation", job, plan, short, "warm", ctx)
    with MaxDepth() as d:
        su.must("simulation", job, plan, short, "short", ctx)
    if not workload.has_motion(lines, common.setup_of(plan)):
        return
    old = sys.getrecursionlimit()
    sys.setrecursionlimit(depth() + d.need + SLACK)
    ctx.fault("little stack left")
    try:
        try:
            sim = job(plan, lines, "job", ctx)
        except RecursionError:
            err = "stack"
        except Exception as e:
            err = f"{type(e).__name__}: {e}"
        else:
            err = None
    finally:
        sys.setrecursionlimit(old)
    if err == "stack":
        raise Violation("stack-grows", f"a program of {len(lines)} lines needs more stack than a short one and {SLACK} more frames")
    if err:
        raise Violation("planning-failed", f"a valid program of {len(lines)} lines was not planned: {err}")
    te = su.t_end(sim)
    if not (te >= 0 and math.isfinite(te)):
        raise Violation("planning-failed", f"the print ends at {te!r}")
    ctx.simtime += te
    ctx.count("lines", len(lines))
    ctx.log("t_end", repr(te), len(sim.blocklist))


def shrinks(plan):
    if "chain" in plan:
        c = plan["chain"]
        for n in (c["n"] // 2, c["n"] * 3 // 4, c["n"] - 1):
            if n > 1:
                yield {**plan, "chain": {**c, "n": n}}
        for k, v in (("extra", ""), ("end", "")):
            if c[k]:
                yield {**plan, "chain": {**c, k: v}}
        if c["n"] <= 2500:
            yield {**{k: v for k, v in plan.items() if k not in ("chain", "_w")}, "gcode": chain(c)}
    if plan["refresh"]:
        yield {**plan, "refresh": plan["refresh"] - 1}
    for c in common.shrink_list(plan["speed"]):
        yield {**plan, "speed": c}
    yield from common.shrink_common(plan)
