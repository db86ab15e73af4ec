"""Plan pieces shared by the properties."""

import math

from .. import workload
from ..core import Violation

REAL_ALL = [
    "pyGCodeDecode (all modules, unmodified, from /repo's working tree)",
    "CPython io (text decoding, buffering, short-write handling), pathlib, yaml, numpy",
]
ASSUME = [
    "CPython semantics; programs are UTF-8 text of valid commands",
    "seeded sampling: a clean batch is evidence, not proof",
]


def base_plan(rng, n=None, feats=None, firmware=None, layers=None, initial=None, extent=60.0, never=()):
    """Common keys: printer, initial, cue, gcode."""
    pr = workload.printer(rng, firmware)
    if initial is None and rng.random() < 0.3:
        initial = {"X": rng.choice([0, 5, -3.5]), "Y": rng.choice([0, 10.25]), "Z": rng.choice([0, 0.2]), "E": rng.choice([0, 1.5])}
    cue = rng.choice([workload.CUE] * 6 + ["LAYER:\u00c4nderung"]) if (rng.random() < 0.5 if layers is None else layers) else None
    if feats is None:
        feats = workload.features(rng, never=never)
        if cue and "layers" not in feats:
            feats = feats + ["layers"]
    lines = workload.program(rng, workload.full_setup(pr, initial, cue), n=n, feats=feats, extent=extent)
    return {"printer": pr, "initial": initial, "cue": cue, "gcode": lines}


def length(rng, usual, p=0.01, long=(120, 300, 900)):
    """Number of lines of a program: as usual, or rarely many (limits on sizes and positions inside the code under test)."""
    return rng.choice(long) if rng.random() < p else usual


def setup_of(plan):
    return workload.full_setup(plan["printer"], plan.get("initial"), plan.get("cue"))


def time_spec(rng):
    """A query time relative to the trajectory (resolved when the trajectory is known)."""
    r = rng.random()
    if r < 0.4:
        return {"f": round(rng.random(), 6)}
    if r < 0.9:
        return {"s": rng.randrange(1000), "w": rng.choice(["begin", "end", "end", "mid", "before", "after"])}
    return {"s": -1, "w": rng.choice(["end", "before", "mid"])}


def resolve(spec, segs):
    te = segs[-1][1]
    if "f" in spec:
        return spec["f"] * te
    s = segs[spec["s"] % len(segs)] if spec["s"] >= 0 else segs[-1]
    t = {"begin": s[0], "end": s[1], "mid": (s[0] + s[1]) / 2, "before": math.nextafter(s[1], -1.0),
         "after": math.nextafter(s[1], math.inf)}[spec["w"]]
    return min(max(t, 0.0), te)


def shrink_list(items, minimum=0):
    n = len(items)
    size = max(1, n // 2)
    while size >= 1 and n:
        for i in range(0, n, size):
            c = items[:i] + items[i + size:]
            if len(c) >= minimum:
                yield c
        if size == 1:
            break
        size //= 2


def shrink_common(plan, lists=()):
    """Fewer G-code lines, default environment, fewer list items."""
    for key in lists:
        for c in shrink_list(plan[key]):
            yield {**plan, key: c}
    if "gcode" in plan:
        for c in workload.shrink_lines(plan["gcode"], setup_of(plan)):
            yield {**plan, "gcode": c}
    if plan.get("initial"):
        yield {**plan, "initial": None}


def expect_equal(cls, what, got, want, rel=1e-9, abs_=1e-9):
    from ..core import close

    d = close(got, want, rel, abs_)
    if d:
        raise Violation(cls, f"{what}: {d}")
