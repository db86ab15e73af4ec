"""Run context: seeded choices, event log, counters, violations."""

import hashlib
import json
import random

REPO = "/repo"
PKG = REPO + "/pyGCodeDecode/"


class Violation(Exception):
    """A property does not hold. `cls` names the class of the violation and survives minimisation."""

    def __init__(self, cls, message):
        super().__init__(f"{cls}: {message}")
        self.cls = cls
        self.message = str(message)


class HarnessError(Exception):
    """The check itself is wrong (never reported as a violation)."""


def rng_for(*parts):
    """One PRNG, derived from the seed and nothing else (random.seed of a str hashes with sha512)."""
    return random.Random("/".join(str(p) for p in parts))


class Ctx:
    """State of one simulated run; everything recorded here is a function of plan and code."""

    def __init__(self, scratch, stats=None):
        self.scratch = scratch
        self.hash = hashlib.sha256()
        self.tail = []
        self.sched_hash = hashlib.sha256()
        self.counters = {}
        self.simtime = 0.0
        self.nontrivial = False
        self.switches = None  # explicit schedule of the run, if threads took part
        self.events = 0

    def log(self, *items):
        """Log one event (never draws randomness, never reads a clock)."""
        text = " ".join(str(i) for i in items).replace(self.scratch, "<S>")
        self.events += 1
        self.hash.update(text.encode("utf-8", "backslashreplace") + b"\n")
        self.tail.append(text if len(text) < 300 else text[:300] + "...")
        if len(self.tail) > 60:
            del self.tail[0]

    def mark(self, *items):
        """Log a scheduling/fault decision; their sequence identifies the interleaving of the run."""
        self.sched_hash.update(" ".join(str(i) for i in items).replace(self.scratch, "<S>").encode() + b"\n")

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def fault(self, name):
        """Count a fault which really was delivered."""
        self.count("fault:" + name)
        self.nontrivial = True

    def result(self):
        return {
            "digest": self.hash.hexdigest(),
            "sched": self.sched_hash.hexdigest()[:16],
            "events": self.events,
            "counters": dict(sorted(self.counters.items())),
            "simtime": self.simtime,
            "nontrivial": bool(self.nontrivial),
            "switches": self.switches,
        }


def canon(obj):
    """Canonical text of a (nested) result, floats bit exact."""
    return json.dumps(_plain(obj), sort_keys=True)


def _plain(o):
    import numpy as np

    if isinstance(o, (bool, str)) or o is None:
        return o
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, (int, np.integer)):
        return int(o)
    if isinstance(o, (float, np.floating)):
        return float(o).hex() if o == o else "nan"
    if isinstance(o, bytes):
        return "bytes:" + hashlib.sha256(o).hexdigest() + ":" + str(len(o))
    if isinstance(o, np.ndarray):
        return [_plain(i) for i in o.tolist()]
    if isinstance(o, dict):
        return {str(k): _plain(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [_plain(i) for i in o]
    return f"<{type(o).__name__}>"


def close(a, b, rel=1e-9, abs_=1e-9):
    """Structural comparison with a tolerance for floating point noise. Return None or a text of the difference."""
    import numpy as np

    if isinstance(a, np.ndarray):
        a = a.tolist()
    if isinstance(b, np.ndarray):
        b = b.tolist()
    if isinstance(a, dict) and isinstance(b, dict):
        if a.keys() != b.keys():
            return f"keys {sorted(map(str, a))} != {sorted(map(str, b))}"
        for k in a:
            d = close(a[k], b[k], rel, abs_)
            if d:
                return f"[{k}] {d}"
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f"length {len(a)} != {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = close(x, y, rel, abs_)
            if d:
                return f"[{i}] {d}"
        return None
    num = (int, float, np.integer, np.floating)
    if isinstance(a, num) and isinstance(b, num) and not isinstance(a, bool) and not isinstance(b, bool):
        if a == b or (a != a and b != b):
            return None
        if abs(a - b) <= abs_ + rel * max(abs(a), abs(b)):
            return None
        return f"{a!r} != {b!r}"
    if a == b:
        return None
    return f"{str(a)[:200]!r} != {str(b)[:200]!r}"
