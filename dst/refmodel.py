"""Reference models: the command machine, the trajectory and the reports (independent of the package's code)."""

import math
import re

_TOK = re.compile(r"((?<![A-Za-z_])[GM]|[A-FH-LN-Z])\s*([-+]?(?:\d+\.?\d*|\.\d+))?")  # (part_G1 is a name)
_MESSAGE = re.compile(r"\s*M0*11[78](?![0-9.])")  # the text of a message is not code
MOVE_AXES = "XYZ"


def tokenize(line):
    """Split a line into [(command, {letter: value}), ...] and the comment (None without one)."""
    code, sep, comment = line.partition(";")
    commands = []
    if _MESSAGE.match(code):
        return [(_MESSAGE.match(code).group().strip(), {})], (comment.strip() if sep else None)
    for letter, num in _TOK.findall(code):
        if letter in "GM":
            if num:
                commands.append((letter + (num if "." in num else str(int(num))), {}))
        elif commands and num:
            commands[-1][1].setdefault(letter, float(num))
    return commands, (comment.strip() if sep else None)


class Machine:
    """One-line-at-a-time interpreter of the command subset; positions in mm, speeds in mm/s."""

    def __init__(self, setup):
        s = dict(setup)
        self.abs = True
        self.abs_e = True
        self.inch = False
        self.log = {a: float(s.get(a, 0)) for a in "XYZE"}  # logical coordinates
        self.off = {a: 0.0 for a in "XYZE"}  # machine = logical + offset
        self.speed = float(s["p_vel"])
        self.acc = float(s["p_acc"])
        self.jerk = float(s["jerk"])
        self.lim = {a: float(s["v" + a]) for a in "XYZE"}
        self.cue = s.get("layer_cue")
        self.layer = 0 if self.cue is not None else None

    def machine(self):
        return [self.log[a] + self.off[a] for a in "XYZE"]

    def snapshot(self, pause, comment, number, layer):
        return {
            "pos": self.machine(),
            "speed": self.speed,
            "acc": self.acc,
            "jerk": self.jerk,
            "lim": [self.lim[a] for a in "XYZE"],
            "pause": pause,
            "comment": comment,
            "line": number,
            "layer": layer,
        }

    def initial(self):
        return self.snapshot(None, "Initial state created by pyGCD.", None, None)

    def execute(self, line, number):
        commands, comment = tokenize(line)
        d = dict(commands)
        pause = None
        for c in d:
            if c == "G90":
                self.abs = True
            elif c == "G91":
                self.abs = False
            elif c == "M82":
                self.abs_e = True
            elif c == "M83":
                self.abs_e = False
            elif c == "G20":
                self.inch = True
            elif c == "G21":
                self.inch = False
        k = 25.4 if self.inch else 1.0
        for c in ("G0", "G1"):
            if c in d:
                for a, v in d[c].items():
                    if a in "XYZ":
                        self.log[a] = v * k if self.abs else self.log[a] + v * k
                    elif a == "E":
                        self.log[a] = v * k if self.abs_e else self.log[a] + v * k
                    elif a == "F":
                        self.speed = v * k / 60.0
        if "G92" in d:
            for a, v in d["G92"].items():
                m = self.log[a] + self.off[a]
                self.log[a] = v * k
                self.off[a] = m - v * k
        if "M204" in d and "P" in d["M204"]:
            self.acc = d["M204"]["P"]
        if "M203" in d:
            for a, v in d["M203"].items():
                if a in self.lim:
                    self.lim[a] = v
        if "M205" in d and "X" in d["M205"]:
            self.jerk = d["M205"]["X"]
        if "G4" in d:
            if "P" in d["G4"]:
                pause = d["G4"]["P"] / 1000.0
            if "S" in d["G4"]:
                pause = d["G4"]["S"]
        if self.cue is not None and comment is not None and comment == self.cue:
            self.layer += 1
        return self.snapshot(pause, comment, number, self.layer)


def run_program(lines, setup):
    """States of a program: the initial one and one per line."""
    m = Machine(setup)
    out = [m.initial()]
    for i, line in enumerate(lines):
        out.append(m.execute(line, i + 1))
    return out


def split_lines(data):
    """Universal newlines; returns (complete lines, partial tail or None)."""
    text = data.replace("\r\n", "\n").replace("\r", "\n")
    parts = text.split("\n")
    tail = parts.pop()
    return parts, (tail if tail != "" else None)


def clip_box(a, b, lo, hi):
    """Parameters at which the segment a-b crosses into / out of the closed box: (t_in|None, t_out|None) or None."""
    t0, t1 = 0.0, 1.0
    for k in range(3):
        d = b[k] - a[k]
        if d == 0:
            if not (lo[k] <= a[k] <= hi[k]):
                return None
        else:
            u, v = (lo[k] - a[k]) / d, (hi[k] - a[k]) / d
            if u > v:
                u, v = v, u
            t0, t1 = max(t0, u), min(t1, v)
    if t0 >= t1:
        return None
    return (t0 if t0 > 0 else None, t1 if t1 < 1 else None)


def dist(a, b):
    return math.sqrt(sum((x - y) ** 2 for x, y in zip(a, b)))
