"""Seeded generation of valid workloads: printers, G-code programs, queries, histories (swarm style)."""

import re

from . import refmodel

FIRMWARES = ["MKA", "klipper", "marlin_jd", "marlin_jerk", "none"]
CUE = "LAYER_CHANGE"

ALL = [
    "inch", "relative", "rel_e", "g92", "dwell", "m204", "m205", "m203", "comments", "layers", "retract", "zhop",
    "tiny", "collinear", "reverse", "arc", "noop", "feed_only", "unknown", "spacing", "blank", "multi", "slow", "e_only",
    "dwell_first", "long", "same_line_f", "negative", "grid", "quiet", "unicode",
]


def printer(rng, firmware=None):
    return {
        "p_vel": rng.choice([20, 35, 60.5]),
        "p_acc": rng.choice([80, 200, 1000, 5000]),
        "jerk": rng.choice([1, 5, 10, 20]),
        "vX": 180, "vY": 170, "vZ": 30, "vE": 33,
        "firmware": firmware or rng.choice(FIRMWARES),
    }


def features(rng, only=None, never=()):
    pool = [f for f in (only or ALL) if f not in never]
    k = rng.randint(0, min(len(pool), 10))
    return sorted(rng.sample(pool, k))


def num(rng, v, digits=4):
    s = f"{v:.{digits}f}"
    if rng.random() < 0.5:
        s = s.rstrip("0")
        if s.endswith(".") and rng.random() < 0.5:
            s = s[:-1]
    if rng.random() < 0.1 and s.startswith("0.") and len(s) > 2:
        s = s[1:]
    if s in ("-0", "-0.", "-"):
        s = "0"
    return s


# commands without effect on the motion: known to be unsupported, or unknown
UNKNOWN = ["G28 X0 Y0", "G28 X Y", "G2 X10 Y5 I2 J3 E0.5 F900", "G3 X1 Y-5 R4", "G10", "G11", "G10 S1", "G29 P1", "M84 X Y E", "M862.3 P1", "M73 P0 R10",
           "M117 printing", "M117 G1 X5 Y5 to go", "M117 then G92 E0 ; note", "M118 G28 done", "EXCLUDE_OBJECT_START NAME=part_G1_copy_2",
           "EXCLUDE_OBJECT_DEFINE NAME=CUBE_G3X_M82 CENTER=5,5", "START_PRINT BED_TEMP=60 EXTRUDER_TEMP=210", "M117 MOVE_G91", "M900 K0.2", "M221 S95", "M201 X1000 Y1000 Z100 E5000", "M204 S800 T900", "M205 Y8", "M205 J0.02", "M109 S215",
           "G80", "G17", "G12", "G26", "G27 P2", "G30", "G34", "G34 I5", "G92.1", "G40", "M820", "G90.1", "M2040 P5", "M400", "G28 ; home", "G2 X3 Y3 I1 ; arc"]


class Program:
    """Generator of one program; keeps a reference machine to stay in a sane range."""

    def __init__(self, rng, feats, setup, n, extent=60.0):
        self.rng, self.f, self.n, self.extent = rng, set(feats), n, extent
        self.m = refmodel.Machine(setup)
        self.cue = self.m.cue or CUE
        self.lines = []
        self.e_total = 0.0
        self.dir = (1.0, 0.0)
        self.speeds = [600, 1500, 3000, 6000, 9000]
        if "slow" in self.f:
            self.speeds = [30, 60, 120, 300]

    def emit(self, text):
        self.lines.append(text)
        self.m.execute(text, 0)

    def style(self, cmd, args):
        r = self.rng
        if "spacing" in self.f and r.random() < 0.5:
            sep, gap = r.choice([("", ""), (" ", " "), ("  ", " "), (" ", "")])
        else:
            sep, gap = " ", ""
        text = cmd + "".join(sep + a + gap * (r.random() < 0.2) + v for a, v in args)
        if "comments" in self.f and r.random() < 0.15:
            text += r.choice([" ; note", ";x", " ;G1 X5 ; inner", "; E=3"])
        return text

    def move(self, x=None, y=None, z=None, e=None, f=None, cmd=None, more=""):
        """Move to machine coordinates (mm), expressed in the current modal frame."""
        r, m = self.rng, self.m
        k = 25.4 if m.inch else 1.0
        args = []
        for a, v in (("X", x), ("Y", y), ("Z", z)):
            if v is None:
                continue
            logical = v - m.off[a]
            arg = (logical if m.abs else logical - m.log[a]) / k
            args.append((a, num(r, arg)))
        if e is not None:
            logical = m.log["E"] + e
            arg = (logical if m.abs_e else e) / k
            args.append(("E", num(r, arg, 5)))
        if f is not None:
            args.append(("F", num(r, f / k, 3)))
        if not args:
            return
        if "spacing" in self.f and r.random() < 0.2:
            r.shuffle(args)
        cmd = cmd or r.choice(["G1", "G1", "G0"])
        if "spacing" in self.f and r.random() < 0.2:
            cmd = cmd[0] + "0" + cmd[1:]
        if "spacing" in self.f and r.random() < 0.03:
            more = r.choice([" S255", " H1", " P2 R3"]) + more  # words that are not known
        self.emit(self.style(cmd, args) + more)

    def build(self):
        r, f = self.rng, self.f
        if "blank" in f:
            self.emit("")
        if "comments" in f:
            self.emit("; generated by a test program")
        if "unknown" in f:
            self.emit("M104 S200")
        if "rel_e" in f:
            self.emit("M83")
        if "dwell_first" in f:
            self.emit(f"G4 P{r.choice([100, 250])}")
        if "negative" in f:
            self.move(x=-10.0, y=-5.5)
        # at least one real movement
        p = self.m.machine()
        self.move(x=p[0] + r.uniform(1, 20), y=p[1] + r.uniform(1, 20), e=r.choice([None, 0.5]), f=r.choice(self.speeds))
        kinds = ["line"] * 5
        for name in ("dwell", "m204", "m205", "m203", "retract", "zhop", "noop", "feed_only", "unknown", "blank", "arc",
                     "tiny", "collinear", "reverse", "relative", "rel_e", "inch", "g92", "comments", "multi", "e_only", "grid", "quiet", "unicode"):
            if name in f:
                kinds += [name] * (2 if name in ("tiny", "collinear", "arc", "e_only", "grid") else 1)
        layer_every = r.randint(2, 6) if "layers" in f else 0
        i = 0
        while len(self.lines) < self.n:
            i += 1
            if layer_every and i % layer_every == 0:
                self.emit(r.choice([";", "; ", ";  "]) + self.cue)
                p = self.m.machine()
                if r.random() < 0.8:
                    self.move(z=p[2] + 0.3)
                continue
            self.one(r.choice(kinds))
        return self.lines

    def one(self, kind):
        r = self.rng
        p = self.m.machine()
        ext = self.extent
        fr = r.choice(self.speeds) if r.random() < 0.35 else None
        e = r.choice([None, 0.01, 0.3, 1.0, r.uniform(0.01, 2)])
        if kind == "line":
            x = r.uniform(0, ext) if r.random() < 0.85 else None
            y = r.uniform(0, ext) if r.random() < 0.7 or x is None else None
            self.move(x=x, y=y, e=e, f=fr)
        elif kind == "tiny":
            for _ in range(r.randint(1, 4)):
                p = self.m.machine()
                self.move(x=p[0] + r.choice([-1, 1]) * r.choice([0.001, 0.01, 0.05, 0.2]), y=p[1] + r.uniform(-0.1, 0.1), e=e and e / 50)
        elif kind == "collinear":
            import math
            a = r.choice([0, math.pi / 2, math.pi, r.uniform(0, 6.28)])
            step = r.choice([0.02, 0.2, 1, 3])
            for _ in range(r.randint(2, 5)):
                p = self.m.machine()
                self.move(x=p[0] + step * math.cos(a), y=p[1] + step * math.sin(a), e=e and step / 20, f=fr)
        elif kind == "grid":
            # round coordinates: exact diagonals, displacements which cancel, repeated places
            x, y, z = round(p[0]), round(p[1]), round(p[2])
            self.move(x=x, y=y, z=z if r.random() < 0.3 else None, e=e)
            for _ in range(r.randint(1, 3)):
                d = r.choice([1, 2, 5, 8])
                dx, dy, dz = r.choice([(d, -d, 0), (-d, d, 0), (d, d, 0), (-d, -d, 0), (d, 0, 0), (0, -d, 0), (0, 0, d), (d, 0, -d), (d, d, -2 * d),
                                       (3, 4, 0), (-3, 4, 0)])
                x, y, z = x + dx, y + dy, z + dz
                self.move(x=x if dx or r.random() < 0.5 else None, y=y if dy or r.random() < 0.5 else None, z=z if dz else None,
                          e=r.choice([None, None, 1.0, 0.5, -1.0, d / 4]), f=fr)
        elif kind == "quiet":
            # several lines in a row without any movement
            for _ in range(r.choice([2, 3, 5, 12])):
                self.one(r.choice(["blank", "comments", "feed_only", "noop", "unknown", "m204", "m205"]))
        elif kind == "reverse":
            d = r.uniform(0.5, 10)
            self.move(x=p[0] + d, e=e)
            self.move(x=p[0], e=e)
        elif kind == "arc":
            import math
            rad = r.choice([0.5, 3, 10])
            a0 = r.uniform(0, 6.28)
            cx, cy = p[0] - rad * math.cos(a0), p[1] - rad * math.sin(a0)
            steps = r.randint(3, 7)
            for j in range(1, steps + 1):
                a = a0 + j * r.choice([0.2, 0.35])
                self.move(x=cx + rad * math.cos(a), y=cy + rad * math.sin(a), e=0.05)
        elif kind in ("retract", "e_only"):
            self.move(e=r.choice([-2, -0.5, 0.5, 2, 1.3]), f=r.choice([None, 1200, 2400]))
        elif kind == "zhop":
            self.move(z=max(0, p[2] + r.choice([0.2, 0.4, -0.2])))
        elif kind == "noop":
            self.move(x=p[0], y=p[1])
        elif kind == "feed_only":
            self.move(f=r.choice(self.speeds))
        elif kind == "dwell":
            self.emit(r.choice(["G4 P200", "G4 S0.5", "G4 P0", "G4 P30 S1", "G4 S1", "G04 P50"]))
        elif kind == "m204":
            words = [f"P{r.choice([50, 150, 800, 4000])}"] + r.choice([[], [], ["T1000"], ["R900"], ["S700"], ["R900", "T1000", "S20"], ["H3"]])
            r.shuffle(words)
            self.emit("M204 " + " ".join(words))
        elif kind == "m205":
            words = [f"X{r.choice([2, 8, 15])}"] + r.choice([[], [], ["Y8"], ["E5"], ["S0", "T0"], ["Y7", "Z0.4", "E4.5"], ["B20000", "J0.02"]])
            r.shuffle(words)
            self.emit("M205 " + " ".join(words))
        elif kind == "m203":
            if not self.m.inch:
                self.emit(f"M203 X{r.choice([100, 150])}" + r.choice(["", " Y120", " E25", " Z12 E20"]))
        elif kind == "unknown":
            self.emit(r.choice(["M106 S255", "M104 S210", "T0", "M140 S60", "M107", "G28", "G29"] + UNKNOWN))
        elif kind == "blank":
            self.emit(r.choice(["", " ", "   "]))
        elif kind == "comments":
            self.emit(r.choice(["; a comment", ";TYPE:WALL", ";  G1 X10 Y10 F500", "; " + self.cue + "D", ";", ";BEFORE_" + self.cue, ";" + self.cue.lower(), ";" + self.cue[:5]]))
        elif kind == "unicode":
            self.emit(r.choice(["; Gr\u00f6\u00dfe 0.2 mm", ";\u5c64 7", "; \u00b5-step \u2013 na\u00efve", "M106 S1 ; L\u00fcfter", ";\u00c4" + self.cue, "; 20 \u00b0C \u2603"]))
        elif kind == "relative":
            self.emit("G90" if not self.m.abs else "G91")
        elif kind == "rel_e":
            self.emit("M82" if not self.m.abs_e else "M83")
        elif kind == "inch":
            self.emit("G21" if self.m.inch else "G20")
        elif kind == "g92":
            self.emit(r.choice(["G92 E0", "G92 E0", "G92 X0 Y0", "G92 X5 E1", "G92 Z0.2", "G92 X-2.5 Y3 Z0 E0"]))
        elif kind == "multi":
            # a modal command and a move on one line
            first = r.choice(["G90", "G91", "M82", "M83"])
            m = self.m
            {"G90": lambda: setattr(m, "abs", True), "G91": lambda: setattr(m, "abs", False),
             "M82": lambda: setattr(m, "abs_e", True), "M83": lambda: setattr(m, "abs_e", False)}[first]()
            n0 = len(self.lines)
            self.move(x=r.uniform(0, ext), y=r.uniform(0, ext), e=e, f=fr)
            # the move was already executed by the machine; only its text gets the modal command in front
            for j in range(n0, len(self.lines)):
                self.lines[j] = first + " " + self.lines[j]
        else:
            raise AssertionError(kind)


def program(rng, setup, n=None, feats=None, extent=60.0):
    feats = features(rng) if feats is None else feats
    n = rng.randint(3, 22) if n is None else n
    return Program(rng, feats, setup, n, extent).build()


NUM = r"(\s*)([-+]?(?:\d+\.?\d*|\.\d+))"
MOVE = re.compile(r"G0*[01]\b|G0*92\b|G0*[01]\s*[XYZEF]|G0*92\s*[XYZE]")


def variant(rng, lines):
    """The same program with other values, line by line: expressible both as text and as edited states.

    Some variants keep the number of blocks and the end time (other extrusion, other directions, other comments), so that nothing but the contents
    of the states tells the two apart.
    """
    kind = rng.choice(["pace", "pace", "extrusion", "swap", "mirror", "comments"])
    flow = rng.choice([0.5, 1.3, 2])
    out = []
    for k, line in enumerate(lines):
        code, sep, comment = line.partition(";")
        if kind == "pace":
            code = re.sub(r"(F|M204 P|G4 P|G4 S)(\s*)(\d+\.?\d*)",
                          lambda m: m.group(1) + m.group(2) + f"{float(m.group(3)) * rng.choice([0.5, 1, 1, 1.7, 3]):.3f}", code)
        elif kind == "comments":
            if sep and CUE not in line.upper() and "LAYER" not in line.upper():
                comment = f"{comment} (edited {k})"
        elif MOVE.search(code):
            if kind == "extrusion":
                code = re.sub("E" + NUM, lambda m: f"E{m.group(1)}{float(m.group(2)) * flow:.6f}", code)
            elif kind == "swap":
                code = code.translate({ord("X"): "Y", ord("Y"): "X"})
            else:
                code = re.sub("X" + NUM, lambda m: f"X{m.group(1)}{-float(m.group(2)):.6f}", code)
        out.append(code + sep + comment)
    return out


def full_setup(pr, initial=None, cue=None):
    s = dict(pr)
    s.update(initial or {"X": 0, "Y": 0, "Z": 0, "E": 0})
    if cue is not None:
        s["layer_cue"] = cue
    return s


def presets_yaml(printers):
    """Presets file text for {name: printer dict}."""
    out = []
    for name, pr in printers.items():
        out.append(f"{name}:")
        for k, v in pr.items():
            out.append(f"  {k}: {v}")
    return "\n".join(out) + "\n"


def has_motion(lines, setup):
    st = refmodel.run_program(lines, setup)
    return any(a["pos"] != b["pos"] for a, b in zip(st, st[1:]))


def chunks(rng):
    kind = rng.random()
    if kind < 0.3:
        return [1]
    if kind < 0.6:
        return [rng.choice([1, 2, 3, 7, 16]) for _ in range(rng.randint(1, 6))]
    if kind < 0.8:
        return [rng.choice([1, 100, 4096, 8191, 8192]) for _ in range(rng.randint(1, 4))]
    return []


def shrink_lines(lines, setup, keep=None):
    """Candidates: the list with chunks removed, still containing motion."""
    n = len(lines)
    size = max(1, n // 2)
    while size >= 1:
        for i in range(0, n, size):
            cand = lines[:i] + lines[i + size:]
            if cand and (keep is None or keep(cand)) and has_motion(cand, setup):
                yield cand
        if size == 1:
            break
        size //= 2
