"""C12: the plot command reports success only for a complete run on the right input."""

import builtins
import locale
import os
import pathlib
import resource
import sys

from .. import seams, simutil as su, workload
from ..core import PKG, HarnessError, Violation, close
from . import common

RUNS = {"quick": 4000, "thorough": 120000}
RULE = ("one case: a working directory with seeded G-code files, decoys and directories, a seeded command line (file, presets, printer, layer "
        "cue, output directory named or not, existing or not, usable or not), answers or end of input at the prompt, display and locale "
        "available or not (or one of the examples instead), and possibly one fault: open, read, write, close, mkdir, disk full (also for native VTK code), console, "
        "interruption. The command's exit status, the simulation it ran and all files are compared with a reference. "
        "Non-trivial: every case.")
REAL = common.REAL_ALL + ["argparse, pathlib globbing", "pyvista/VTK mesh generation and native VTK writer"]
STUBS = ["pyvista.Plotter (rendering; its screenshot writes a stand-in file)", "keyboard input", "locale availability (en_US.utf8 is not installed here)",
         "raw file layer", "order of directory listings", "console (captured)", "file size limit of the operating system as disk full for native code"]
ASSUMPTIONS = common.ASSUME + ["exit status as set by the installed pygcd script: sys.exit(_main())",
                               "the G-code of run_example (git LFS pointers in this checkout) is replaced by generated programs"]

FAULTS = {
    "open": ["EACCES", "EMFILE", "ENOSPC", "ENOENT", "INT"],
    "read": ["EIO", "ESTALE", "INT"],
    "write": ["ENOSPC", "EIO", "EDQUOT", "INT"],
    "close": ["EIO", "ENOSPC"],
    "mkdir": ["EACCES", "ENOSPC", "EROFS"],
    "screenshot": ["EIO", "NOMEM"],
}
NAMES = ["part", "my part", "a.b", "UPPER", "x-1_2", "part.gcode"]


def gen(rng, tier, i):
    def job():
        return common.base_plan(rng, n=rng.randint(2, 7), layers=True, feats=None)

    plan = {"jobs": [job() for _ in range(rng.choice([1, 1, 1, 2, 3]))]}
    names = rng.sample(NAMES, len(plan["jobs"]))
    # where the programs are: in the working directory or elsewhere
    plan["files"] = [{"name": n, "dir": rng.choice(["", "", "sub", "../other"])} for n in names]
    plan["decoys"] = rng.sample(["x.GCODE", "old.gcode.bak", "gcode", "notes.txt", "sub/inner.gcode", "../up.gcode"], rng.randint(0, 3))
    plan["dirnamed"] = rng.random() < 0.04  # a directory called like a G-code file
    r = rng.random()
    plan["gcode"] = (["named", rng.randrange(len(names)), rng.random() < 0.5] if r < 0.5 else ["none"] if r < 0.9 else
                     ["bad", rng.choice(["missing.gcode", "sub", "../nowhere/part.gcode", ""])] if r < 0.97 else ["empty"])
    r = rng.random()
    plan["presets"] = "own" if r < 0.5 else "default" if r < 0.9 else rng.choice(["missing", "directory", "torn"])
    plan["printer_name"] = (rng.choice(["p0", "p0", "p1"]) if plan["presets"] != "default" else
                            rng.choice([None, None, "anisoprint_a4", "prusa_mini", "debugging", "prusa_mini_klipper"]))
    if rng.random() < 0.06:
        plan["printer_name"] = rng.choice(["nobody", "anisoprint", "P0"])
    plan["cue"] = rng.choice([None, workload.CUE, workload.CUE])
    plan["out"] = rng.choice([None, None, None, "out", "out", "a/b/c", "../outside", "exists", "exists", "file", "abs"])
    plan["answers"] = rng.choice([["y"], ["yes"], ["n"], ["no"], ["Y"], ["NO"], ["", "maybe", "y"], ["what", "n"], ["EOF"], ["", "EOF"], ["INT"]])
    plan["display"] = rng.random() < 0.5
    plan["locale_ok"] = rng.random() < 0.8
    plan["listing"] = rng.getrandbits(16)
    plan["vtk_dir"] = rng.random() < 0.03
    plan["example"] = rng.choice(["benchy", "benchy", "brace"]) if rng.random() < 0.12 else None
    if plan["example"]:  # these have no options
        plan.update(gcode=["named", 0, False], presets="default", printer_name=None, cue=None, out=None, decoys=[], dirnamed=False)
        plan["stale"] = rng.random() < 0.3
    r = rng.random()
    if r < 0.45:
        plan["fault"] = None
    elif r < 0.8:
        op = rng.choice(["open", "read", "write", "write", "close", "mkdir", "screenshot"])
        plan["fault"] = {"op": op, "at": round(rng.random(), 6), "kind": rng.choice(FAULTS[op]), "sticky": rng.random() < 0.3}
    elif r < 0.88:
        plan["fault"] = {"op": "fsize", "n": rng.choice([0, 50, 200, 1000, 4000, 100000])}
    elif r < 0.94:
        plan["fault"] = {"op": "call", "at": round(rng.random(), 6), "kind": rng.choice(["INT", "NOMEM"])}
    else:
        plan["fault"] = {"op": "console", "at": round(rng.random(), 6), "kind": rng.choice(["EPIPE", "ENCODE", "CLOSED"]), "sticky": rng.random() < 0.5}
    return plan


class Plotter:
    """Stand-in for the renderer."""

    calls = []
    fault = None

    def __init__(self, off_screen=None, **k):
        Plotter.calls.append(["plotter", bool(off_screen)])

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: None

    def screenshot(self, filename=None, **k):
        if Plotter.fault:
            kind, Plotter.fault = Plotter.fault, None
            Plotter.ctx.fault(kind + "@screenshot")
            Plotter.calls.append(["fault"])
            raise seams.make_fault(kind, filename)
        Plotter.calls.append(["screenshot", str(filename)])
        with open(filename, "wb") as f:
            f.write(b"picture\n" * 20)

    def show(self, *a, **k):
        Plotter.calls.append(["show"])


def tree(root):
    out = {}
    for d, dirs, files in os.walk(root):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(d, f)
            out[os.path.relpath(p, root)] = su.read(p)
    return out


def place(plan, ctx):
    """Create the working directory; returns the path of each job's G-code file (relative to the working directory)."""
    top = os.path.join(ctx.scratch, "w")
    cwd = os.path.join(top, "cwd")
    os.makedirs(os.path.join(cwd, "sub"))
    os.makedirs(os.path.join(top, "other"))
    rel = []
    for f, j in zip(plan["files"], plan["jobs"]):
        p = os.path.join(f["dir"], f["name"] + ".gcode")
        su.write(os.path.join(cwd, p), su.program_text(j["gcode"]))
        rel.append(p)
    for d in plan["decoys"]:
        if not os.path.exists(os.path.join(cwd, d)):
            su.write(os.path.join(cwd, d), "G1 X1 Y2 E3 F600\n")
    if plan["dirnamed"]:
        os.makedirs(os.path.join(cwd, "directory.gcode"))
    su.write(os.path.join(cwd, "presets.yaml"), workload.presets_yaml({"p0": plan["jobs"][0]["printer"], "p1": plan["jobs"][-1]["printer"]}))
    su.write(os.path.join(cwd, "torn.yaml"), "p0: {p_vel: [35, 2\n")
    os.makedirs(os.path.join(cwd, "exists"))
    su.write(os.path.join(cwd, "exists", "old.txt"), "keep me\n")
    for f in plan["files"]:
        for end in ("_summary.yaml", "_layer_metrics.csv", ".vtk", ".png"):
            if not (plan["vtk_dir"] and end == ".vtk"):
                su.write(os.path.join(cwd, "exists", f["name"] + end), "stale content " * 30)
    su.write(os.path.join(cwd, "file"), "not a directory\n")
    if plan.get("example"):
        su.write(os.path.join(ctx.scratch, plan["example"] + ".gcode"), su.program_text(plan["jobs"][0]["gcode"]))
        if plan["stale"]:
            os.makedirs(os.path.join(cwd, "output_benchy_example"))
            for n in ("_summary.yaml", "_layer_metrics.csv", ".vtk", ".png", "_prusa_mini_event_series.csv"):
                if not (plan["vtk_dir"] and n == ".vtk"):
                    su.write(os.path.join(cwd, "output_benchy_example", "benchy" + n), "stale content " * 30)
    return top, cwd, rel


def expectation(plan, cwd, rel):
    """The run that has to happen: (gcode path, presets, printer, cue, output directory or None), or why it must not succeed."""
    why = []
    if plan.get("example") == "benchy":
        return EXAMPLE + "benchy.gcode", EXAMPLE + "printer_presets.yaml", "prusa_mini", os.path.join(cwd, "output_benchy_example"), False, \
            [] if plan["locale_ok"] else ["the locale is not available"]
    if plan.get("example") == "brace":
        return EXAMPLE + "brace.gcode", PKG + "data/default_printer_presets.yaml", "anisoprint_a4", None, True, []
    g = plan["gcode"]
    gcode = None
    if g[0] == "named":
        gcode = os.path.join(cwd, rel[g[1]])
    elif g[0] == "bad":
        why.append("the named G-code file does not exist")
    else:
        here = [f for f in os.listdir(cwd) if f.endswith(".gcode") and os.path.isfile(os.path.join(cwd, f))]
        if len(here) == 1:
            gcode = os.path.join(cwd, here[0])
        else:
            why.append(f"{len(here)} G-code files in the working directory")
    presets = {"own": os.path.join(cwd, "presets.yaml"), "default": PKG + "data/default_printer_presets.yaml"}.get(plan["presets"])
    if presets is None:
        why.append(f"the presets file is {plan['presets']}")
    printer = plan["printer_name"] or "anisoprint_a4"
    if presets is not None and printer not in (["p0", "p1"] if plan["presets"] == "own" else
                                               ["anisoprint_a4", "prusa_mini", "prusa_mini_klipper", "debugging"]):
        why.append("the printer is unknown")
    out = plan["out"]
    declined = False
    if out is None:
        a = next((x for x in plan["answers"] if x.lower() in ("y", "yes", "n", "no", "eof", "int")), "EOF")
        if a.lower() in ("n", "no"):
            declined = True
        elif a.lower() in ("y", "yes"):
            out = os.path.join(cwd, "output_" + pathlib.Path(gcode).stem) if gcode else None
        else:
            why.append("no answer at the prompt")
    elif out == "file":
        why.append("the output directory is a file")
    elif out == "abs":
        out = os.path.join(cwd, "absolute")
    else:
        out = os.path.join(cwd, out)
    if out is not None and not declined and plan["cue"] and not plan["locale_ok"]:
        why.append("the locale is not available")
    return gcode, presets, printer, (None if declined else out), declined, why


def cue_of(plan):
    return "LAYER_CHANGE" if plan.get("example") == "benchy" else plan["cue"]


def argv(plan, cwd, rel):
    if plan.get("example"):
        return ["pygcd", "run_example", plan["example"]]
    a = ["pygcd", "plot"]
    g = plan["gcode"]
    if g[0] == "named":
        a += ["-g", os.path.join(cwd, rel[g[1]]) if g[2] else rel[g[1]]]
    elif g[0] == "bad":
        a += ["--gcode", g[1]]
    elif g[0] == "empty":
        a += ["-g"]
    if plan["presets"] != "default":
        a += ["-p", {"own": "presets.yaml", "missing": "nothing.yaml", "directory": "sub", "torn": "torn.yaml"}[plan["presets"]]]
    if plan["printer_name"]:
        a += ["-pn", plan["printer_name"]]
    if plan["cue"]:
        a += ["-lc", plan["cue"]]
    if plan["out"]:
        a += ["-o", os.path.join(cwd, "absolute") if plan["out"] == "abs" else plan["out"]]
    return a


def execute(plan, ctx):
    import pyvista

    console = seams.SimConsole(ctx)
    top, cwd, rel = place(plan, ctx)
    os.chdir(cwd)
    gcode, presets, printer, out, declined, why = expectation(plan, cwd, rel)
    A = su.api()
    A.gi.pv.Plotter = pyvista.Plotter = Plotter
    if plan["display"]:
        os.environ["DISPLAY"] = ":0"
    else:
        os.environ.pop("DISPLAY", None)
    real_setlocale = locale.setlocale

    def setlocale(category, name=None):
        if isinstance(name, str) and name.lower().startswith("en_us"):
            if not plan["locale_ok"]:
                raise locale.Error("unsupported locale setting")
            name = "C.utf8"
        return real_setlocale(category, name)

    locale.setlocale = setlocale
    real_scandir = os.scandir

    class listing:
        def __init__(self, entries):
            self.it = iter(entries)

        def __iter__(self):
            return self

        def __next__(self):
            return next(self.it)

        def close(self):
            self.it = iter(())

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()

    def scandir(path="."):
        with real_scandir(path) as it:
            entries = sorted(it, key=lambda e: (hash_of(plan["listing"], e.name)))
        return listing(entries)

    os.scandir = scandir
    real_listdir = os.listdir
    os.listdir = lambda path=".": sorted(real_listdir(path), key=lambda n: hash_of(plan["listing"], n))
    if plan["vtk_dir"] and out is not None and gcode and plan["out"] != "file":
        os.makedirs(os.path.join(out, pathlib.Path(gcode).stem + ".vtk"))
        why = why + ["the VTK file is a directory"]

    with seams.sim_console(console):
        quiet_native()
        want = None
        if not [w for w in why if not w.startswith(("the locale", "the VTK", "no answer", "the output"))]:
            want = su.baseline("reference", lambda: reference(plan, ctx, gcode, presets, printer))
            if want["summary"] is None and not declined:
                why = why + ["nothing is extruded"]
            if want["mesh"] is None:
                why = why + ["there is nothing to plot"]
        run(plan, ctx, console, top, cwd, rel, gcode, out, declined, why, want)


def hash_of(seed, name):
    import hashlib

    return hashlib.sha256(f"{seed}/{name}".encode()).hexdigest()


def quiet_native():
    """Native code complains on file descriptor 2."""
    import logging

    logging.disable(logging.CRITICAL)
    fd = os.open("/dev/null", os.O_WRONLY)
    os.dup2(fd, 2)
    os.close(fd)


def reference(plan, ctx, gcode, presets, printer):
    """States, trajectory and reports of the run that has to happen, computed outside of the command."""
    A = su.api()
    s = A.gi.setup(presets_file=presets, printer=printer, layer_cue=cue_of(plan))
    if plan.get("example"):
        gcode = os.path.join(ctx.scratch, plan["example"] + ".gcode")
    sim = su.make_sim(pathlib.Path(gcode), s)
    d = os.path.join(ctx.scratch, "reference")
    os.makedirs(d)
    out = {"trajectory": su.flat(sim), "states": su.flat_states(sim.states), "summary": None, "layers": None, "mesh": None, "events": None}
    import yaml

    p = os.path.join(d, "summary")
    if su.attempt(sim.save_summary, filepath=p)[0] == "ok":
        out["summary"] = su.read_yaml(p)
    if plan.get("example") == "benchy":
        p = os.path.join(d, "events")
        A.abq.generate_abaqus_event_series(simulation=sim, filepath=p)
        out["events"] = su.read(p).hex()
    if cue_of(plan):
        p = os.path.join(d, "layers")
        A.tools.save_layer_metrics(simulation=sim, filepath=p, locale="C", delimiter=",")
        out["layers"] = su.read(p).hex()
    p = os.path.join(d, "mesh.vtk")
    if su.attempt(sim.plot_3d, vtk_path=p)[0] == "ok":
        out["mesh"] = su.read(p).hex()
    return out


def simfs(plan, ctx, top):
    fs = seams.SimFS(ctx, [top, PKG + "data", PKG + "examples/data"])
    if plan.get("example"):
        n = plan["example"] + ".gcode"
        fs.overlay = {os.path.realpath(EXAMPLE + n): os.path.join(ctx.scratch, n)}
    return fs


def run(plan, ctx, console, top, cwd, rel, gcode, out, declined, why, want):
    import pyGCodeDecode.cli as cli

    A = su.api()
    sims = []
    init = A.gi.simulation.__init__

    def recording(self, *a, **k):
        init(self, *a, **k)
        sims.append(self)

    A.gi.simulation.__init__ = recording
    answers = list(plan["answers"])
    asked = []

    def answer(prompt=""):
        asked.append(prompt)
        a = answers.pop(0) if answers else "EOF"
        if a == "EOF":
            ctx.fault("end of input")
            raise EOFError("EOF when reading a line")
        if a == "INT":
            ctx.fault("INT@prompt")
            raise KeyboardInterrupt
        return a

    builtins.input = answer

    def command():
        sys.argv = argv(plan, cwd, rel)
        try:
            r = cli._main()
            code = r if isinstance(r, int) else (0 if r is None else 1)
            return [code, "returned"]
        except SystemExit as e:
            c = e.code
            return [0 if c is None else (c if isinstance(c, int) else 1), "exit"]
        except (Exception, KeyboardInterrupt) as e:
            return [1, f"{type(e).__name__}: {e}"]

    fs = simfs(plan, ctx, top)
    fault = plan["fault"]
    before = tree(top)
    ctx.mark("command", argv(plan, cwd, rel)[2:], plan["answers"], plan["display"], plan["locale_ok"], sorted(before))
    faults, k, limit = [], -1, None
    if fault:
        if fault["op"] in ("fsize", "screenshot"):
            limit = fault.get("n")
            Plotter.fault = fault.get("kind")
        else:
            def dry():
                f = simfs(plan, ctx, top)
                f.quiet = True
                n = console.n
                with seams.sim_files(f), seams.Interrupter(ctx, -1, "INT") as it:
                    command()
                return [f.counts, it.n, console.n - n]

            r = su.isolated_copy(dry, top)
            counts, calls, lines = r
            if fault["op"] == "call":
                k = int(fault["at"] * calls)
            elif fault["op"] == "console":
                console.plan = {"faults": [{"n": console.n + int(fault["at"] * lines), "kind": fault["kind"], "sticky": fault["sticky"]}]}
            else:
                faults = [{"op": fault["op"], "n": int(fault["at"] * counts.get(fault["op"], 0)), "kind": fault["kind"], "sticky": fault["sticky"]}]
    fs.reset({"faults": faults})
    Plotter.calls = []
    Plotter.ctx = ctx
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    with seams.sim_files(fs), seams.Interrupter(ctx, k, fault["kind"] if k >= 0 else "INT", CALLS) as it:
        if limit is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
        try:
            status, how = command()
        finally:
            if limit is not None:
                resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
    ctx.log("status", status, how.split(":")[0], fs.fired, it.fired, console.fired, len(asked))
    if limit is not None:
        ctx.fault("disk full (also native)")
    console.plan = {}
    after = tree(top)
    ctx.nontrivial = True
    fired = bool(fs.fired or it.fired or console.fired or ["fault"] in Plotter.calls or limit is not None)
    left = [os.path.basename(str(h.name)) for h in fs.open_handles()]
    cmd = " ".join(sys.argv) + f" (answers {plan['answers']})"

    if declined and after != before:
        raise Violation("wrote-although-declined", f"{cmd}: {sorted(set(after) - set(before)) or 'changed files'}")
    if status != 0:
        if not why and not fired and not plan["dirnamed"]:
            raise Violation("spurious-failure", f"{cmd}: {how}")
        ctx.count("probe:failure status")
        return
    # success: everything has to be right
    if why:
        raise Violation("success-despite", f"{cmd} ended successfully, but {', '.join(why)}")
    ctx.count("probe:success status")
    if left:
        raise Violation("handle-left-open", str(left))
    if not sims:
        raise Violation("nothing-simulated", f"{cmd} ended successfully without a simulation")
    d = close([su.flat(sims[-1]), su.flat_states(sims[-1].states)], [want["trajectory"], want["states"]], 0, 0)
    if d:
        raise Violation("wrong-input", f"{cmd}: the simulation is not that of {os.path.basename(gcode)} with the named settings: {d}")
    if bool(out is None) != bool(declined):
        raise HarnessError("expectation")
    if out is None:
        return
    stem = pathlib.Path(gcode).stem
    new = {n: c for n, c in after.items() if before.get(n) != c}
    reported = {}
    for end in ("_summary.yaml", "_layer_metrics.csv", ".vtk", ".png"):
        n = os.path.relpath(os.path.join(out, stem + end), top)
        reported[end] = after.get(n) if before.get(n) != after.get(n) else None
        new.pop(n, None)
    if [n for n in new if not n.startswith(os.path.relpath(out, top) + os.sep)]:
        raise Violation("wrong-place", f"{cmd}: wrote {sorted(new)}")
    gone = [n for n in before if n not in after]
    if gone:
        raise Violation("deleted", f"{cmd}: {gone} is gone")
    import yaml

    try:
        doc = yaml.safe_load(reported["_summary.yaml"]) if reported["_summary.yaml"] else None
    except (yaml.YAMLError, UnicodeDecodeError):
        doc = None
    if not isinstance(doc, dict):
        raise Violation("incomplete-output", f"{cmd} ended successfully ({fs.fired}) without a complete summary")
    got = dict(doc)
    ref = dict(want["summary"])
    name = got.pop("filename", None)
    ref.pop("filename")
    d = close(got, ref, 0, 0)
    if d:
        raise Violation("incomplete-output", f"{cmd}: summary: {d}")
    if os.path.realpath(os.path.join(cwd, str(name))) != os.path.realpath(gcode):
        raise Violation("wrong-input", f"{cmd}: the summary names {name}")
    if cue_of(plan) and (reported["_layer_metrics.csv"] or b"").hex() != want["layers"]:
        raise Violation("incomplete-output", f"{cmd} ended successfully ({fs.fired}), layer metrics: {reported['_layer_metrics.csv']!r}"[:600])
    if (reported[".vtk"] or b"").hex() != want["mesh"]:
        raise Violation("incomplete-output", f"{cmd} ended successfully, the VTK file has {len(reported['.vtk'] or b'')} bytes instead of {len(want['mesh']) // 2}")
    if want["events"] is not None:
        n = os.path.relpath(os.path.join(out, "benchy_prusa_mini_event_series.csv"), top)
        if (after.get(n) or b"").hex() != want["events"]:
            raise Violation("incomplete-output", f"{cmd} ended successfully ({fs.fired}), event series: {after.get(n)!r}"[:600])
    if plan["display"]:
        shots = [c[1] for c in Plotter.calls if c[0] == "screenshot"]
        if not shots or reported[".png"] != b"picture\n" * 20:
            raise Violation("incomplete-output", f"{cmd} ended successfully without a picture ({Plotter.calls})")
    ctx.count("probe:outputs compared")
    ctx.simtime += want["trajectory"][-1][1]


CALLS = None
EXAMPLE = PKG + "examples/data/"


def shrinks(plan):
    f = plan["fault"]
    if f:
        yield {**plan, "fault": None}
        if f.get("sticky"):
            yield {**plan, "fault": {**f, "sticky": False}}
    n = len(plan["jobs"])
    if n > 1 and not (plan["gcode"][0] == "named" and plan["gcode"][1] == n - 1):
        yield {**plan, "jobs": plan["jobs"][:-1], "files": plan["files"][:-1]}
    for c in common.shrink_list(plan["decoys"]):
        yield {**plan, "decoys": c}
    for key, v in (("dirnamed", False), ("vtk_dir", False), ("display", False), ("locale_ok", True), ("listing", 0), ("cue", None)):
        if plan[key] != v:
            yield {**plan, key: v}
    for i, j in enumerate(plan["jobs"]):
        for g in workload.shrink_lines(j["gcode"], common.setup_of(j)):
            yield {**plan, "jobs": plan["jobs"][:i] + [{**j, "gcode": g}] + plan["jobs"][i + 1:]}
    if plan.get("example"):
        if plan["stale"]:
            yield {**plan, "stale": False}
        return
    for i, x in enumerate(plan["files"]):
        if x["name"] != "p" and all(y["name"] != "p" for y in plan["files"]):
            yield {**plan, "files": plan["files"][:i] + [{**x, "name": "p"}] + plan["files"][i + 1:]}
