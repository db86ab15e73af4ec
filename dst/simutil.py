"""Drive the package: build setups and simulations, flatten trajectories, run exports."""

import contextlib
import json
import os
import pathlib
import traceback

from . import seams
from .core import Violation


class Api:
    """The package under test (imported from /repo once, before any run)."""

    def __init__(self):
        import pyGCodeDecode.abaqus_file_generator as abq
        import pyGCodeDecode.gcode_interpreter as gi
        import pyGCodeDecode.state_generator as sg
        import pyGCodeDecode.tools as tools

        self.gi, self.sg, self.tools, self.abq = gi, sg, tools, abq


API = None


def api():
    global API
    if API is None:
        API = Api()
    return API


def write(path, text, newline="\n"):
    """Write a file outside of the simulation (part of the scenario, not of the code under test)."""
    data = text if isinstance(text, bytes) else text.replace("\n", newline).encode("utf-8")
    fd = os.open(str(path), os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
    try:
        os.write(fd, data) if data else None
        os.utime(fd, (1.6e9, 1.6e9))  # (time stamps are coarse, and the clock may stand still)
    finally:
        os.close(fd)


def peek(path):
    with seams._real_open(str(path), "rb") as f:
        return f.read()


def read(path):
    """Contents of a file which the code under test has reported as written."""
    try:
        return peek(path)
    except FileNotFoundError:
        raise Violation("missing-output", f"{os.path.basename(str(path))} was not written although the call returned")


def read_yaml(path):
    """A YAML mapping which the code under test has reported as written."""
    import yaml

    try:
        doc = yaml.safe_load(read(path))
    except (yaml.YAMLError, UnicodeDecodeError) as e:
        raise Violation("unreadable-output", f"{os.path.basename(str(path))} is not YAML: {type(e).__name__}")
    if not isinstance(doc, dict):
        raise Violation("unreadable-output", f"{os.path.basename(str(path))} holds {doc!r:.80}, not a mapping")
    return doc


def program_text(lines):
    return "\n".join(lines) + "\n"


def scenario(ctx, name, lines, printers, newline="\n", sub=""):
    """Put a G-code file and a presets file into the scratch directory."""
    from . import workload

    d = pathlib.Path(ctx.scratch) / sub
    os.makedirs(d, exist_ok=True)
    g = d / f"{name}.gcode"
    p = d / f"{name}.yaml"
    write(g, program_text(lines), newline)
    write(p, workload.presets_yaml(printers))
    return g, p


def make_setup(presets, printer, initial=None, cue=None):
    s = api().gi.setup(presets_file=presets, printer=printer, layer_cue=cue)
    if initial:
        s.set_initial_position(dict(initial))
    return s


def make_sim(gcode, stp, unit="SImm"):
    return api().gi.simulation(gcode_path=gcode, initial_machine_setup=stp, output_unit_system=unit)


def build(ctx, plan, name="job", unit="SImm", sub=""):
    """Scenario + setup + simulation from the common plan keys gcode, printer, initial, cue."""
    g, p = scenario(ctx, name, plan["gcode"], {"printer": plan["printer"]}, sub=sub)
    return make_sim(g, make_setup(p, "printer", plan.get("initial"), plan.get("cue")), unit)


def vec(v, e=True):
    return [float(c) for c in v.get_vec(withExtrusion=e)]


def flat(sim_or_blocks):
    """All segments as plain lists [t0, t1, p0, p1, v0, v1]."""
    blocks = sim_or_blocks if isinstance(sim_or_blocks, list) else sim_or_blocks.blocklist
    out = []
    for b in blocks:
        for s in b.get_segments():
            out.append([float(s.t_begin), float(s.t_end), vec(s.pos_begin), vec(s.pos_end), vec(s.vel_begin), vec(s.vel_end)])
    return out


def flat_states(states):
    out = []
    for s in states:
        p = s.state_p_settings
        out.append({
            "pos": vec(s.state_position),
            "speed": p.speed,
            "acc": p.p_acc,
            "jerk": p.jerk,
            "lim": [p.vX, p.vY, p.vZ, p.vE],
            "pause": s.pause,
            "comment": s.comment,
            "line": s.line_number,
            "layer": s.layer,
        })
    return out


def t_end(sim):
    return float(sim.blocklist[-1].get_segments()[-1].t_end)


def attempt(f, *a, **k):
    """Result of a call as data: ("ok", value) or ("raise", type name). Only real errors, no interrupts."""
    try:
        return ["ok", f(*a, **k)]
    except Exception as e:
        return ["raise", type(e).__name__]


def must(what, f, *a, **k):
    """A call which has to succeed (fault free, valid workload)."""
    try:
        return f(*a, **k)
    except Violation:
        raise
    except Exception as e:
        raise Violation("error:" + what, f"{what} failed without any fault: {type(e).__name__}: {e}")


def ref_at(segs, t):
    """Reference evaluation of a flattened trajectory at time t: (velocity, position, segment)."""
    last = None
    for s in segs:
        if s[0] <= t < s[1]:
            last = s
            break
    if last is None and segs and t == segs[-1][1]:
        last = segs[-1]
    if last is None:
        return None
    t0, t1, p0, p1, v0, v1 = last
    dt = t1 - t0
    tau = t - t0
    a = [(y - x) / dt if dt > 0 else 0.0 for x, y in zip(v0, v1)]
    v = [x + k * tau for x, k in zip(v0, a)]
    p = [q + x * tau + k * tau * tau / 2 for q, x, k in zip(p0, v0, a)]
    return v, p, last


EXPORTS = ["summary", "layers", "events", "submodel"]


def export(sim, name, path, opt=None):
    """Run one export; returns its return value."""
    A, o = api(), opt or {}
    if name == "summary":
        return sim.save_summary(filepath=path)
    if name == "layers":
        return A.tools.save_layer_metrics(simulation=sim, filepath=path, locale=o.get("locale"), delimiter=o.get("delimiter", ";"))
    if name == "events":
        return A.abq.generate_abaqus_event_series(simulation=sim, filepath=str(path) if path is not None else None,
                                                  output_unit_system=o.get("unit"))
    if name == "submodel":
        b = o.get("box", [20, 20, 0.2, 21.3, 17.7, 1.1])
        return A.tools.write_submodel_times(sim, list(b[:3]), b[3], b[4], b[5], filename=path, **o.get("extra", {}))
    if name == "plot2d":
        return sim.plot_2d_position(filepath=path, dpi=20, colvar=o.get("colvar", "Velocity"), show_points=o.get("points", False),
                                    colvar_spatial_resolution=5)
    if name == "plotvel":
        r = sim.plot_vel(show=False, filepath=path, dpi=20, time_steps=o.get("steps", "constrained"),
                         show_segments=o.get("segments", False), show_jv=o.get("jv", False))
        return None if r is not None else None
    raise AssertionError(name)


def export_result(sim, name, path, opt=None):
    """Outcome of a fault-free export: kind, return value, file content."""
    r = attempt(export, sim, name, path, opt)
    try:
        content = peek(path)
    except FileNotFoundError:
        content = None
    if content is not None and name not in ("plot2d", "plotvel"):
        content = content.decode("utf-8", "replace")
    return [r, content]


def times_of(rng, segs, n, boundary=0.5):
    """Query times: random, exactly at segment boundaries, one ulp beside them, and the end."""
    import math

    te = segs[-1][1]
    out = []
    for _ in range(n):
        if rng.random() < boundary:
            s = rng.choice(segs)
            t = rng.choice([s[0], s[1], s[1], (s[0] + s[1]) / 2])
            t = rng.choice([t, t, t, math.nextafter(t, -1), math.nextafter(t, 1e9)])
        else:
            t = rng.uniform(0, te)
        out.append(min(max(t, 0.0), te))
    return out


def bundle(sim, times, where, tag, exports=EXPORTS, opts=None, box=None, unit=None):
    """Everything a user can ask from a simulation, as plain data."""
    opts = opts or {}
    out = {"values": [attempt(sim.get_values, t, unit) for t in times]}
    out["width"] = [attempt(sim.get_width, t, 0.2, 1.75) for t in times[:3]]
    out["extent"] = attempt(lambda: sim.extrusion_extent(unit).tolist())
    out["max_vel"] = attempt(lambda: float(sim.extrusion_max_vel(unit)))
    for e in exports:
        path = pathlib.Path(where) / f"{tag}_{e}.out"
        if os.path.exists(path):
            os.unlink(path)
        out[e] = export_result(sim, e, path, opts.get(e))
    return out


def isolated(fn):
    """Run fn in a forked copy of this process and return its (JSON-able) result: a pristine process for baselines."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                res = {"ok": fn()}
            except Violation as v:
                res = {"violation": [v.cls, v.message]}
            except BaseException as e:
                import traceback

                from .runner import in_package

                where = in_package(e) if isinstance(e, Exception) else None
                if where:
                    res = {"violation": ["error:" + type(e).__name__, f"{where}: {type(e).__name__}: {e}"[:2000]]}
                else:
                    res = {"error": traceback.format_exc(), "type": type(e).__name__, "text": str(e)}
            with os.fdopen(w, "wb") as f:
                f.write(json.dumps(res).encode())
        except BaseException:
            code = 70
        finally:
            os._exit(code)
    os.close(w)
    data = b""
    while True:
        piece = os.read(r, 1 << 16)
        if not piece:
            break
        data += piece
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if not data:
        return {"died": status}
    return json.loads(data)


class Pristine:
    """Calls fn in copies of the process as it is now: nothing done in between can influence the results (JSON-able, as the arguments)."""

    def __init__(self, fn):
        ask, self.ask = os.pipe()
        self.answer, answer = os.pipe()
        if os.fork() == 0:
            try:
                os.close(self.ask)
                os.close(self.answer)
                with os.fdopen(ask, "rb") as f, os.fdopen(answer, "wb") as g:
                    for line in f:
                        args = json.loads(line)
                        g.write(json.dumps(isolated(lambda: fn(*args))).encode() + b"\n")
                        g.flush()
            finally:
                os._exit(0)
        os.close(ask)
        os.close(answer)
        self.lines = os.fdopen(self.answer, "rb")

    def __call__(self, *args):
        data = json.dumps(args).encode() + b"\n"
        while data:
            data = data[os.write(self.ask, data):]
        return result("reference", json.loads(self.lines.readline()))


def baseline(what, fn):
    """Fault-free isolated reference; a failure of a valid workload is a violation."""
    return result(what, isolated(fn))


def result(what, res):
    from .core import HarnessError

    if "ok" in res:
        return res["ok"]
    if "violation" in res:
        raise Violation(*res["violation"])
    if "error" in res:
        raise HarnessError(what + ": " + res["error"])
    raise Violation("process-crash", f"{what}: the process died with status {res}")


@contextlib.contextmanager
def readable(what):
    """Interpretation of what the package returned or wrote: data of the wrong shape or type is a violation, not an error of the harness."""
    try:
        yield
    except (ValueError, TypeError, LookupError, AttributeError) as e:
        where = traceback.extract_tb(e.__traceback__)[-1]
        raise Violation("unreadable-result", f"{what}: {type(e).__name__}: {e} ({where.name}: {where.line})"[:1000])


def isolated_copy(fn, directory):
    """Run fn in a forked process; the directory is put back to what it was before."""
    import shutil

    from .core import HarnessError

    save = str(directory) + ".saved"
    shutil.copytree(directory, save)
    cwd = os.getcwd()
    res = isolated(fn)
    os.chdir("/")
    shutil.rmtree(directory)
    os.rename(save, directory)
    os.chdir(cwd)
    if "ok" not in res:
        raise HarnessError(str(res))
    return res["ok"]


def plain(o):
    """JSON-able copy, floats exact (repr round trip)."""
    import numpy as np

    if isinstance(o, dict):
        return {str(k): plain(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [plain(v) for v in o]
    if isinstance(o, np.ndarray):
        return plain(o.tolist())
    if isinstance(o, np.bool_):
        return bool(o)
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, (float, np.floating)):
        return float(o)
    if isinstance(o, bytes):
        import hashlib

        return "bytes:" + hashlib.sha256(o).hexdigest()
    if isinstance(o, (str, int, bool)) or o is None:
        return o
    return f"<{type(o).__name__}>"
