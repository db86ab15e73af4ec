"""C06: a simulation is a snapshot of its setup; setups and simulations do not influence each other."""

import os
import pathlib

from .. import seams, simutil as su, workload
from ..core import Violation, close
from . import common

RUNS = {"quick": 3000, "thorough": 100000}
RULE = ("one case: a presets file with several printers and a seeded history of operations on several setups and simulations sharing it "
        "(set properties, initial positions, printers, layer cues, mutate returned and passed-in dictionaries, rewrite, truncate or delete "
        "the files, create, refresh, query and export simulations, failing creations). After every operation each setup equals its model and "
        "each simulation its fingerprint. Non-trivial: a setup, its dictionaries or files changed while a simulation existed.")
REAL = common.REAL_ALL
STUBS = ["files changed by others between operations", "console (captured)"]
ASSUMPTIONS = common.ASSUME + ["the caller edits only setups, dictionaries and files, not the internals of simulations"]

NUM = {"p_vel": [10, 25, 80], "p_acc": [60, 700, 3000], "jerk": [2, 7, 30], "vX": [50, 200], "vE": [5, 90]}
SCALE = {"SI": 1e3, "SImm": 1.0, "inch": 25.4, None: 1.0}


def gen(rng, tier, i):
    plan = {"printers": {n: workload.printer(rng) for n in rng.sample(["alpha", "beta", "gamma"], rng.randint(1, 3))}}
    pr = next(iter(plan["printers"].values()))
    setup = workload.full_setup(pr, None, workload.CUE)
    plan["gcodes"] = [workload.program(rng, setup, n=rng.randint(2, 9), feats=workload.features(rng) + ["layers"])
                      for _ in range(rng.randint(1, 2))]
    if len(plan["gcodes"]) > 1 and rng.random() < 0.5:
        plan["gcodes"][1] = workload.variant(rng, plan["gcodes"][0])
    if len(plan["gcodes"]) > 1:
        # (files of the same size, so that only reading them tells them apart)
        size = [len(su.program_text(g).encode()) for g in plan["gcodes"]]
        for g, n in zip(plan["gcodes"], size):
            g[-1] += " " * (max(size) - n)
    # what the files hold after somebody exchanged them
    plan["printers2"] = {n: {k: v if k == "firmware" else round(v * 0.8, 4) for k, v in p.items()} for n, p in plan["printers"].items()}
    ops = [["setup", 0, 0, rng.choice([None, workload.CUE])], ["sim", 0, 0]]
    for _ in range(rng.randint(2, 12)):
        k, r = rng.randrange(3), rng.random()
        if r < 0.10:
            ops.append(["setup", k, rng.randrange(3), rng.choice([None, workload.CUE, "OTHER"])])
        elif r < 0.25:
            ops.append(["sim", k, rng.randrange(2)])
        elif r < 0.37:
            key = rng.choice(list(NUM))
            ops.append(["set", k, {key: rng.choice(NUM[key])}])
        elif r < 0.42:
            ops.append(["set", k, {rng.choice(["firmware"]): rng.choice(workload.FIRMWARES)}])
        elif r < 0.46:
            ops.append(["set", k, {"layer_cue": rng.choice([workload.CUE, "OTHER"])}])
        elif r < 0.58:
            ops.append(["pos", k, rng.choice(["dict", "tuple"]), [rng.choice([0, 1.5, -3, 12]) for _ in range(4)],
                        rng.choice([None, None, "SImm", "inch", "SI"])])
        elif r < 0.64:
            ops.append(["select", k, rng.randrange(4)])
        elif r < 0.72:
            ops.append(["mutate_dict", k, rng.choice(["p_acc", "X", "layer_cue", "firmware", "clear"])])
        elif r < 0.76:
            ops.append(["mutate_arg", k])
        elif r < 0.80:
            ops.append(["cue", k, rng.choice([None, workload.CUE, "OTHER"])])
        elif r < 0.87:
            ops.append(["file", rng.choice(["presets", "gcode"]), rng.choice(["rewrite", "truncate", "delete", "restore", "exchange", "exchange"])])
        elif r < 0.92:
            ops.append([rng.choice(["refresh", "edit"]), rng.randrange(4)])
        elif r < 0.96:
            ops.append(["export", rng.randrange(4), rng.choice(su.EXPORTS)])
        else:
            ops.append(["badset", k, rng.choice(["pos", "printer", "key", "value", "tuple", "unit"]), rng.choice("XYZE")])
    plan["ops"] = ops
    plan["times"] = [common.time_spec(rng) for _ in range(3)]
    plan["final"] = rng.random() < 0.5
    return plan


def fingerprint(sim, plan, ctx, full=False):
    segs = su.flat(sim)
    out = {"trajectory": segs, "states": su.flat_states(sim.states)}
    b = su.bundle(sim, [common.resolve(t, segs) for t in plan["times"]], ctx.scratch, "fp", exports=su.EXPORTS if full else ["layers"])
    out.update(b)
    return out


def execute(plan, ctx):
    with seams.sim_console(seams.SimConsole(ctx)):
        _execute(plan, ctx)


def _execute(plan, ctx):
    A = su.api()
    d = pathlib.Path(ctx.scratch)
    presets = d / "presets.yaml"
    files = [d / f"g{k}.gcode" for k in range(len(plan["gcodes"]))]

    disk = {}  # what the files hold

    def restore(other=False):
        disk["printers"] = plan["printers2" if other else "printers"]
        disk["gcodes"] = plan["gcodes"][::-1] if other else plan["gcodes"]
        texts = [workload.presets_yaml(plan[k]) for k in ("printers", "printers2")]
        text = texts[int(other)]
        su.write(presets, text + "#" * (max(map(len, texts)) - len(text)) + "\n")
        for f, g in zip(files, disk["gcodes"]):
            su.write(f, su.program_text(g))

    def alone(name, pname, md, cue, pos, lines):
        """What a simulation has to be: simulated from the model alone, in its own files."""
        ref_dir = d / name
        os.makedirs(ref_dir, exist_ok=True)
        su.write(ref_dir / "p.yaml", workload.presets_yaml({pname: md}))
        su.write(ref_dir / "g.gcode", su.program_text(lines))
        rs = A.gi.setup(presets_file=ref_dir / "p.yaml", printer=pname, layer_cue=cue)
        rs.set_initial_position(pos)
        return su.plain(fingerprint(su.must("simulation", su.make_sim, ref_dir / "g.gcode", rs), plan, ctx))

    restore()
    pristine = su.Pristine(alone)
    names = list(plan["printers"])
    setups, models, sims, prints = [], [], [], []
    args = {}  # the last dictionary passed to each setup

    def model_dict(m):
        out = dict(m["printers"][m["printer"]])
        out.update(m["pos"])
        if m["cue"] is not None:
            out["layer_cue"] = m["cue"]
        out["printer_name"] = m["printer"]
        return out

    def check(what):
        for k, (s, m) in enumerate(zip(setups, models)):
            diff = close(su.plain(s.get_dict()), su.plain(model_dict(m)))
            if diff:
                raise Violation("setup-changed", f"{what}: setup {k}: {diff}")
        for k, (s, p) in enumerate(zip(sims, prints)):
            got = fingerprint(s, plan, ctx)
            for key in got:
                diff = close(got[key], p[key], 0, 0)
                if diff:
                    raise Violation("simulation-changed", f"{what}: simulation {k}: {key} {diff}")

    torn = set()
    for j, op in enumerate(plan["ops"]):
        what = f"op {j} {op}"
        kind = op[0]
        if kind == "setup":
            if len(setups) >= 3 or "presets" in torn:
                continue
            name = names[op[2] % len(names)]
            s = su.must("setup", A.gi.setup, presets_file=presets, printer=name, layer_cue=op[3])
            setups.append(s)
            models.append({"printers": {n: dict(p) for n, p in disk["printers"].items()}, "printer": name, "cue": op[3],
                           "pos": {"X": 0, "Y": 0, "Z": 0, "E": 0}})
        elif kind == "sim":
            k = op[1] % len(setups)
            g = op[2] % len(files)
            if len(sims) >= 4 or "gcode" in torn:
                continue
            lines = disk["gcodes"][g]
            if not workload.has_motion(lines, model_dict(models[k])):
                continue
            sim = su.must("simulation", su.make_sim, files[g], setups[k])
            name = f"ref{j}"
            md = model_dict(models[k])
            pos = {a: md.pop(a) for a in "XYZE"}
            pname, cue = md.pop("printer_name"), md.pop("layer_cue", None)
            ref = pristine(name, pname, md, cue, pos, lines)
            got = fingerprint(sim, plan, ctx)
            for key in ref:
                diff = close(got[key], ref[key])
                if diff:
                    raise Violation("wrong-setup-used", f"{what}: {key} {diff}")
            sims.append(sim)
            prints.append(fingerprint(sim, plan, ctx, True))
        elif kind == "set":
            k = op[1] % len(setups)
            arg = dict(op[2])
            su.must("set_property", setups[k].set_property, arg)
            models[k]["printers"][models[k]["printer"]].update(op[2])
            args[k] = arg
            ctx.nontrivial |= bool(sims)
        elif kind == "pos":
            k = op[1] % len(setups)
            v = op[3]
            arg = dict(zip("XYZE", v)) if op[2] == "dict" else tuple(v)
            su.must("set_initial_position", setups[k].set_initial_position, arg, op[4])
            models[k]["pos"] = {a: SCALE[op[4]] * x for a, x in zip("XYZE", v)}
            if op[2] == "dict":
                if arg != dict(zip("XYZE", v)):
                    raise Violation("argument-changed", f"{what}: the caller's dictionary is now {arg}")
                args[k] = arg
            ctx.nontrivial |= bool(sims)
        elif kind == "select":
            k = op[1] % len(setups)
            name = names[op[2]] if op[2] < len(names) else "no such printer"
            r = su.attempt(setups[k].select_printer, name)
            if name in models[k]["printers"]:
                models[k]["printer"] = name
            elif r[0] == "ok":
                raise Violation("accepts-unknown-printer", what)
            ctx.nontrivial |= bool(sims)
        elif kind == "mutate_dict":
            k = op[1] % len(setups)
            got = setups[k].get_dict()
            if op[2] == "clear":
                got.clear()
            else:
                got[op[2]] = {"p_acc": 1, "X": 77, "layer_cue": "XX", "firmware": "marlin_jd"}[op[2]]
            ctx.nontrivial |= bool(sims)
        elif kind == "mutate_arg":
            k = op[1] % len(setups)
            if k in args:
                for key in list(args[k]):
                    args[k][key] = "oops" if key == "firmware" else 999
                ctx.nontrivial |= bool(sims)
        elif kind == "cue":
            k = op[1] % len(setups)
            setups[k].layer_cue = op[2]
            models[k]["cue"] = op[2]
            ctx.nontrivial |= bool(sims)
        elif kind == "file":
            which = [presets] if op[1] == "presets" else files
            if op[2] in ("restore", "exchange"):
                restore(op[2] == "exchange")
                torn.clear()
            else:
                torn.add(op[1])
                for f in which:
                    if op[2] == "delete" and os.path.exists(f):
                        os.unlink(f)
                    elif op[2] == "truncate":
                        su.write(f, "")
                    elif op[2] == "rewrite":
                        su.write(f, "alpha:\n  p_vel: 1\n" if f is presets else "G1 X1 Y1 F100\n")
                ctx.fault("file " + op[2])
                ctx.nontrivial |= bool(sims)
        elif kind == "refresh":
            if sims:
                su.must("refresh", sims[op[1] % len(sims)].refresh)
        elif kind == "edit":
            if sims:
                # its owner edits the states of one simulation; nobody else notices
                k = op[1] % len(sims)
                for st in sims[k].states[1:]:
                    st.state_p_settings.speed = st.state_p_settings.speed * 0.7
                    st.state_position.y = st.state_position.y + 3.0
                su.must("refresh", sims[k].refresh)
                prints[k] = fingerprint(sims[k], plan, ctx, True)
                ctx.nontrivial |= len(sims) > 1
        elif kind == "export":
            if sims:
                k = op[1] % len(sims)
                got = su.export_result(sims[k], op[2], d / f"x{j}.out")
                diff = close(got, prints[k][op[2]], 0, 0)
                if diff:
                    raise Violation("simulation-changed", f"{what}: simulation {k}: {diff}")
        elif kind == "badset":
            k = op[1] % len(setups)
            s = setups[k]
            if op[2] == "pos":
                r = su.attempt(s.set_initial_position, {"X": 1, "Y": 2})
            elif op[2] == "value":
                r = su.attempt(s.set_initial_position, {**dict(zip("XYZE", [7, 8, 9, 10])), op[3]: None})
            elif op[2] == "tuple":
                r = su.attempt(s.set_initial_position, tuple("7" if a == op[3] else None for a in "XYZE"), "inch")
            elif op[2] == "unit":
                r = su.attempt(s.set_initial_position, (7, 8, 9, 10), "furlong")
            elif op[2] == "printer":
                r = su.attempt(s.select_printer, "nobody")
            else:
                r = su.attempt(A.gi.setup, presets, "nobody")
            if r[0] == "ok":
                raise Violation("accepts-invalid", what)
            ctx.fault("rejected call")
        ctx.log(what)
        check(what)
    # everything it computes later, too
    if plan["final"]:
        restore()
        for k, s in enumerate(sims):
            su.must("refresh", s.refresh)
            got = fingerprint(s, plan, ctx, True)
            for key in got:
                diff = close(got[key], prints[k][key])
                if diff:
                    raise Violation("simulation-changed", f"refresh at the end: simulation {k}: {key} {diff}")
    for s in sims:
        ctx.simtime += su.t_end(s)


def shrinks(plan):
    for c in common.shrink_list(plan["ops"][2:]):
        yield {**plan, "ops": plan["ops"][:2] + c}
    for c in common.shrink_list(plan["times"]):
        yield {**plan, "times": c}
    if plan["final"]:
        yield {**plan, "final": 0}
    if len(plan["printers"]) > 1:
        for n in list(plan["printers"]):
            yield {**plan, **{x: {k: v for k, v in plan[x].items() if k != n} for x in ("printers", "printers2")}}
    if len(plan["gcodes"]) > 1:
        for k in range(len(plan["gcodes"])):
            yield {**plan, "gcodes": plan["gcodes"][:k] + plan["gcodes"][k + 1:]}
    setup = workload.full_setup(next(iter(plan["printers"].values())), None, workload.CUE)
    for k, g in enumerate(plan["gcodes"]):
        for c in workload.shrink_lines(g, setup):
            yield {**plan, "gcodes": plan["gcodes"][:k] + [c] + plan["gcodes"][k + 1:]}
