"""C10: bit-identical results whatever clock, console, locale, directories, hash seed and history of the process are."""

import hashlib
import json
import os
import pathlib
import subprocess
import sys
import time

from .. import core, seams, simutil as su, workload
from ..core import Violation, canon, rng_for
from . import common

RUNS = {"quick": 2500, "thorough": 80000}
FRESH = {"quick": 8, "thorough": 60}
RULE = ("one case: a program simulated, queried and exported once in a pristine process and once in a seeded environment (wall clock that "
        "jumps, stands still or runs backwards, failing or narrow console with retries, other locale, time zone, directory, relative paths, "
        "earlier work and earlier failures in the process); all results are compared bit for bit. In addition batches of programs run in "
        "freshly started interpreters with different hash seeds and environments. Non-trivial: an anomaly was delivered.")
REAL = common.REAL_ALL + ["whole interpreter processes (hash seed, environment) in the second part"]
STUBS = ["wall clock", "console", "process environment"]
ASSUMPTIONS = common.ASSUME


def gen(rng, tier, i):
    plan = common.base_plan(rng, n=common.length(rng, rng.randint(2, 14), long=(60, 200)))
    plan["times"] = [common.time_spec(rng) for _ in range(4)]
    env = {}
    env["clock"] = rng.choice([None, {"start": 0.0, "deltas": [0.0]}, {"start": 1.7e9, "deltas": [-3600.0]}, {"start": -5.0, "deltas": [1e9, -1e9]},
                               {"start": 1.7e9, "deltas": [rng.uniform(-10, 10) for _ in range(5)]}, {"start": 4e9, "deltas": [1e-9]}])
    r = rng.random()
    if r < 0.3:
        env["console"] = {"faults": [{"n": rng.randrange(60), "kind": rng.choice(["EPIPE", "EIO", "ENOSPC", "INT", "CLOSED", "EAGAIN"]),
                                      "sticky": rng.random() < 0.4} for _ in range(rng.randint(1, 2))]}
    elif r < 0.45:
        env["console"] = {"encoding": rng.choice(["ascii", "cp1252", "latin-1"])}
    elif r < 0.55:
        env["console"] = {"tty": True}
    if rng.random() < 0.1:
        env["abaqus"] = True  # the interpreter is that of ABAQUS, whose console takes ASCII only
        env["console"] = {"encoding": "ascii"}
    if rng.random() < 0.3:
        env["locale"] = rng.choice(["C.utf8", "POSIX", "C"])
    if rng.random() < 0.3:
        env["encoding"] = rng.choice(["ascii", "cp1252", "latin-1", "cp932"])
    if rng.random() < 0.3:
        env["tz"] = rng.choice(["Asia/Tokyo", "America/New_York", "XYZ+13"])
    if rng.random() < 0.5:
        env["dir"] = rng.choice(["a b", "deep/er/dir", "d\u00e9p\u00f4t", "x.y", "layer"])
    if rng.random() < 0.4:
        env["relative"] = True
    if rng.random() < 0.3:
        env["str_path"] = True
    env["prior"] = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        p = common.base_plan(rng, n=rng.randint(2, 8))
        if rng.random() < 0.4:
            p = {**plan, "gcode": workload.variant(rng, plan["gcode"])}
        env["prior"].append({**p, "fault": rng.choice([None, None, "INT", "NOMEM"]), "k": rng.randrange(400), "query": rng.random() < 0.5})
    env["seedstate"] = rng.getrandbits(16)
    env["printopts"] = rng.random() < 0.3
    env["keep"] = rng.random() < 0.5
    plan["env"] = env
    return plan


def normal(res):
    res = su.plain(res)
    if res["summary"][1]:
        res["summary"][1] = "\n".join(ln for ln in res["summary"][1].splitlines() if not ln.startswith("filename"))
    return res


def job(g, p, plan, where, retry=False):
    """All results of a program. With retry, calls that fail (console) are repeated."""

    def call(f, *a, **k):
        last = None
        for _ in range(4 if retry else 1):
            try:
                return f(*a, **k)
            except (Exception, KeyboardInterrupt) as e:
                last = e
                if retry:
                    retry()
        raise Violation("error", f"failed{' even after the console worked again' if retry else ''}: {type(last).__name__}: {last}")

    stp = call(su.make_setup, p, "printer", plan.get("initial"), plan.get("cue"))
    sim = call(su.make_sim, g, stp)
    segs = su.flat(sim)
    out = {"trajectory": segs, "states": su.flat_states(sim.states)}
    times = [common.resolve(t, segs) for t in plan["times"]] + [segs[-1][1]]
    out["values"] = [call(sim.get_values, t) for t in times]
    for e in su.EXPORTS:
        path = pathlib.Path(where) / f"out_{e}.txt"
        try:
            out[e] = su.export_result(sim, e, path)
        except KeyboardInterrupt:
            out[e] = [["raise", "KeyboardInterrupt"]]
        if retry and out[e][0][0] == "raise":  # (nothing to extrude is an error of the summary in every environment)
            retry()
            out[e] = su.export_result(sim, e, path)
    return normal(out)


def inside_abaqus(ctx):
    """Import the package anew, as in the interpreter of ABAQUS."""
    sys.executable = "C:/SIMULIA/EstProducts/2024/win_b64/code/bin/ABQcaeK.exe"
    for m in [m for m in sys.modules if m.split(".")[0] == "pyGCodeDecode"]:
        del sys.modules[m]
    su.API = None
    su.api()
    ctx.fault("interpreter of ABAQUS")


def execute(plan, ctx):
    if "fresh" in plan:
        return execute_fresh(plan, ctx)
    quiet = seams.SimConsole(ctx)
    with seams.sim_console(quiet):
        d0 = pathlib.Path(ctx.scratch) / "base"
        g0, p0 = su.scenario(ctx, "job", plan["gcode"], {"printer": plan["printer"]}, sub="base")
        want = su.baseline("baseline", lambda: job(g0, p0, plan, d0))
        env = plan["env"]
        # the environment
        import locale
        import random

        import numpy as np

        random.seed(env.get("seedstate", 0))
        np.random.seed(env.get("seedstate", 0))
        if env.get("printopts"):
            np.set_printoptions(precision=2, suppress=True, threshold=3)
        if env.get("locale"):
            locale.setlocale(locale.LC_ALL, env["locale"])
        if env.get("tz"):
            os.environ["TZ"] = env["tz"]
            time.tzset()
        if env.get("abaqus"):
            inside_abaqus(ctx)
        sub = env.get("dir", "")
        g, p = su.scenario(ctx, "part", plan["gcode"], {"printer": plan["printer"], "Dr\u00fccker": plan["printer"]}, sub=sub)
        where = g.parent
        if env.get("relative"):
            os.chdir(where)
            g, p, where = pathlib.Path(g.name), pathlib.Path(p.name), pathlib.Path(".")
        if env.get("str_path"):
            g, p = str(g), str(p)
        kept = []
        for k, prior in enumerate(env["prior"]):
            with seams.Interrupter(ctx, prior["k"] if prior["fault"] else -1, prior["fault"] or "INT"):
                try:
                    s = su.build(ctx, prior, f"prior{k}", sub=f"prior{k}")
                    if prior["query"]:
                        s.get_values(su.t_end(s))
                        for e in su.EXPORTS:
                            su.export_result(s, e, pathlib.Path(ctx.scratch) / f"prior{k}" / "out.txt")
                    if env.get("keep"):
                        kept.append(s)
                except (Exception, KeyboardInterrupt):
                    pass
            ctx.nontrivial = True
        console = seams.SimConsole(ctx, env.get("console"))
        clock = seams.SimClock(env["clock"]) if env.get("clock") else None

        def healed():
            console.plan = {}
            console._enc = "utf-8"

        if clock is not None:
            ctx.fault("wall clock " + ("backwards" if min(clock.deltas) < 0 else "stands still or jumps"))
        if env.get("encoding"):
            ctx.fault("default encoding of the platform")
        files = seams.SimFS(ctx, [ctx.scratch], {"encoding": env.get("encoding")})
        with seams.sim_console(console), seams.sim_clock(clock) if clock else seams.sim_console(console), seams.sim_files(files):
            got = job(g, p, plan, where, None if env.get("abaqus") and (env.get("console") or {}).get("encoding") else healed)
    for key in want:
        a, b = canon(want[key]), canon(got[key])
        if a != b:
            raise Violation("differs:" + key, f"in the environment {json.dumps({k: v for k, v in env.items() if v and k != 'prior'})} after "
                            f"{len(env['prior'])} earlier simulations: {core.close(got[key], want[key], 0, 0) or 'last bits'}")
    ctx.simtime += want["trajectory"][-1][1]


# -- freshly started interpreters ------------------------------------------------------------------------------------

ENVS = [
    {"PYTHONHASHSEED": "0"},
    {"PYTHONHASHSEED": "1", "TZ": "Asia/Tokyo", "LANG": "C"},
    {"PYTHONHASHSEED": "4242", "LC_ALL": "POSIX", "PYTHONUTF8": "0", "PYTHONIOENCODING": "utf-8"},
    {"PYTHONHASHSEED": "random", "PYTHONOPTIMIZE": "1", "HOME": "/nonexistent"},
]


def child(path):
    """Runs inside of a fresh interpreter: digests of all results of the plans in a file."""
    import contextlib
    import io
    import tempfile

    with open(path) as f:
        plans = json.load(f)
    out = []
    for plan in plans:
        d = tempfile.mkdtemp(dir=os.path.dirname(path))

        class C:
            scratch = d

        try:
            with contextlib.redirect_stdout(io.StringIO()):
                g, p = su.scenario(C, "job", plan["gcode"], {"printer": plan["printer"]})
                out.append({k: hashlib.sha256(canon(v).encode()).hexdigest() for k, v in job(g, p, plan, d).items()})
        except Exception as e:
            out.append({"error": f"{type(e).__name__}: {str(e)[:200]}"})
    return out


def run_fresh(plans, base):
    """The digests of the plans under each environment."""
    results = []
    for k, extra in enumerate(ENVS):
        d = os.path.join(base, f"fresh{k}")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "plans.json")
        with open(path, "w") as f:
            json.dump(plans, f)
        env = {"PATH": os.environ["PATH"], "MPLCONFIGDIR": os.environ.get("MPLCONFIGDIR", d), "HOME": os.environ.get("HOME", d),
               "MPLBACKEND": "Agg", "PYTHONDONTWRITEBYTECODE": "1", "OPENBLAS_NUM_THREADS": "1", **extra}
        code = ("import sys, json; sys.path[:0] = ['/repo', sys.argv[2]]; from dst.props import c10; "
                "r = c10.child(sys.argv[1]); sys.__stdout__.write('\\n' + json.dumps(r) + '\\n')")
        results.append((subprocess.Popen([sys.executable, "-B", "-c", code, path, os.path.dirname(os.path.dirname(os.path.dirname(__file__)))],
                                         env=env, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)))
    out = []
    for p in results:
        so, se = p.communicate(timeout=300)
        if p.returncode != 0:
            raise core.HarnessError("fresh interpreter: " + se[-1500:])
        out.append(json.loads(so.strip().splitlines()[-1]))
    return out


def compare_fresh(res):
    for k in range(1, len(res)):
        for j, (a, b) in enumerate(zip(res[0], res[k])):
            if a != b:
                keys = [x for x in sorted(set(a) | set(b)) if a.get(x) != b.get(x)]
                return j, f"{ENVS[0]} and {ENVS[k]} give different {keys}: {a.get('error', '')} {b.get('error', '')}"
    return None


def execute_fresh(plan, ctx):
    bad = compare_fresh(run_fresh(plan["fresh"], ctx.scratch))
    if bad:
        raise Violation("differs:interpreter", bad[1])


def extra(args, base, lines):
    plans = []
    for i in range(FRESH.get(args.tier, 8)):
        rng = rng_for(args.seed, "C10-fresh", i)
        p = common.base_plan(rng, n=rng.randint(4, 20))
        p["times"] = [common.time_spec(rng) for _ in range(4)]
        plans.append(p)
    res = run_fresh(plans, base)
    bad = compare_fresh(res)
    if bad:
        return {"violation": bad[1], "plan": {"fresh": [plans[bad[0]]]}}
    return {"evidence": {"fresh interpreters": len(ENVS), "programs in each": len(plans), "environments": ENVS}}


def shrinks(plan):
    if "fresh" in plan:
        return
    env = plan["env"]
    for k in list(env):
        if k == "prior":
            for c in common.shrink_list(env["prior"]):
                yield {**plan, "env": {**env, "prior": c}}
        elif env[k]:
            yield {**plan, "env": {**env, k: None}}
        elif env[k] is None or env[k] is False:
            yield {**plan, "env": {a: b for a, b in env.items() if a != k}}
    yield from common.shrink_common(plan, ["times"])
