"""One check from start to end: import the package, run the batch, report, write the evidence."""

import gc
import importlib._bootstrap_external as _be
import json
import os
import shutil
import subprocess
import sys
import tempfile

from . import core, runner, sched, seams
from .core import HarnessError, rng_for

WALL = {"quick": 560.0, "thorough": 3 * 3600.0}


def import_package():
    """Import the package from /repo's working tree, never from byte code, with all seams in place."""
    real = _be.cache_from_source

    def no_cache(path, *a, **k):
        if os.fspath(path).startswith(core.REPO + "/"):
            raise NotImplementedError
        return real(path, *a, **k)

    _be.cache_from_source = no_cache
    importlib_cache = __import__("importlib.util").util
    sys.path.insert(0, core.REPO)
    sched.install()
    seams.install()
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.backends.backend_agg  # noqa: F401
    import matplotlib.collections  # noqa: F401
    import matplotlib.pyplot  # noqa: F401
    import numpy  # noqa: F401
    import PIL.Image
    import PIL.PngImagePlugin  # noqa: F401
    import pyvista  # noqa: F401
    import yaml  # noqa: F401

    PIL.Image.init()
    seams.install_numpy()
    from . import simutil

    A = simutil.api()
    for m in (A.gi, A.sg, A.tools, A.abq):
        if not m.__file__.startswith(core.PKG):
            raise HarnessError(f"{m.__name__} was imported from {m.__file__}, not from {core.PKG}")
    gc.collect()
    gc.freeze()
    gc.disable()  # collection times are not part of the schedule; every run is a short-lived process


def findings():
    """known_findings.txt: lines `finding: property=<id> key=<violation class>|<detail substring> <text>` and `fixed: ...`."""
    out = []
    path = os.path.join(runner.VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            if line.startswith("finding:"):
                d = dict(p.split("=", 1) for p in line.split("key=")[0].split() if "=" in p)
                key = line.split("key=", 1)[1].split(" :: ")[0].strip()
                out.append((d["property"], key, line.strip()))
    return out


def known(prop, violation):
    for p, key, text in findings():
        cls, _, sub = key.partition("|")
        if p == prop and cls == violation[0] and sub in violation[1]:
            return text
    return None


def out_dir(name):
    d = os.path.join(os.environ.get("VERIF_OUT", runner.VERIF), name)
    os.makedirs(d, exist_ok=True)
    return d


COUNT_ELEMENTS = {"C19"}  # properties about the effort: see effort.py


def main(args):
    t0 = runner._now()
    if args.replay:
        with open(args.replay) as f:
            prop = json.load(f)["property"]
    else:
        prop = args.property.upper()
    if prop in COUNT_ELEMENTS:
        from . import effort

        effort.install()
    import_package()
    base = tempfile.mkdtemp(prefix="dst-")
    try:
        if args.replay:
            return replay(args, base)
        mod = runner.load(prop)
        if args.digests:
            res, _ = runner.batch(prop, args.seed, args.tier, args.runs or 100, args.workers, 3000, base)
            for r in res:
                print(r["i"], r.get("digest"), r.get("sched"), (r.get("violation") or [""])[0], (r.get("error") or "")[-300:])
            return 0
        return check(args, prop, mod, base, t0)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def replay(args, base):
    with open(args.replay) as f:
        doc = json.load(f)
    mod = runner.load(doc["property"])
    scratch = os.path.join(base, "r", "s")
    os.makedirs(scratch)
    res = runner.run_forked(mod, doc["plan"], scratch)
    if res.get("error"):
        print("ERROR", res["error"])
        return 2
    print("digest", res.get("digest"))
    if res["violation"]:
        print("\n".join(res.get("tail", [])[-40:]))
        print(f"{res['violation'][0]}: {res['violation'][1]}")
        print(f"VIOLATION property={doc['property']} replay={os.path.abspath(args.replay)}")
        return 1
    print("no violation")
    return 0


def confirm(path):
    """Replay a file in a fresh process; returns its output."""
    env = dict(os.environ)
    p = subprocess.run([sys.executable, "-B", os.path.join(runner.VERIF, "check.py"), "--replay", path], env=env,
                       capture_output=True, text=True, cwd=runner.VERIF, timeout=400)
    return p.returncode, p.stdout


def check(args, prop, mod, base, t0):
    tier = args.tier if args.tier in WALL else "quick"
    runs = args.runs or mod.RUNS[tier]
    print(f"{prop}: seed={args.seed} tier={tier} runs={runs} workers={args.workers}", flush=True)
    keep = [0, 1, 2]
    wall = WALL[tier]
    results, incomplete = runner.batch(prop, args.seed, tier, runs, args.workers, wall, base, keep)
    t_batch = runner._now() - t0
    bad = [r for r in results if r.get("violation")] or [r for r in results if r.get("error")]
    code, lines = 0, []
    violations = 0
    for r in bad[:3]:
        if code == 1 or lines:
            break
        if r.get("error"):
            if code:
                continue
            print(f"ERROR in run {r['i']} of the check itself:\n{r['error']}", flush=True)
            dbg = os.path.join(out_dir("replays"), f"{prop}-error.json")
            with open(dbg, "w") as f:
                json.dump({"property": prop, "plan": r.get("plan")}, f)
            code = 2
            continue
        scratch = os.path.join(base, "min", "s")
        os.makedirs(scratch, exist_ok=True)
        plan, res, tries = runner.minimise(mod, r["plan"], r, scratch)
        path = os.path.join(out_dir("replays"), f"{prop}-seed{args.seed}-run{r['i']}.json")

        def save(plan, res):
            with open(path, "w") as f:
                json.dump({"property": prop, "seed": args.seed, "run": r["i"], "class": res["violation"][0],
                           "violation": res["violation"][1], "trace": res.get("tail", []), "plan": plan}, f, indent=1)

        save(plan, res)
        rc, text = confirm(path)
        if rc != 1:
            plan, res = r["plan"], r
            save(plan, res)
            rc, text = confirm(path)
        if rc != 1:
            print(f"ERROR: run {r['i']} ({r['violation']}) does not replay in a fresh process:\n{text[-2000:]}", flush=True)
            code = 2
            continue
        k = known(prop, res["violation"])
        print("\n".join(res.get("tail", [])[-25:]))
        print(f"seed={args.seed} run={r['i']} minimised in {tries} runs; {res['violation'][0]}: {res['violation'][1]}")
        if k:
            lines.append(f"KNOWN-FINDING: property={prop} {k}")
        else:
            violations += 1
            lines.append(f"VIOLATION property={prop} replay={path}")
            code = 1
    if code == 0 and incomplete and not bad:
        print("ERROR: the time limit ended the batch before all runs were executed")
        code = 3
    extra = None
    if code == 0 and hasattr(mod, "extra"):
        extra = mod.extra(args, base, lines)  # deciding steps outside of the forked batch (fresh interpreters)
        if extra.get("violation"):
            path = os.path.join(out_dir("replays"), f"{prop}-seed{args.seed}-extra.json")
            with open(path, "w") as f:
                json.dump({"property": prop, "seed": args.seed, "plan": extra["plan"]}, f, indent=1)
            print(extra["violation"])
            lines.append(f"VIOLATION property={prop} replay={path}")
            violations += 1
            code = 1
        if extra.get("error"):
            print("ERROR", extra["error"])
            code = 2
    evidence(args, prop, mod, tier, results, runs, t_batch, runner._now() - t0, violations, extra)
    for line in lines:
        print(line)
    print(f"{prop}: {len(results)} runs, {violations} violation(s), {runner._now() - t0:.1f} s", flush=True)
    return code


def evidence(args, prop, mod, tier, results, runs, t_batch, wall, violations, extra):
    if args.no_evidence:
        return
    counters, sched, nontrivial = {}, set(), set()
    for r in results:
        for k, v in r.get("counters", {}).items():
            counters[k] = counters.get(k, 0) + v
        if r.get("sched"):
            sched.add(r["sched"])
        if r.get("nontrivial"):
            nontrivial.add(r.get("digest"))
    faults = {k[6:]: v for k, v in sorted(counters.items()) if k.startswith("fault:")}
    probes = {k[6:]: v for k, v in sorted(counters.items()) if k.startswith("probe:")}
    other = {k: v for k, v in sorted(counters.items()) if not k.startswith(("fault:", "probe:"))}
    samples = [{"run": r["i"], "digest": r.get("digest"), "plan": r["plan"], "counters": r.get("counters")}
               for r in results if r.get("plan") is not None][:3]
    hours = max(t_batch, 1e-9) / 3600
    doc = {
        "property": prop,
        "tier": tier,
        "seed": args.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": len(results),
            "distinct_nontrivial": len(nontrivial),
            "rule": mod.RULE,
            "samples": samples,
            "simulated_runs": len(results),
            "runs_per_hour": round(len(results) / hours),
            "seeds_per_hour": round(len(results) / hours),
            "simulated_seconds": round(sum(r.get("simtime", 0) for r in results), 3),
            "faults_injected": faults,
            "probes_hit": probes,
            "counters": other,
            "distinct_interleavings": len(sched),
            "interleaving_measure": "hash of the ordered sequence of scheduling and fault decisions of a run",
            "components_real": mod.REAL,
            "components_stubbed": mod.STUBS,
            "extra": (extra or {}).get("evidence"),
        },
        "assumptions": mod.ASSUMPTIONS,
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    with open(os.path.join(out_dir("evidence"), f"{prop}.json"), "w") as f:
        json.dump(doc, f, indent=1, default=str)
