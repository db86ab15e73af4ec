#!/usr/bin/env python3
"""Write MANIFEST.json from the property list and the modules present in dst/props."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
METHOD = {
    "C01": "short/interrupted/torn reads, compared with an independent command machine",
    "C02": "read faults and interruptions at seeded points, compared with a fault-free run",
    "C03": "query histories and thread interleavings, compared with fresh simulations",
    "C04": "co-simulation with irregular clocks over refresh histories, reference kinematics",
    "C05": "seeded thread schedules, compared with sequential execution",
    "C06": "operation histories on shared setups, compared with a reference model and fingerprints",
    "C07": "write/close/mkdir faults, full disks, crash and restart, compared with the reference report",
    "C08": "histories with failing and interrupted exports, process state snapshots",
    "C09": "refreshes failing at seeded points, compared with fresh simulations",
    "C10": "clock, console, locale, hash seed and process-history variations, bit-exact comparison",
    "C11": "query/refresh histories, reports compared with reference reports of the trajectory",
    "C12": "simulated shell sessions with prompts and I/O faults, compared with a reference model",
    "C13": "generated long chains under a bounded stack and step budget",
    "C16": "query/refresh histories with abandoned plots, data of figures and meshes compared with the trajectory",
    "C19": "programs of three sizes and repeated operations with faults under a step- and element-counting clock and object census",
    "C20": "re-planning histories with interruptions, joint speeds compared with a reference look-ahead planner",
}


def main():
    props = [json.loads(line) for line in open(os.path.join(HERE, "properties.jsonl"))]
    na = json.load(open(os.path.join(HERE, "dst", "not_applicable.json")))
    checks, missing = [], []
    for p in props:
        i = p["id"]
        if i in na:
            continue
        if not os.path.exists(os.path.join(HERE, "dst", "props", i.lower() + ".py")):
            missing.append(i)
            continue
        checks.append({
            "property": i,
            "quick_cmd": f"python3 check.py {i}",
            "thorough_cmd": f"python3 check.py {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": f"deterministic simulation with fault injection: {METHOD[i]}",
            "level": "exploration",
            "level_note": "Seeded search over workloads, schedules and faults of the real package in one simulated process; a clean run is "
                          "evidence for the sampled executions, not a proof. Trusts CPython, numpy, yaml and the reference model in dst/.",
        })
    doc = {
        "version": 1,
        "setup_cmd": "python3 tools/setup.py",
        "hooks": {"guard": "PYGCD_DST (reserved, unused: no hook in /repo was needed, every seam is installed from outside)",
                  "enable": "nothing to build; check.py imports the package from /repo's working tree", "source_commits": []},
        "checks": checks,
        "not_applicable": [{"property": i, "reason": r} for i, r in na.items()]
        + [{"property": i, "reason": "check not built yet"} for i in missing],
        "notes": "check.py ID [--seed N] [--tier T] [--runs N]; check.py --replay FILE; check.py --digests ID. See DESIGN.md.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")


main()
