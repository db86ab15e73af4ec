#!/usr/bin/env python3
"""Decide one property by deterministic simulation: check.py <ID> [--seed N] [--tier quick|thorough] [--runs N]
check.py --replay FILE        execute a replay file
check.py --digests ID --runs N [--workers W]   print the digest of every run (determinism self-check)
exit 0: held on everything explored; 1: violation (line VIOLATION property=.. replay=..); other: error of the check
"""

import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"


def reexec():
    """Run under a fixed environment; whatever the caller's environment holds must not matter."""
    if os.environ.get("DST_ENV") == "1":
        return
    import tempfile

    cache = tempfile.mkdtemp(prefix="dst-home-")
    env = {
        "PATH": "/opt/venv/bin:/usr/local/bin:/usr/bin:/bin",
        "DST_ENV": "1",
        "DST_HOME": cache,
        "HOME": cache,
        "MPLCONFIGDIR": cache,
        "XDG_CACHE_HOME": cache,
        "XDG_CONFIG_HOME": cache,
        "XDG_DATA_HOME": cache,
        "MPLBACKEND": "Agg",
        "LC_ALL": "C.UTF-8",
        "LANG": "C.UTF-8",
        "TZ": "UTC",
        "PYTHONHASHSEED": os.environ.get("DST_HASHSEED", "0"),
        "PYTHONDONTWRITEBYTECODE": "1",
        "OPENBLAS_NUM_THREADS": "1",
        "OMP_NUM_THREADS": "1",
        "MKL_NUM_THREADS": "1",
        "PYVISTA_OFF_SCREEN": "true",
        "VERIF_SEED": os.environ.get("VERIF_SEED", "1"),
        "VERIF_TIER": os.environ.get("VERIF_TIER", "quick"),
        "VERIF_OUT": os.environ.get("VERIF_OUT", HERE),
    }
    import signal
    import subprocess

    py = PY if os.path.exists(PY) else sys.executable
    p = subprocess.Popen([py, "-B", os.path.abspath(__file__)] + sys.argv[1:], env=env, cwd=HERE)

    def stop(sig, frame):
        p.terminate()

    signal.signal(signal.SIGTERM, stop)
    try:
        code = p.wait()
    finally:
        import shutil

        shutil.rmtree(cache, ignore_errors=True)
    sys.exit(code if code >= 0 else 128 - code)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--replay")
    ap.add_argument("--digests", action="store_true")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--no-evidence", action="store_true")
    args = ap.parse_args()
    sys.path.insert(0, HERE)
    from dst import harness

    return harness.main(args)


if __name__ == "__main__":
    reexec()
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback

        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
