#!/opt/venv/bin/python
"""run.py <property-id> [--replay FILE] [--only TARGET] [--scale X]"""
import argparse
import os
import sys
import tempfile
import shutil

HERE = os.path.dirname(os.path.abspath(__file__))
ENV = {"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg",
       "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1"}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    if any(os.environ.get(k) != v for k, v in ENV.items()):
        os.environ.update(ENV)
        os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python", "-B", os.path.abspath(__file__)]
                 + sys.argv[1:])
    scratch = tempfile.mkdtemp(prefix="vcheck-mpl-")
    os.environ["MPLCONFIGDIR"] = scratch
    sys.path.insert(0, HERE)
    # the tree under test, whatever else might be installed
    sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
    code = 3
    try:
        from vlib import core
        import checks
        check = checks.load(a.prop)
        tier = os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1"))
        if a.replay:
            code = core.replay(check, a.replay)
        else:
            code = core.run(check, tier, seed, a.only, a.scale)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        os._exit(3)
