"""Runs one check:  run.py P01 [--tier quick|thorough] [--replay FILE]"""

import os
import sys

sys.dont_write_bytecode = True
for v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[v] = "1"

import argparse
import importlib
import logging
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "lib"))

import mc

sys.path.insert(0, os.path.join(mc.REPO, "src"))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--only", type=int)
    a = ap.parse_args()

    warnings.filterwarnings("ignore")
    logging.disable(logging.CRITICAL)

    import hypervehicle

    src = os.path.realpath(os.path.join(mc.REPO, "src"))
    if not os.path.realpath(hypervehicle.__file__).startswith(src + os.sep):
        print(f"hypervehicle imported from {hypervehicle.__file__}", file=sys.stderr)
        return 2

    import pool

    pool.install()
    mod = importlib.import_module(a.property.lower())
    return mc.main(mod, a.tier, a.replay, a.jobs, a.only)


if __name__ == "__main__":
    try:
        code = main()
    except Exception:
        traceback.print_exc()
        code = 2
    sys.exit(code)
