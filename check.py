#!/opt/venv/bin/python
"""check.py <property id> [--tier quick|thorough]

Exit 0: the property held on everything explored; exit 1 with a VIOLATION
line: it is broken; any other exit: the check itself failed."""

import argparse
import importlib
import os
import sys

for k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "NUMBA_NUM_THREADS"):
    os.environ.setdefault(k, "1")
os.environ["MPLBACKEND"] = "Agg"
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
import common  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module("p_" + a.prop.lower())
    c = common.Check(a.prop, a.tier, seed)
    try:
        mod.run(c)
        rc = c.finish()
    except common.MachineryError as e:
        print(f"CHECK-ERROR {a.prop}: {e}", file=sys.stderr)
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
