#!/opt/venv/bin/python
"""check.py <property> [--replay FILE]: decide one property by runtime monitoring."""

import json
import os
import sys

os.environ.setdefault("PYTHONHASHSEED", "0")
os.environ.setdefault("MPLBACKEND", "Agg")
for v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS",
          "NUMBA_NUM_THREADS"):
    os.environ.setdefault(v, "1")
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("GIDDY_REPO", "/repo")
sys.path.insert(0, ROOT)
sys.path.insert(0, REPO)


def main(argv):
    import gmon

    gmon.load(argv[0])
    from gmon import core

    core.load_known(ROOT)
    if "--replay" in argv:
        r = json.load(open(argv[argv.index("--replay") + 1]))
        p = core.PROPS[r["property"]]
        if p.warm:
            p.warm()
        fn = {n: f for n, f, _, _ in p.workloads}[r["workload"]]
        res = core.run_case(r["property"], r["workload"], fn, r["index"], r["seed"],
                            r["tier"])
        v = res["violation"] or res["error"]
        print(json.dumps(v, indent=1, default=str) if v else "not reproduced")
        return 1 if v else 0
    only = argv[argv.index("--only") + 1] if "--only" in argv else None
    return core.run(argv[0], ROOT, int(os.environ.get("VERIF_SEED", "1")),
                    os.environ.get("VERIF_TIER", "quick"), only=only)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
