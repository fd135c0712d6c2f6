#!/usr/bin/env python3
"""Entry point of every check:  python3 run.py <PROPERTY-ID> [--tier quick|thorough]
                                python3 run.py --replay <replay file>
Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.  Exit 2: harness error."""
import os, sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
FIXED = {
    "PYTHONHASHSEED": "0", "MPLBACKEND": "Agg", "PYTHONDONTWRITEBYTECODE": "1",
    "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "HYPOTHESIS_NO_PLUGINS": "1",
    "PYTHONPATH": "", "VERIF_CHILD": "1",
}

if __name__ == "__main__":
    if os.environ.get("VERIF_CHILD") != "1":
        env = dict(os.environ)
        env.update(FIXED)
        py = PY if os.path.exists(PY) else sys.executable
        os.execve(py, [py, "-W", "ignore", os.path.join(HERE, "run.py")] + sys.argv[1:], env)
    sys.path.insert(0, HERE)
    from pbt import harness
    sys.exit(harness.main(sys.argv[1:]))
