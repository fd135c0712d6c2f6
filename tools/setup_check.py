#!/usr/bin/env python3
"""setup_cmd: nothing to compile; verify that every check can start (imports pymnet, Hypothesis and all property modules)."""
import os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
if os.environ.get("VERIF_CHILD") != "1":
    import run
    env = dict(os.environ)
    env.update(run.FIXED)
    os.execve(run.PY, [run.PY, "-W", "ignore", os.path.abspath(__file__)], env)
from pbt import harness
harness.setup_paths()
import importlib
from pbt.props import index
for pid, m in sorted(index.MODULES.items()):
    mod = importlib.import_module(m)
    assert mod.CASES, pid
    print(pid, len(mod.CASES), "case families")
print("setup ok")
