#!/usr/bin/env python3
"""Confirm planted bugs in scratch copies:  tools/plant.py [--check] [--scale X] ID...   (default: all)
For each: patch applies, compiles, stable tests pass, demo.sh 0 without / nonzero with the patch,
and (--check) the property's quick check with VERIF_SEED=1 reports a violation."""
import json, os, shutil, subprocess, sys, tempfile, xml.etree.ElementTree as ET
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, MPLBACKEND="Agg", MPLCONFIGDIR="/opt/venv/mplconfig", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
           OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")


def tests(d):
    xml = os.path.join(d, "out.xml")
    subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "pymnet_select", "-n", "4", "--timeout=180",
                    "--continue-on-collection-errors", "-W", "ignore", "-o", "junit_family=xunit2", "-o", "python_files=*_test.py test_*.py",
                    "--rootdir=" + d, "--junitxml=" + xml, "pymnet/tests"], cwd=d, env=dict(ENV, PYTHONPATH="/opt/vp"),
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    ok = set()
    for tc in ET.parse(xml).getroot().iter("testcase"):
        if not any(c.tag in ("failure", "error", "skipped") for c in tc):
            ok.add((tc.get("classname") or "") + "::" + tc.get("name"))
    return stable, ok


def demo(i, d):
    t = tempfile.mkdtemp(prefix="demo-")
    for f in os.listdir(os.path.join(V, "seeded", i)):
        if not f.endswith((".diff", ".patch", "meta.json")):
            shutil.copy(os.path.join(V, "seeded", i, f), t)
    r = subprocess.run(["bash", os.path.join(t, "demo.sh")], cwd=d, capture_output=True, text=True, timeout=300)
    shutil.rmtree(t)
    return r


def main():
    args = sys.argv[1:]
    check = "--check" in args
    only = "--check-only" in args
    ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(os.path.join(V, "seeded")))
    for i in ids:
        m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
        d = tempfile.mkdtemp(prefix="plant-")
        c = os.path.join(d, "repo")
        shutil.copytree("/repo", c, symlinks=True)
        msg = []
        if not only:
            r = demo(i, c)
            msg.append("demo-clean:" + ("ok" if r.returncode == 0 else "FAIL " + r.stdout[-800:] + r.stderr[-800:]))
        a = subprocess.run(["git", "apply", os.path.join(V, "seeded", i, "patch.diff")], cwd=c, capture_output=True, text=True)
        if a.returncode:
            print(i, "PATCH DOES NOT APPLY", a.stderr)
            shutil.rmtree(d)
            continue
        if not only:
            r = demo(i, c)
            msg.append("demo-bug:" + ("ok" if r.returncode != 0 else "FAIL (passes)"))
            stable, ok = tests(c)
            miss = [s for s in stable if s not in ok and not any(s.split("::")[-1] == o.split("::")[-1] and s.split("::")[0].split(".")[-1] == o.split("::")[0].split(".")[-1] for o in ok)]
            msg.append("tests:" + ("ok" if not miss else "BROKEN %s" % miss[:3]))
        if check or only:
            r = subprocess.run(["python3", os.path.join(V, "run.py"), m["property"], "--tier", "quick"], cwd=V,
                               env=dict(os.environ, VERIF_REPO=c, VERIF_SEED=os.environ.get("VERIF_SEED", "1")), capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "   case="))]
            msg.append("check %s: %s" % (m["property"], "CAUGHT " + v[1][:150] if r.returncode == 1 and v else "MISSED rc=%d %s" % (r.returncode, r.stdout[-300:] if r.returncode > 1 else "")))
        print(i, " | ".join(msg), flush=True)
        shutil.rmtree(d)


main()
