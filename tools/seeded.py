#!/usr/bin/env python3
"""Run the planted changes: seeded.py [--tier quick] [--jobs N] [--all-checks] [ID...]

For each /verif/seeded/<id>: copy /repo to a scratch directory, run the demo
(must pass), apply the patch, run the stable tests (must pass), the demo (must
fail) and the check of the property (must report a violation).  Prints a table.
"""
import argparse
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
           OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_ess_singleton_isolated="1", VERIF_SEED="1")
PY = "/opt/venv/bin/python"


def sh(cmd, cwd, env=ENV, timeout=1200):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 99, "timeout"


def one(bug, tier, checks, nodemo):
    d = os.path.join(HERE, "seeded", bug)
    meta = json.load(open(os.path.join(d, "meta.json")))
    tmp = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    res = {"id": bug, "property": meta["property"]}
    try:
        copy = os.path.join(tmp, "repo")
        subprocess.run(["cp", "-a", "/repo", copy], check=True)
        demo = os.path.join(tmp, "demo")
        shutil.copytree(d, demo)
        if not nodemo:
            res["demo_clean"], o = sh(["bash", demo + "/demo.sh"], copy)
            if res["demo_clean"]:
                res["out"] = o[-800:]
        rc, o = sh(["git", "apply", os.path.join(d, "patch.diff")], copy)
        if rc:
            res["apply"] = o
            return res
        if not nodemo:
            e = dict(ENV, PYTHONPATH=copy)
            rc, o = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-x"], copy, e)
            res["tests"] = rc
            if rc:
                res["testout"] = o[-600:]
            res["demo_bug"], o = sh(["bash", demo + "/demo.sh"], copy)
        res["checks"] = {}
        for c in checks or [meta["property"]]:
            t = time.time()
            rc, o = sh([os.path.join(HERE, "check"), c, "--tier", tier, "--jobs", "2"], HERE, dict(ENV, REPO=copy, VERIF_OUT=tmp))
            v = "VIOLATION property=" + c in o
            res["checks"][c] = ("caught" if rc == 1 and v else "MISSED" if rc == 0 else "rc=%d" % rc, round(time.time() - t, 1))
            if rc not in (0, 1):
                res["out"] = o[-800:]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return res


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="*")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--jobs", type=int, default=4)
    ap.add_argument("--checks", nargs="*")
    ap.add_argument("--nodemo", action="store_true")
    a = ap.parse_args()
    ids = a.ids or sorted(x for x in os.listdir(os.path.join(HERE, "seeded")) if os.path.isdir(os.path.join(HERE, "seeded", x)))
    with cf.ThreadPoolExecutor(a.jobs) as ex:
        for r in ex.map(lambda b: one(b, a.tier, a.checks, a.nodemo), ids):
            valid = a.nodemo or (r.get("demo_clean") == 0 and r.get("tests") == 0 and r.get("demo_bug") not in (0, None))
            print(("ok     " if valid else "INVALID"), r["id"], r["property"], r.get("checks"), "" if valid else r, r.get("out", ""), flush=True)
