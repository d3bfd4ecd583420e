#!/usr/bin/env python3
"""
python3 tools/seedtest.py [--notests] [--all-checks] ID...   (development tool; no check reads seeded/)

For each seeded/ID: copy /repo to a scratch directory, apply the patch there, run the stable
tests, the demonstration (with and without the patch) and the property's quick check.
"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

V = "/verif"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="agg", OMP_NUM_THREADS="1",
             OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", JAX_PLATFORMS="cpu", MPLCONFIGDIR="/tmp/mpl-seed")
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, shell=True, env=e, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def one(i, tests, allc):
    d = os.path.join(V, "seeded", i)
    w = tempfile.mkdtemp(prefix=f"seed-{i}-", dir="/tmp")
    out = {"id": i}
    try:
        r = os.path.join(w, "repo")
        subprocess.run(["cp", "-a", "/repo", r], check=True)
        dd = os.path.join(w, "demo")
        shutil.copytree(d, dd)
        env = {"PYTHONPATH": r + "/src", "PATH": "/opt/venv/bin:" + os.environ["PATH"]}
        out["demo_clean"], t = sh(f"bash {dd}/demo.sh", r, env)
        if out["demo_clean"]:
            out["demo_clean_out"] = t[-600:]
        rc, t = sh(f"git apply {d}/patch.diff", r)
        if rc:
            out["apply"] = t
            return out
        out["demo_patched"], t = sh(f"bash {dd}/demo.sh", r, env)
        out["demo_msg"] = t.strip()[-160:]
        prop = json.load(open(d + "/meta.json"))["property"]
        props = [prop]
        if allc:
            props += [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"] if c["property"] != prop]
        res = {}
        for p in props:
            rc, t = sh(f"./check {p}", V, {"VERIF_REPO": r, "VERIF_NPROC": "4"})
            res[p] = rc
            if p == prop:
                out["check_out"] = [ln for ln in t.splitlines() if ln.startswith("  [")][:3]
        out["checks"] = {p: v for p, v in res.items() if v} or f"{prop}: MISSED"
        if tests:
            env = {"PYTHONPATH": r + "/src", "PATH": "/opt/venv/bin:" + os.environ["PATH"]}
            rc, t = sh(f"/opt/venv/bin/python -m pytest -q -p no:cacheprovider -p no:xdist --no-cov --timeout=300 --tb=short "
                       f"--disable-warnings --continue-on-collection-errors --basetemp={w}/tmp -o junit_family=xunit2 --junitxml={w}/j.xml", r, env)
            ok = set()
            for tc in ET.parse(w + "/j.xml").getroot().iter("testcase"):
                if not any(c.tag in ("failure", "error", "skipped") for c in tc):
                    ok.add(tc.get("classname") + "::" + tc.get("name"))
            out["tests_broken"] = sorted(STABLE - ok)[:5]
            if not ok:
                out["tests_out"] = t[-500:]
        return out
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    tests = "--notests" not in a
    allc = "--all-checks" in a
    ids = [x for x in a if x[0] != "-"] or sorted(os.listdir(V + "/seeded"))
    with cf.ThreadPoolExecutor(4) as ex:
        for r in ex.map(lambda i: one(i, tests, allc), ids):
            print(json.dumps(r, indent=1))
            sys.stdout.flush()
