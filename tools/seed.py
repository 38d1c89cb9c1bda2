#!/usr/bin/env python3
"""Builds planted bugs from definitions and tries the checks on them, in scratch copies of /repo.

    tools/seed.py make DEFS.py [ID...]      writes /verif/seeded/<ID>/ after confirming tests and demonstrations
    tools/seed.py try [ID...]               runs the property's check against a scratch copy with each bug (VMON_REPO)

DEFS.py defines BUGS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo)], with ``demo`` the text of a Python program that
may use the functions of seedlib.py, which is laid beside it."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SEEDED = os.path.join(VERIF, "seeded")
BASE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
PKG = "PyCTBN/PyCTBN/"
DEMO = """#!/bin/bash
# Run in the root of the repository. Exit 0: the behaviour is right. Anything else: it is broken.
here="$(cd "$(dirname "$0")" && pwd)"
work="$(mktemp -d)" || exit 99
trap 'rm -rf -- "$work"' EXIT
export PYTHONPATH="$here:$PWD" PYTHONPYCACHEPREFIX="$work/pyc" MPLBACKEND=Agg MPLCONFIGDIR="$work/mpl" HOME="$work" PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
cd "$work" && timeout 200 /opt/venv/bin/python "$here/demo.py"
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **kw)


def scratch():
    d = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    shutil.copytree("/repo", os.path.join(d, "repo"))
    return os.path.join(d, "repo")


def tests_pass(repo):
    env = dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", HOME="/tmp", OMP_NUM_THREADS="1")
    env.pop("PYTHONPATH", None)
    r = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--continue-on-collection-errors", "--tb=no", "-rA", "PyCTBN/tests"], cwd=repo, env=env, timeout=150)
    passed = set()
    for line in r.stdout.splitlines():
        if line.startswith("PASSED "):
            parts = line.split()[1].split("::")
            passed.add(parts[0][:-3].replace("/", ".") + "." + "::".join(parts[1:]))
    for f in ("test.json", "data.json"):
        if os.path.exists(os.path.join(repo, f)):
            os.unlink(os.path.join(repo, f))
    return [t for t in BASE if t not in passed]


def make(defs, only):
    g = runpy.run_path(defs)
    lib = open(os.path.join(HERE, "seedlib.py")).read()
    bad = 0
    for b in g["BUGS"]:
        if only and b["id"] not in only:
            continue
        repo = scratch()
        try:
            problem = None
            for f, old, new in b["edits"]:
                p = os.path.join(repo, PKG + f)
                s = open(p).read()
                if s.count(old) != 1:
                    problem = "%s: %d matches of %r" % (f, s.count(old), old)
                    break
                open(p, "w").write(s.replace(old, new))
            d = os.path.join(SEEDED, b["id"])
            if not problem:
                os.makedirs(d, exist_ok=True)
                diff = sh(["git", "-C", repo, "diff"]).stdout
                open(os.path.join(d, "patch.diff"), "w").write(diff)
                open(os.path.join(d, "demo.py"), "w").write(b["demo"].lstrip())
                open(os.path.join(d, "seedlib.py"), "w").write(lib)
                open(os.path.join(d, "demo.sh"), "w").write(DEMO)
                os.chmod(os.path.join(d, "demo.sh"), 0o755)
                json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
                failed = tests_pass(repo)
                if failed:
                    problem = "tests fail: %s" % failed
                clean = sh(["bash", os.path.join(d, "demo.sh")], cwd="/repo")
                if clean.returncode:
                    problem = "demo fails on the unchanged tree: " + clean.stdout[-800:]
                broken = sh(["bash", os.path.join(d, "demo.sh")], cwd=repo)
                if not broken.returncode:
                    problem = "demo passes with the bug"
                if broken.returncode >= 2:
                    print("  note: demo exits %d with the bug: %s" % (broken.returncode, broken.stdout[-300:]))
            print("%-28s %s" % (b["id"], problem or "ok: " + broken.stdout.strip().splitlines()[-1][:140]), flush=True)
            if problem:
                bad += 1
                shutil.rmtree(d, ignore_errors=True)
        finally:
            shutil.rmtree(os.path.dirname(repo))
    return bad


def attempt(only, seed="1", checks=None):
    missed = []
    for name in sorted(os.listdir(SEEDED)):
        if only and name not in only:
            continue
        d = os.path.join(SEEDED, name)
        prop = json.load(open(os.path.join(d, "meta.json")))["property"]
        repo = scratch()
        try:
            r = sh(["git", "-C", repo, "apply", os.path.join(d, "patch.diff")])
            assert not r.returncode, r.stdout
            for c in checks or [prop]:
                r = sh([os.path.join(VERIF, "run.sh"), c], env=dict(os.environ, VMON_REPO=repo, VERIF_SEED=seed, VERIF_TIER="quick"))
                caught = r.returncode == 1 and ("VIOLATION property=%s" % c) in r.stdout
                print("%-28s %s %s %s" % (name, c, "caught" if caught else "MISSED (%d)" % r.returncode, r.stdout.strip().splitlines()[1 if caught else -1].strip()[:150]), flush=True)
                if not caught:
                    missed.append((name, c))
        finally:
            shutil.rmtree(os.path.dirname(repo))
    print("missed:", missed)
    return len(missed)


if __name__ == "__main__":
    if sys.argv[1] == "make":
        sys.exit(1 if make(sys.argv[2], sys.argv[3:]) else 0)
    args = sys.argv[2:]
    checks = [a for a in args if len(a) == 3 and a[0] == "C"]
    sys.exit(1 if attempt([a for a in args if a not in checks], os.environ.get("VERIF_SEED", "1"), checks) else 0)
