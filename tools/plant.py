"""Plants a bug: plant.py SPEC.py [ID...]; SPEC.py has BUGS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo)].

Works in a scratch copy of /repo; keeps the bug as seeded/<id> only if it touches lines of the original repository, compiles, passes the stable tests and
its demonstration succeeds without and fails with it.  Then runs the property's check (quick) against the copy and says whether it is caught.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = "/tmp/plant-{}".format(os.getpid())
BASE = "5e2edd0"
STABLE = json.load(open("/opt/vp/BASELINE.json"))
PY = "/opt/venv/bin/python"
DEMO = """#!/bin/bash
# run with cwd = the repository
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD:$PWD/babylondigger" PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent TF_CPP_MIN_LOG_LEVEL=3 CUDA_VISIBLE_DEVICES=
exec /opt/venv/bin/python "$here/demo.py"
"""


def sh(cmd, cwd=None, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def copy(name):
    path = os.path.join(WORK, name)
    shutil.rmtree(path, ignore_errors=True)
    shutil.copytree("/repo", path, symlinks=True)
    return path


def main():
    spec = runpy.run_path(sys.argv[1])
    ids = sys.argv[2:]
    clean = copy("clean")
    for bug in spec["BUGS"]:
        if ids and bug["id"] not in ids:
            continue
        try:
            plant(bug, clean)
        except AssertionError as e:
            print(bug["id"], "REJECTED", e, flush=True)
    shutil.rmtree(WORK)


def demo(folder, repo):
    env = {k: v for k, v in os.environ.items() if not k.startswith("VERIF")}
    return sh(["bash", os.path.join(folder, "demo.sh")], cwd=repo, env=env, timeout=300)


def plant(bug, clean):
    wt = copy("wt")
    for file, old, new in bug["edits"]:
        p = os.path.join(wt, file)
        s = open(p, encoding="utf-8", newline="").read()
        assert s.count(old) == 1, "{} occurrences of {!r}".format(s.count(old), old)
        open(p, "w", encoding="utf-8", newline="").write(s.replace(old, new))
    diff = sh(["git", "diff"], cwd=wt).stdout
    # lines removed or changed have to be original ones
    for file in {e[0] for e in bug["edits"]}:
        removed = [l[1:] for l in sh(["git", "diff", "-U0", "--", file], cwd=wt).stdout.splitlines() if l.startswith("-") and not l.startswith("---")]
        original = sh(["git", "show", BASE + ":" + file], cwd=wt).stdout.splitlines()
        for l in removed:
            assert l in original, "not an original line: " + l
    folder = os.path.join(WORK, "seeded")
    shutil.rmtree(folder, ignore_errors=True)
    os.makedirs(folder)
    open(os.path.join(folder, "patch.diff"), "w").write(diff)
    open(os.path.join(folder, "demo.sh"), "w").write(DEMO)
    open(os.path.join(folder, "demo.py"), "w").write(bug["demo"].lstrip("\n"))
    for name, text in bug.get("files", {}).items():
        open(os.path.join(folder, name), "w").write(text)
    json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, open(os.path.join(folder, "meta.json"), "w"), indent=1)
    r = demo(folder, clean)
    assert r.returncode == 0, "demo fails on the clean tree:\n" + r.stdout[-3000:]
    r = demo(folder, wt)
    assert r.returncode != 0, "demo passes with the bug:\n" + r.stdout[-3000:]
    tail = r.stdout.strip().splitlines()[-1:]
    env = dict(os.environ, PYTHONPATH="{0}:{0}/babylondigger".format(wt), PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPYCACHEPREFIX="/nonexistent")
    r = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--continue-on-collection-errors", "babylondigger/tests", "babylondigger/evaluation/conll17_ud_eval.py"], cwd=wt, env=env)
    assert "61 passed" in r.stdout and "failed" not in r.stdout, "tests: " + r.stdout[-1500:]
    target = os.path.join(HERE, "seeded", bug["id"])
    shutil.rmtree(target, ignore_errors=True)
    shutil.copytree(folder, target)
    r = sh([sys.executable, "run.py", bug["property"]], cwd=HERE, env=dict(os.environ, VERIF_REPO=wt, VERIF_SEED="1", VERIF_TIER="quick"))
    lines = [l for l in r.stdout.splitlines() if "VIOLATION" in l or "KNOWN" in l]
    print(bug["id"], "CAUGHT" if r.returncode == 1 else "MISSED rc={}".format(r.returncode), "demo:", tail, lines[:1], "" if r.returncode in (0, 1) else r.stdout[-1500:], flush=True)


if __name__ == "__main__":
    main()
