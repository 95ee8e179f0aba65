"""Confirms planted bugs in scratch copies of /repo and runs the checks against them.

usage: seeded.py confirm [ID...]     patch applies, stable tests pass, demo 0 without and non-zero with it
       seeded.py check [--all] [ID...]   runs the check of the bug's property (--all: every check) on the patched copy
Results go to tools/seeded_results.json (a record for DESIGN.md; no check reads it)."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")
RES = os.path.join(ROOT, "tools", "seeded_results.json")
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", JAX_PLATFORMS="cpu",
           OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")


def sh(cmd, cwd, timeout=900, **env):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=dict(ENV, **env), capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired as e:
        return 124, str(e.stdout)


def copy():
    d = tempfile.mkdtemp(prefix="sb_", dir="/tmp")
    shutil.copytree("/repo", d + "/repo", symlinks=True, ignore=shutil.ignore_patterns("__pycache__"))
    return d


def tests(repo, jobs=2):
    rc, out = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-n", str(jobs), "-p", "seed_rng", "-p",
                  "no:cacheprovider", "--timeout=300", "--doctest-modules", "--ignore=noxfile.py", "--ignore=setup.py",
                  "--ignore=lie_nn/_src/reduce_test.py", "-x", "."], repo, PYTHONPATH="/opt/vp")
    return rc, out.strip().splitlines()[-1] if out.strip() else ""


def confirm(bug):
    b = os.path.join(SEEDED, bug)
    d = copy()
    try:
        repo = d + "/repo"
        demo = d + "/demo"
        shutil.copytree(b, demo, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
        r = {}
        rc, out = sh(["bash", demo + "/demo.sh"], repo, 300)
        r["demo clean"] = rc
        if rc:
            print(bug, "demo clean:", out[-300:])
        rc, out = sh(["git", "apply", b + "/patch.diff"], repo)
        r["apply"] = rc
        if rc:
            print(bug, out[-300:])
            return bug, r, False
        rc, out = sh(["bash", demo + "/demo.sh"], repo, 300)
        r["demo patched"] = rc
        r["tests"] = tests(repo)
        ok = r["demo clean"] == 0 and r["demo patched"] not in (0, 124) and r["tests"][0] == 0
        return bug, r, ok
    finally:
        shutil.rmtree(d)


def props():
    return [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]


def check(bug, pids, seed="1"):
    b = os.path.join(SEEDED, bug)
    d = copy()
    try:
        sh(["git", "apply", b + "/patch.diff"], d + "/repo")
        caught, codes = [], {}
        for p in pids:
            rc, out = sh(["./check.sh", p], ROOT, 900, LIE_NN_REPO=d + "/repo", VERIF_SEED=seed)
            codes[p] = rc
            if rc == 1 and re.search(rf"^VIOLATION property={p} ", out, re.M):
                caught.append(p)
        return caught, codes
    finally:
        shutil.rmtree(d)


def main():
    mode, args = sys.argv[1], sys.argv[2:]
    every = "--all" in args
    ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(SEEDED))
    results = json.load(open(RES)) if os.path.exists(RES) else {}
    if mode == "confirm":
        with cf.ThreadPoolExecutor(4) as ex:
            for bug, r, ok in ex.map(confirm, ids):
                print("ok " if ok else "BAD", bug, r, flush=True)
        return
    for bug in ids:
        own = json.load(open(os.path.join(SEEDED, bug, "meta.json")))["property"]
        pids = [own] + ([p for p in props() if p != own] if every else [])
        caught, codes = check(bug, pids)
        odd = {p: c for p, c in codes.items() if c not in (0, 1)}
        print("caught" if own in caught else "MISSED", bug, "by", caught, odd or "", flush=True)
        old = results.get(bug, {}).get("caught", [])
        results[bug] = {"caught": sorted(set(caught) | {p for p in old if p not in pids}), "all": every}
        json.dump(results, open(RES, "w"), indent=1, sort_keys=True)


if __name__ == "__main__":
    main()
