#!/usr/bin/env python3
"""Runs the checks against planted changes, each in a scratch copy of /repo.

  planted.py DIR|FILE.diff... [--props C01,C02|own|all] [--seed N] [--jobs J] [--tests] [--demo]

DIR: a folder of seeded/ (patch.diff, meta.json).  own: only the property the change was planted for.
Not used by any check.
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = [f"C{i:02d}" for i in range(1, 21)]


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout, shell=isinstance(cmd, str))
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"


STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def tests(repo, target):
    """names of stable tests that do not pass"""
    out = ""
    for args in (["--lib", "--bins", "--tests"], ["--examples"], ["--doc"]):
        rc, o = sh(["cargo", "test", "--workspace", "--no-fail-fast", "--offline", *args], repo, dict(CARGO_TARGET_DIR=target), 300)
        if rc == 124 or "could not compile" in o:
            return ["timeout or build"]
        out += o
    return re.findall(r"^test (.*) \.\.\. FAILED", out, re.M)


def one(job):
    name, patch, props, opts = job
    repo = f"/tmp/planted/{name}"
    shutil.rmtree(repo, ignore_errors=True)
    os.makedirs("/tmp/planted", exist_ok=True)
    sh(["git", "worktree", "prune"], "/repo")
    shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns("target", ".git"))
    res = dict(name=name)
    try:
        rc, o = sh(["git", "apply", "--unsafe-paths", "--directory=" + repo, patch], "/")
        if rc:
            res["error"] = o[-300:]
            return res
        if opts["tests"]:
            res["tests"] = tests(repo, f"/tmp/planted/{name}-target")
        if opts["demo"]:
            d = os.path.dirname(patch)
            res["demo"] = sh(["bash", os.path.join(d, "demo.sh")], repo, dict(CARGO_TARGET_DIR=f"/tmp/planted/{name}-target"), 300)[0]
        res["checks"] = {}
        for p in props:
            rc, o = sh([sys.executable, os.path.join(opts["root"], "tools/check.py"), p], None,
                       dict(SWEEP_REPO=repo, VERIF_SEED=opts["seed"], SWEEP_BUILD=f"/tmp/planted/{name}-build", **opts["env"]))
            res["checks"][p] = rc
            if rc == 2:
                res.setdefault("err", {})[p] = o[-400:]
            if opts["first"] and rc == 1:
                break
        return res
    finally:
        for x in (repo, f"/tmp/planted/{name}-target", f"/tmp/planted/{name}-build"):
            shutil.rmtree(x, ignore_errors=True)


def main():
    a = sys.argv[1:]

    def opt(n, d):
        if n in a:
            i = a.index(n)
            v = a[i + 1]
            del a[i:i + 2]
            return v
        return d

    def flag(n):
        if n in a:
            a.remove(n)
            return True
        return False
    props, seed, njobs = opt("--props", "own"), opt("--seed", "1"), int(opt("--jobs", "1"))
    opts = dict(seed=seed, tests=flag("--tests"), demo=flag("--demo"), first=flag("--first"), root=opt("--root", ROOT), env={})
    if flag("--light"):
        opts["env"]["SWEEP_LIGHT"] = "1"
    jobs = []
    for x in a:
        x = os.path.abspath(x)
        if os.path.isdir(x):
            meta = json.load(open(os.path.join(x, "meta.json")))
            ps = [meta["property"]] if props == "own" else PROPS if props == "all" else props.split(",")
            jobs.append((os.path.basename(x), os.path.join(x, "patch.diff"), ps, opts))
        else:
            ps = PROPS if props in ("all", "own") else props.split(",")
            jobs.append((os.path.basename(x).replace(".diff", ""), x, ps, opts))
    with cf.ThreadPoolExecutor(njobs) as ex:
        for r in ex.map(one, jobs):
            got = [p for p, c in r.get("checks", {}).items() if c == 1]
            print(r["name"], "caught by", ",".join(got) or "NONE", {k: v for k, v in r.items() if k not in ("name", "checks")},
                  [p for p, c in r.get("checks", {}).items() if c not in (0, 1)] or "", flush=True)


if __name__ == "__main__":
    main()
