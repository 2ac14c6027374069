"""Confirms planted changes in scratch copies of /repo.

usage: python3 tools/seedcheck.py [--notest] [ID ...]

For each: the patch applies, the demo passes before and fails after, the
stable tests pass with it, and the check of its property reports it.
"""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
args = [a for a in sys.argv[1:] if not a.startswith("--")]
notest = "--notest" in sys.argv
nocheck = "--nocheck" in sys.argv


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", **(env or {}))
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout,
                           shell=isinstance(cmd, str), text=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return -1, "timeout"


def tests(repo, tmp):
    out = os.path.join(tmp, "out.json")
    script = open("/opt/vp/test.sh").read().replace(
        "cd /repo", "cd " + repo)
    fn = os.path.join(tmp, "test.sh")
    open(fn, "w").write(script)
    # a network of its own: some tests listen on fixed ports
    sh(["unshare", "-rn", "bash", "-c",
        "ip link set lo up && exec bash %s %s" % (fn, out)], repo)
    try:
        passed = set(json.load(open(out))["passed"])
    except Exception as e:
        return ["no result %s" % e]
    return sorted(set(STABLE) - passed)


def one(sid):
    d = os.path.join(HERE, "seeded", sid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    tmp = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    res = [sid]
    try:
        repo = os.path.join(tmp, "repo")
        sh(["cp", "-a", "/repo", repo], "/")
        dd = os.path.join(tmp, "demo")
        shutil.copytree(d, dd)
        demo = ["bash", os.path.join(dd, "demo.sh")]
        rc0, o0 = sh(demo, repo, timeout=300)
        rc, o = sh(["git", "apply", os.path.join(d, "patch.diff")], repo)
        if rc:
            return res + ["PATCH DOES NOT APPLY", o]
        rc1, o1 = sh(demo, repo, timeout=300)
        res.append("demo %s/%s%s" % (
            rc0, rc1, "" if rc0 == 0 and rc1 else " BAD " + o0[-600:] +
            o1[-300:]))
        if not notest:
            bad = tests(repo, tmp)
            res.append("tests ok" if not bad else
                       "TESTS FAIL %i %s" % (len(bad), bad[:4]))
        if not nocheck:
            rc, o = sh([sys.executable, os.path.join(HERE, "run.py"),
                        meta["property"], "quick"], HERE,
                       {"VERIF_REPO": repo})
            v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
            res.append("check %s exit %s, %i violation(s) %s" % (
                meta["property"], rc, len(v),
                "CAUGHT" if rc == 1 and v else "MISSED " + o[-500:]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return res


ids = args or sorted(os.listdir(os.path.join(HERE, "seeded")))
with concurrent.futures.ThreadPoolExecutor(1 if notest else 4) as ex:
    for r in ex.map(one, ids):
        print(" | ".join(str(i) for i in r), flush=True)
