#!/usr/bin/env python3
"""Turn a table of planted bugs (a Python file) into seeded/<id>/ after confirming each of them.

plant.py TABLE.py [id ...]: every entry of BUGS is (id, property, file, [(old, new), ...], needs,
what it breaks, demo source).  A bug is kept when the demonstration passes on the unchanged tree,
fails with the patch, and the stable tests still pass with it (run in a scratch copy).
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SH = """#!/bin/sh
# exit 0 when the property holds on the demonstrated input, non-zero otherwise
PYTHONPATH="$PWD/src" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    for k in ("stable", "passed", "tests"):
        if isinstance(b, dict) and k in b:
            return set(b[k])
    return set(b)


def one(bug):
    bid, prop, fname, edits, needs, breaks, demo = bug
    tmp = tempfile.mkdtemp(prefix="plant-")
    try:
        repo = os.path.join(tmp, "repo")
        shutil.copytree("/repo", repo, symlinks=True)
        path = os.path.join(repo, "src/ff", fname)
        s = open(path).read()
        for old, new in edits:
            if s.count(old) != 1:
                return bid, "edit matches %d times: %r" % (s.count(old), old[:50])
            s = s.replace(old, new)
        d = os.path.join(tmp, "d")
        os.makedirs(d)
        open(os.path.join(d, "demo.py"), "w").write(demo.lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write(SH)

        def rundemo():
            return subprocess.run(["sh", os.path.join(d, "demo.sh")], cwd=repo, capture_output=True,
                                  text=True, timeout=280)
        r = rundemo()
        if r.returncode:
            return bid, "demo fails on the unchanged tree: " + (r.stderr + r.stdout)[-300:]
        open(path, "w").write(s)
        r = rundemo()
        if r.returncode == 0:
            return bid, "demo passes with the patch"
        diff = subprocess.run(["git", "diff"], cwd=repo, capture_output=True, text=True).stdout
        env = dict(os.environ, MPLBACKEND="Agg", PYTHONHASHSEED="0", PYTHONPATH=os.path.join(repo, "src"),
                   OPENBLAS_NUM_THREADS="1", MPLCONFIGDIR="/opt/venv/mplconfig", PYTHONDONTWRITEBYTECODE="1")
        xml = os.path.join(tmp, "r.xml")
        subprocess.run([PY, "-m", "pytest", "tests", "-m", "", "-q", "-p", "no:cacheprovider", "--timeout=120",
                        "--continue-on-collection-errors", "-o", "junit_family=xunit2", "--junitxml=" + xml],
                       cwd=repo, env=env, capture_output=True, timeout=1500)
        out = os.path.join(tmp, "o.json")
        subprocess.run([PY, "/opt/vp/results.py", out, "junit:" + xml], capture_output=True)
        lost = sorted(stable() - set(json.load(open(out))["passed"]))
        if lost:
            return bid, "stable tests fail: %s" % lost[:4]
        dst = os.path.join(VERIF, "seeded", bid)
        os.makedirs(dst, exist_ok=True)
        open(os.path.join(dst, "patch.diff"), "w").write(diff)
        for f in ("demo.py", "demo.sh"):
            shutil.copy(os.path.join(d, f), dst)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks),
                  open(os.path.join(dst, "meta.json"), "w"), indent=1)
        return bid, "KEPT"
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    bugs = [b for b in ns["BUGS"] if not sys.argv[2:] or b[0] in sys.argv[2:]]
    with ThreadPoolExecutor(6) as ex:
        for bid, msg in ex.map(one, bugs):
            print(bid, msg, flush=True)
