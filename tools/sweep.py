#!/usr/bin/env python3
"""For every seeded bug: apply it to a scratch copy of /repo and run its property's check (and, with --all,
every other check too) against that copy; prints which checks report it."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def check(pid, repo, jobs):
    env = dict(os.environ, MC_REPO=repo, MC_JOBS=str(jobs), MC_OUT=os.path.dirname(repo))
    r = subprocess.run([PY, os.path.join(VERIF, "run.py"), pid], env=env, capture_output=True, text=True)
    return r.returncode, r.stdout + r.stderr


def one(bid, everything):
    d = os.path.join(VERIF, "seeded", bid)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    tmp = tempfile.mkdtemp(prefix="sweep-")
    try:
        repo = os.path.join(tmp, "repo")
        shutil.copytree("/repo", repo, symlinks=True)
        subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=repo, check=True)
        pids = [prop]
        if everything:
            pids += [p for p in ["C%02d" % i for i in range(1, 54)] if p != prop]
        res = [(p,) + check(p, repo, 2) for p in pids]
        return bid, prop, res
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if a[0] != "-"]
    ids = args or sorted(os.listdir(os.path.join(VERIF, "seeded")))
    with ThreadPoolExecutor(4) as ex:
        for bid, prop, res in ex.map(lambda b: one(b, "--all" in sys.argv), ids):
            hit = [p for p, rc, _ in res if rc == 1]
            odd = [(p, rc) for p, rc, _ in res if rc not in (0, 1)]
            if "--all" in sys.argv or "--record" in sys.argv:
                path = os.path.join(VERIF, "tools", "caught.json")
                table = json.load(open(path)) if os.path.exists(path) else {}
                table[bid] = sorted(set(hit) | (set(table.get(bid, [])) if "--record" in sys.argv else set()))
                json.dump(table, open(path, "w"), indent=0, sort_keys=True)
            msg = res[0][2].strip().splitlines()[-3][:110] if res[0][1] == 1 else "MISSED"
            print("%-22s %s %s %s%s" % (bid, prop, " ".join(hit), msg, " ODD %s" % odd if odd else ""), flush=True)
