"""Bounded exhaustive explorer.

A property is a `Space`: a finite set of shards, each shard a deterministic,
simplest-first enumeration of cases (JSON-able values).  `run(case, rec)` drives
the real package on that case and compares it with a reference model; it calls
`rec.fail` (or raises) when they disagree.  Every shard runs in a fresh process
forked from the same pristine parent, so the history seen by the implementation
is a function of the shard alone and every failure can be replayed.

Counters, all measured while running:
  states       distinct model states (hashes of what `rec.state` was given)
  transitions  edges of the model's transition relation that were followed
  traces       executions of the implementation compared with the model
  outcomes     distinct observed results (guards against vacuous exploration)
"""

import hashlib
import importlib
import io
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import random
import signal
import sys
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("MC_OUT", ROOT)  # where evidence and replays go (sweeps use a scratch folder)
CASE_CPU_S = 90  # CPU seconds for one case; normal cases take milliseconds


class Violation(Exception):
    pass


class CaseTimeout(BaseException):
    pass


def _hash(obj):
    if not isinstance(obj, bytes):
        obj = repr(obj).encode()
    return int.from_bytes(hashlib.blake2b(obj, digest_size=8).digest(), "big")


class Recorder:
    def __init__(self):
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.traces = 0
        self.samples = []

    def state(self, key):
        self.states.add(_hash(key))

    def trans(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, key):
        if len(self.outcomes) < 5000:
            self.outcomes.add(_hash(key))

    def fail(self, msg, key=None):
        """Report a violation; `key` names a listed known finding, if any."""
        v = Violation(msg)
        v.key = key
        raise v

    def check(self, ok, msg, *args):
        if not ok:
            self.fail(msg % args if args else msg)


class Space:
    id = None
    title = ""
    rule = ""          # how states/transitions/traces are made
    assumptions = []

    def bounds(self, tier):
        return ""

    def shards(self, tier):
        return [None]

    def cases(self, shard, tier):
        raise NotImplementedError

    def run(self, case, rec):
        raise NotImplementedError


class Quiet(io.TextIOBase):
    """stdout stand-in that drops what the library prints."""

    def write(self, s):
        return len(s)

    def writable(self):
        return True


def load(pid):
    from .props import REGISTRY

    modname, cls = REGISTRY[pid]
    return getattr(importlib.import_module("mc.props." + modname), cls)()


def _alarm(signum, frame):
    raise CaseTimeout()


def _reset_globals():
    import numpy as np

    np.random.seed(12345)
    random.seed(12345)


def run_case(space, case, rec):
    """Return None, or (message, key) when the case violates the property."""
    old = sys.stdout
    sys.stdout = Quiet()
    _reset_globals()
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
    try:
        space.run(case, rec)
        return None
    except Violation as e:
        return (str(e), getattr(e, "key", None))
    except CaseTimeout:
        return ("no answer within %d CPU seconds" % CASE_CPU_S, None)
    except MemoryError:
        return ("ran out of memory", None)
    except BaseException as e:  # an exception on a valid input breaks the property
        tb = traceback.extract_tb(e.__traceback__)
        where = " <- ".join(
            "%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[::-1][:4]
        )
        return ("unexpected %s: %s [%s]" % (type(e).__name__, e, where), None)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        sys.stdout = old


def _run_shard(space, shard, tier, known, conn=None, stop_at=None):
    warnings.simplefilter("ignore")
    rec = Recorder()
    n = 0
    found = []
    fail = None
    for case in space.cases(shard, tier):
        res = run_case(space, case, rec)
        if n % 997 == 0 and len(rec.samples) < 3:
            rec.samples.append(case)
        if res is not None:
            if res[1] is not None and res[1] in known:
                found.append((res[1], case, res[0]))
            else:
                fail = (n, case, res[0])
                break
        n += 1
        if stop_at is not None and n > stop_at:
            break
    out = dict(cases=n, states=rec.states, outcomes=rec.outcomes,
               transitions=rec.transitions, traces=rec.traces,
               samples=rec.samples, found=found, fail=fail)
    if conn is not None:
        conn.send(out)
        conn.close()
    return out


def _child(space, shard, tier, known, conn):
    try:
        _run_shard(space, shard, tier, known, conn)
    except BaseException:
        try:
            conn.send({"error": traceback.format_exc()})
        except Exception:
            pass
    finally:
        os._exit(0)


def known_findings():
    res = {}
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: "):
                f = dict(x.split("=", 1) for x in line.split()[1:3])
                res.setdefault(f["property"], {})[f["key"]] = line.split(None, 3)[3]
    return res


def jdump(x):
    return json.dumps(x, default=str)


def explore(pid, tier, seed):
    t0 = time.time()
    space = load(pid)
    known = known_findings().get(pid, {})
    shards = list(space.shards(tier))
    ctx = mp.get_context("fork")
    workers = int(os.environ.get("MC_JOBS", os.cpu_count() or 4))
    pending = list(enumerate(shards))[::-1]
    running = {}
    total = dict(cases=0, transitions=0, traces=0)
    states, outcomes, samples, found, fails = set(), set(), [], {}, []
    deadline = t0 + (840 if tier == "quick" else 6 * 3600)
    error = None
    capped = False
    while pending or running:
        while pending and len(running) < workers and not fails and not error:
            i, sh = pending.pop()
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(space, sh, tier, known, w))
            p.start()
            w.close()
            running[r] = (i, sh, p)
        if not running:
            break
        for r in mp.connection.wait(list(running), timeout=5):
            i, sh, p = running.pop(r)
            try:
                out = r.recv()
            except EOFError:
                out = None
            p.join()
            r.close()
            if out is None:
                fails.append((i, -1, sh, None,
                              "the process exploring this part died (exit code %s)" % p.exitcode))
                continue
            if "error" in out:
                error = out["error"]
                continue
            for k in total:
                total[k] += out[k]
            states |= out["states"]
            outcomes |= out["outcomes"]
            samples += [(i, s) for s in out["samples"]]
            for k, c, m in out["found"]:
                found.setdefault(k, (c, m))
            if out["fail"]:
                n, case, msg = out["fail"]
                fails.append((i, n, sh, case, msg))
        if time.time() > deadline:
            capped = True
            for r, (i, sh, p) in running.items():
                p.kill()
            break
    if error:
        sys.stderr.write(error)
        return 2
    samples.sort(key=lambda s: s[0])
    step = max(1, len(samples) // 5)
    exhaustive = not capped and not fails
    ev = dict(
        property=pid, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=len(states), transitions=total["transitions"],
            traces_validated_against_impl=total["traces"],
            cases=total["cases"], shards=len(shards),
            distinct_outcomes=len(outcomes),
            samples=[json.loads(jdump(s)) for _, s in samples[::step][:5]],
            exhaustive=exhaustive, rule=space.rule, bounds=space.bounds(tier)),
        assumptions=space.assumptions,
        wall_s=round(time.time() - t0, 2), violations=len(fails))
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for k, text in known.items():
        if k in found:
            print("KNOWN-FINDING: property=%s %s" % (pid, text))
    if fails:
        fails.sort(key=lambda f: (f[0], f[1]))
        i, n, sh, case, msg = fails[0]
        os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
        data = dict(property=pid, tier=tier, shard=sh, index=n, case=case, message=msg,
                    howto="python run.py %s --replay <this file>" % pid)
        path = os.path.join(OUT, "replays", "%s-%08x.json" % (pid, _hash(jdump(data)) >> 32))
        with open(path, "w") as f:
            json.dump(data, f, indent=1, default=str)
        print("%s: %s" % (pid, msg[:600]))
        print("case: %s" % jdump(case)[:600])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if capped:
        sys.stderr.write("%s: time cap hit before the space was explored\n" % pid)
        return 2
    print("%s ok: %d states, %d transitions, %d traces, %d cases, %d outcomes, %.1fs"
          % (pid, len(states), total["transitions"], total["traces"], total["cases"],
             len(outcomes), time.time() - t0))
    return 0


def replay(path):
    """Run one recorded case twice alone; if it passes, replay its whole prefix."""
    d = json.load(open(path))
    space = load(d["property"])
    warnings.simplefilter("ignore")
    if d["case"] is not None:
        res = [run_case(space, d["case"], Recorder()) for _ in range(2)]
        if res[0] and res[1]:
            print("reproduced (case alone, twice): %s" % res[0][0])
            print("VIOLATION property=%s replay=%s" % (d["property"], path))
            return 1
    out = _run_shard(space, d["shard"], d["tier"], {}, stop_at=d["index"])
    if out["fail"]:
        print("reproduced (after %d earlier cases of its shard): %s" % (out["fail"][0], out["fail"][2]))
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    print("not reproduced")
    return 0
