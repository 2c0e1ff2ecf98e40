#!/opt/venv/bin/python
"""python run.py <property> [--tier quick|thorough] [--replay FILE]"""
import os
import sys

for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"
os.environ["MPLBACKEND"] = "Agg"
os.environ.setdefault("MPLCONFIGDIR", "/opt/venv/mplconfig")
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(os.environ.get("MC_REPO", "/repo"), "src"), HERE,
                os.path.join(HERE, "mc", "stubs")]

from mc import engine  # noqa: E402


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    import warnings

    warnings.simplefilter("ignore")
    import ff
    assert ff.__file__.startswith(sys.path[0]), ff.__file__
    if "--replay" in argv:
        return engine.replay(argv[argv.index("--replay") + 1])
    return engine.explore(pid, tier, seed)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
