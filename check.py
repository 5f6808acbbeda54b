#!/opt/venv/bin/python
"""check.py <ID> [--tier quick|thorough] [--replay FILE] [--only SUB[,SUB]]"""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
WANT = {"PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "OMP_NUM_THREADS": "1",
        "OPENBLAS_NUM_THREADS": "1", "TZ": os.environ.get("TZ", "UTC"), "HDF5_USE_FILE_LOCKING": "FALSE"}
if any(os.environ.get(k) != v for k, v in WANT.items()):
    os.environ.update(WANT)
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, HERE)
import argparse, importlib, traceback


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    a = ap.parse_args()
    from lib import env, harness
    try:
        import pydarnio
    except Exception:
        # the tree does not even import: every property about using it is broken only if the build
        # is; that is not for a property check to decide
        traceback.print_exc()
        return 2
    if not os.path.abspath(pydarnio.__file__).startswith(os.path.abspath(env.REPO) + os.sep):
        print("pydarnio imported from", pydarnio.__file__, file=sys.stderr)
        return 2
    try:
        mod = importlib.import_module("props." + a.id.lower())
    except Exception:
        traceback.print_exc()
        return 2
    if a.replay:
        return harness.replay(a.id, mod, a.replay)
    return harness.run_property(a.id, mod, a.tier, set(a.only.split(",")) if a.only else None)


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
