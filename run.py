#!/usr/bin/env python3-vt
"""run.py Cnn quick|thorough [-v] [--only substring] [-k] | --replay FILE"""
import os
import sys
if os.environ.get("PYTHONHASHSEED") != "0" or not sys.dont_write_bytecode:
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
# llvmlite and numpy-free extras of the build environment, after our own
sys.path.append("/opt/venv/lib/python3.12/site-packages")
from symex import runner


def main(a):
    if a[0] == "--replay-here":
        return runner.replay_here(a[1])
    if a[0] == "--replay":
        root, mine = runner.scratch()
        try:
            ok, what = runner.replay(a[1], root)
            print("REPRODUCED" if ok else "NOT REPRODUCED", what)
            return 1 if ok else 0
        finally:
            if mine:
                import shutil
                shutil.rmtree(root, ignore_errors=True)
    pid = a[0]
    tier = a[1] if len(a) > 1 and not a[1].startswith("-") else os.environ.get("VERIF_TIER", "quick")
    only = a[a.index("--only") + 1] if "--only" in a else None
    return runner.check(pid, tier, only, "-v" in a, "-k" in a)


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
