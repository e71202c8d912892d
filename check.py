#!/usr/bin/env python3-vt
"""check.py selftest | <property> [--thorough] [-v] [--unit=SUB] [--prove-only] [--replay FILE]"""
import os
import shutil
import sys
import tempfile
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
os.environ.setdefault("PYTHONHASHSEED", "0")
sys.dont_write_bytecode = True
sys.setrecursionlimit(6000)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
for _v in ("VF_REPO", "VF_EVID"):
    if os.environ.get(_v):
        os.environ[_v] = os.path.abspath(os.environ[_v])
from vf.run import main  # noqa: E402

if __name__ == "__main__":
    if len(sys.argv) < 2:
        sys.exit(__doc__)
    if sys.argv[1] == "selftest":
        from vf.selftest import main as selftest
        sys.exit(selftest())
    # code under test runs in a scratch directory: what a changed program writes to a relative path goes there
    argv = [os.path.abspath(a) if n and sys.argv[n - 1] == "--replay" else a for n, a in enumerate(sys.argv)]
    scratch = tempfile.mkdtemp(prefix="vf-cwd-")
    os.chdir(scratch)
    try:
        rc = main(argv)
    finally:
        os.chdir(HERE)
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)
