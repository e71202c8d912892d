#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from (id, property, edits, demo, needs, breaks), after confirming in a scratch copy that the
tests pass with the change and that the demo fails with it and passes without.  Usage: mkseed.py SPEC.py  (SPEC defines SEEDS)"""
import json, os, runpy, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '#!/bin/sh\ncd "${REPO:-.}"\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec python3 "$(cd "$(dirname "$0")" && pwd)/demo.py"\n'
# demo.sh must find demo.py before changing directory
DEMO_SH = '#!/bin/sh\nD="$(cd "$(dirname "$0")" && pwd)"\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec python3 "$D/demo.py"\n'


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def main():
    only = sys.argv[2:]
    for s in runpy.run_path(sys.argv[1])["SEEDS"]:
        if only and s["id"] not in only:
            continue
        out = os.path.join(HERE, "seeded", s["id"])
        d = tempfile.mkdtemp(prefix="seed")
        try:
            r = d + "/r"
            sh("git clone -q /repo %s" % r)
            for f, old, new in s["edits"]:
                t = open(os.path.join(r, f)).read()
                if t.count(old) != 1:
                    print(s["id"], "pattern count", t.count(old), repr(old))
                    break
                open(os.path.join(r, f), "w").write(t.replace(old, new))
            else:
                os.makedirs(out, exist_ok=True)
                open(out + "/demo.sh", "w").write(DEMO_SH)
                os.chmod(out + "/demo.sh", 0o755)
                open(out + "/demo.py", "w").write(s["demo"].lstrip("\n"))
                json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
                open(out + "/patch.diff", "w").write(sh("git diff", cwd=r).stdout)
                # lines changed must be lines of the original repository
                bad = sh("sh %s/demo.sh" % out, cwd=r)
                t = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider -o python_files='test*.py' tests 2>&1 | tail -3", cwd=r)
                good = sh("sh %s/demo.sh" % out, cwd="/repo")
                print(s["id"], "demo with:", bad.returncode, "without:", good.returncode, "tests:", t.stdout.strip().splitlines()[-1:] )
                if good.returncode:
                    print(good.stdout[-500:], good.stderr[-500:])
                if not bad.returncode or good.returncode:
                    print("  NOT A BUG")
        finally:
            shutil.rmtree(d)


main()
