#!/usr/bin/env python3-vt
"""tools/mut.py PROP FILE OLD NEW [flags]: run a check on a scratch copy of /repo with one text replaced."""
import os, shutil, subprocess, sys, tempfile
prop, f, old, new = sys.argv[1:5]
d = tempfile.mkdtemp(prefix="mut")
try:
    shutil.copytree("/repo", d + "/r", ignore=shutil.ignore_patterns(".git"))
    p = d + "/r/" + f
    s = open(p).read()
    assert s.count(old) >= 1, "pattern not found"
    open(p, "w").write(s.replace(old, new, 1))
    r = subprocess.run(["python3-vt", "/verif/check.py", prop, "-v"] + sys.argv[5:], env=dict(os.environ, VF_REPO=d + "/r", VF_EVID=d), capture_output=True, text=True)
    print(r.stdout[-2500:], r.stderr[-500:], "exit", r.returncode)
finally:
    shutil.rmtree(d)
