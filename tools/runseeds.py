#!/usr/bin/env python3
"""Runs each planted bug (seeded/<id>) against its property's check, in a scratch copy of /repo.
Prints which obligations failed and whether a failing input was found.  Usage: runseeds.py [ids]"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for s in sorted(os.listdir(HERE + "/seeded")):
    if sys.argv[1:] and s not in sys.argv[1:]:
        continue
    d = tempfile.mkdtemp(prefix="seed")
    try:
        subprocess.run("git clone -q /repo r && cd r && git apply %s/seeded/%s/patch.diff" % (HERE, s), shell=True, cwd=d, check=True)
        prop = json.load(open("%s/seeded/%s/meta.json" % (HERE, s)))["property"]
        env = dict(os.environ, VF_REPO=d + "/r", VF_EVID=d + "/ev")
        r = subprocess.run(["python3-vt", "check.py", prop], cwd=HERE, env=env, capture_output=True, text=True)
        ev = json.load(open(d + "/ev/%s.json" % prop))
        c = ev["coverage"]
        rp = {}
        if r.returncode == 1:
            rp = json.load(open(d + "/ev/replay-%s.json" % prop))
        print("%-26s %s rc=%d %s obligations %d/%d undecided %d; failed: %s" % (
            s, prop, r.returncode, "no-input" if "no-failing-input-found" in r.stdout else ("input" if r.returncode == 1 else "MISSED"),
            c["discharged"], c["obligations"], len(c["undecided"]),
            "; ".join((rp.get("obligations") or sorted(rp.get("failed", {})))[:2])[:150]), flush=True)
    finally:
        shutil.rmtree(d)
