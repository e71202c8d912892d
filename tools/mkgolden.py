#!/usr/bin/env python3-vt
"""Records vf/golden_usages.json from /repo.  Run by hand only, after reviewing the tables against the HID usage tables."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vf.props import c10
json.dump({"constants": {n: v for n, v in sorted(c10.published().items())},
           "functions": {"button.Button": 0x90000, "ordinal.Ordinal": 0xa0000}},
          open(os.path.join(HERE, "vf", "golden_usages.json"), "w"), indent=0)
