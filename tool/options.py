#!/usr/bin/env python3
"""Writes vlib/options.json, the table of rule O01, from the tree that is being read. The result is reviewed by hand before it is committed; no check runs this."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.program import Program
from vlib.options import table

T = table(Program())
json.dump(T, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "vlib", "options.json"), "w"), indent=1, sort_keys=True)
for n, r in T["routes"].items():
    reach = {s.split("[")[0] for v in r["to"].values() for ss in v["s"] for s in ss}
    print(n, "without a route:", [p for p in r["formals"] if p not in reach])
