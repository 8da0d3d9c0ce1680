#!/usr/bin/env python3
"""Lists the operands that are declared read-only (run once; the list is kept in vlib/inputs.json)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.setrecursionlimit(20000)
from vlib.program import Program
from vlib.modref import pointee_const
P = Program()
out = set()
for f in P.funcs.values():
    ps = tuple(p["n"] for p in f["p"])
    for p in f["p"]:
        if pointee_const(p["t"]) and p["n"]:
            out.add((f["q"], ",".join(ps), p["n"]))
    if f.get("const"):
        out.add((f["q"], ",".join(ps), "this"))
by = {}
# one name with several overloads of the same parameter names: read-only only if all are
for f in P.funcs.values():
    by.setdefault((f["q"], ",".join(p["n"] for p in f["p"])), []).append(f)
ok = []
for q, ps, n in sorted(out):
    fs = by[(q, ps)]
    if all((f.get("const") if n == "this" else any(p["n"] == n and pointee_const(p["t"]) for p in f["p"])) for f in fs):
        ok.append([q, ps, n])
with open(os.path.join(V, "vlib", "inputs.json"), "w") as fo:
    fo.write("[\n" + ",\n".join(json.dumps(x) for x in ok) + "\n]\n")
print(len(ok))
