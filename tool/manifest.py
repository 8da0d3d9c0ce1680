#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the rules that exist."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
NA = {
    "V01": "correctness of the estimates is a statement about real-number values of floating-point linear algebra; no sound static abstraction in reach bounds it",
    "V02": "monotonicity, inverses and integrals of transcendental functions over all parameters; numeric, not decidable by dataflow or types",
    "V03": "calendar arithmetic over all dates is a value-level equivalence (boost date library included); a static rule would only restate the formulas",
    "V04": "an algebraic identity of floating-point update formulas over all samples; needs symbolic algebra or testing, not static analysis",
    "V05": "convergence and termination at a stationary point depend on run-time values of a user objective",
    "V06": "exactly-once enumeration is a loop-invariant/functional-correctness statement about MoveNext over unbounded index vectors; needs proof or bounded model checking",
    "V07": "value-level correctness of numeric algorithms on all samples and ties",
    "V08": "functional correctness of ordered insertion with a comparator on run-time weights; the structural parts (guards, completeness) are covered by C05",
    "V09": "element-wise functional correctness of data transformations over run-time dates",
    "S01": "that StorageSize and WorkSize bound every use is an inequality between symbolic polynomials of run-time dimensions (with maxima over sub-estimators "
           "and data-dependent component counts); deciding it needs symbolic arithmetic or a solver, not dataflow, types or syntax",
    "V10": "orthogonality and linkage definitions are numeric, value-level statements",
}
PENDING = "no check built for it (yet): listed here so that nothing is claimed for it"
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "vlib", "rules", i.lower() + ".py")):
        m = importlib.import_module("vlib.rules." + i.lower())
        checks.append({"property": i,
                       "quick_cmd": "python3 check.py %s --tier quick" % i,
                       "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": m.TECHNIQUE, "level": m.LEVEL, "level_note": m.NOTE,
                       "evidence_file": "evidence/%s.json" % i})
    else:
        na.append({"property": i, "reason": NA.get(i, PENDING)})
m = {"version": 1, "setup_cmd": "python3 vlib/build.py", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
