"""Writes /verif/MANIFEST.json from the properties and the check modules that exist."""
import json, os
root = os.path.join(os.path.dirname(__file__), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
NA = {
    "N01": "Convergence and quality of an iterative optimiser (L-BFGS on a non-convex objective): the iteration count and the optimisation library (scipy, foreign code) put it outside any bounded symbolic encoding, and the claim itself is statistical.",
    "N02": "Rounding behaviour of hundreds-of-dimensions floating-point linear algebra inside LAPACK: the encoding works over the reals, and a bit-precise floating-point encoding of these kernels is out of reach of the solvers.",
}
NOTES = {}
exec(open(os.path.join(root, "tools", "notes.py")).read())
TECH = "symbolic execution of the real Python code over the reals (z3 decides every path condition and obligation; counterexamples replayed on the unmodified code)"
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(root, "props", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd=f"VERIF_TIER=quick ./run.py {i}", thorough_cmd=f"VERIF_TIER=thorough ./run.py {i}",
                           evidence_file=f"evidence/{i}.json", technique=TECH, level="model_checking",
                           level_note=NOTES.get(i, "") + " Real-number semantics (no rounding); bounds in the evidence and DESIGN.md; trusts z3, the numpy/scipy models of symx/array.py (validated per harness against the unmodified code) and sympy-free normalisation in symx/nf.py, whose every identification of atoms is a z3 query."))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na), open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
