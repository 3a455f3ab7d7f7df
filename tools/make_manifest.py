"""Writes MANIFEST.json from properties.jsonl and the registered checks."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from exoscan import checks  # noqa: E402

TECH = ("abstract interpretation of the package source: values as algebraic "
        "normal forms (global value numbering, random interpretation for "
        "unequal forms), trace partitioning at branches and comparisons")
QUERY = "dataflow, effect and registry queries over the interpreted and parsed source"
NOTE = ("Every obligation is decided on the current source of /repo/src for "
        "symbolic values of the inputs, over the finite set of argument forms, "
        "shapes and options listed in the evidence. Assumes real arithmetic and "
        "trusts the transfer functions of NumPy, PyTensor, PyMC, AstroPy and "
        "exoplanet_core calls; equality of differing normal forms is decided by "
        "random interpretation (error probability below 1e-30 per comparison).")
NA = {
    "N01": "accuracy of exoplanet_core's iterative compiled solver over all floating-point inputs: numerical results of code outside this repository that no static argument in reach bounds",
    "N02": "accuracy of exoplanet_core's quartic root finding over floating-point inputs: numerical, outside this repository",
    "N03": "accuracy of exoplanet_core's compiled occultation integrals in floating point: numerical, outside this repository",
    "N04": "statistical behaviour of estimators on noisy data: quantifies over data and thresholds no static argument bounds; the structural clauses are claimed as C35-C37",
    "N05": "convergence of a Monte-Carlo sampler is a runtime statistical property; the densities and transforms it relies on are claimed as C29-C34",
    "N06": "rounding and cancellation in floating point: the analysis reasons over real arithmetic; no error analysis of the compiled graphs is in reach",
}
QUERIES = {"C38", "C39", "C42", "C43", "C45"}

props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
out = {
    "version": 1,
    "setup_cmd": "python3-vt -c 'import sympy, mpmath, numpy'",
    "checks": [],
    "not_applicable": [],
    "notes": "All checks read /repo/src as text; nothing of the package is imported or run. No hooks. Repairs of genuine defects are the fix: commits in /repo, listed in known_findings.txt.",
}
for p in props:
    i = p["id"]
    if i in checks.REGISTRY:
        out["checks"].append({
            "property": i,
            "quick_cmd": "python3-vt check.py %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough python3-vt check.py %s" % i,
            "technique": QUERY if i in QUERIES else TECH,
            "level": "other",
            "level_note": NOTE,
        })
    else:
        out["not_applicable"].append({
            "property": i,
            "reason": NA.get(i, "no check built yet; not claimed"),
        })
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
