#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks present in sa/checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "abstract interpretation of the source into a value graph"
GVN = AI + "; equality by global value numbering (random interpretation)"
T = {
 "C01": (GVN + "; oracle: reverse-mode derivative of the plain kernel's own graph", ""),
 "C02": (GVN + "; oracle: derivative of the plain kernel's own graph", ""),
 "C03": (GVN + "; oracle: gradient of the plain kernel's own graph", ""),
 "C04": (GVN + "; implicit differentiation through the root node; section kernels uninterpreted, discharged by the kernel lemmas", ""),
 "C05": (GVN + "; implicit differentiation through the root node; section kernels uninterpreted, discharged by the kernel lemmas", ""),
 "C06": (GVN + " over a model of OpenMDAO vectors and sub-Jacobians", ""),
 "C07": (GVN + "; oracle: the documented equations written as terms", ""),
 "C08": (AI + "; the two branches' graphs compared after substitution on the switching surface", ""),
 "C09": (GVN + "; oracle: the csystem chain interpreted from its own source, and the documented formulas as terms", ""),
 "C10": (GVN + "; oracle: trapezoid rule written as terms", ""),
 "C11": (GVN + "; oracle: documented averages and normalisations as terms", ""),
 "C12": (GVN + "; oracle: section-load relations as terms", ""),
 "C13": (GVN + "; oracle: rotation matrices as terms, inverse/derivative obligations", ""),
 "C14": ("effect analysis (reads of fields before writes, writes to shared state) plus value-graph comparison of call sequences", ""),
 "C15": ("alias and effect analysis over the interpreted source: writes and returned references reaching caller-owned arrays", ""),
 "C16": (GVN + "; non-interference: value graphs with and without the request compared", ""),
 "C17": (GVN + "; splines as uninterpreted differentiable functions of their data", ""),
 "C18": (GVN + "; oracle: affine combination as terms", ""),
 "C19": (GVN + "; oracle: Viterna segments as terms", ""),
 "C20": (GVN + "; oracle: documented correction as terms", ""),
 "C21": ("call-trace analysis over the interpreted source (which polar operation is applied to which polar with which arguments)", ""),
 "C22": ("abstract interpretation of writer and reader over token streams: record/column agreement", ""),
 "C23": (GVN + "; solver boundary analysed at the call: argument-to-parameter correspondence", ""),
 "C24": ("dimension analysis: value graphs compared under scaling of the base units", ""),
 "C25": ("path enumeration of the bracket selection with the residual's signs as atoms; residual's value graph at the call site", ""),
 "C26": ("fault injection into the abstract semantics: exceptional and NaN edges of the solver call enumerated per station", ""),
 "C27": ("path analysis: every path reachable with an unsupported request ends in a raise", ""),
 "C28": ("typestate/effect analysis of file operations on every path", ""),
 "C29": (GVN + "; oracle: definition of the inverse twist as terms", ""),
 "C34": (GVN + "; oracle: the section loads and averages as terms over the described rotor", "Station positions are fixed rational tables (their order decides the end-station rule), everything else is symbolic."),
 "C35": (GVN + "; coefficient surfaces as table-valued functions with the peak placed by enumeration", "The searched angles' coefficients are fixed rational values with the peak at enumerated places."),
 "C36": (GVN + "; oracle: least-squares line and crossing formulas as terms", "Polars are fixed rational tables (their order decides the branches)."),
 "C37": (GVN + "; oracle: crossing, breakpoint and slope definitions as terms", "Tables are fixed rational numbers (their order decides the branches)."),
}
NOTE = ("Decides the property on every path of the analysed functions for the listed configurations (array sizes and option sets are enumerated, "
        "values are symbolic). Equality of values is decided by value numbering in a finite field with 140-bit prime: a wrong 'equal' has "
        "probability below 1e-30; unequal is certain. Trusted: the interpreter's model of Python, Fortran, numpy and scipy calls. "
        "Measure-zero guard equalities are taken in the generic direction unless a configuration sets them.")
NA = {
 "C30": "existence and uniqueness of a root for arbitrary airfoil tables is a quantified statement over runtime reals; no static argument in reach bounds it",
 "C31": "closeness of a smoothing spline to its data is decided inside FITPACK on run-time tables; nothing in the source bounds it",
 "C32": "agreement with measured or reference performance is an empirical statement about numbers, not about the code's structure",
 "C33": "convergence of the azimuthal average is a limit of numerical results and depends on the integrand",
}
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p in NA:
        na.append(dict(property=p, reason=NA[p]))
    elif os.path.exists(os.path.join(V, "sa", "checks", p.lower() + ".py")):
        t, n = T[p]
        checks.append(dict(property=p, quick_cmd="python3-vt sa/run.py %s --tier quick" % p,
                           thorough_cmd="python3-vt sa/run.py %s --tier thorough" % p,
                           evidence_file="evidence/%s.json" % p, technique=t, level="other", level_note=(n + " " if n else "") + NOTE))
    else:
        na.append(dict(property=p, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="python3-vt -c \"import numpy\"", checks=checks, not_applicable=na,
               notes="All checks read /repo's sources (or $CCBLADE_REPO) and run none of its code."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
