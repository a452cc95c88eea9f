"""Which tasks decide which property."""
import importlib
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TRUSTED = [
    "pyvc: the verification-condition generator in /verif/pyvc (symbolic execution of the Python AST read from /repo/src)",
    "SMT back ends z3 and cvc5; Lean 4 kernel with Mathlib for the lemma files",
    "models of the Python and numpy operations used (pyvc/lib.py, pyvc/interp.py): assumed contracts on dependencies",
]
ASSUME = [
    "machine floating point is treated as exact real arithmetic (and Python int as unbounded integer)",
    "array arguments are float64 arrays of the documented shape without aliasing beyond what the contracts state",
    "math.sqrt is the exact square root of a nonnegative number",
]

PROPS = {
    "C01": {"modules": ["ellcalc", "ell"], "lean": ["Ellipsoid.lean", "Sums.lean"]},
    "C02": {"modules": ["ellcalc", "ell"], "lean": ["Ellipsoid.lean", "Sums.lean"]},
    "C03": {"modules": ["ellcalc", "ell"], "lean": ["Ellipsoid.lean", "Sums.lean"]},
    "C04": {"modules": ["ellcalc", "ell"], "lean": ["Sums.lean"]},
    "C05": {"modules": ["ellcalc", "ell"], "lean": ["Ellipsoid.lean", "Factored.lean", "Sums.lean"]},
    "C06": {"modules": ["ellcalc"]},
    "C07": {"modules": ["cutting"]},
    "C08": {"modules": ["cutting"]},
    "C09": {"modules": ["cutting"]},
    "C10": {"modules": ["cutting"]},
    "C11": {"modules": ["cutting"]},
    "C12": {"modules": ["ldlt"], "lean": ["Ldlt.lean", "Sums.lean"]},
    "C13": {"modules": ["ldlt"], "lean": ["Ldlt.lean", "Sums.lean"]},
    "C14": {"modules": ["ldlt"], "lean": ["Ldlt.lean", "Sums.lean"]},
    "C15": {"modules": ["lmi"], "lean": ["Ldlt.lean", "Sums.lean"]},
    "C16": {"modules": ["profit"], "lean": ["Lse.lean"]},
    "C17": {"modules": ["profit"], "lean": ["Lse.lean"]},
    "C18": {"modules": ["profit"], "lean": ["Lse.lean"]},
    "C19": {"modules": ["lowpass"], "lean": ["Sums.lean"]},
    "C20": {"modules": ["misc"], "lean": ["Sums.lean"]},
    "C21": {"modules": ["misc"], "lean": ["Sums.lean"]},
    "C22": {"modules": ["misc"], "lean": ["Spectral.lean", "Sums.lean"]},
    "C23": {"modules": ["misc"]},
    "C24": {"modules": ["frames"]},
}


def tasks(prop):
    out = []
    for m in PROPS[prop]["modules"]:
        out += importlib.import_module("contracts." + m).tasks(prop)
    return out


def known(prop):
    with open(os.path.join(HERE, "known_findings.json")) as f:
        return [k for k in json.load(f)["known"] if k["property"] == prop]

TECH = "contract-based deductive verification of the real source (VC generation from the Python AST, SMT discharge; Lean lemmas)"
_N = "All obligations generated from the current source are discharged for every dimension and input in exact real arithmetic; "
NOTES = {p: _N + "trusts the VC generator, the numpy/math models and the SMT solvers." for p in PROPS}
NOT_APPLICABLE = {}
