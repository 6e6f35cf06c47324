"""Writes MANIFEST.json: claims every property of properties.jsonl which has a check module."""
import json
from pathlib import Path

V = Path(__file__).resolve().parents[1]
TECH = {
    "C01": "property-based testing: generated weather histories, mass-balance invariant over the run",
    "C02": "property-based testing: generated histories, state-validity invariants and settling laws",
    "C03": "property-based testing: generated forest histories, canopy mass-balance invariant and model",
    "C04": "property-based testing: generated histories, soil water balance and FAO-56 reference model",
    "C05": "property-based testing: generated station networks against a reference interpolation",
    "C06": "property-based testing: generated station files and records against a reference reader",
    "C07": "property-based testing: generated station networks, reference selection and mapping",
    "C08": "property-based testing: generated output requests against a recorded run (reference aggregation)",
    "C09": "property-based testing: generated output requests against a recorded run (reference aggregation)",
    "C10": "property-based testing and structured fuzzing of configurations against a reference model",
    "C11": "metamorphic property-based testing: sub-domain, padding and neighbour changes",
    "C12": "stateful property-based testing: interleavings and execution modes compared bit by bit",
    "C13": "property-based testing against reference formulas, conservation and metamorphic relations",
    "C14": "property-based testing: differential (reference ray casting, sun position) and bounds",
    "C15": "property-based testing: reference terrain operators and metamorphic relations",
    "C16": "property-based testing: energy conservation, extremum principle and dense reference solver",
    "C17": "property-based testing: generated histories, energy-balance residuals and reference formulas",
    "C18": "property-based testing: defining equations, inverses and monotonicity",
    "C19": "property-based testing: generated glaciers, conservation and reference delta-h update",
    "C20": "property-based testing: generated runs against a reference calendar",
    "C21": "property-based testing: round trips and generated mismatching grids",
    "C22": "property-based testing: generated station records against a reference method selection",
    "C23": "stateful property-based testing of the variable container; metamorphic model runs",
    "C24": "property-based testing: generated seasons against a reference model",
    "C25": "fault injection by generated gap patterns, history invariants and metamorphic comparison",
    "C26": "generated histories, differential testing of every step against a scalar reference model",
    "C27": "differential property-based testing: compiled against interpreted, bounds-checked, one against many threads",
    "C28": "metamorphic property-based testing: unused features added or changed, later weather changed",
    "C29": "differential property-based testing: the same run started in different ways, outputs compared",
}
NOTE = (
    "Search over generated cases (counts, non-triviality rule, label distribution and samples in the "
    "evidence file) against the oracle described in DESIGN.md; finding nothing is not a proof."
)
props = [json.loads(x) for x in (V / "properties.jsonl").read_text().splitlines()]
checks, na = [], []
for p in props:
    i = p["id"]
    if (V / "vh" / "checks" / f"{i.lower()}.py").exists():
        checks.append(dict(property=i, quick_cmd=f"./run.sh {i} quick", thorough_cmd=f"./run.sh {i} thorough",
                           technique=TECH[i], level="exploration", level_note=NOTE))
    else:
        na.append(dict(property=i, reason="applicable, but the check has not been built yet"))
m = dict(version=1, setup_cmd="./run.sh --setup", checks=checks, not_applicable=na)
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not claimed")
