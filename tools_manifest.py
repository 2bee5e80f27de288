"""Writes MANIFEST.json from the checks that exist (harness.main.MODULES) and the notes below."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
import sys  # noqa: E402

sys.path.insert(0, HERE)
from harness.main import MODULES  # noqa: E402

STANDIN = ("Runs the real dxss code on the numpy stand-in for dolfinx/UFL assembly in standin/ (trusted; see DESIGN.md): "
           "dolfinx is not installed here.")
NOTES = {
    "P01": ("TLA+ model of the GMRES contract, trace validation with TLC",
            "TLC enumerates the small systems, settings and outcomes exactly (rationals); the real solver runs on each and its recorded run is decided by the specification. Larger systems are judged against the same rule with residuals computed in numpy. Trusts PETSc's arithmetic to rounding."),
    "P02": ("TLA+ model of the GMRES contract, trace validation with TLC",
            "As P01, for histories of solves in one process; residual, option leaks, inputs and progress report are compared with the specification."),
    "P03": ("TLA+ exact rational specification of the time basis, conformance of the code with it",
            "The specification constructs the nodal polynomials by interpolation in exact rationals; the code's callables are compared with it at more points than their degree, which decides equality of polynomials."),
    "P04": ("TLA+ exact rational integrals, every entry of every matrix compared", "All 16 degree pairs and all matrices, completely."),
    "P05": ("TLA+ exact moments, conformance on enumerated intervals", "All rules offered; moments up to the order of exactness on enumerated intervals, up to the digits the points are tabulated with."),
    "P06": ("TLA+ exact rational specification of the lifting polynomial, conformance of the code with it", "Compared at more points than the degree."),
    "P07": ("TLA+ specification of the unknown layout, conformance by enumerated blocks", "Layout enumerated by TLC for each case and compared with what gathers and scatters really touch. " + STANDIN),
    "P08": ("TLA+ specification of the variational form (exact rational tables), every matrix entry compared", "The specification gives, for each case, the coefficient of every operator in space in every block; the code's matrices are compared with it entry by entry. " + STANDIN),
    "P09": ("TLA+ specification of the space-time matrix (exact rational tables), every matrix entry compared", "Symmetry, block structure and relation of the variants are invariants of the specification checked by TLC; the code's matrices are compared entry by entry. " + STANDIN),
    "P10": ("TLA+ specification of the applied operator, conformance block by block", "Agreement of applied and assembled operator is an invariant checked by TLC; the code is applied to every block and to random vectors. " + STANDIN),
    "P11": ("TLA+ model of the marching over slabs, replay into the code and trace validation", STANDIN),
    "P12": ("TLA+ model of both marching variants, replay of enumerated histories into the code", STANDIN),
    "P13": ("TLA+ model of the object's life cycle, replay of enumerated call sequences into the code", STANDIN),
    "P14": ("TLA+ exact rational load tables, conformance of the code's right-hand side", STANDIN),
    "P15": ("TLA+ specification of the data terms, conformance for enumerated data domains", STANDIN),
    "P16": ("TLA+ specification of the initial data terms, conformance of matrices, operator and right-hand side", STANDIN),
    "P17": ("TLA+ specification of the forward-jump terms, conformance of matrices, operator and marching", STANDIN),
    "P18": ("TLA+ specification of sampling and lifting with exact errors, conformance of the reported errors", STANDIN),
    "P19": ("TLA+ specification of the grid transfer and the two-level step, conformance of the code", STANDIN),
    "P20": ("TLA+ model of the solve pipeline, replay of enumerated configurations into the drivers", STANDIN),
    "P21": ("TLA+ specification of valid meshes in integer coordinates, validation of generated meshes", "Generated meshes are exported and judged by the specification."),
    "P22": ("TLA+ model of mesh generation sessions, trace validation of recorded gmsh and file events", "Events recorded at the gmsh and file interfaces are accepted or rejected by TLC."),
    "P23": ("TLA+ exact rational specification of the plotted values, conformance of what is drawn and written", STANDIN),
    "P24": ("TLA+ model of the driver's use of its back end, trace validation of recorded solver events", STANDIN),
    "P25": ("TLA+ specification of the drivers' settings and data domains in integer coordinates, conformance of the problems posed", "The specification enumerates the settings and decides each cell; the driver is run with each of them up to the problem it poses. " + STANDIN),
}
LEVEL = "model_checking"

if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl")) as f:
        ids = [json.loads(line)["id"] for line in f]
    m = {
        "version": 1,
        "setup_cmd": "./setup.sh",
        "checks": [{"property": p, "quick_cmd": f"./check {p} quick", "thorough_cmd": f"./check {p} thorough",
                    "evidence_file": f"evidence/{p}.json", "technique": NOTES[p][0], "level": LEVEL,
                    "level_note": NOTES[p][1]} for p in ids if p in MODULES],
        "not_applicable": [{"property": p, "reason": "check not built yet"} for p in ids if p not in MODULES],
        "notes": "Specification in TLA+ (spec/), checked with TLC; conformance harness in harness/; stand-in for the missing finite element library in standin/.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
