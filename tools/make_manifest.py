"""Writes MANIFEST.json (run after changing a technique or a level note)."""
import json
import os

DYN = "deterministic exploration of the real code"
T = {
    "C01": ("exhaustive enumeration of the whole request space against a model of the database", "every entry of the database and every off-database pair is requested from the real loader"),
    "C02": ("exhaustive enumeration of all grid cells, edges and points against a bilinear reference model", "every cell of the interpolation grid; positions inside a cell are bounded to listed points"),
    "C03": ("explicit-state exploration of all operation sequences up to a depth against a stateless model", "all sequences of setters, reads and copies up to the stated depth over a small database"),
    "C04": ("exhaustive fault enumeration: all damage/repair/request histories up to a depth", "all fault kinds at all the files a request needs; damage that keeps size and type is out of scope"),
    "C05": ("stateless model checking: all thread interleavings up to a preemption bound on real threads", "preemption-bounded, at source-line (partly bytecode) granularity; numpy/SciPy calls are atomic"),
    "C27": ("explicit-state exploration of call histories with a fork-from-pristine differential oracle", "all histories of the stated shapes; each evaluation compared with the same call in a fresh process"),
    "C29": ("exhaustive enumeration of given/omitted argument subsets and of two-object write sequences", "all subsets up to the bound and every attribute written on one of two objects"),
    "C16": ("deviation-bounded exhaustive enumeration with a reference model and frame conditions on every lattice step", "all deviations up to the bound from the base; every step of the lattice is a checked transition"),
    "C17": ("exhaustive enumeration of sizes, contents and angles against an independent bilinear model", "all listed sizes, contents and angles"),
    "C23": ("exhaustive enumeration of the input grid against the published equations, monotonicity on every step", "full product of the listed alphabets"),
    "C24": ("exhaustive enumeration of transfer functions over a small alphabet, order relations on every step", "all non-increasing responses up to four samples plus listed families"),
    "C32": ("exhaustive enumeration of refused calls: every documented reason times the product of the other arguments", "every function with a documented error or warning; arrays of more dimensions than documented are not covered"),
    "C28": ("exhaustive enumeration of geometries up to the horizon against a reference model, monotonicity on every step", "full product of the listed heights and ranges"),
}
DEFAULT = ("bounded exhaustive enumeration of states and transitions of the real code against a reference model",
           "full product (or all deviations up to the bound) over the alphabets reported in the evidence")
NOTE = " Values outside the enumerated alphabets are not covered; trusts numpy, the reference model in mc/ref.py and the " \
       "synthetic database (the checkout has only Git-LFS pointers)."
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x)["id"] for x in open(os.path.join(root, "properties.jsonl"))]
checks = []
for p in props:
    tech, note = T.get(p, DEFAULT)
    run = f"/opt/venv/bin/python mc/run.py {p}"
    checks.append({"property": p, "quick_cmd": run + " --tier quick", "thorough_cmd": run + " --tier thorough",
                   "technique": "model checking: " + tech, "level": "model_checking",
                   "level_note": note[0].upper() + note[1:] + "." + NOTE})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c \"import numpy, scipy, cv2, matplotlib\"", "checks": checks,
     "not_applicable": [],
     "notes": "No hooks: the package is pure Python and is executed from /repo/src unmodified; scheduling points come from "
              "sys.monitoring. Known findings and repairs: known_findings.json. Design: DESIGN.md."}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
