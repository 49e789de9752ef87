#!/usr/bin/env python3
"""Writes MANIFEST.json from the property list and the harnesses that exist."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import run
NA = {
 "C40": "decimal conversion of floating-point numbers (printf %f / strtod, correctly rounded, big-integer arithmetic inside libc) is not encodable in reach of the solver; the library code is a direct call to std::to_string / std::stod",
}
checks, na = [], []
for p in PROPS:
    i = p["id"]
    if os.path.exists("%s/harness/%s.cpp" % (HERE, i)):
        s = run.parse_spec(i)
        checks.append(dict(property=i, quick_cmd="python3 run.py %s" % i, thorough_cmd="python3 run.py %s --tier thorough" % i, evidence_file="evidence/%s.json" % i,
            technique="symbolic execution of the LLVM IR of the current sources, assertions decided by Z3" + (" (exact real arithmetic)" if any(e["real"] for e in s["entries"]) else "") + ", counterexamples replayed natively",
            level="model_checking",
            level_note="Bounded: " + " ".join(s["bounds"]) + ". Holds for every value within these bounds; outside them nothing is claimed. Trusts clang's IR, the runtime models (rt/models.cpp, stubs/), the engine and Z3." + ("" if not s["assume"] else " Assumes: " + " ".join(s["assume"]) + ".")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="python3 run.py --setup", checks=checks, not_applicable=na,
         notes="Every check rebuilds the engine if needed, compiles /repo's working tree to LLVM IR and a native replay binary in a scratch directory, and removes it.")
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
try:
    import jsonschema; jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError: pass
print(len(checks), "checks,", len(na), "not applicable")
