"""writes MANIFEST.json from checks.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from checks import CHECKS, NA
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="bash setup.sh", checks=[], not_applicable=[],
  notes="All checks: python3 check.py <property>. Symbolic executor in engine/, harnesses in harness/, registry in checks.py; DESIGN.md explains bounds and trust.")
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        m["checks"].append(dict(property=p, quick_cmd="python3 check.py %s --tier quick" % p, thorough_cmd="python3 check.py %s --tier thorough" % p, evidence_file="evidence/%s.json" % p,
          technique="symbolic execution of /repo's LLVM bitcode (own executor, z3 back end), counterexamples replayed natively under ASan", level="other",
          level_note="Bounded: holds for every value within these bounds: " + c["bounds"] + " Trusts the executor, z3, clang's lowering and the stubs listed in DESIGN.md; says nothing outside the bounds."))
    else:
        m["not_applicable"].append(dict(property=p, reason=NA.get(p, "not yet checked")))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
