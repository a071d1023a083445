#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and registry.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from registry import PROPS, NOT_APPLICABLE
from bounds import BOUNDS
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in PROPS:
        for e in PROPS[p]["entries"]: assert e["name"][9:] in BOUNDS, e["name"]
        checks.append(dict(property=p, quick_cmd="python3 check.py %s quick" % p, thorough_cmd="python3 check.py %s thorough" % p,
            evidence_file="evidence/%s.json" % p, technique="symbolic execution of the compiled LLVM IR of the real code, Z3 decides every branch and assertion", level="model_checking",
            level_note=PROPS[p].get("note", "") + " Holds for every value within the bounds of its entries (bounds.py, repeated in the evidence), nothing is claimed outside them. Trusted: rustc's and LLVM's lowering to IR, the executor in engine/ (self-tested against random programs' concrete semantics and, on sampled paths, against the native binary), Z3."))
    else:
        na.append(dict(property=p, reason=NOT_APPLICABLE.get(p, "check not built yet")))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
    notes="No hooks: the harnesses use lindera's public interfaces only. check.py compiles the harness crate, /repo's crates and std into one bitcode module, the executor in engine/ runs its entries symbolically, and every counterexample is replayed natively before it is reported. KNOWN findings: known_findings.json.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks,", len(na), "not applicable")
