#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and spec.py."""
import json, os, sys
os.chdir(os.path.dirname(os.path.abspath(__file__)))
import spec
props = [json.loads(l) for l in open("properties.jsonl")]
NA = spec.NOT_APPLICABLE
checks, na = [], []
for p in props:
    i = p["id"]
    if i in spec.SPEC:
        s = spec.SPEC[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                           technique=s.get("technique", "symbolic execution of the compiled sources (LLVM IR) with Z3, native replay"),
                           level="model_checking", level_note=s.get("level_note", "Bounded: " + s["bounds"] + ". Trusts clang's IR, the executor and Z3, and the runtime and laz-perf stand-ins in rt/.")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check under construction")))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
               notes="See DESIGN.md. known_findings.json lists defects of the unchanged tree."), open("MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed:", [x["property"] for x in na])
