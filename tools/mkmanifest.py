#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties and the set of registered checks."""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(ROOT + "/properties.jsonl") if l.strip()]
reg = open(ROOT + "/contracts/registry.py").read()
claimed = re.findall(r'^\s*"([A-Z]\d\d+)":', reg, re.M)
NA = {
    "C22": "written in the slang language itself, outside the reach of a C/C++ deductive verifier",
}
NOTE = {}
exec(open(ROOT + "/tools/manifest_notes.py").read())
checks = []
for i in ids:
    if i in claimed:
        checks.append(dict(
            property=i, quick_cmd="python3-vt /verif/checks/run.py %s" % i, thorough_cmd="python3-vt /verif/checks/run.py %s" % i,
            evidence_file="/verif/evidence/%s.json" % i,
            technique="contract-based deductive verification of the LLVM IR clang generates from the current sources; obligations discharged by z3/cvc5",
            level="proof", level_note=NOTE.get(i, "all obligations of the functions under contract, unbounded inputs")))
na = [dict(property=i, reason=NA.get(i, "no contract written yet for the functions it depends on")) for i in ids if i not in claimed]
json.dump(dict(version=1, setup_cmd="true", hooks=dict(guard="SLANG_VERIF", enable="-DSLANG_VERIF", source_commits=[]),
               checks=checks, not_applicable=na,
               notes="no hooks are needed: the verifier reads the IR of the unmodified sources; known findings in /verif/known-findings.txt"),
          open(ROOT + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
