#!/usr/bin/env python3
"""Regenerates MANIFEST.json from lib/cases.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
from cases import PROPS
NA = {"C30": "the conversion code calls MultiByteToWideChar/WideCharToMultiByte and is compiled only with _WIN32; neither the Windows headers nor the API are here, so the real code cannot be lowered to IR or replayed"}
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    d = json.loads(l); i = d["id"]
    if i in PROPS:
        P = PROPS[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i, evidence_file="evidence/%s.json" % i,
            technique=P.get("technique", "bounded symbolic execution of the LLVM IR of the real code, SMT (Z3, cvc5)"),
            level="model_checking",
            level_note="Holds for all values and schedules within: " + P["bounds"] + ". " + (("Outside: " + P["outside"] + ". ") if P.get("outside") else "") + "Trusts clang's IR, the engine in engine/ (cross-checked by native replay of witnesses and counterexamples), Z3/cvc5, and the OS model in rt/env.cpp; threads are sequentially consistent."))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check yet")))
m = dict(version=1, setup_cmd="python3 lib/vbuild.py", hooks=dict(guard="LEARNLOG_VERIF", enable="not needed: no hooks were added to /repo", source_commits=[]), checks=checks, not_applicable=na)
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
