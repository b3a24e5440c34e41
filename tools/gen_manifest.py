#!/usr/bin/env python3
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from properties import PROPS
ids = [json.loads(l)["id"] for l in open(R + "/properties.jsonl")]
NA = {}
exec(open(R + "/tools/na.py").read()) if os.path.exists(R + "/tools/na.py") else None
m = {"version": 1,
 "setup_cmd": "bash setup.sh",
 "checks": [{"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py %s --tier thorough" % i, "evidence_file": "evidence/%s.json" % i,
   "technique": "symbolic execution of the compiled code's LLVM IR with an SMT solver (z3), counterexamples replayed natively",
   "level": "model_checking",
   "level_note": "Exhaustive within these bounds: " + PROPS[i]["bounds"] + " Outside: " + PROPS[i].get("outside", "-") + ". Trusts rustc's lowering to LLVM IR, the engine in engine/ (its paths are re-run natively as a cross check) and z3."} for i in ids if PROPS[i]["bounds"] != "todo"],
 "not_applicable": [{"property": i, "reason": NA.get(i, "no check has been built yet")} for i in ids if PROPS[i]["bounds"] == "todo"],
 "notes": "See DESIGN.md. No hooks in /repo: the harness crate uses the public API only. The commits in /repo are 'fix:' commits, listed in known_findings.jsonl."}
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks")
