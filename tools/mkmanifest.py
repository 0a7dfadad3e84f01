#!/usr/bin/env python3
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R + "/engine")
import units
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
checks = []
for p in props:
    pid = p["id"]
    pf = bool(units.PROPS.get(pid))
    checks.append({
        "property": pid,
        "quick_cmd": "python3 engine/check.py %s quick" % pid,
        "thorough_cmd": "python3 engine/check.py %s thorough" % pid,
        "technique": "contract-based deductive verification: MIR of the real code, contracts, symbolic execution per function, Verus/Z3; bounded random layer for failing inputs" if pf
                     else "bounded stand-in only: random cases on the compiled crate against an independent oracle",
        "level": "proof" if pf else "exploration",
        "level_note": units.NOTES.get(pid, "bounded: random cases of bounded size; nothing proved"),
    })
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: the engine reads the MIR rustc emits for the current source. See DESIGN.md."}
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
