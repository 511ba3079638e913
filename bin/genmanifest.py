#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin")
from props import PROPS, NOT_APPLICABLE
def note(p):
    P = PROPS[p]; n = P["note"]; b = P.get("bounded")
    if b: n += " BOUNDED (not counted as proved): " + ("; ".join("%s: %s" % kv for kv in b.items()) if isinstance(b, dict) else b) + "."
    a = P.get("assumptions", []) + P.get("trusted", [])
    n += " Assumes: real arithmetic for doubles" + "".join("; " + x for x in a) + "."
    return n
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "bin/setup",
 "checks": [{"property": p, "quick_cmd": "bin/check %s --tier quick" % p, "thorough_cmd": "bin/check %s --tier thorough" % p,
             "technique": PROPS[p].get("technique", "contract-based deductive verification: obligations generated from the real C++ text over a shadow real scalar, discharged by exact normal forms and z3"),
             "level": PROPS[p].get("level", "proof"), "level_note": note(p)} for p in ids if p in PROPS],
 "not_applicable": [{"property": p, "reason": NOT_APPLICABLE.get(p, "no check built yet")} for p in ids if p not in PROPS],
 "notes": "bin/check regenerates every obligation from /repo's working tree on each run; see DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
