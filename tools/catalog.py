"""Writes properties.jsonl and MANIFEST.json from one list."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
FARM = "programs/farming/src/models/farm.rs"
FARMER = "programs/farming/src/models/farmer.rs"
FE = "programs/farming/src/endpoints/"
AE = "programs/amm/src/endpoints/"
AM = "programs/amm/src/models/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                           "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                           "observe_at": list(observe), "hook_needed": None},
                  technique=technique, note=note, na=na))

exec(open(os.path.join(HERE, "properties.py")).read())

TECH = "path-partitioned abstract interpretation (dataflow over compiler MIR) of every instruction; rule per final abstract state"
NOTE = ("Sound for the analysed MIR relative to the library models in sa/models.py and sa/anchor.py (std, Anchor 0.24, SPL token, the decimal crate): every path class of every unit "
        "is examined for all inputs; loops are summarised by sound classes or the unit is reported as undecided in the evidence. Assumes distinct accounts per slot unless compared, trapping integer overflow, and the default feature set.")
seen = set()
with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for p in P:
        assert p["id"] not in seen and len(p["title"]) <= 80, p["id"]
        seen.add(p["id"])
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
man = {"version": 1, "setup_cmd": "python3 sa/build.py --setup",
       "checks": [{"property": p["id"], "quick_cmd": "python3 sa/check.py %s" % p["id"], "thorough_cmd": "python3 sa/check.py %s --tier thorough" % p["id"],
                   "technique": p["technique"] or TECH, "level": "other", "level_note": p["note"] or NOTE} for p in P if not p["na"]],
       "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]],
       "notes": "No hooks: the analysis reads the program as rustc compiles it (MIR), with type-level stand-ins for the dependencies in stub/."}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1); f.write("\n")
