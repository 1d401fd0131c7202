"""Write MANIFEST.json."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
NOTE = ("Obligations generated from the current source on every run; what "
        "was discharged, what is trusted and what is only covered by bounded "
        "executions is listed in the evidence file and in DESIGN.md.")
try:
    LEVELS = json.load(open(os.path.join(HERE, "tools", "levels.json")))
except FileNotFoundError:
    LEVELS = {}
checks = []
for p in props:
    i = p["id"]
    lv = LEVELS.get(i, {})
    if lv.get("na"):
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"python3 check.py {i}",
        "thorough_cmd": f"python3 check.py {i} --tier thorough",
        "technique": lv.get("technique", "contracts on the real functions, "
                            "verification conditions discharged by z3/cvc5; "
                            "bounded executions for functions out of reach"),
        "level": lv.get("level", "other"),
        "level_note": lv.get("note", NOTE)})
m = {"version": 1, "setup_cmd": "true", "checks": checks,
     "not_applicable": [{"property": i, "reason": v["na"]}
                        for i, v in LEVELS.items() if v.get("na")]}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
