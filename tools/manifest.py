"""Writes MANIFEST.json and levels.json from the table below (run: python3 tools/manifest.py)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(HERE, "tools", "levels_table.py")).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
M = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": [], "notes": NOTES}
lv = {}
for i in ids:
    if i in NA:
        M["not_applicable"].append({"property": i, "reason": NA[i]})
        continue
    t = TABLE.get(i, {})
    lv[i] = {"level": t.get("level", "exploration"), "assumptions": t.get("assumptions", []) + COMMON}
    M["checks"].append({"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i,
                        "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                        "technique": t.get("technique", T_RT), "level": lv[i]["level"],
                        "level_note": t.get("note", N_RT)})
json.dump(M, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
json.dump(lv, open(os.path.join(HERE, "levels.json"), "w"), indent=1, sort_keys=True)
print(len(M["checks"]), len(M["not_applicable"]))
