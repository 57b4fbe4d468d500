"""Writes MANIFEST.json: every property with a module in props/ is claimed, the rest is not applicable."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(HERE, "tools", "notes.json"), encoding="utf-8"))
checks, missing = [], []
for line in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8"):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(HERE, "props", p.lower() + ".py")):
        checks.append({"property": p, "quick_cmd": "python3 run.py " + p, "thorough_cmd": "python3 run.py {} --tier thorough".format(p),
                       "technique": "property-based testing: " + NOTES["technique"][p], "level": "exploration",
                       "level_note": NOTES["note"].get(p, NOTES["note"]["default"])})
    else:
        missing.append({"property": p, "reason": NOTES["not_applicable"].get(p, "check not built yet")})
manifest = {"version": 1, "setup_cmd": "python3 -c pass", "checks": checks, "not_applicable": missing}
with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
