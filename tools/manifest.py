"""Source of MANIFEST.json (run: python3 tools/manifest.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {}
TECH = {}
def p(id, tech, note): TECH[id], NOTE[id] = tech, note
exec(open(os.path.join(V, "tools", "claims.py")).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = dict(NOT_APPLICABLE)
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python harness/setup.py",
     "checks": [{"property": i, "quick_cmd": f"/opt/venv/bin/python run.py {i}", "thorough_cmd": f"VERIF_TIER=thorough /opt/venv/bin/python run.py {i}",
                 "evidence_file": f"evidence/{i}.json", "technique": TECH[i], "level": "model_checking", "level_note": NOTE[i]} for i in ids if i in TECH],
     "not_applicable": [{"property": i, "reason": NA.get(i, "no check built yet")} for i in ids if i not in TECH],
     "notes": "TLA+ checked with TLC; numbers are exact rationals evaluated by java/Rat.java. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed")
