"""Writes DESIGN.md from tools/DESIGN.tmpl.md, properties, claims and seeded/ (run: python3 tools/design.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH, NOTE = {}, {}
def p(id, tech, note): TECH[id], NOTE[id] = tech, note
exec(open(os.path.join(V, "tools", "claims.py")).read())
COST = json.load(open(os.path.join(V, "tools", "costs.json"))) if os.path.exists(os.path.join(V, "tools", "costs.json")) else {}
rows, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(l)
    if d["id"] in TECH: rows.append(f"| {d['id']} {d['title']} | {TECH[d['id']]} | {NOTE[d['id']]} | {d['quantifier']['text']} | {COST.get(d['id'], '?')} |")
    else: na.append(f"* {d['id']} {d['title']}: {NOT_APPLICABLE.get(d['id'], 'no check built yet')}")
seeds = []
S = os.path.join(V, "seeded")
CAUGHT = json.load(open(os.path.join(V, "tools", "caught.json"))) if os.path.exists(os.path.join(V, "tools", "caught.json")) else {}
for s in sorted(os.listdir(S)) if os.path.isdir(S) else []:
    f = os.path.join(S, s, "meta.json")
    if os.path.exists(f):
        m = json.load(open(f)); seeds.append(f"| {s} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {CAUGHT.get(s, '?')} |")
t = open(os.path.join(V, "tools", "DESIGN.tmpl.md")).read()
t = t.replace("@@TABLE@@", "\n".join(rows)).replace("@@NA@@", ("Not claimed:\n\n" + "\n".join(na)) if na else "Every property is claimed.")
t = t.replace("@@SEEDS@@", "| id | property | change | needs | caught by |\n|---|---|---|---|---|\n" + "\n".join(seeds))
t = t.replace("| id | specification | what is recorded and judged | bounds | cost |", "| property | specification | what is judged, limits | quantifies over | cost |")
open(os.path.join(V, "DESIGN.md"), "w").write(t)
