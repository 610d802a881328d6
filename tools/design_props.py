"""Writes the per-property part of DESIGN.md from props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.dont_write_bytecode = True
from props import PROPS
import importlib.util
NOTES = json.load(open(f"{V}/tools/notes.json"))
o = open(f"{V}/tools/design_head.md").read() + "## The properties\n\n"
man = json.load(open(f"{V}/MANIFEST.json"))
na = {x["property"]: x["reason"] for x in man["not_applicable"]}
for l in open(f"{V}/properties.jsonl"):
    p = json.loads(l)
    o += f"### {p['id']} {p['title']}\n\n"
    if p["id"] in na:
        o += f"Not applicable: {na[p['id']]}\n\n"
        continue
    o += NOTES.get(p["id"], "") + "\n\n"
    for r in PROPS[p["id"]]["runs"]:
        q = r.get("quick"); t = r.get("thorough")
        o += f"* `{r['entry']}` ({'thorough only ' + str(t) if 'tiers' in r else 'quick ' + str(q) + ', thorough ' + str(t)}): {r['bound']}.\n"
    o += "\n"
o += open(f"{V}/tools/design_tail.md").read()
open(f"{V}/DESIGN.md", "w").write(o)
