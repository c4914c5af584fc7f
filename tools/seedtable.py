"""Rewrites the table of seeded changes in DESIGN.md (run after tools/plant.py)."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(HERE, "tools", "seednotes.json")))
path = os.path.join(HERE, "DESIGN.md")
text = open(path).read()
head = text[: text.index("| seed |")] if "| seed |" in text else text
rows = ["| seed | property | what it breaks | caught by |", "|------|------|------|------|"]
for meta in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    m = json.load(open(meta))
    sid = os.path.basename(os.path.dirname(meta))
    rows.append(f"| {sid} | {m['property']} | {' '.join(m['what_it_breaks'].split())} | {NOTES.get(sid, m['property'])} |")
open(path, "w").write(head + "\n".join(rows) + "\n")
