#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md. Usage: seed_table.py"""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
notes = {
    "c13-last-argless": "missed at first; formatters with up to six arguments were added",
    "c22-arg-order": "missed at first; filters with three and four arguments were added",
}
ext = os.path.join(os.path.dirname(os.path.abspath(__file__)), "seed_notes.json")
if os.path.exists(ext):
    notes.update(json.load(open(ext)))
print("| Bug | Needs | Caught by |\n|---|---|---|")
for i in sorted(os.listdir(root)):
    m = json.load(open(os.path.join(root, i, "meta.json")))
    n = notes.get(i, "")
    c = "" if n.startswith("not caught") else m["property"]
    print(f"| {i} | {m['needs']} | {c}{' (' + n + ')' if n and c else n} |")
