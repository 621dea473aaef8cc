#!/usr/bin/env python3
"""Applies the current wording of the statements to properties.jsonl (other fields are edited in place)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = json.load(open(os.path.join(V, "tools", "statements.json")))
path = os.path.join(V, "properties.jsonl")
rows = [json.loads(l) for l in open(path)]
for r in rows:
    r["statement"] = S.get(r["id"], r["statement"])
with open(path, "w") as f:
    for r in rows:
        f.write(json.dumps(r, ensure_ascii=False) + "\n")
