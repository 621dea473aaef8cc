#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open(os.path.join(V, "tools", "techniques.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "harness", "checks", i.lower() + ".py")) and i in TECH:
        checks.append(dict(property=i, quick_cmd=f"bash run.sh {i}", thorough_cmd=f"VERIF_TIER=thorough bash run.sh {i}",
                           evidence_file=f"evidence/{i}.json", technique=TECH[i][0], level="exploration", level_note=TECH[i][1]))
    else:
        na.append(dict(property=i, reason="no monitor built yet"))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="All checks import lips from /repo's working tree in fresh interpreters with a scratch HOME, cwd and bytecode cache; no hooks in /repo are needed.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
