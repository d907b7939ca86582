#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand when a property changes)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "src/wickrcrypto/src/"
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None, state=None, na=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": [SRC + f if "/" not in f else f for f in files],
                     "mechanism": [{"name": a, "where": b} for a, b in mech]}}
    for f in files:
        assert os.path.exists("/repo/" + (SRC + f if "/" not in f else f)), f
    if observe:
        d["anchors"]["observe_at"] = observe
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    P.append((d, technique, note, na))


exec(open(os.path.join(HERE, "tools", "table.py")).read())

ids = [d["id"] for d, *_ in P]
assert len(set(ids)) == len(ids)
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for d, *_ in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
man = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": []}
for d, tech, note, na in P:
    i = d["id"]
    if na:
        man["not_applicable"].append({"property": i, "reason": na})
    else:
        man["checks"].append({"property": i, "quick_cmd": "python3 check.py %s" % i,
                              "thorough_cmd": "python3 check.py %s --thorough" % i,
                              "technique": tech, "level": "other", "level_note": note})
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
idx = {l.split()[0] for l in open(os.path.join(HERE, "sa/rules/INDEX")) if l.strip() and l[0] != "#"}
print("claimed without a rule:", sorted({c["property"] for c in man["checks"]} - idx), "rule without a claim:", sorted(idx - {c["property"] for c in man["checks"]}))
