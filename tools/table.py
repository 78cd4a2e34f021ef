#!/usr/bin/env python3
"""Rewrites the tables in DESIGN.md from checks.py, properties.jsonl, and seeded/."""
import json, os, re, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import checks  # noqa: E402

titles = {}
for line in open(f"{ROOT}/properties.jsonl"):
    d = json.loads(line)
    titles[d["id"]] = d["title"]
rows = ["| | monitored | oracle |", "|---|---|---|"]
for p in sorted(checks.CHECKS):
    c = checks.CHECKS[p]
    rows.append(f"| {p} {titles[p]} | {c['rule']} | {c['note'].split(' Holds on')[0]} |")
bugs = ["| planted bug | what it needs | caught by |", "|---|---|---|"]
if os.path.isdir(f"{ROOT}/seeded"):
    for i in sorted(os.listdir(f"{ROOT}/seeded")):
        m = json.load(open(f"{ROOT}/seeded/{i}/meta.json"))
        bugs.append(f"| {i} | {m['needs']} | {m.get('caught_by', m['property'])} |")
s = open(f"{ROOT}/DESIGN.md").read()
for name, r in (("properties", rows), ("planted", bugs)):
    s = re.sub(f"(<!-- {name} -->\n).*?(<!-- end -->)", lambda m: m.group(1) + "\n".join(r) + "\n" + m.group(2), s, flags=re.S)
open(f"{ROOT}/DESIGN.md", "w").write(s)
