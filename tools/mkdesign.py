#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from the text below, properties.jsonl and the table of planted bugs (seeded_table.txt)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {}
for l in open(V + "/properties.jsonl"):
    d = json.loads(l)
    props[d["id"]] = d
text = open(V + "/tools/design.in.md").read()
for k, d in props.items():
    text = text.replace("@TITLE:%s@" % k, d["title"])
tab = V + "/tools/seeded_table.md"
text = text.replace("@SEEDED@", open(tab).read().strip() if os.path.exists(tab) else "(not yet run)")
open(V + "/DESIGN.md", "w").write(text)
