#!/usr/bin/env python3
"""DESIGN.md from doc/*.md and the results of planting (doc/caught.json)."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(root, "tools")); sys.dont_write_bytecode = True
import bugs
c = json.load(open(os.path.join(root, "doc", "caught.json")))
rows = ["| change | property | needs | caught by |", "|---|---|---|---|"]
for i, b in bugs.BUGS.items():
    if os.path.isdir(os.path.join(root, "seeded", i)): rows.append("| %s | %s | %s | %s |" % (i, b["prop"], b["needs"], ", ".join("%s: %s" % x for x in c.get(i, {}).items()) or "-"))
s = open(os.path.join(root, "doc", "DESIGN.in.md")).read()
s = s.replace("@@PROPS@@", open(os.path.join(root, "doc", "props.md")).read()).replace("@@SEEDS@@", "\n".join(rows))
fx = [json.loads(l)["what"][len("fixed: property="):] for l in open(os.path.join(root, "known_findings.jsonl")) if l.strip()]
s = s.replace("@@FIXES@@", "\n".join("* " + x for x in fx))
open(os.path.join(root, "DESIGN.md"), "w").write(s)
