#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, "lib")); sys.dont_write_bytecode = True
import main
NA = {}
SPEC = {"C20": "ReaderIO.tla", "C22": "Directives.tla (with BinRead.tla)", "C24": "Template.tla (extending BinRead.tla)", "C25": "Faults.tla (extending BinRead.tla)"}
checks = []; na = []
for l in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(l); i = p["id"]
    if i not in main.MODELS and i not in main.OTHER:
        na.append(dict(property=i, reason=NA.get(i, "no check yet: the part of the specification that decides it is being written"))); continue
    checks.append(dict(property=i, quick_cmd="./check %s quick" % i, thorough_cmd="./check %s thorough" % i,
        evidence_file="evidence/%s.json" % i, level="model_checking",
        technique="TLA+ specification Directives.tla model-checked with TLC; every set of directives TLC generates is compiled by rustc with the derive macros from /repo, acceptance and reported problems compared; accepted programs are replayed against BinRead.tla" if i == "C22" else"TLA+ specification %s model-checked with TLC; every behaviour TLC generates is replayed into the real code and compared" % SPEC.get(i, "BinRead.tla") if i != "C25" else "TLA+ specification Faults.tla (extending BinRead.tla) model-checked with TLC; every operation of the real read of every input is made to fail, once or for good, and what is observed must be among the behaviours TLC computed for that input",
        level_note="Within the bounds of the programs in lib/fam.py the specification's behaviours are enumerated exhaustively (jobs named r* are random samples); each is executed "
                   "against the crate built from /repo and must agree in values, errors, positions and user-visible calls. Trusted: TLC, the generator of Rust types from schema terms (lib/dsl.py), rustc."))
m = dict(version=1, setup_cmd="./tools/setup.sh", checks=checks, not_applicable=na,
    notes="No hooks: everything is observed through the public API. Language: TLA+, checked by TLC (see DESIGN.md).")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
