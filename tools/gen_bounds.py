#!/usr/bin/env python3
"""Writes /verif/BOUNDS.md: the spaces that the last quick run of every check went through, from the evidence files."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = ["# Spaces explored by the quick checks", "",
       "Generated by tools/gen_bounds.py from evidence files of the unchanged tree; every case of every family is run.", ""]
for l in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(l)
    e = json.load(open(os.path.join(here, "evidence", p["id"] + ".json")))
    c = e["coverage"]
    assert e["tier"] == "quick" and c["families"] and not e["violations"], p["id"]
    out += [f"## {p['id']} {p['title']}", "",
            f"{c['states']} states, {c['transitions']} transitions, {c['traces_validated_against_impl']} traces on the implementation.", "",
            "| family | cases | transitions | space |", "|---|---|---|---|"]
    for f in c["families"]:
        out.append(f"| {f['name']} | {f['cases']} | {f['transitions']} | {f['bound'].replace('|', chr(92) + '|')} |")
    out.append("")
open(os.path.join(here, "BOUNDS.md"), "w").write("\n".join(out))
