#!/usr/bin/env python3
"""Writes properties.jsonl, checks.json and MANIFEST.json from spec/*.json-like entries in spec/props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import P, NA, NOTES
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "property-based testing: generated inputs against an explicit oracle (rapid), with exhaustive sweeps of small domains"


def w(name, text):
    with open(os.path.join(ROOT, name), "w") as f:
        f.write(text)


ids = [p["id"] for p in P]
assert len(ids) == len(set(ids))
for p in P:
    assert len(p["title"]) <= 80, p["id"]
w("properties.jsonl", "".join(json.dumps({
    "id": p["id"], "title": p["title"], "statement": p["statement"],
    "quantifier": {"over": p.get("over", ["inputs"]), "text": p["for_all"]},
    "why_tests_cant": p["why"],
    "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]},
}) + "\n" for p in P))
w("checks.json", json.dumps([{k: p[k] for k in ("id", "pkg", "rule", "assumptions", "procs", "shards", "thorough_limit", "race", "purego") if k in p} for p in P if "pkg" in p], indent=1) + "\n")
w("MANIFEST.json", json.dumps({
    "version": 1, "setup_cmd": "python3 run.py setup",
    "checks": [{"property": p["id"], "quick_cmd": "python3 run.py check %s quick" % p["id"],
                "thorough_cmd": "python3 run.py check %s thorough" % p["id"],
                "technique": p.get("technique", TECH), "level": "exploration", "level_note": p["note"]} for p in P if "pkg" in p],
    "not_applicable": [{"property": a, "reason": b} for a, b in NA],
    "notes": NOTES}, indent=1) + "\n")

sys.path.insert(0, os.path.join(ROOT, "spec"))
SEEDED = os.path.join(ROOT, "spec", "seeded.txt")
doc = open(os.path.join(ROOT, "spec", "design_head.md")).read()
doc += "| change | property | outcome |\n|---|---|---|\n"
for line in open(SEEDED):
    if line.strip():
        doc += "| " + " | ".join(x.strip() for x in line.split("|")) + " |\n"
doc += "\n## Property by property\n\nFor each: what is drawn and counted, the oracle, the domain, and why tests do not settle it.\n"
for p in P:
    doc += "\n### %s %s\n\n%s\n\n" % (p["id"], p["title"], p["statement"])
    doc += "* Drawn: %s\n* Oracle and limits: %s\n* Domain: %s.\n* Beyond the tests: %s\n* Code: %s (harness/checks/%s)\n" % (
        p["rule"], p["note"], p["for_all"], p["why"], ", ".join(p["files"]), p["pkg"])
w("DESIGN.md", doc)
