#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os, re, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = "".join(open(os.path.join(HERE, "harness", f)).read() for f in sorted(os.listdir(os.path.join(HERE, "harness"))) if f.endswith(".go"))
claimed = set(re.findall(r'register\("(C\d+)"', src))
NOTES = {}
exec(open(os.path.join(HERE, "tools/notes.py")).read())
checks, na = [], []
for l in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if i in claimed:
        tech, level, note = NOTES[i]
        checks.append({"property": i, "quick_cmd": "bin/check.py %s quick" % i, "thorough_cmd": "bin/check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": level, "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "not claimed yet: its check is being built")})
m = {"version": 1, "setup_cmd": "bin/setup.sh",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the harness is compiled inside of the deckard module by a build overlay (bin/build.sh). See DESIGN.md."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
