#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks the analyzer registers."""
import json, re, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
have = {}
for f in glob.glob(root + "/analyzer/*.go"):
    for m in re.finditer(r'register\("(C\d\d)",\s*"((?:[^"\\]|\\.)*)"', open(f).read()):
        have[m.group(1)] = m.group(2)
na = json.load(open(root + "/tools/not_applicable.json"))
tech = json.load(open(root + "/tools/technique.json"))
checks, out = [], []
for p in props:
    i = p["id"]
    if i in have:
        checks.append({
            "property": i,
            "quick_cmd": "bash run.sh " + i,
            "thorough_cmd": "bash run.sh " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "static analysis: " + tech.get(i, have[i].split(":")[0]),
            "level": "other",
            "level_note": have[i] + ". Decided from the type-checked source and its SSA form on every run; nothing is executed. Constructs the rules cannot decide are listed as undecided in the evidence and not claimed.",
        })
    else:
        out.append({"property": i, "reason": na.get(i, "not decided yet: the static rule for this property is still being built")})
json.dump({"version": 1, "setup_cmd": "bash build.sh", "checks": checks, "not_applicable": out,
           "notes": "One analyzer (analyzer/, Go, x/tools SSA) decides all properties from /repo's current source; known findings are in known_findings.txt."},
          open(root + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(out), "not applicable")
