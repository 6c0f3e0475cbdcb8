#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per property the harness registers."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
src = "".join(open(f).read() for f in glob.glob(V + "/harness/*.go"))
have = set(re.findall(r'ID:\s+"(C\d+)"', src))
NOTES = json.load(open(V + "/tools/notes.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        tech, note = NOTES.get(i, ["property-based testing against a reference model", ""])
        checks.append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": "exploration",
                       "level_note": ("Random search with shrinking over generated cases; no claim beyond the cases explored. " + note).strip()})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "One Go harness (harness/), black box over the public API, built against /repo's working tree with the project's ne tag. No hooks in /repo."},
          open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
