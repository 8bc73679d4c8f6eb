#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list below."""
import json
props=[json.loads(l) for l in open('properties.jsonl')]
LEVEL={}
NOTE={}
exec(open('tools/levels.py').read())
m={"version":1,"setup_cmd":"./setup.sh","checks":[],"not_applicable":NOT_APPLICABLE,
   "notes":"Explicit, stateless model checking of the real code: bounded exhaustive enumeration against reference models. See DESIGN.md."}
for p in props:
    i=p["id"]
    if i in [n["property"] for n in NOT_APPLICABLE]: continue
    lv,tech,note=CHECKS[i]
    m["checks"].append({"property":i,"quick_cmd":"./check.sh run "+i,"thorough_cmd":"VERIF_TIER=thorough ./check.sh run "+i,
      "evidence_file":"evidence/%s.json"%i,"technique":tech,"level":lv,"level_note":note})
json.dump(m,open('MANIFEST.json','w'),indent=1,ensure_ascii=False)
open('MANIFEST.json','a').write("\n")
