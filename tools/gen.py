#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from propdata.py and checks/registry.py."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [HERE, VERIF]
from propdata import PROPS, NOT_CLAIMED
from checks.registry import CHECKS

with open(os.path.join(VERIF, "properties.jsonl"), "w") as fh:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        fh.write(json.dumps(p) + "\n")
checks, na = [], []
for p in PROPS:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(
            property=i, quick_cmd="python3 run.py --prop %s --tier quick" % i, thorough_cmd="python3 run.py --prop %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i, technique=c["technique"], level="exploration", level_note=c["note"]))
    else:
        na.append(dict(property=i, reason=NOT_CLAIMED.get(i, "the check for this property is not built yet")))
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
               notes="Every check builds its harness against /repo's working tree through a go build overlay; /repo carries no hooks (only fix: commits). See DESIGN.md."),
          open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
for schema, files in (("PROPERTIES", "properties.jsonl"), ("MANIFEST", "MANIFEST.json")):
    code = """
import json,sys,jsonschema
s=json.load(open('/root/.vp/%s.schema.json'))
t=open('%s/%s').read()
docs=[json.loads(l) for l in t.splitlines()] if '%s'.endswith('l') else [json.loads(t)]
for d in docs: jsonschema.validate(d,s)
""" % (schema, VERIF, files, files)
    subprocess.run(["/opt/veriftools/pyvenv/bin/python3", "-c", code], check=True)
print("%d properties, %d claimed" % (len(PROPS), len(checks)))
