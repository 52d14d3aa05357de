#!/bin/bash
# Validates the committed files against the schemas in /root/.vp.
cd "$(dirname "$0")/.."
python3-vt - <<'P'
import json,jsonschema,glob
S=lambda n: json.load(open(f"/root/.vp/{n}.schema.json"))
jsonschema.validate(json.load(open("MANIFEST.json")),S("MANIFEST"))
ps=[json.loads(l) for l in open("properties.jsonl")]
for p in ps:
    try: jsonschema.validate(p,S("PROPERTIES"))
    except jsonschema.ValidationError as e: print("properties",e.message[:200])
for f in sorted(glob.glob("evidence/*.json")): jsonschema.validate(json.load(open(f)),S("EVIDENCE"))
print("valid",len(ps))
P
