#!/usr/bin/env python3
"""Validate properties.jsonl, MANIFEST.json and evidence against the schemas (run with python3-vt)."""
import json, glob, jsonschema
v=lambda s: jsonschema.Draft202012Validator(json.load(open("/root/.vp/%s.schema.json"%s)))
for l in open("/verif/properties.jsonl"): v("PROPERTIES").validate(json.loads(l))
v("MANIFEST").validate(json.load(open("/verif/MANIFEST.json")))
for f in glob.glob("/verif/evidence/*.json"): v("EVIDENCE").validate(json.load(open(f)))
print("valid")
