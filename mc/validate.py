#!/usr/bin/env python3-vt
"""Validates properties.jsonl, MANIFEST.json and the evidence files. usage: python3-vt mc/validate.py"""
import glob, json, os
import jsonschema
S = "/root/.vp/"
load = lambda f: json.load(open(f))
jsonschema.validate(load("MANIFEST.json"), load(S + "MANIFEST.schema.json"))
schema = load(S + "PROPERTIES.schema.json")
for l in open("properties.jsonl"):
    p = json.loads(l)
    jsonschema.validate(p, schema)
    for f in p["anchors"]["files"]:
        if not os.path.exists("/repo/" + f):
            print("no such file", p["id"], f)
schema = load(S + "EVIDENCE.schema.json")
for f in glob.glob("evidence/*.json"):
    e = load(f)
    jsonschema.validate(e, schema)
    if not e["coverage"]["exhaustive"]:
        print("not exhaustive:", f, e["tier"], e["wall_s"])
