#!/usr/bin/env python3
"""The properties and what is claimed about them; writes properties.jsonl and
MANIFEST.json, so that both stay in step.  usage: mc/catalog.py"""
import json
import re
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []          # properties
CLAIM = {}      # id -> (technique, level note)
NOT = {}        # id -> reason


def prop(id, title, statement, over, text, why, files, mechanism, technique=None, note=None, reason=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": m.strip(), "where": files[0]} for m in mechanism.split(";")]}})
    if technique:
        CLAIM[id] = (technique, note)
    else:
        NOT[id] = reason


SCHED = ("stateless model checking of the real threads under a controlled scheduler "
         "(deviation-bounded enumeration of schedules, happens-before race detection)")
SEQ = "stateless model checking: bounded exhaustive enumeration on the real code against a reference model"
ENV = "stateless model checking: exhaustive enumeration of environment answers (objective values, random draws) within a deviation bound"

with open(os.path.join(VERIF, "mc", "catalog_entries.py")) as f:
    exec(compile(f.read(), "catalog_entries.py", "exec"))

with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        assert len(re.findall(r"[.](?= |$)", p["statement"])) <= 3, p["id"]
        f.write(json.dumps(p) + "\n")

checks = json.load(open(os.path.join(VERIF, "mc", "checks.json")))
manifest = {
    "version": 1,
    "setup_cmd": "python3 mc/setup.py",
    "checks": [
        {"property": i, "quick_cmd": "python3 mc/check.py %s --tier quick" % i,
         "thorough_cmd": "python3 mc/check.py %s --tier thorough" % i,
         "evidence_file": "evidence/%s.json" % i,
         "technique": CLAIM[i][0], "level": "model_checking", "level_note": CLAIM[i][1]}
        for i in sorted(CLAIM)],
    "not_applicable": [{"property": i, "reason": NOT[i]} for i in sorted(NOT)],
    "notes": "No hooks: /repo is compiled unmodified; threads, randomness, time and memory are intercepted at link time. "
             "Every check rebuilds /repo's sources from the working tree (object cache keyed by content).",
}
for i in CLAIM:
    assert i in checks, i
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
print("%d properties, %d claimed" % (len(P), len(CLAIM)))

# the table of planted bugs at the end of DESIGN.md
path = os.path.join(VERIF, "DESIGN.md")
text = open(path).read()
mark = "| id | property | what it breaks |\n|---|---|---|\n"
if mark in text and os.path.isdir(os.path.join(VERIF, "seeded")):
    rows = ""
    for i in sorted(os.listdir(os.path.join(VERIF, "seeded"))):
        d = json.load(open(os.path.join(VERIF, "seeded", i, "meta.json")))
        rows += "| %s | %s | %s |\n" % (i, d["property"], d["what_it_breaks"])
    open(path, "w").write(text[:text.index(mark)] + mark + rows)
