#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (and checks both against what exists)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None, check=None, na=None):
    P.append(dict(check=check, na=na, p=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
        why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
        state=[dict(name=a, meaning=b, where=c) for a, b, c in state], observe_at=list(observe), hook_needed=hook))))
def check(technique, level, note):
    return dict(technique=technique, level=level, note=note)
exec(open(os.path.join(V, "tools", "props_table.py")).read())
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["p"]["title"]) <= 80, x["p"]["title"]
        f.write(json.dumps(x["p"]) + "\n")
checks, na = [], []
for x in P:
    i = x["p"]["id"]
    if x["check"] and os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd="python3 run.py %s quick" % i, thorough_cmd="python3 run.py %s thorough" % i,
            evidence_file="evidence/%s.json" % i, technique=x["check"]["technique"], level=x["check"]["level"], level_note=x["check"]["note"]))
    else:
        na.append(dict(property=i, reason=x["na"] or "no check built yet"))
m = dict(version=1, setup_cmd="python3 tools/setup.py", hooks=dict(guard="none", enable="no hooks: the checks build /repo's sources as they are", source_commits=[]),
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
try:
    import jsonschema
    for l in open(os.path.join(V, "properties.jsonl")):
        jsonschema.validate(json.loads(l), json.load(open("/root/.vp/PROPERTIES.schema.json")))
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("schemas ok")
except ImportError:
    print("no jsonschema here: run with python3-vt to validate")
