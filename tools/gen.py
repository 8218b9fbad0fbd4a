#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props/*.py (development time)."""
import json, os, glob, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props, na = [], []
ns = {}
def P(id, title, statement, over, qtext, why, files, mech, note, technique):
    assert len(title) <= 80, (id, len(title))
    props.append(dict(p=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])), note=note, technique=technique))
def NA(id, title, statement, over, qtext, why, files, mech, reason):
    P(id, title, statement, over, qtext, why, files, mech, None, None)
    na.append(dict(property=id, reason=reason))
for f in sorted(glob.glob(V + "/tools/props/*.py")):
    exec(compile(open(f).read(), f, "exec"), dict(P=P, NA=NA))
checks = dict(l.split() for l in open(V + "/tools/checks.txt") if l.strip())
ids = [x["p"]["id"] for x in props]
assert len(set(ids)) == len(ids)
naid = {x["property"] for x in na}
for i in ids: assert (i in checks) != (i in naid), i
for i in checks: assert i in ids, i
with open(V + "/properties.jsonl", "w") as o:
    for x in props: o.write(json.dumps(x["p"]) + "\n")
m = dict(version=1, setup_cmd="./setup.sh", checks=[dict(property=x["p"]["id"], quick_cmd=f"./run.sh {x['p']['id']} quick", thorough_cmd=f"./run.sh {x['p']['id']} thorough",
    evidence_file=f"evidence/{x['p']['id']}.json", technique=x["technique"], level="model_checking", level_note=x["note"]) for x in props if x["p"]["id"] not in naid],
    not_applicable=na, notes="All checks drive the real sources of /repo, rebuilt from the working tree; no hooks are compiled into /repo.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
try:
    import jsonschema
    ps = json.load(open("/root/.vp/PROPERTIES.schema.json")); ms = json.load(open("/root/.vp/MANIFEST.schema.json"))
    for x in props: jsonschema.validate(x["p"], ps)
    jsonschema.validate(m, ms); print("valid", len(props), "properties", len(m["checks"]), "checks")
except ImportError: print("no jsonschema")
