"""Writes properties.jsonl and MANIFEST.json from the table below (development helper)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), note="", technique=""):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None), _note=note, _technique=technique))


exec(open(os.path.join(V, "tools", "table.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as fh:
    for p in P:
        fh.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
checks = [dict(property=p["id"], quick_cmd="./check %s" % p["id"], thorough_cmd="./check %s --tier thorough" % p["id"],
               technique=p["_technique"], level="model_checking", level_note=p["_note"]) for p in P if p["_technique"]]
na = [dict(property=p["id"], reason=p["_note"]) for p in P if not p["_technique"]]
with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
    json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python mc/build.py", checks=checks, not_applicable=na), fh, indent=1)
    fh.write("\n")
import subprocess, sys
r = subprocess.run(["python3-vt", "-c", """
import json, jsonschema
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('%s/properties.jsonl'): jsonschema.validate(json.loads(l), s)
jsonschema.validate(json.load(open('%s/MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
print('valid')""" % (V, V)])
sys.exit(r.returncode)
