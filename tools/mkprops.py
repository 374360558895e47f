"""Writes properties.jsonl and MANIFEST.json from one table (run by hand)."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "jaxopt/_src/"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
  assert len(title) <= 80, (id, len(title))
  P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=[S + f if not f.startswith("jaxopt") else f for f in files],
                             state=[dict(name=a, meaning=b, where=S + c) for a, b, c in state],
                             mechanism=[dict(name=a, where=S + b) for a, b in mech],
                             observe_at=list(observe), hook_needed=None)))


exec(open(os.path.join(ROOT, "tools", "props_table.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
  for p in P:
    fh.write(json.dumps(p) + "\n")

checks, na = [], []
for p in P:
  mod = os.path.join(ROOT, "harness", p["id"].lower() + ".py")
  if p["id"] in CLAIM and os.path.exists(mod):
    technique, note = CLAIM[p["id"]]
    checks.append(dict(property=p["id"], quick_cmd=f"/opt/venv/bin/python harness/runner.py {p['id']}",
                       thorough_cmd=f"VERIF_TIER=thorough /opt/venv/bin/python harness/runner.py {p['id']}",
                       evidence_file=f"evidence/{p['id']}.json", technique=technique, level="model_checking",
                       level_note=note))
  else:
    na.append(dict(property=p["id"], reason=NOT.get(p["id"], "no check built yet")))
man = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
           notes="TLA+ specifications in spec/, checked with TLC; harness/ runs the real code; no hooks in /repo are needed.")
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
try:
  import jsonschema
  for f, sch in (("MANIFEST.json", "MANIFEST"),):
    jsonschema.validate(man, json.load(open(f"/root/.vp/{sch}.schema.json")))
  for p in P:
    jsonschema.validate(p, json.load(open("/root/.vp/PROPERTIES.schema.json")))
  print("valid", len(P), "properties", len(checks), "checks")
except ImportError:
  print("no jsonschema")
