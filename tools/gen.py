"""Write properties.jsonl and MANIFEST.json from registry.py."""
import json
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import registry as R

V = os.path.dirname(here)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in R.PROPS:
        assert len(p["rec"]["title"]) <= 80, p["rec"]["title"]
        f.write(json.dumps(p["rec"]) + "\n")
checks, na = [], []
for p in R.PROPS:
    i = p["rec"]["id"]
    if not p["claimed"]:
        na.append(dict(property=i, reason=p["reason"]))
        continue
    assert os.path.exists(os.path.join(V, "checks", i.lower() + ".py")), i
    checks.append(dict(property=i, quick_cmd="bash run.sh %s quick" % i, thorough_cmd="bash run.sh %s thorough" % i,
                       evidence_file="evidence/%s.json" % i, technique=p["technique"], level="model_checking", level_note=p["note"]))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
               notes="No hooks in /repo: every check drives the public API of the real code. fix: commits are listed in known_findings.txt."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
try:
    import jsonschema

    jsonschema.validate(json.load(open(V + "/MANIFEST.json")), json.load(open("/root/.vp/MANIFEST.schema.json")))
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(V + "/properties.jsonl"):
        jsonschema.validate(json.loads(l), s)
except ImportError:
    print("jsonschema not available: not validated")
print(len(R.PROPS), "properties,", len(checks), "claimed")
