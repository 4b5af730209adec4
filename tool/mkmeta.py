"""Writes properties.jsonl and MANIFEST.json from checks/catalog.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/checks")
import catalog
with open(V + "/properties.jsonl", "w") as f:
    for p in catalog.PROPS:
        f.write(json.dumps(p) + "\n")
checks = []
for pid, c in catalog.CHECKS.items():
    checks.append(dict(property=pid, quick_cmd="python3 check.py %s --tier quick" % pid,
                       thorough_cmd="python3 check.py %s --tier thorough" % pid,
                       technique=c["technique"], level=c["level"], level_note=c["level_note"]))
m = dict(version=1, setup_cmd="python3 tool/setup.py", checks=checks,
         not_applicable=catalog.NOT_APPLICABLE)
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in catalog.PROPS:
    jsonschema.validate(p, s)
print(len(catalog.PROPS), "properties,", len(checks), "checks")
