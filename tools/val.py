import json,jsonschema,os
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in open("/verif/properties.jsonl"): jsonschema.validate(json.loads(l),s)
if os.path.exists("/verif/MANIFEST.json"):
    jsonschema.validate(json.load(open("/verif/MANIFEST.json")),json.load(open("/root/.vp/MANIFEST.schema.json")))
es=json.load(open("/root/.vp/EVIDENCE.schema.json"))
for f in os.listdir("/verif/evidence"):
    if f.startswith("C"): jsonschema.validate(json.load(open("/verif/evidence/"+f)),es)
print("valid")
