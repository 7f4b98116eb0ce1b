import json,jsonschema,glob
ps=json.load(open('/root/.vp/PROPERTIES.schema.json')); ms=json.load(open('/root/.vp/MANIFEST.schema.json')); es=json.load(open('/root/.vp/EVIDENCE.schema.json'))
n=0
for l in open('/verif/properties.jsonl'):
    jsonschema.validate(json.loads(l),ps); n+=1
m=json.load(open('/verif/MANIFEST.json')); jsonschema.validate(m,ms)
k=0
for f in glob.glob('/verif/evidence/*.json'): jsonschema.validate(json.load(open(f)),es); k+=1
print(n,len(m['checks']),k)
