import json,sys
p='/verif/known_findings.json'
L=json.load(open(p))
new=json.loads(sys.stdin.read())
for n in (new if isinstance(new,list) else [new]):
    L=[x for x in L if x['id']!=n['id']]
    L.append(n)
json.dump(L,open(p,'w'),indent=1)
