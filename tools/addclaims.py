#!/usr/bin/env python3
# addclaims.py ID technique note: adds or replaces a claim in claims.json
import json,sys
p='/verif/tools/claims.json'
d=json.load(open(p))
a=sys.argv[1:]
for i in range(0,len(a),3):
    d['checks'][a[i]]={"technique":a[i+1],"note":a[i+2]}
d['checks']=dict(sorted(d['checks'].items()))
with open(p,'w') as f:
    f.write('{"checks":{\n'+',\n'.join('%s:%s'%(json.dumps(k),json.dumps(v)) for k,v in d['checks'].items())+'\n},"not_applicable":'+json.dumps(d['not_applicable'])+'}\n')
