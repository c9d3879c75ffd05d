import json,sys
c=json.load(open('/verif/evidence/%s.json'%sys.argv[1]))['coverage']
d={}
for e,s,comp,p,q,sv,w in c['per_entry']:
    o=d.setdefault(e,[0,0,0,0,0,0]); o[0]+=1; o[1]+=p;o[2]+=q;o[3]+=sv;o[4]+=w;o[5]=max(o[5],w)
for e,o in d.items(): print("%-24s shards=%d paths=%d queries=%d solver=%.1f cpu=%.1f maxwall=%.1f"%(e,*o))
print(c['reached'])
