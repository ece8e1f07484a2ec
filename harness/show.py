import json,glob,sys,collections
pid=sys.argv[1]; n=int(sys.argv[2]) if len(sys.argv)>2 else 3
c=collections.Counter(); ex={}
for f in sorted(glob.glob(f'/verif/evidence/replay/{pid}/*.json')):
    d=json.load(open(f))
    key=tuple(sorted({(x['op'],x['clause']) for x in d['failing']}))
    c[key]+=1; ex.setdefault(key,[]).append((f,d))
for k,v in c.most_common(): 
    print(v,k); f,d=min(ex[k],key=lambda x:len(json.dumps(x[1])))
    for x in d['failing'][:1]:
        print('   ',f, json.dumps(d['events'][x['event']-1])[:1500])
