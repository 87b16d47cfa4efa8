import json,sys,collections
t=collections.Counter(); why=collections.Counter(); v=[]
for l in open(sys.argv[1] if len(sys.argv)>1 else '/tmp/o'):
    try: o=json.loads(l)
    except: print('bad',l[:100]); continue
    if o['t']=='stats':
        for k in o:
            if isinstance(o[k],(int,float)): t[k]= max(t[k],o[k]) if k in('wall','nodes','maxpc') else t[k]+o[k]
        for k,x in o['why'].items(): why[k]+=x
    elif o['t'] in('viol','err'): v.append(o)
    elif o['t']=='crash': print('CRASH')
print(dict(t)); print(dict(why))
for o in v[:8]: print(json.dumps(o)[:500])
