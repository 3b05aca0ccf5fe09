import json,sys
from load import load
P=load('/tmp/d.jsonl')
for n in sys.argv[1:]:
    for name,ks in P.byname.items():
        if n in name:
            for k in ks:
                d=dict(P.fns[k]); b=d.pop('blocks',[])
                print(json.dumps(d))
                for i,x in enumerate(b):
                    print(' bb',i)
                    for s in x['s']: print('    ',json.dumps(s))
                    print('     T',json.dumps(x['t']))
            break
