import json,sys
d=json.load(open('/verif/evidence/%s.json'%sys.argv[1]))
def walk(x,p=''):
    if isinstance(x,dict):
        if 'group' in x and 'executions' in x: print(p,x['group'],x['executions'],x.get('transitions')); return
        for k,v in x.items(): walk(v,p+'/'+k)
    elif isinstance(x,list):
        for i,v in enumerate(x): walk(v,p)
walk(d)
