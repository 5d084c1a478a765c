import importlib,sys,re
sys.path.insert(0,'/verif/vx')
from common import run_verus
m=importlib.import_module(sys.argv[1])
for u in m.units():
    if len(sys.argv)>2 and sys.argv[2]!=u.name: continue
    r=run_verus(u,__import__('os').environ.get('TRYDIR','/tmp/v')); print({k:v for k,v in r.items() if k not in('stderr','functions','trusted','cmd','failed','undecided')}, len(r['functions']),'fns')
    for f in r.get('undecided',[]): print('UNDECIDED', f['obligation'])
    for f in r['failed']:
        print('FAILED', f['obligation'])
        for d in f['detail']: print('   ', '\n    '.join(l for l in d.split('\n')[:14]))
    if r['status'] not in ('ok','failed'): print(r.get('stderr','')[:5000])
