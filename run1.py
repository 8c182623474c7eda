import sys, json, importlib
sys.path.insert(0,'/verif')
from pyvc import contract
pid=sys.argv[1].lower(); pat=sys.argv[2] if len(sys.argv)>2 else ''
repo=sys.argv[3] if len(sys.argv)>3 else '/repo'
importlib.import_module('contracts.'+pid)
for u in contract.REGISTRY:
    if pat and pat not in u.name: continue
    r=contract.run_unit(u,repo,workers=8)
    n=len(r['obligations']); ok=sum(o['status']=='proved' for o in r['obligations'])
    print('%-50s %s %d/%d gen %.1f wall %.1f %s'%(u.name,r['status'],ok,n,r['gen_s'],r['wall_s'],r['detail']))
    if r.get('trace'): print(r['trace'])
    for o in r['obligations']:
        if o['status']!='proved': print('   FAIL',o['status'],o['name'],o['where'],'%.1fs'%o['time'],(o['why'] or '')[:300], str(o['model'])[:200])
        elif '-v' in sys.argv: print('   ok',o['name'],o['where'],o['backend'],o['time'])
    for l in r['loops']: print('   loop',l)
    if '-v' in sys.argv: print(r['assumed'],r['trusted'])
