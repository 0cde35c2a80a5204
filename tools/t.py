import sys,time; sys.path.insert(0,'/verif')
from cxv import ast
from cxv.verify import *
import importlib
m=importlib.import_module('contracts.'+sys.argv[1])
t=time.time()
prog=ast.load('core.cpp', open('/tmp/core.json').read()) if not '-f' in sys.argv else ast.load('core.cpp')
print('load',time.time()-t)
sel=[a for a in sys.argv[2:] if not a.startswith('-')]
for u in m.units:
    if sel and not any(x in u.name for x in sel): continue
    if '-d' in sys.argv and hasattr(u,'opts'): u.opts['debug']=True
    r=run_unit(u,prog)
    ok=sum(o['res']=='proved' for o in r.obs)
    print(f'## {r.name}: {r.kind} {ok}/{len(r.obs)} paths={r.paths} live={r.live} {r.time:.1f}s q={r.queries} {r.error or ""}')
    if hasattr(r,'tb'): print(r.tb if '-tb' in sys.argv else '')
    for o in r.obs:
        if o['res']!='proved': print('   FAIL',o['name'],o['loc'],o['res'],o['path'],'\n      ',(o['goal'] or '')[:600])
    if '-v' in sys.argv:
        for o in r.obs: print('   ',o['res'],o['name'],o['loc'],o['time'])
        print(r.loops, r.inlined, r.used)
