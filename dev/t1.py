import sys,time; sys.path.insert(0,"/verif/sa")
from frontend import load
from engine import *
p=load()
from models import Std
pol=Std(p)
it=Interp(p,pol)
fn=sys.argv[1]
f=p.resolve(fn,'src/'+sys.argv[2]) if len(sys.argv)>2 else p.funcs[fn]
t=time.time()
rs=it.run(f)
print(len(rs),time.time()-t,it.steps)
for r in rs[:int(sys.argv[3]) if len(sys.argv)>3 else 12]:
    print('---',r.kind,r.val)
    for e in r.events():
        if e.kind in('call','die','store'): print('   ',e.kind,e.name,e.args, e.node.line)
        else: print('   ',e.kind, e.extra)
    print('   facts',{k:sorted(v) if len(v)<8 else len(v) for k,v in r.facts.dom.items()},r.facts.iv,r.facts.rel)
