import sys; sys.path.insert(0,"/verif/sa")
from core import *
s=Session(load())
f,it,recs=s.run('main')
print(len(recs))
sel=[r for r in recs if r.calls('finishBackup') and r.kind=='ret']
print(len(sel))
r=sel[0]
for e in r.events():
    if e.name in ('printf','colorPrintf','printHumanReadableSize'): continue
    print(e.kind,e.name,[show(a) for a in e.args][:4], show(e.res) if e.res is not None else '')
print(r.facts.dom)
sel=[r for r in recs if r.calls('finishRestore') and r.kind=='ret']
print(len(sel))
r=sel[0]
for e in r.events():
    if e.name in ('printf','colorPrintf','printHumanReadableSize'): continue
    print(e.kind,e.name,[show(a) for a in e.args][:4], show(e.res) if e.res is not None else '')
