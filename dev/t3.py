import sys; sys.path.insert(0,"/verif/sa")
from core import *
s=Session(load())
for f,it,recs in s.closure(sys.argv[1]):
  print('=====',f.key,len(recs))
  for i,r in enumerate(recs):
    print('---',i,r.kind,show(r.val) if r.val is not None else '', r.node and r.node.line)
    for e in r.events():
        if e.name in ('printf','colorPrintf','printHumanReadableSize'): continue
        print('   ',e.node.line,e.kind,e.name,', '.join(show(a) for a in e.args) if e.kind not in('loop','exit','back') else (e.args[0].args, [(show(a),show(b)) for a,b in (e.extra or ())]), '-> '+show(e.res) if e.res is not None else '')
    print('   F',{show(k):sorted(v) if len(v)<9 else len(v) for k,v in r.facts.dom.items()},{show(k):v for k,v in r.facts.iv.items()},{(show(a),show(b)):v for (a,b),v in r.facts.rel.items()})
