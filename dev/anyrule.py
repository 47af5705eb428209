"""Development aid: runs every registered rule once on a tree until one of
them complains.  anyrule.py [-t] [-a] ; tree from VERIF_REPO. Not used by any
check."""
import importlib, os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'sa'))
sys.setrecursionlimit(50000)
from core import Check, Session
from frontend import AnalysisError, load
from registry import RULES
try:
    prog = load()
except Exception as e:
    print('LOAD', e); sys.exit(2)
s = Session(prog)
seen = {}
for pid in sorted(RULES):
    for r in RULES[pid]:
        k = (r[0], r[1])
        a = seen.setdefault(k, [set(), set(), False])
        a[0].add(pid)
        if len(r) > 2:
            a[1] |= r[2] if isinstance(r[2], (set, frozenset)) else {r[2]}
            a[2] = True
        else:
            a.append('all')
LATE = ['r_size', 'r_policy', 'r_life', 'r_info']
first = sys.argv[sys.argv.index('-f') + 1].split(',') if '-f' in sys.argv else []
order = sorted(seen, key=lambda k: (k[0] not in first, LATE.index(k[0]) if k[0] in LATE else -1, k))
skip = sys.argv[sys.argv.index('-s') + 1].split(',') if '-s' in sys.argv else []
err = None
for k in order:
    if k[0] in skip: continue
    t = time.time()
    chk = Check('X', prog, 'quick')
    kw = [seen[k][1]] if seen[k][2] and k[1] == 'contracts' else sorted(seen[k][1], key=str) if seen[k][2] else []
    try:
        if k[1] == 'contracts' or not seen[k][2] or 'all' in seen[k]:
            getattr(importlib.import_module(k[0]), k[1])(chk, s, *(kw if k[1] == 'contracts' else []))
        if seen[k][2] and k[1] != 'contracts':
            for x in kw:
                getattr(importlib.import_module(k[0]), k[1])(chk, s, x)
    except Exception as e:
        err = (k, repr(e)[:150])
    if '-t' in sys.argv:
        print(k, round(time.time() - t, 2), flush=True)
    if chk.bad:
        b = chk.bad[0]
        print('CAUGHT', '%s.%s' % k, '/'.join(sorted(seen[k][0])), '%s:%d %s' % (b['file'], b['line'], b['message'][:120]))
        if '-a' not in sys.argv: sys.exit(1)
if err: print('NOVERDICT', err); sys.exit(2)
print('QUIET')
