"""Driver: python3 check.py PROPERTY  (see DESIGN.md)"""
import importlib
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(50000)

from core import Check, Session, VERIF
from frontend import AnalysisError, load, REPO
from registry import RULES

ASSUME = [
    'clang parses the sources as the real compiler does',
    'pointers with different symbolic names designate different objects '
    'unless the code derives one from the other',
    'documented behaviour of libc, the kernel and third-party/CRegion',
]


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    out = os.environ.get('VERIF_OUT', VERIF)
    ev = os.path.join(out, 'evidence', pid + '.json')
    rep = os.path.join(out, 'evidence', pid + '.violation.json')
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    for f in (ev, rep):
        if os.path.exists(f):
            os.unlink(f)
    prog = load()
    s = Session(prog)
    chk = Check(pid, prog, tier)
    err = None
    for mod, fn, *kw in RULES[pid]:
        try:
            getattr(importlib.import_module(mod), fn)(chk, s, *kw)
        except Exception as e:
            err = e
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exc()
            print('%s.%s: no verdict: %s %s' % (mod, fn,
                                               type(e).__name__, e))
    if err is not None and not chk.bad:
        print('ERROR property=%s %s' % (pid, err))
        sys.exit(2)
    n = sum(chk.rules.values())
    cov = {
        'explanation': 'Static analysis of the sources in %s as of this run: '
                       'every path through the listed functions was followed '
                       'symbolically and each obligation of the listed rules '
                       'was decided on it; nothing was executed.' % REPO,
        'obligations': n,
        'discharged': n - len(chk.bad),
        'rules': {k: {'rule': chk.texts.get(k, ''), 'obligations': v}
                  for k, v in chk.rules.items()},
        'translation_units': prog.units,
        'ast_nodes': prog.nodes,
        'functions_analysed': sorted(chk.funcs),
        'paths': chk.paths,
        'call_sites': len(chk.sites),
        'notes': chk.notes,
    }
    json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
               'coverage': cov, 'assumptions': ASSUME,
               'wall_s': round(time.time() - t0, 2),
               'violations': len(chk.bad)}, open(ev, 'w'), indent=1)
    print('%s: %d obligations, %d paths, %d functions, %.1fs' % (
        pid, n, chk.paths, len(chk.funcs), time.time() - t0))
    if chk.bad:
        json.dump(chk.bad, open(rep, 'w'), indent=1)
        for b in chk.bad[:12]:
            print('  %s:%d: %s: [%s] %s' % (b['file'], b['line'],
                                           b['function'], b['rule'],
                                           b['message']))
        print('VIOLATION property=%s replay=%s' % (pid, rep))
        sys.exit(1)


if __name__ == '__main__':
    try:
        main()
    except AnalysisError as e:
        print('ERROR', e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(3)
