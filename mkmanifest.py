"""Writes MANIFEST.json from properties.jsonl and sa/registry.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'sa'))
from registry import RULES, NOTES

NA = {
    'P29': 'An end-to-end equation between two file trees over arbitrary '
           'histories. The local obligations from which it would follow are '
           'decided under P09-P19 and P21; composing them needs a semantic '
           'argument about runtime trees that no dataflow or effect analysis '
           'of this code reaches.',
    'P30': 'Collision resistance is a property of the hash function '
           '(third-party SipHash/BLAKE code) and quantifies over runtime '
           'contents; static analysis cannot bound it. What the analysis can '
           'see (all bytes are fed, names contain the whole hash) is part of '
           'P08 and P25.',
    'P31': 'Numeric equality between printed totals and sums over runtime '
           'trees; the static part (totals are accumulated with overflow '
           'checks, nothing is missing from the summary) is decided under '
           'P23 and P26.',
}
PENDING = 'The check for this property is not part of this state of /verif.'

props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in RULES:
        tech, note = NOTES[i]
        checks.append({
            'property': i,
            'quick_cmd': 'python3 sa/check.py %s' % i,
            'thorough_cmd': 'python3 sa/check.py %s --tier thorough' % i,
            'technique': tech,
            'level': 'other',
            'level_note': note,
        })
    else:
        na.append({'property': i, 'reason': NA.get(i, PENDING)})
m = {
    'version': 1,
    'setup_cmd': 'python3 sa/setup.py',
    'checks': checks,
    'not_applicable': na,
    'notes': 'All checks analyse the clang AST of /repo/src as found at the '
             'time of the run; nothing of the repository is executed. No '
             'hooks are needed. See DESIGN.md.',
}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
