"""Writes MANIFEST.json from the contract modules and the list below."""
import json
import os
import re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
}
LEVELS = {}
props = [json.loads(l)['id'] for l in open(HERE + '/properties.jsonl')]
checks, na = [], []
for p in props:
    f = os.path.join(HERE, 'contracts', p.lower() + '.py')
    if p in NA:
        na.append(dict(property=p, reason=NA[p]))
        continue
    if not os.path.exists(f):
        na.append(dict(property=p, reason='contracts not written yet'))
        continue
    src = open(f).read()
    note = re.search(r"^NOTE = \(?((?:\s*'(?:[^'\\]|\\.)*'\n?)+)\)?", src, re.M)
    note = eval('(' + note.group(1) + ')') if note else ''
    level = re.search(r"^LEVEL = '(\w+)'", src, re.M)
    checks.append(dict(
        property=p, quick_cmd='./check ' + p,
        thorough_cmd='./check %s --tier thorough' % p,
        evidence_file='evidence/%s.json' % p,
        technique='contract-based deductive verification: path-wise symbolic '
                  'execution of the real functions against pre/postconditions'
                  ', obligations discharged by polynomial normal form and z3',
        level=level.group(1) if level else 'proof',
        level_note=note or 'Postconditions hold for all real inputs, numbers '
        'treated as exact reals. Library functions are assumed contracts '
        'listed in the evidence.'))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na)
json.dump(m, open(HERE + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
