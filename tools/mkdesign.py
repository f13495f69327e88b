"""Rewrites the tables at the end of DESIGN.md from evidence and seeds."""
import glob
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '## 7. Tables'
text = open(HERE + '/DESIGN.md').read().split(MARK)[0].rstrip() + '\n\n'
out = [MARK, '', 'Written by `tools/mkdesign.py` from the evidence of a quick '
       'run.', '', '| property | functions | obligations | proved | paths | '
       'loops cut | bounded checks | bounded only | seconds |',
       '|---|---|---|---|---|---|---|---|---|']
for f in sorted(glob.glob(HERE + '/evidence/C*.json')):
    e = json.load(open(f))
    c = e['coverage']
    out.append('| %s | %d | %d | %d | %d | %d | %d | %s | %.0f |' % (
        e['property'], len(c['functions_under_contract']), c['obligations'],
        c['discharged'], c['paths'], c['loops_cut'], c['evaluations'],
        ', '.join(x.split('.')[1] for x in c.get('bounded_not_proved') or [])
        or '-', e.get('wall_s', e.get('wall_seconds', 0)) or 0))
out += ['', '| seeded bug | caught by | needs |', '|---|---|---|']
for d in sorted(glob.glob(HERE + '/seeded/*/meta.json')):
    m = json.load(open(d))
    out.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(d)),
                                     m['property'], m['needs']))
open(HERE + '/DESIGN.md', 'w').write(text + '\n'.join(out) + '\n')
