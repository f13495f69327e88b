"""Bounded runs only: python tools/numeric.py SEEDS WILD [ID...]
(looks for false alarms of the numeric mode on the current tree)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check, time, shutil
seeds, wild = int(sys.argv[1]), float(sys.argv[2])
ids = sys.argv[3:] or sorted(f[:-3].upper() for f in os.listdir(os.path.join(check.HERE, 'contracts')) if f[:1] == 'c' and f[1:3].isdigit())
check.setup_env()
check.WILD = wild
pool = check.Pool(8)
for i in ids:
    for c in check.load(i):
        if c.opt.get('numeric', True):
            for s in range(seeds):
                pool.submit((c.key, s), check.numeric_job, (c, 'quick', 1000 + s), 140)
res = pool.run()
bad = {}
for k, (st, r) in sorted(res.items()):
    if st != 'ok' or r['fail'] or not r['passed']:
        bad.setdefault(k[0], []).append((k[1], r if st != 'ok' else r['fail'] or 'no sample'))
for k, v in bad.items():
    print(k, len(v), str(v[0])[:500])
print('done', len(res))
shutil.rmtree(check.SCRATCH, ignore_errors=True)
