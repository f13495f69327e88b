"""The search for undecided paths, on every contract: python tools/hunt.py
SECONDS SEED [ID...]  (looks for false alarms on the current tree)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check, shutil
seconds, seed = float(sys.argv[1]), int(sys.argv[2])
ids = sys.argv[3:] or sorted(f[:-3].upper() for f in os.listdir(os.path.join(check.HERE, 'contracts')) if f[:1] == 'c' and f[1:3].isdigit())
check.setup_env()
pool = check.Pool(8)
for i in ids:
    for c in check.load(i):
        if c.opt.get('numeric', True):
            pool.submit(c.key, check.hunt_job, (c, seed, {}, [], seconds), seconds + 100)
for k, (st, r) in sorted(pool.run().items()):
    if st != 'ok' or r['fail'] or not r['passed']:
        print(k, st, str(r)[:800])
shutil.rmtree(check.SCRATCH, ignore_errors=True)
