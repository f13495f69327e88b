"""Build and verify planted bugs.

    python3 tools/mkseed.py            verify and write every seed of seeds.py
    python3 tools/mkseed.py ID [ID..]  only these

For each seed: apply the edit to /repo, write patch.diff, build, run the tests,
run demo.sh (must fail), run the property's check (reports caught or not), undo,
build, run demo.sh (must pass).  /repo is left as it was.
"""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from seeds import SEEDS
# a scratch clone given by VERIF_REPO stands in for /repo
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD, TEST = 'bash /opt/vp/build.sh', 'bash /opt/vp/test.sh /tmp/seed-out.json'
if REPO != '/repo':
    BUILD = 'true'
    TEST = ('OMP_NUM_THREADS=1 MPLBACKEND=Agg /opt/venv/bin/python -m pytest -q -p no:cacheprovider '
            '--doctest-modules -o junit_family=xunit2 --junitxml=/tmp/seed-out.xml bicycleparameters/ ; '
            '/opt/venv/bin/python /opt/vp/results.py /tmp/seed-out.json junit:/tmp/seed-out.xml')
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
DEMO = '''#!/bin/bash
# run with cwd = the repository, after the build
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" "$(dirname "$0")/demo.py"
'''
HEAD = '''import os, sys, tempfile, warnings
warnings.simplefilter("ignore")
import numpy as np


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, dtype=complex), np.asarray(b, dtype=complex)
    assert a.shape == b.shape, (a.shape, b.shape)
    assert np.all(np.abs(a - b) <= tol*(1.0 + np.abs(b))), "%s\\n!=\\n%s" % (a, b)


'''
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, **kw)
def clean():
    r = sh('git -C %s checkout -- . && git -C %s status --short' % (REPO, REPO))
    assert not r.stdout.strip().replace('Updated', '') or 'Updated' in r.stdout, r.stdout
def main(ids):
    todo = [s for s in SEEDS if not ids or s['id'] in ids]
    summary = []
    for s in todo:
        d = os.path.join(ROOT, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        open(d + '/demo.sh', 'w').write(DEMO)
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.py', 'w').write(HEAD + s['demo'].strip('\n') + '\n')
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(d + '/meta.json', 'w'), indent=1)
        clean()
        problems = []
        r0 = sh('bash %s/demo.sh' % d, cwd=REPO, timeout=300)
        if r0.returncode:
            problems.append('demo fails on the unchanged tree:\n' + r0.stdout[-1500:])
        try:
            for fn, old, new in s['edits']:
                p = os.path.join(REPO, 'bicycleparameters', fn)
                t = open(p).read()
                assert t.count(old) == 1, (s['id'], fn, t.count(old), old)
                open(p, 'w').write(t.replace(old, new))
            diff = subprocess.run(['git', '-C', REPO, 'diff'], capture_output=True, text=True).stdout
            open(d + '/patch.diff', 'w').write(diff)
            r = sh(BUILD, cwd=REPO)
            if r.returncode: problems.append('build: ' + r.stdout[-500:])
            sh(TEST, cwd=REPO)
            passed = set(json.load(open('/tmp/seed-out.json'))['passed'])
            if STABLE - passed: problems.append('tests fail: %s' % sorted(STABLE - passed))
            r1 = sh('bash %s/demo.sh' % d, cwd=REPO, timeout=300)
            if r1.returncode == 0: problems.append('demo passes with the patch')
            r = sh('VERIF_SEED=1 VERIF_TIER=quick ./check %s' % s['property'], cwd=ROOT, timeout=900)
            caught = r.returncode == 1 and 'VIOLATION property=%s' % s['property'] in r.stdout
            lines = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            nf = [l for l in lines if l.endswith('no-failing-input-found')]
            summary.append((s['id'], s['property'], 'caught' if caught else 'MISSED',
                            len(lines), len(nf), problems))
        finally:
            clean()
        print(summary[-1][:5], 'PROBLEMS' if problems else 'ok', flush=True)
        for p in problems: print('   ', p)
        if r1.returncode:
            print('    demo:', r1.stdout.strip().splitlines()[-1][:150])
    sh(BUILD, cwd=REPO)
    sh('git -C %s status --short' % ROOT)
    return summary
if __name__ == '__main__':
    main(sys.argv[1:])
