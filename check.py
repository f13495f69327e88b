#!/opt/venv/bin/python
"""check.py ID [--tier quick|thorough] [--replay FILE] [--only NAME] [-v]

Decides one property of properties.jsonl for the current tree of /repo.
Exit 0: it held on everything explored; exit 1 with a VIOLATION line: broken.
"""
import argparse
import hashlib
import importlib
import json
import os
import pickle
import random
import resource
import select
import signal
import shutil
import sys
import tempfile
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SCRATCH = tempfile.mkdtemp(prefix='verif-')


def setup_env():
    os.environ.update(MPLBACKEND='Agg', OMP_NUM_THREADS='1',
                      OPENBLAS_NUM_THREADS='1', MPLCONFIGDIR=SCRATCH)
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(SCRATCH, 'none')
    sys.path.insert(0, REPO)
    sys.path.insert(1, HERE)
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    warnings.simplefilter('ignore')
    sys.setrecursionlimit(20000)


def load(prop):
    import matplotlib
    matplotlib.use('Agg')
    import bicycleparameters
    where = os.path.dirname(os.path.abspath(bicycleparameters.__file__))
    assert where == os.path.join(REPO, 'bicycleparameters'), where
    from vc import engine
    importlib.import_module('contracts.' + prop.lower())
    return [c for c in engine.CONTRACTS if c.prop == prop]


# ------------------------------------------------------------------ children
WILD = 0.15      # how often a quarter of the samples leaves the usual ranges


def symbolic_job(c, tier, seed):
    from vc import engine, smt
    t0 = time.time()
    seconds = c.opt.get('seconds', 120) * (3 if tier == 'thorough' else 1)
    e = engine.Engine(c.fn, seed, c.opt.get('paths', 5000), seconds)
    e.explore()
    return dict(obligations=[o.as_dict() for o in e.obligations],
                undecided=e.undecided, errors=e.errors, paths=e.paths,
                infeasible=e.infeasible, loops=e.loops,
                poly_time=e.poly_time, z3=dict(smt.STATS),
                stubs=sorted(e.stubs), complete=e.complete,
                doubtful=e.doubtful,
                wall=time.time() - t0)


def numeric_job(c, tier, seed, count=None, choices=None, budget=None):
    from vc import engine
    n = count or c.opt.get('samples', 40)
    if tier == 'thorough' and not count:
        n *= 12
    rng = random.Random('%s %s %s' % (seed, c.key, count))
    t0 = time.time()
    budget = budget or (c.opt.get('numeric_seconds', 60) *
                        (6 if tier == 'thorough' else 1))
    out = dict(passed=0, skipped=0, checks=0, fail=None, samples=[])
    seen = set()
    k = tries = 0
    while k < n and tries < 30 * n:
        tries += 1
        if time.time() - t0 > budget:
            break
        wild = WILD if tries % 4 == 3 and c.opt.get('wild', True) else 0.0
        st, msg, ctx = engine.run_numeric(c.fn, rng, None, choices, wild)
        if st == 'skip':
            out['skipped'] += 1
            continue
        k += 1
        out['checks'] += ctx.count
        seen.add(json.dumps([ctx.used, ctx.used_choices], sort_keys=True,
                            default=str))
        if len(out['samples']) < 2:
            out['samples'].append(dict(values=short(ctx.used),
                                       choices=ctx.used_choices))
        if st == 'fail':
            out['fail'] = dict(message=msg, values=ctx.used,
                               choices=ctx.used_choices)
            break
        out['passed'] += 1
    out['distinct'] = len(seen)
    out['wall'] = time.time() - t0
    return out


def hunt_job(c, seed, choices, points, budget):
    """Bounded search where the verifier gave no answer: the choices of an
    undecided path, points that satisfy its condition, long arrays."""
    from vc import engine
    rng = random.Random('hunt %s %s %s' % (seed, c.key, choices))
    t0 = time.time()
    k = checks = passed = 0
    while time.time() - t0 < budget and k < 400:
        values = dict(points[k]) if k < len(points) else None
        wild = WILD if k % 4 == 3 and c.opt.get('wild', True) else 0.0
        st, msg, ctx = engine.run_numeric(c.fn, rng, values, choices, wild,
                                          0.5)
        k += 1
        if st == 'skip':
            continue
        checks += ctx.count
        passed += 1
        if st == 'fail':
            return dict(fail=dict(message=msg, values=ctx.used,
                                  choices=ctx.used_choices), checks=checks,
                        passed=passed)
    return dict(fail=None, checks=checks, passed=passed)


def hunt(todo, tier, seed):
    """{contract key: (failure or None, samples, checks)} for the contracts
    with undecided paths, at most two minutes in all."""
    pool = Pool(int(os.environ.get('VERIF_JOBS', '8')))
    each = min(40.0, 120.0 / len(todo)) * (3 if tier == 'thorough' else 1)
    out = {}
    for c, places in todo:
        distinct = {}
        for choices, points in places:
            distinct.setdefault(json.dumps(choices, sort_keys=True),
                                (choices, points))
        places = list(distinct.values()) or [({}, [])]
        random.Random(seed).shuffle(places)
        places = places[:32]
        while len(places) < 8:
            places = places + places
        budget = each * 8 / len(places)
        for i, (choices, points) in enumerate(places):
            pool.submit((c.key, i), hunt_job,
                        (c, seed + 77 * i, choices, points, budget),
                        budget + 60)
        out[c.key] = [None, 0, 0]
    for (key, i), (st, r) in sorted(pool.run().items()):
        if st == 'ok':
            out[key][1] += r['passed']
            out[key][2] += r['checks']
            out[key][0] = out[key][0] or r['fail']
    return out


def short(values):
    return {k: (round(v, 6) if isinstance(v, float) else v)
            for k, v in list(values.items())[:60]}


def replay_job(c, values, choices, seed=0):
    from vc import engine
    values = {k: v for k, v in (values or {}).items()}
    st, msg, ctx = engine.run_numeric(c.fn, random.Random(seed), values,
                                      choices)
    return dict(status=st, message=msg, values=ctx.used,
                choices=ctx.used_choices)


# ------------------------------------------------------------------ pool
class Pool(object):
    """Forked jobs with individual time limits."""
    def __init__(self, workers=8):
        self.workers = workers
        self.queue = []
        self.running = {}
        self.results = {}

    def submit(self, key, f, args, limit):
        self.queue.append((key, f, args, limit))

    def start(self, key, f, args, limit):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            code = 0
            try:
                os.setpgid(0, 0)
                resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
                with open(os.devnull, 'w') as null:
                    os.dup2(null.fileno(), 1)
                    if not os.environ.get('VERIF_DEBUG'):
                        os.dup2(null.fileno(), 2)
                tmp = tempfile.mkdtemp(dir=SCRATCH)
                os.chdir(tmp)
                tempfile.tempdir = tmp
                try:
                    res = ('ok', f(*args))
                except MemoryError:
                    res = ('died', 'out of memory')
                except BaseException:
                    res = ('died', traceback.format_exc(limit=-8))
                data = pickle.dumps(res)
                with os.fdopen(w, 'wb') as fh:
                    fh.write(data)
            except BaseException:
                code = 3
            os._exit(code)
        os.close(w)
        self.running[r] = dict(key=key, pid=pid, end=time.time() + limit,
                               data=b'')

    def run(self):
        while self.queue or self.running:
            while self.queue and len(self.running) < self.workers:
                self.start(*self.queue.pop(0))
            ready, _, _ = select.select(list(self.running), [], [], 0.5)
            for r in ready:
                j = self.running[r]
                chunk = os.read(r, 1 << 20)
                if chunk:
                    j['data'] += chunk
                    continue
                os.close(r)
                os.waitpid(j['pid'], 0)
                del self.running[r]
                try:
                    self.results[j['key']] = pickle.loads(j['data'])
                except Exception:
                    self.results[j['key']] = ('died', 'no result')
            for r in list(self.running):
                j = self.running[r]
                if time.time() > j['end']:
                    try:
                        os.killpg(j['pid'], signal.SIGKILL)
                    except OSError:
                        os.kill(j['pid'], signal.SIGKILL)
                    os.waitpid(j['pid'], 0)
                    os.close(r)
                    del self.running[r]
                    self.results[j['key']] = ('died', 'time limit')
        return self.results


def one(f, args, limit=120):
    p = Pool(1)
    p.submit('x', f, args, limit)
    return p.run()['x']


# ------------------------------------------------------------------ verdict
def confirm(c, point, choices, seed):
    """Look for a concrete failing input near a refuted obligation."""
    tries = []
    if point is not None:
        tries.append((replay_job, (c, point, choices)))
    for f, a in tries:
        st, r = one(f, a)
        if st == 'ok' and r['status'] == 'fail':
            return r
    st, r = one(numeric_job, (c, 'quick', seed + 1, 150, choices, 25))
    if st == 'ok' and r['fail']:
        return r['fail']
    return None


def known_findings(prop):
    out = []
    try:
        with open(os.path.join(HERE, 'known-findings.txt')) as f:
            for line in f:
                line = line.strip()
                if line.startswith('{'):
                    d = json.loads(line)
                    if d.get('property') == prop and 'fixed' not in d:
                        out.append(d)
    except FileNotFoundError:
        pass
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    setup_env()
    contracts = load(a.prop)
    if a.replay:
        with open(a.replay) as f:
            d = json.load(f)
        c = [x for x in contracts if x.name == d['contract']][0]
        if d.get('values') is None:
            print(json.dumps(d, indent=1))
            return 1
        st, r = one(replay_job, (c, d['values'], d['choices']))
        print(st, json.dumps(r, indent=1, default=str))
        return 1 if st == 'ok' and r['status'] == 'fail' else 0
    if a.only:
        contracts = [c for c in contracts if c.name in a.only.split(",")]
    assert contracts, 'no contracts for ' + a.prop
    pool = Pool(int(os.environ.get('VERIF_JOBS', '8')))
    for c in contracts:
        lim = c.opt.get('seconds', 120) * (3 if a.tier == 'thorough' else 1)
        if c.opt.get('symbolic', True):
            pool.submit(('s', c.key), symbolic_job, (c, a.tier, seed),
                        lim * 1.5 + 30)
        if c.opt.get('numeric', True):
            pool.submit(('n', c.key), numeric_job, (c, a.tier, seed),
                        (60 if a.tier == 'quick' else 360) * 1.5 + 30)
    res = pool.run()

    violations = []      # (contract, message, values, choices, replayed)
    rows = []
    total = proved = 0
    undecided = []
    doubt = {}           # contract: where nothing was decided
    backends = {}
    z3q, z3t, polyt = 0, 0.0, 0.0
    paths = loops = 0
    evals = distinct = 0
    samples = []
    for c in contracts:
        row = dict(contract=c.key, functions=c.functions)
        s = res.get(('s', c.key))
        nres = res.get(('n', c.key))
        if nres is not None:
            st, r = nres
            if st == 'ok':
                row['bounded'] = dict(samples=r['passed'], checks=r['checks'],
                                      skipped=r['skipped'])
                evals += r['checks']
                distinct += r['distinct']
                samples += [dict(contract=c.name, **x)
                            for x in r['samples'][:1]]
                if r['fail']:
                    violations.append((c, r['fail']['message'],
                                       r['fail']['values'],
                                       r['fail']['choices'], True))
                elif r['passed'] == 0:
                    row['bounded']['note'] = 'no sample in the domain'
                    undecided.append('%s: no sample in the domain' % c.key)
            else:
                row['bounded'] = dict(error=r[-1500:])
                undecided.append('%s: bounded run died: %s' % (c.key,
                                                               r[-300:]))
        if s is not None:
            st, r = s
            if st != 'ok':
                undecided.append('%s: symbolic run died: %s' % (c.key,
                                                                r[-300:]))
                doubt.setdefault(c.key, (c, []))
                row['symbolic'] = dict(error=r[-1500:])
                total += 1
            else:
                total += len(r['obligations'])
                z3q += r['z3']['queries']
                z3t += r['z3']['time']
                polyt += r['poly_time']
                paths += r['paths']
                loops += r['loops']
                mine = 0
                refuted = {}
                for o in r['obligations']:
                    if o['status'] == 'proved':
                        proved += 1
                        mine += 1
                        backends[o['backend']] = backends.get(
                            o['backend'], 0) + 1
                    elif o['status'] == 'refuted':
                        refuted.setdefault((o['label'], json.dumps(
                            o['choices'], sort_keys=True)), o)
                    else:
                        undecided.append('%s: %s: %s' % (
                            c.key, o['label'], o['detail'][:300]))
                        doubt.setdefault(c.key, (c, []))[1].append(
                            (o['choices'], []))
                if r['undecided']:
                    doubt.setdefault(c.key, (c, []))[1].extend(r['doubtful'])
                for why, ch in r['undecided']:
                    undecided.append('%s: %s %s' % (c.key, why, ch or ''))
                    total += 1
                if not any(v[0] is c for v in violations):
                    left = list(refuted.values())[:4]
                    for o in left:
                        got = confirm(c, o['values'], o['choices'], seed)
                        if got:
                            violations.append((
                                c, 'obligation %s refuted (%s); on the real '
                                'code: %s' % (o['label'], o['detail'][:300],
                                              got['message']),
                                got['values'], got['choices'], True))
                            break
                    else:
                        soft = [o for o in left if not o['stubbed'] and
                                not c.opt.get('soft')]
                        for o in soft[:1]:
                            violations.append((
                                c, 'obligation %s refuted: %s' % (
                                    o['label'], o['detail'][:600]),
                                None, o, False))
                        for o in left:
                            doubt.setdefault(c.key, (c, []))[1].append(
                                (o['choices'], []))
                            undecided.append(
                                '%s: %s refuted at a point that does not '
                                'reproduce: %s' % (c.key, o['label'],
                                                   o['detail'][:200]))
                for e in r['errors'][:6]:
                    if any(v[0] is c for v in violations):
                        break
                    hit = None
                    for env in e['points'][:3] or [None]:
                        hit = confirm(c, env, e['choices'], seed)
                        if hit:
                            break
                    if hit:
                        violations.append((c, 'exception on a path: %s; on '
                                           'the real code: %s' % (
                                               e['error'], hit['message']),
                                           hit['values'], hit['choices'],
                                           True))
                    else:
                        doubt.setdefault(c.key, (c, []))[1].append(
                            (e['choices'], []))
                        undecided.append('%s: exception %s %s' % (
                            c.key, e['error'][:300], e['trace'][-500:]
                            if a.v else ''))
                        total += 1
                row['symbolic'] = dict(
                    obligations=len(r['obligations']), proved=mine,
                    paths=r['paths'], infeasible=r['infeasible'],
                    loops_cut=r['loops'], complete=r['complete'],
                    callee_contracts=r['stubs'], wall=round(r['wall'], 2))
                if r['complete'] and r['paths'] == 0:
                    undecided.append('%s: vacuous, no feasible path' % c.key)
        rows.append(row)

    # nothing found yet, but something undecided: search there
    todo = [x for x in doubt.values() if x[0].opt.get('numeric', True)]
    if todo and not violations:
        for key, (fail, n, checks) in hunt(todo, a.tier, seed).items():
            c = doubt[key][0]
            evals += checks
            for row in rows:
                if row['contract'] == key:
                    row['search'] = dict(samples=n, checks=checks)
            if fail:
                violations.append((c, 'undecided, and on the real code: ' +
                                   fail['message'], fail['values'],
                                   fail['choices'], True))

    # ------------------------------------------------------------- report
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
    known = known_findings(a.prop)
    code = 0
    reported = 0
    for c, msg, values, choices, replayed in violations:
        hit = [k for k in known if k['contract'] == c.name and
               k.get('match', '') in msg]
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (a.prop, hit[0]['what']))
            continue
        d = dict(property=a.prop, contract=c.name, functions=c.functions,
                 message=msg, tier=a.tier, seed=seed)
        if replayed:
            d.update(values=values, choices=choices)
        else:
            d.update(values=None, obligation=choices)
        text = json.dumps(d, indent=1, default=str)
        path = os.path.join(HERE, 'replay', '%s-%s-%s.json' % (
            a.prop, c.name, hashlib.md5(text.encode()).hexdigest()[:8]))
        with open(path, 'w') as f:
            f.write(text)
        print('  %s: %s' % (c.key, msg[:1500]))
        print('VIOLATION property=%s replay=%s%s' % (
            a.prop, path, '' if replayed else ' no-failing-input-found'))
        reported += 1
        code = 1
    import platform
    assumed = []
    for c in contracts:
        for x in c.opt.get('assumes', []):
            if x not in assumed:
                assumed.append(x)
    from vc import shims
    bounded_only = [c.key for c in contracts
                    if not c.opt.get('symbolic', True)]
    level = getattr(sys.modules['contracts.' + a.prop.lower()], 'LEVEL',
                    'proof')
    cov = dict(
        obligations=total, discharged=proved,
        checker_cmd='%s %s --tier %s' % (os.path.join(HERE, 'check'), a.prop,
                                         a.tier),
        trusted_base=[
            'CPython %s executes the real code on symbolic arguments' %
            platform.python_version(),
            'vc/sym.py vc/poly.py vc/loops.py vc/shims.py vc/engine.py '
            '(the verifier)', 'z3 (inequalities, path feasibility)'],
        functions_under_contract=sorted({f for c in contracts
                                         for f in c.functions}),
        back_ends=backends, paths=paths, loops_cut=loops,
        solver=dict(z3_queries=z3q, z3_seconds=round(z3t, 2),
                    normaliser_seconds=round(polyt, 2)),
        contracts=rows, undecided=undecided[:60],
        undecided_count=len(undecided),
        bounded_not_proved=bounded_only,
        evaluations=evals, distinct_nontrivial=distinct,
        rule='bounded adjunct: every contract on sampled reals and choices; '
        'a sample counts when it lies in the contract domain, distinct by '
        'its values',
        samples=samples[:8])
    if level != 'proof':
        cov['explanation'] = sys.modules[
            'contracts.' + a.prop.lower()].__doc__ or ''
    ev = dict(property=a.prop, tier=a.tier, seed=seed, level=level,
              coverage=cov, assumptions=shims.ASSUMED + assumed,
              wall_s=round(time.time() - t0, 2), violations=reported)
    with open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s %s: %d obligations, %d discharged, %d undecided, %d paths, '
          '%d loops cut, %d bounded checks, %d violations, %.1f s' % (
              a.prop, a.tier, total, proved, len(undecided), paths, loops,
              evals, reported, time.time() - t0))
    if a.v:
        for u in undecided:
            print('   undecided', u)
        for r in rows:
            print('   ', json.dumps(r))
    return code


if __name__ == '__main__':
    try:
        rc = main()
    finally:
        shutil.rmtree(SCRATCH, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)
