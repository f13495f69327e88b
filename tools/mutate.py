"""Mutation study: which small edits of a function do its contracts miss?

    python3 tools/mutate.py OUT.jsonl [--per N] [--jobs N] [--seed S] [--match RE] [--max N]

Each mutant is written into a scratch copy of /repo under /tmp/mw; the contracts
naming the function run on it until one reports a violation.  Survivors are to
be read by hand: equivalent, cosmetic, or a gap.
"""
import argparse, ast, collections, json, os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
import queue
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = '/repo'
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*'}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==',
       ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
NAMES = {'sin': 'cos', 'cos': 'sin', 'tan': 'sin', 'arctan': 'arcsin', 'arcsin': 'arctan', 'real': 'imag',
         'imag': 'real', 'max': 'min', 'min': 'max', 'argmax': 'argmin', 'argmin': 'argmax', 'zeros': 'ones',
         'hstack': 'vstack', 'ones': 'zeros', 'append': 'count', 'update': 'get', 'any': 'all', 'all': 'any'}


def unp(n): return ast.unparse(n)


def mutants(fn, src):
    """(lineno, kind, start, end, text) of edits inside the function."""
    lines = src.split('\n')
    offs = [0]
    for l in lines: offs.append(offs[-1] + len(l.encode()) + 1)
    pos = lambda n: (offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset)
    out = []
    doc = fn.body[0] if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else None
    strings = sorted({n.value for n in ast.walk(fn) if isinstance(n, ast.Constant) and isinstance(n.value, str)
                      and re.match(r'^\w{1,8}$', n.value)})
    rnd = random.Random(fn.name)
    def add(n, kind, text):
        s, e = pos(n)
        out.append((n.lineno, kind, s, e, text))
    infmt = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.JoinedStr):
            for k in ast.walk(n): infmt.add(id(k))
    stmts = [s for s in ast.walk(fn) if isinstance(s, ast.stmt) and s is not doc and s is not fn]
    for n in ast.walk(fn):
        if id(n) in infmt or (doc is not None and n is doc.value): continue
        if isinstance(n, ast.Raise) or isinstance(n, ast.Global): continue
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            l, r = unp(n.left), unp(n.right)
            add(n, 'op', '((%s) %s (%s))' % (l, BIN[type(n.op)], r))
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            add(n, 'cmp', '(%s %s %s)' % (unp(n.left), CMP[type(n.ops[0])], unp(n.comparators[0])))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub): add(n, 'neg', '(%s)' % unp(n.operand))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not): add(n, 'not', '(%s)' % unp(n.operand))
        elif isinstance(n, ast.BoolOp):
            add(n, 'bool', '(%s)' % (' or ' if isinstance(n.op, ast.And) else ' and ').join(
                '(%s)' % unp(v) for v in n.values))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool): add(n, 'const', str(not n.value))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            add(n, 'const', repr(n.value + 1))
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value in strings and len(strings) > 1:
            add(n, 'key', repr(rnd.choice([s for s in strings if s != n.value])))
        elif isinstance(n, ast.Call):
            f = unp(n.func)
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                a = [unp(x) for x in n.args]; a[0], a[1] = a[1], a[0]
                add(n, 'swap', '%s(%s)' % (f, ', '.join(a + [unp(k) for k in n.keywords if k.arg] if True else a)))
            if n.keywords and all(k.arg for k in n.keywords):
                k = rnd.randrange(len(n.keywords))
                add(n, 'kwdrop', '%s(%s)' % (f, ', '.join([unp(x) for x in n.args] + [
                    '%s=%s' % (q.arg, unp(q.value)) for j, q in enumerate(n.keywords) if j != k])))
            if f.endswith('.copy') and not n.args: add(n, 'nocopy', unp(n.func.value))
            if f in ('copy.deepcopy', 'deepcopy', 'copy.copy', 'dict', 'list', 'abs', 'np.abs', 'np.array',
                     'np.sort', 'sorted', 'np.transpose', 'np.real', 'np.deg2rad', 'np.rad2deg', 'float',
                     'str', 'np.sqrt', 'np.squeeze', 'np.asarray', 'np.atleast_1d') and n.args:
                add(n, 'nocall', '(%s)' % unp(n.args[0]))
        elif isinstance(n, ast.Attribute) and n.attr in NAMES and isinstance(n.ctx, ast.Load):
            add(n, 'name', '%s.%s' % (unp(n.value), NAMES[n.attr]))
        elif isinstance(n, ast.Name) and n.id in NAMES and isinstance(n.ctx, ast.Load): add(n, 'name', NAMES[n.id])
        elif isinstance(n, ast.Attribute) and n.attr == 'T': add(n, 'noT', unp(n.value))
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            add(n.test, 'iftrue', 'True' if not isinstance(n, ast.While) else unp(n.test))
            add(n.test, 'iffalse', 'False')
        if isinstance(n, ast.Slice):
            if n.lower is not None: add(n.lower, 'slice', '(%s) + 1' % unp(n.lower))
            if n.upper is not None: add(n.upper, 'slice', '(%s) - 1' % unp(n.upper))
    for s in stmts:
        if isinstance(s, (ast.Expr, ast.AugAssign, ast.Continue, ast.Break)): add(s, 'del', 'pass')
        elif isinstance(s, ast.Assign): add(s, 'del', 'pass')
        elif isinstance(s, ast.Return) and s.value is not None:
            pass
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('--per', type=int, default=8)
    ap.add_argument('--jobs', type=int, default=7)
    ap.add_argument('--seed', type=int, default=0)
    ap.add_argument('--match', default='.')
    ap.add_argument('--max', type=int, default=10**9)
    ap.add_argument('--skip', default='eval_linear')
    a = ap.parse_args()
    where = collections.defaultdict(lambda: collections.defaultdict(list))   # short name -> prop -> contracts
    cost = {}
    for f in sorted(os.listdir(os.path.join(ROOT, 'evidence'))):
        d = json.load(open(os.path.join(ROOT, 'evidence', f)))
        if d['property'][0] != 'C' or len(d['property']) != 3: continue
        cost[d['property']] = d['wall_s']
        for c in d['coverage']['contracts']:
            for g in c['functions']:
                where[g.split('.')[0] + '.' + g.split('.')[-1]][d['property']].append(c['contract'].split('.', 1)[1])
    todo = []
    base = os.path.join(REPO, 'bicycleparameters')
    rnd = random.Random(a.seed)
    for f in sorted(os.listdir(base)):
        if not f.endswith('.py') or f in ('__init__.py', 'version.py', 'parameter_dicts.py'): continue
        src = open(os.path.join(base, f)).read()
        for cls in ast.walk(ast.parse(src)):
            for n in ast.iter_child_nodes(cls):
                if not isinstance(n, ast.FunctionDef): continue
                if not isinstance(cls, (ast.Module, ast.ClassDef)): continue
                key = f[:-3] + '.' + n.name
                if n.name == '__init__': key = f[:-3] + '.__init__'
                if key not in where or re.search(a.skip, key) or not re.search(a.match, key): continue
                ms = mutants(n, src)
                rnd.shuffle(ms)
                k = 0
                for m in ms:
                    new = src.encode()[:m[2]] + m[4].encode() + src.encode()[m[3]:]
                    try: t = ast.parse(new.decode())
                    except SyntaxError: continue
                    if ast.dump(t) == ast.dump(ast.parse(src)): continue
                    todo.append((key, f, m, new))
                    k += 1
                    if k >= a.per: break
    rnd.shuffle(todo)
    todo = todo[:a.max]
    print(len(todo), 'mutants', flush=True)
    free = queue.Queue()
    subprocess.run(['mkdir', '-p', '/tmp/mw'])
    for i in range(a.jobs):
        w = '/tmp/mw/%d' % i
        subprocess.run('mkdir -p %s/verif; rsync -a --delete /repo/ %s/repo/ 2>/dev/null || (test -d %s/repo || cp -a /repo %s/repo);'
                       ' git -C %s/repo checkout -q -- .; cp -a %s/check %s/check.py %s/vc %s/contracts %s/known-findings.txt %s/verif/'
                       % ((w,)*5 + (ROOT,)*5 + (w,)), shell=True, check=True)
        free.put(w)

    def run(t):
        key, f, m, new = t
        w = free.get()
        try:
            p = os.path.join(w, 'repo', 'bicycleparameters', f)
            old = open(p, 'rb').read()
            open(p, 'wb').write(new)
            diff = subprocess.run(['git', '-C', w + '/repo', 'diff', '-U0'], capture_output=True, text=True).stdout
            diff = '\n'.join(l for l in diff.split('\n')[4:] if l[:1] in '+-')
            env = dict(os.environ, VERIF_REPO=w + '/repo', VERIF_JOBS='2')
            caught, hist = None, []
            for prop in sorted(where[key], key=lambda q: cost[q]):
                try:
                    r = subprocess.run(['./check', prop, '--only', ','.join(where[key][prop])], cwd=w + '/verif', env=env,
                                       capture_output=True, text=True, timeout=500)
                    rc = r.returncode
                except subprocess.TimeoutExpired:
                    rc = 'timeout'
                if rc == 1 and 'VIOLATION' not in r.stdout: rc = 'dead'
                hist.append((prop, rc))
                if rc == 1:
                    caught = prop; break
            row = dict(fn=key, line=m[0], kind=m[1], diff=diff, caught=caught, hist=hist)
            if not caught:
                subprocess.run('OMP_NUM_THREADS=1 MPLBACKEND=Agg /opt/venv/bin/python -m pytest -q -p no:cacheprovider '
                               '--doctest-modules -o junit_family=xunit2 --junitxml=../o.xml bicycleparameters/ >/dev/null 2>&1; '
                               '/opt/venv/bin/python /opt/vp/results.py ../o.json junit:../o.xml >/dev/null 2>&1',
                               shell=True, cwd=w + '/repo')
                st = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
                try: row['tests'] = 'pass' if not st - set(json.load(open(w + '/o.json'))['passed']) else 'fail'
                except Exception as e: row['tests'] = 'error'
            open(p, 'wb').write(old)
            with open(a.out, 'a') as g: g.write(json.dumps(row) + '\n')
        finally:
            free.put(w)
    with ThreadPoolExecutor(a.jobs) as ex: list(ex.map(run, todo))


if __name__ == '__main__':
    main()
