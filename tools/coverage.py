"""Which functions of the repository are named by a contract."""
import ast, os, sys, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
check.setup_env()
named = set()
for f in sorted(os.listdir(os.path.join(check.HERE, 'contracts'))):
    if re.match(r'c\d\d\.py', f):
        for c in check.load(f[:-3].upper()):
            named |= set(c.functions)
short = {n.split('.')[0] + '.' + n.split('.')[-1] for n in named}
total = hit = 0
base = os.path.join(check.REPO, 'bicycleparameters')
for f in sorted(os.listdir(base)):
    if f.endswith('.py') and f not in ('__init__.py',):
        tree = ast.parse(open(os.path.join(base, f)).read())
        miss = []
        def walk(node, prefix):
            global total, hit
            for n in ast.iter_child_nodes(node):
                if isinstance(n, ast.ClassDef): walk(n, prefix + n.name + '.')
                elif isinstance(n, ast.FunctionDef):
                    total += 1
                    if f[:-3] + '.' + n.name in short or f[:-3] + '.' + prefix + n.name in named: hit += 1
                    else: miss.append(prefix + n.name)
        walk(tree, '')
        print(f, 'not named:', ' '.join(miss))
print(hit, 'of', total)
