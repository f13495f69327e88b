"""Soundness fuzzing of the normal form: the normal form of a random term has
the term's value."""
import math
import os
import random
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
from fractions import Fraction
from vc import sym, poly

VARS = [sym.var(k) for k in ('x', 'y', 'z', 'p', 'q')]


def term(r, depth):
    k = r.random()
    if depth == 0 or k < .12:
        return r.choice(VARS) if r.random() < .8 else sym.const(
            Fraction(r.randint(-4, 4), r.randint(1, 3)))
    a = term(r, depth - 1)
    if k < .35:
        return a + term(r, depth - 1)
    if k < .6:
        return a * term(r, depth - 1)
    if k < .68:
        return a - term(r, depth - 1)
    if k < .76:
        b = term(r, depth - 1)
        return a if b.op == 'c' and b.value == 0 else a / b
    if k < .82:
        return a ** 2
    if k < .92:
        f = r.choice(['sin', 'cos', 'tan'])
        if r.random() < .4:
            a = sym.fn(r.choice(['asin', 'acos', 'atan']), a)
        return sym.fn(f, a)
    f = r.choice(['sqrt', 'exp', 'abs', 'sqrt'])
    a = sym.sqrt(a) if f == 'sqrt' else sym.fn(f, a)
    return a if isinstance(a, sym.Sym) else r.choice(VARS)


def atom_value(n, i, env):
    a = n.atoms[i]
    if a[0] == 'v':
        return env.get(a[1], math.pi)
    if a[0] in ('s', 'c'):
        base = a[1]
        f = math.sin if a[0] == 's' else math.cos
        if base[0] == 'frac':
            return f(value(n, n.groups['angle'][base[1]][0], env))
        if base[0] == 'const':
            return f(float(base[1]))
        m, d = base
        return f(mono(n, m, env) / d)
    if a[0] == 'exp':
        if len(a) == 3:
            return math.exp(mono(n, a[1], env) / a[2])
    args, j = n.groups[a[0]][a[1]]
    v = [value(n, x, env) for x in args]
    if a[0] == 'sqrt':
        return math.sqrt(v[0])
    return getattr(math, a[0])(*v)


def mono(n, m, env):
    r = 1.
    for i, e in n.split(m):
        r *= atom_value(n, i, env) ** e
    return r


def value(n, f, env):
    s = sum(c * mono(n, m, env) for m, c in f.num.items()) / f.dint
    for k, e in f.den.items():
        s /= sum(c * mono(n, m, env) for m, c in
                 n.factors[k].items()) ** e
    return s


def main(count=20000, seed=1):
    r = random.Random(seed)
    done = bad = skip = 0
    while done < count:
        n = poly.Norm({'p', 'q'})
        try:
            t = term(r, r.randint(2, 5))
            env = {k: r.uniform(-2, 2) for k in 'xyz'}
            env.update({k: r.uniform(.1, 2) for k in 'pq'})
            want = sym.evaluate(t, env)
            if isinstance(want, complex) or abs(want) > 1e6:
                raise ValueError
        except (ValueError, ZeroDivisionError, OverflowError, TypeError):
            skip += 1
            continue
        try:
            f = n.norm(t)
            g = n.reduce(f)
            got = [value(n, x, env) for x in (f, g)]
        except poly.TooBig:
            skip += 1
            continue
        except (ValueError, ZeroDivisionError, OverflowError):
            skip += 1
            continue
        done += 1
        for x in got:
            if abs(x - want) > 1e-3 * (1 + abs(want)):
                bad += 1
                print('WRONG', sym.show(t, 20), env, want, got)
                break
    print('%d terms, %d wrong, %d skipped' % (done, bad, skip))
    return bad


if __name__ == '__main__':
    sys.exit(bool(main(int(sys.argv[1]) if len(sys.argv) > 1 else 3000,
                       int(sys.argv[2]) if len(sys.argv) > 2 else 1)))
