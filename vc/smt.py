"""z3 back end: path feasibility and inequality obligations over the reals."""
import math
import time
from fractions import Fraction

import z3

from .sym import Sym, Cond

STATS = {'queries': 0, 'time': 0.0, 'unknown': 0}


class Z3Ctx(object):
    def __init__(self):
        self.memo = {}
        self.axioms = []
        self.names = {}

    def term(self, s):
        memo = self.memo
        stack = [s]
        while stack:
            t = stack[-1]
            if t.id in memo:
                stack.pop()
                continue
            kids = [a for a in t.args if isinstance(a, Sym) and
                    a.id not in memo]
            if kids:
                stack.extend(kids)
                continue
            stack.pop()
            memo[t.id] = self.build(t)
        return memo[s.id]

    def linear(self, t, ints):
        """{id of a term: rational factor, None: constant}; the integer
        valued ones are added to ints."""
        if t.op == 'c':
            return {None: t.value}
        if t.op == 'f' and t.args[0] in ('floor', 'rint'):
            ints.add(t.id)
        if t.op in '+*':
            a, b = [self.linear(x, ints) for x in t.args]
            if t.op == '+':
                out = dict(a)
                for i, c in b.items():
                    out[i] = out.get(i, 0) + c
                return {i: c for i, c in out.items() if c}
            for x, y in ((a, b), (b, a)):
                if not set(x) - {None}:
                    k = x.get(None, Fraction(0))
                    return {i: c * k for i, c in y.items() if k}
        return {t.id: Fraction(1)}

    def integer_sum(self, t):
        """{id of an integer valued term: rational factor}, or None."""
        ints = set()
        r = self.linear(t, ints)
        return r if set(r) - {None} <= ints else None

    def fresh(self, t):
        return z3.Real('t!%d' % t.id)

    def build(self, t):
        m = self.memo
        if t.op == 'c':
            return z3.RealVal(str(t.value))
        if t.op == 'v':
            x = z3.Real(t.args[0])
            if t.args[0] == 'pi':
                self.axioms += [x > z3.RealVal('3.1415926'),
                                x < z3.RealVal('3.1415927')]
            return x
        if t.op == '+':
            return m[t.args[0].id] + m[t.args[1].id]
        if t.op == '*':
            return m[t.args[0].id] * m[t.args[1].id]
        if t.op == '^':
            a, n = m[t.args[0].id], t.args[1]
            if n > 0:
                r = a
                for _ in range(n - 1):
                    r = r * a
                return r
            x = self.fresh(t)
            r = a
            for _ in range(-n - 1):
                r = r * a
            self.axioms.append(z3.Implies(a != 0, x * r == 1))
            if n == -1:
                self.axioms.append(z3.Implies(a > 0, x > 0))
                self.axioms.append(z3.Implies(a < 0, x < 0))
            return x
        x = self.fresh(t)
        if t.op == 'f':
            f = t.args[0]
            a = m[t.args[1].id]
            if f == 'sqrt':
                self.axioms += [x >= 0, z3.Implies(a >= 0, x * x == a),
                                z3.Implies(a > 0, x > 0)]
            elif f == 'abs':
                self.axioms.append(x == z3.If(a >= 0, a, -a))
            elif f == 'floor':
                x = z3.ToReal(z3.Int('k!%d' % t.id))
                self.axioms += [x <= a, a < x + 1]
                lin = self.integer_sum(t.args[1])
                if lin is not None:
                    # q k <= sum < q k + q, all of them integers
                    k = z3.Int('k!%d' % t.id)
                    q = 1
                    for c in lin.values():
                        q = q * c.denominator // math.gcd(q, c.denominator)
                    r = sum(int(c * q) * (1 if i is None else z3.Int(
                        'k!%d' % i)) for i, c in lin.items())
                    self.axioms += [q * k <= r, r <= q * k + (q - 1)]
            elif f == 'rint':
                # nearest integer, either one when halfway
                k = z3.Int('k!%d' % t.id)
                x = z3.ToReal(k)
                self.axioms += [x - a <= z3.RealVal('1/2'),
                                a - x <= z3.RealVal('1/2')]
            elif f == 'log10':
                # monotone, exact at the powers of ten
                for k in range(-16, 17):
                    ten = z3.RealVal(str(Fraction(10) ** k))
                    self.axioms.append((a >= ten) == (x >= k))
            elif f == 'exp':
                self.axioms.append(x > 0)
            elif f in ('sin', 'cos'):
                self.axioms += [x <= 1, x >= -1]
                from .sym import fn
                other = fn('cos' if f == 'sin' else 'sin', t.args[1])
                if other.id in m:
                    self.axioms.append(x * x + m[other.id] * m[other.id] == 1)
                arg = t.args[1]
                if arg.op == 'f' and (f, arg.args[0]) in (
                        ('cos', 'asin'), ('cos', 'atan'), ('sin', 'acos')):
                    self.axioms.append(x >= 0)
            elif f in ('asin', 'acos', 'atan'):
                # values wherever the function is defined
                pi = z3.Real('pi')
                lo, hi = (0, pi) if f == 'acos' else (-pi / 2, pi / 2)
                self.axioms += [x >= lo, x <= hi,
                                pi > z3.RealVal('3.1415926'),
                                pi < z3.RealVal('3.1415927')]
                # monotone, zero at zero
                if f != 'acos':
                    self.axioms += [z3.Implies(a > 0, x > 0),
                                    z3.Implies(a < 0, x < 0)]
        return x

    def cond(self, c):
        if isinstance(c, bool):
            return z3.BoolVal(c)
        if c.op == 'const':
            return z3.BoolVal(c.args[0])
        if c.op == 'not':
            return z3.Not(self.cond(c.args[0]))
        if c.op == 'and':
            return z3.And(*[self.cond(a) for a in c.args])
        if c.op == 'or':
            return z3.Or(*[self.cond(a) for a in c.args])
        a, b = self.term(c.args[0]), self.term(c.args[1])
        return {'lt': a < b, 'le': a <= b, 'eq': a == b, 'ne': a != b}[c.op]


def check(conds, timeout_ms=2000, want_model=False):
    """'sat' / 'unsat' / 'unknown' (and a model {var: float})."""
    z = Z3Ctx()
    s = z3.Solver()
    s.set('timeout', int(timeout_ms))
    for c in conds:
        s.add(z.cond(c))
    for a in z.axioms:
        s.add(a)
    t = time.time()
    r = str(s.check())
    STATS['queries'] += 1
    STATS['time'] += time.time() - t
    if r == 'unknown':
        STATS['unknown'] += 1
    if not want_model:
        return r
    model = {}
    if r == 'sat':
        m = s.model()
        for d in m.decls():
            v = m[d]
            try:
                if z3.is_algebraic_value(v):
                    v = v.approx(20)
                model[d.name()] = float(v.as_fraction())
            except Exception:
                pass
    return r, model


def cvc5_check(conds, timeout_ms=5000):
    """The same query through cvc5 (second opinion on inequalities)."""
    import cvc5
    z = Z3Ctx()
    s = z3.Solver()
    for c in conds:
        s.add(z.cond(c))
    for a in z.axioms:
        s.add(a)
    text = '(set-logic QF_NRA)\n' + s.to_smt2()
    tm = cvc5.TermManager()
    sol = cvc5.Solver(tm)
    sol.setOption('tlimit-per', str(int(timeout_ms)))
    p = cvc5.InputParser(sol)
    p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, 'q')
    sm = p.getSymbolManager()
    out = 'unknown'
    while True:
        cmd = p.nextCommand()
        if cmd.isNull():
            break
        r = cmd.invoke(sol, sm)
        if str(r).strip() in ('sat', 'unsat', 'unknown'):
            out = str(r).strip()
    return out
