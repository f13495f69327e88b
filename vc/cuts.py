"""Lemmas inside a goal: sub-terms of the code that equal a given term of the
specification are replaced by a name for it, each replacement proved on its
own; what remains is proved for every value of the names.

A sub-term is a candidate if it has the value of +-term at random points
(evaluated to 40 digits); only the proof makes it a replacement.  Sub-terms
that are zero are removed the same way."""
from . import poly, sym
from .sym import Sym


class Cuts(object):
    def __init__(self, run, groups):
        import mpmath
        self.run = run
        self.groups = [{k: t for k, t in g.items()
                        if isinstance(t, Sym) and t.op not in 'cv'}
                       for g in groups]
        mp = mpmath.mp.clone() if hasattr(mpmath.mp, 'clone') else mpmath.mp
        mp.dps = 40
        self.mp = mp
        self.points = []
        for env in run.points(tries=60):
            self.points.append(env)
            if len(self.points) == 3:
                break
        self.values = [{} for _ in self.points]
        self.memo = [{} for _ in range(len(self.groups) + 1)]
        self.tv = [{k: self.value(t) for k, t in g.items()}
                   for g in self.groups]
        self.names = {}
        self.lemmas = 0

    def value(self, t):
        return [sym.evaluate(t, env, self.mp, memo)
                for env, memo in zip(self.points, self.values)]

    def name(self, k):
        return sym.var('cut:' + k)

    def equal(self, a, b):
        try:
            return poly.prove_equal(a, b, norm=self.run.norm())
        except (poly.TooBig, ZeroDivisionError):
            return False

    def rewrite(self, t, level):
        """The term in the names of the groups below the level."""
        memo = self.memo[level]
        todo = [t]
        while todo:
            x = todo[-1]
            if x.id in memo:
                todo.pop()
                continue
            kids = [a for a in x.args if isinstance(a, Sym) and
                    a.id not in memo]
            if kids:
                todo.extend(kids)
                continue
            todo.pop()
            if x.op in 'cv':
                memo[x.id] = x
                continue
            args = [memo[a.id] if isinstance(a, Sym) else a for a in x.args]
            new = x if all(p is q for p, q in zip(args, x.args)) else \
                sym.rebuild(x.op, args)
            memo[x.id] = self.replaced(x, new, level)
        return memo[t.id]

    def replaced(self, x, new, level):
        if new.op in 'cv' or not self.points:
            return new
        if new.op == '*' and new.args[0].op == 'c' and \
                new.args[1].op == 'v':
            return new
        v = self.value(x)
        big = self.mp.mpf('1e-25')
        if all(abs(a) < big for a in v):
            if self.equal(new, sym.ZERO):
                self.lemmas += 1
                return sym.ZERO
            return new
        for g in range(level):
            for k, term in self.groups[g].items():
                for s in (1, -1):
                    if all(abs(a - s * b) < big * (abs(a) + abs(b))
                           for a, b in zip(v, self.tv[g][k])):
                        want = self.rewrite(term, g)
                        mine = self.rewrite(x, g) if g < level else new
                        if s < 0:
                            want = sym.neg(want)
                        if mine is want or self.equal(mine, want) or \
                                self.equal(x, sym.mul(sym.const(s), term)):
                            self.lemmas += 1
                            return self.name(k) if s > 0 else \
                                sym.neg(self.name(k))
                        return new
        return new

    def prove(self, a, b):
        top = len(self.groups)
        keep = dict(self.run.divisors)
        try:
            return self.equal(self.rewrite(a, top), self.rewrite(b, top))
        finally:
            self.run.divisors = keep
