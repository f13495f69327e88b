"""Exact decision of equality between symbolic terms.

Terms are put over a common denominator as polynomials with integer
coefficients in *atoms* (variables, sines, cosines, roots, exponentials,
uninterpreted applications).  Two terms are equal wherever their denominators
do not vanish iff the numerator of the difference reduces to zero modulo
    cos(a)^2 = 1 - sin(a)^2 ,  sqrt(u)^2 = u ,  |u|^2 = u^2 .
A zero result is a proof; a non-zero result is not by itself a refutation.

Monomials are packed into one integer (16 bits per atom), so a product of
monomials is an integer addition.
"""
from fractions import Fraction
from math import gcd, isqrt

from .sym import Sym, unsupported

BITS = 16
MASK = (1 << BITS) - 1
LIMIT = 400000      # maximum number of terms


class TooBig(Exception):
    pass


def p_add(a, b, ka=1, kb=1):
    r = {m: c * ka for m, c in a.items()} if ka != 1 else dict(a)
    for m, c in b.items():
        c = r.get(m, 0) + c * kb
        if c:
            r[m] = c
        else:
            r.pop(m, None)
    return r


def p_mul(a, b):
    if len(a) > len(b):
        a, b = b, a
    if len(a) == 1:
        (m, c), = a.items()
        if m == 0 and c == 1:
            return b
        return {m + n: c * d for n, d in b.items()}
    if len(a) * len(b) > 60000000:
        raise TooBig()
    r = {}
    get = r.get
    for m, c in a.items():
        for n, d in b.items():
            k = m + n
            r[k] = get(k, 0) + c * d
    r = {m: c for m, c in r.items() if c}
    if len(r) > LIMIT:
        raise TooBig()
    return r


def p_pow(a, n):
    r = {0: 1}
    while n:
        if n & 1:
            r = p_mul(r, a)
        n >>= 1
        if n:
            a = p_mul(a, a)
    return r


def content(a):
    g = 0
    for c in a.values():
        g = gcd(g, c)
        if g == 1:
            break
    return g


class Frac(object):
    """num / (dint * prod(factor**e)); num: poly, den: {factor key: e}."""
    __slots__ = ('num', 'dint', 'den')

    def __init__(self, num, dint=1, den=None):
        self.num = num
        self.dint = dint
        self.den = den or {}


class Norm(object):
    def __init__(self, positive=(), deadline=None):
        self.atoms = []            # description of each atom
        self.index = {}            # atom key -> id
        self.factors = []          # denominators
        self.findex = {}
        self.memo = {}
        self.rel = {}              # atom id -> Frac of its square
        self.groups = {}           # function name -> [(argument frac, data)]
        self.positive = set(positive)

    # ---- atoms
    def atom(self, key):
        i = self.index.get(key)
        if i is None:
            i = len(self.atoms)
            self.atoms.append(key)
            self.index[key] = i
        return i

    def mono(self, i, e=1):
        return e << (BITS * i)

    def afrac(self, i):
        return Frac({self.mono(i): 1})

    def split(self, mono):
        out = []
        i = 0
        while mono:
            e = mono & MASK
            if e:
                out.append((i, e))
            mono >>= BITS
            i += 1
        return out

    # ---- fractions
    def const(self, q):
        q = Fraction(q)
        return Frac({0: q.numerator} if q else {}, q.denominator)

    def factor(self, poly):
        """Register a non constant primitive polynomial as a denominator."""
        key = frozenset(poly.items())
        i = self.findex.get(key)
        if i is None:
            i = len(self.factors)
            self.factors.append(poly)
            self.findex[key] = i
        return i

    def add(self, a, b):
        if not a.num:
            return b
        if not b.num:
            return a
        if a.den == b.den:
            den, na, nb = a.den, a.num, b.num
        else:
            den = dict(a.den)
            for f, e in b.den.items():
                if den.get(f, 0) < e:
                    den[f] = e
            na = self.scale(a.num, den, a.den)
            nb = self.scale(b.num, den, b.den)
        g = gcd(a.dint, b.dint)
        num = p_add(na, nb, b.dint // g, a.dint // g)
        if not num:
            return Frac({})
        return self.tidy(Frac(num, a.dint // g * b.dint, den))

    def scale(self, num, big, small):
        for f, e in big.items():
            k = e - small.get(f, 0)
            if k:
                num = p_mul(num, p_pow(self.factors[f], k))
        return num

    def tidy(self, f):
        if not f.num:
            return Frac({})
        g = gcd(content(f.num), f.dint)
        if g > 1:
            f = Frac({m: c // g for m, c in f.num.items()}, f.dint // g, f.den)
        return f

    def mul(self, a, b):
        if not a.num or not b.num:
            return Frac({})
        den = dict(a.den)
        for f, e in b.den.items():
            den[f] = den.get(f, 0) + e
        num = p_mul(a.num, b.num)
        # cancel monomial factors (single atoms) exactly
        if den:
            num, den = self.cancel(num, den)
        return self.tidy(Frac(num, a.dint * b.dint, den))

    def cancel(self, num, den):
        den = dict(den)
        for f in list(den):
            poly = self.factors[f]
            if len(poly) == 1:
                (m, c), = poly.items()
                i = self.split(m)[0][0]
                k = min((n >> (BITS * i)) & MASK for n in num)
                k = min(k, den[f])
                if k:
                    s = self.mono(i, k)
                    num = {n - s: c for n, c in num.items()}
                    den[f] -= k
            elif len(num) == len(poly) or len(num) == 1:
                # exact cancellation of the whole factor
                if num is poly or (len(num) == len(poly) and num == poly):
                    num = {0: 1}
                    den[f] -= 1
            if den[f] == 0:
                del den[f]
        return num, den

    def inv(self, a):
        if not self.reduce(a).num:
            raise ZeroDivisionError('division by a term that is zero')
        num = {0: a.dint}
        for f, e in a.den.items():
            num = p_mul(num, p_pow(self.factors[f], e))
        g = content(a.num)
        poly = {m: c // g for m, c in a.num.items()}
        dint = g
        # split off single atoms
        common = None
        for m in poly:
            s = dict(self.split(m))
            if common is None:
                common = s
            else:
                common = {i: min(e, s[i]) for i, e in common.items() if i in s}
            if not common:
                break
        den = {}
        if common:
            shift = sum(self.mono(i, e) for i, e in common.items())
            poly = {m - shift: c for m, c in poly.items()}
            for i, e in common.items():
                den[self.factor({self.mono(i): 1})] = e
        lead = poly[max(poly)]
        if lead < 0:
            poly = {m: -c for m, c in poly.items()}
            num = {m: -c for m, c in num.items()}
        if len(poly) == 1 and 0 in poly:
            dint *= poly[0]
        else:
            # a factor that is a power of a known one
            f = self.factor(poly)
            den[f] = den.get(f, 0) + 1
        if den:
            num, den = self.cancel(num, den)
        return self.tidy(Frac(num, dint, den))

    def pow(self, a, n):
        if n < 0:
            return self.pow(self.inv(a), -n)
        r = self.const(1)
        while n:
            if n & 1:
                r = self.mul(r, a)
            n >>= 1
            if n:
                a = self.mul(a, a)
        return r

    def neg(self, a):
        return Frac({m: -c for m, c in a.num.items()}, a.dint, a.den)

    # ---- reduction modulo the relations of the algebraic atoms
    def reduce(self, f):
        num = f.num
        den = dict(f.den)
        dint = f.dint
        changed = False
        for i in sorted(self.rel, reverse=True):
            sh = BITS * i
            kmax = 0
            for m in num:
                e = (m >> sh) & MASK
                if e > kmax:
                    kmax = e
            if kmax < 2:
                continue
            changed = True
            sq = self.rel[i]
            kk = kmax // 2
            buckets = {}
            for m, c in num.items():
                e = (m >> sh) & MASK
                k = e // 2
                buckets.setdefault(k, {})[m - ((2 * k) << sh)] = c
            # common denominator dint**kk * den**kk
            acc = {}
            pw = [{0: 1}]
            for k in range(kk):
                pw.append(p_mul(pw[-1], sq.num))
            dpoly = {0: sq.dint}
            for fk, e in sq.den.items():
                dpoly = p_mul(dpoly, p_pow(self.factors[fk], e))
            dp = [{0: 1}]
            for k in range(kk):
                dp.append(p_mul(dp[-1], dpoly))
            for k, b in buckets.items():
                t = p_mul(b, pw[k])
                t = p_mul(t, dp[kk - k])
                acc = p_add(acc, t)
            num = acc
            if not num:
                return Frac({})
            dint *= sq.dint ** kk
            for fk, e in sq.den.items():
                den[fk] = den.get(fk, 0) + e * kk
        if not changed:
            return f
        return self.tidy(Frac(num, dint, den))

    def is_zero(self, f):
        return not self.reduce(f).num

    def equal_fracs(self, a, b):
        return self.is_zero(self.add(a, self.neg(b)))

    # ---- translation
    def norm(self, s):
        memo = self.memo
        stack = [s]
        while stack:
            t = stack[-1]
            if t.id in memo:
                stack.pop()
                continue
            kids = [a for a in t.args if isinstance(a, Sym) and
                    a.id not in memo]
            if kids:
                stack.extend(kids)
                continue
            stack.pop()
            memo[t.id] = self.build(t)
        return memo[s.id]

    def build(self, t):
        memo = self.memo
        if t.op == 'c':
            return self.const(t.value)
        if t.op == 'v':
            return self.afrac(self.atom(('v', t.args[0])))
        if t.op == '+':
            return self.add(memo[t.args[0].id], memo[t.args[1].id])
        if t.op == '*':
            return self.mul(memo[t.args[0].id], memo[t.args[1].id])
        if t.op == '^':
            return self.pow(memo[t.args[0].id], t.args[1])
        if t.op == 'f':
            return self.func(t.args[0], [memo[a.id] for a in t.args[1:]])
        # uninterpreted application: unify arguments
        return self.afrac(self.opaque('u:' + str(t.args[0]) + '|' + '|'.join(
            str(a) if not isinstance(a, Sym) else '_' for a in t.args[1:]),
            [memo[a.id] for a in t.args[1:] if isinstance(a, Sym)]))

    def opaque(self, name, args):
        """Atom for a function application, unified up to equal arguments."""
        for known, i in self.groups.setdefault(name, []):
            if len(known) == len(args) and all(
                    self.equal_fracs(x, y) for x, y in zip(known, args)):
                return i
        i = self.atom((name, len(self.groups[name])))
        self.groups[name].append((args, i))
        return i

    def angle_terms(self, f):
        """Split an angle into (rational, monomial) terms, or None."""
        f = self.reduce(f) if self.rel else f
        if f.den:
            return None
        return [(Fraction(c, f.dint), m) for m, c in sorted(f.num.items())]

    def trig(self, f):
        """(sin, cos) of an angle given as a Frac."""
        terms = self.angle_terms(f)
        if terms is None:
            i = None
            neg = self.neg(f)
            for known, j in self.groups.setdefault('angle', []):
                if self.equal_fracs(known, f):
                    return self.sc(j, 1)
                if self.equal_fracs(known, neg):
                    s, c = self.sc(j, 1)
                    return self.neg(s), c
            j = len(self.groups['angle'])
            self.groups['angle'].append((f, ('frac', j)))
            return self.sc(('frac', j), 1)
        s, c = self.const(0), self.const(1)
        for q, m in terms:
            s2, c2 = self.trig_term(q, m)
            s, c = (self.add(self.mul(s, c2), self.mul(c, s2)),
                    self.add(self.mul(c, c2), self.neg(self.mul(s, s2))))
            s, c = self.soft(s), self.soft(c)
        return s, c

    def soft(self, f):
        # reduce only when it cannot introduce denominators
        return self.reduce(f) if len(f.num) < 2000 and not f.den and \
            f.dint == 1 else f

    def trig_term(self, q, m):
        if q < 0:
            s, c = self.trig_term(-q, m)
            return self.neg(s), c
        parts = self.split(m)
        if m == self.mono(self.atom(('v', 'pi'))):
            quarter = q * 2
            if quarter.denominator == 1:
                k = int(quarter) % 4
                return (self.const([0, 1, 0, -1][k]),
                        self.const([1, 0, -1, 0][k]))
        if m == 0:
            base = ('const', q)
            return self.sc(base, 1)
        if len(parts) == 1 and parts[0][1] == 1 and q.denominator == 1:
            a = self.atoms[parts[0][0]]
            if isinstance(a, tuple) and a[0] in ('asin', 'acos', 'atan',
                                                 'atan2'):
                args = self.groups[a[0]][a[1]][0]
                one = self.const(1)
                x = args[0]
                if a[0] == 'asin':
                    s1, c1 = x, self.root(self.add(one, self.neg(
                        self.mul(x, x))))
                elif a[0] == 'acos':
                    c1, s1 = x, self.root(self.add(one, self.neg(
                        self.mul(x, x))))
                elif a[0] == 'atan':
                    r = self.inv(self.root(self.add(one, self.mul(x, x))))
                    s1, c1 = self.mul(x, r), r
                else:
                    y, x = args
                    r = self.inv(self.root(self.add(self.mul(x, x),
                                                    self.mul(y, y))))
                    s1, c1 = self.mul(y, r), self.mul(x, r)
                return self.multiple(s1, c1, int(q))
        d = q.denominator
        for dd in self.groups.setdefault(('den', m), []):
            if dd % d == 0:
                d = dd
                break
        else:
            self.groups[('den', m)].append(d)
        return self.sc((m, d), int(q * d))

    def sc(self, base, k):
        i = self.atom(('s', base))
        j = self.atom(('c', base))
        if j not in self.rel:
            self.rel[j] = Frac({0: 1, self.mono(i, 2): -1})
        return self.multiple(self.afrac(i), self.afrac(j), k)

    def multiple(self, s1, c1, k):
        s, c = s1, c1
        for _ in range(k - 1):
            s, c = (self.add(self.mul(s, c1), self.mul(c, s1)),
                    self.add(self.mul(c, c1), self.neg(self.mul(s, s1))))
        return s, c

    def root(self, f):
        f = self.reduce(f)
        if not f.num:
            return f
        # pull out even powers of positive atoms and perfect squares
        out, f = self.square_part(f)
        return self.mul(out, self.root1(f))

    def square_part(self, f):
        """(h, g) with f = h**2 g and h positive; g without the denominators
        that are positive atoms."""
        num, den, top, bottom = f.num, dict(f.den), 0, f.dint
        num = {m: c * f.dint for m, c in num.items()}
        for k in list(den):
            poly = self.factors[k]
            if len(poly) != 1:
                continue
            (m, c), = poly.items()
            i = self.split(m)[0][0]
            if c != 1 or not self.is_pos(i):
                continue
            e = den.pop(k)
            if e % 2:
                num = {n + m: c for n, c in num.items()}
            den_half = (e + 1) // 2
            top -= self.mono(i, den_half)
        g = content(num)
        h, p = 1, 2
        while p * p <= g and p < 1000:
            while g % (p * p) == 0:
                g //= p * p
                h *= p
            while g % p == 0:
                g //= p
            p += 1
        r = isqrt(g)
        if r * r == g:
            h *= r
        if h > 1:
            num = {m: c // (h * h) for m, c in num.items()}
        common = None
        for m in num:
            s = {i: e for i, e in self.split(m) if self.is_pos(i)}
            common = s if common is None else {
                i: min(e, s[i]) for i, e in common.items() if i in s}
            if not common:
                break
        shift = sum(self.mono(i, e // 2) for i, e in (common or {}).items())
        if shift:
            num = {m - 2 * shift: c for m, c in num.items()}
        out = Frac({0: h}, bottom)
        out = self.mul(out, Frac({shift: 1}))
        if top:
            out = self.mul(out, self.inv(Frac({-top: 1})))
        return out, Frac(num, 1, den)

    def root1(self, f):
        if f.num == {0: 1} and f.dint == 1 and not f.den:
            return f
        if list(f.num) == [0] and f.num[0] > 0 and f.den:
            # defined, hence the denominator is positive
            d = self.inv(Frac({0: 1}, 1, f.den))
            k = self.const(Fraction(f.num[0], f.dint))
            return self.mul(self.root(self.mul(k, d)), self.inv(d))
        if len(f.num) == 1:
            (m, c), = f.num.items()
            if c > 0 and isqrt(c) ** 2 == c and isqrt(f.dint) ** 2 == f.dint \
                    and all(e % 2 == 0 and self.is_pos(i)
                            for i, e in self.split(m)) and not f.den:
                half = sum(self.mono(i, e // 2) for i, e in self.split(m))
                return Frac({half: isqrt(c)}, isqrt(f.dint))
        for known, i in self.groups.setdefault('sqrt', []):
            if self.equal_fracs(known[0], f):
                return self.afrac(i)
        i = self.opaque('sqrt', [f])
        self.rel[i] = f
        return self.afrac(i)

    def is_pos(self, i):
        """Not negative (and not zero where it divides)."""
        return self.atoms[i][0] in ('sqrt', 'exp') or self.strictly_pos(i)

    def strictly_pos(self, i):
        a = self.atoms[i]
        return a[0] == 'v' and (a[1] in self.positive or a[1] == 'pi')

    def func(self, name, args):
        if name in ('sin', 'cos', 'tan'):
            s, c = self.trig(args[0])
            if name == 'sin':
                return s
            if name == 'cos':
                return c
            return self.mul(s, self.inv(c))
        if name == 'sqrt':
            return self.root(args[0])
        if name == 'abs':
            if len(args[0].num) == 1 and not args[0].den:
                (m, c), = args[0].num.items()
                if all(self.is_pos(i) for i, e in self.split(m)):
                    return Frac({m: abs(c)}, args[0].dint)
            return self.root(self.mul(args[0], args[0]))
        if name == 'exp':
            terms = self.angle_terms(args[0])
            if terms is not None:
                r = self.const(1)
                for q, m in terms:
                    d = q.denominator
                    i = self.atom(('exp', m, d))
                    r = self.mul(r, self.pow(self.afrac(i), int(q * d)))
                return r
        return self.afrac(self.opaque(name, args))


def solve_for(n, h):
    """(atom, value) from the equation h = 0 linear in a variable whose
    coefficient is a product of positive atoms."""
    num = n.reduce(h).num
    best = None
    seen = {}
    for m in num:
        for i, e in n.split(m):
            seen[i] = max(seen.get(i, 0), e)
    for i, e in seen.items():
        if e != 1 or n.atoms[i][0] not in ('v', 's', 'c'):
            continue
        co = {m - n.mono(i): c for m, c in num.items()
              if (m >> (BITS * i)) & MASK}
        if len(co) != 1:
            continue
        (m, c), = co.items()
        if not all(n.strictly_pos(j) for j, k in n.split(m)):
            continue
        if n.atoms[i][0] != 'v':
            continue
        rest = {k: -x for k, x in num.items()
                if not (k >> (BITS * i)) & MASK}
        best = i, n.mul(Frac(rest), n.inv(Frac(co)))
        break
    return best


def substitute(n, f, i, value):
    """The fraction with the atom replaced by a value."""
    def sub(num):
        parts = {}
        for m, c in num.items():
            e = (m >> (BITS * i)) & MASK
            parts.setdefault(e, {})[m - n.mono(i, e)] = c
        out = n.const(0)
        for e, p in parts.items():
            out = n.add(out, n.mul(Frac(p), n.pow(value, e)))
        return out
    return sub(f.num)


def combination(n, d, hyps):
    """d = 0 because its numerator is a linear combination, with rational
    coefficients, of the numerators of equations h = 0."""
    rows = {}                   # leading monomial -> row

    def rest(p):
        p = {m: Fraction(c) for m, c in p.items()}
        done = {}
        while p:
            m = max(p)
            c = p.pop(m)
            r = rows.get(m)
            if r is None:
                done[m] = c
                continue
            for k, x in r.items():
                if k != m:
                    y = p.get(k, 0) - c * x
                    if y:
                        p[k] = y
                    else:
                        p.pop(k, None)
        return done
    for h in hyps:
        p = rest(n.reduce(h).num)
        if p:
            m = max(p)
            rows[m] = {k: x / p[m] for k, x in p.items()}
    return not rest(n.reduce(d).num)


def prove_under(a, b, equations, norm):
    """Equal because of the equations (pairs of terms): a linear combination
    of them, or each solved for a variable and eliminated."""
    n = norm
    d = n.add(n.norm(a), n.neg(n.norm(b)))
    hyps = [n.add(n.norm(p), n.neg(n.norm(q))) for p, q in equations]
    if combination(n, d, hyps):
        return True
    for k, h in enumerate(hyps):
        got = solve_for(n, h)
        if got is None:
            continue
        i, value = got
        d = n.reduce(substitute(n, n.reduce(d), i, value))
        if n.is_zero(d):
            return True
        for j in range(k + 1, len(hyps)):
            hyps[j] = substitute(n, n.reduce(hyps[j]), i, value)
    return n.is_zero(d)


def prove_equal(a, b, positive=(), norm=None):
    """True if the terms are proved equal; False if the normal forms differ."""
    if a is b:
        return True
    n = norm or Norm(positive)
    fa, fb = n.norm(a), n.norm(b)
    d = n.add(fa, n.neg(fb))
    return n.is_zero(d)
