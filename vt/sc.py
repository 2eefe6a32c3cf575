"""Symbolic real scalars: the second verification-condition generator.

The real code runs on numpy object arrays whose entries are Sc: quotients of polynomials
over Q in named unknowns and atoms (square roots, floors, applications of opaque functions).
Comparisons fork the path; branch conditions and postconditions are decided by the normal
form first and by z3 otherwise.  Sizes are those of the harness configuration; entries are
arbitrary reals."""
import dis
import math
import sys
from fractions import Fraction
import numpy as np
from .dim import Unsupported, PathInfeasible, path
from . import stats

F0, F1 = Fraction(0), Fraction(1)
TOL = Fraction(1, 10 ** 9)


# ------------------------------------------------------------------ polynomials
def rational(x):
    """constants of the code are read as the simple fraction they round"""
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, Fraction):
        return x
    if isinstance(x, np.generic):
        return rational(x.item())
    if isinstance(x, float):
        if not math.isfinite(x):
            raise Unsupported('arithmetic with %r' % x)
        f = Fraction(x)
        if f.denominator == 1:
            return f
        g = f.limit_denominator(5040)
        if abs(g - f) <= abs(f) * Fraction(1, 10 ** 14):
            return g
        return f
    raise Unsupported('scalar of type %s' % type(x).__name__)


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, F0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for g, e in n:
        d[g] = d.get(g, 0) + e
    return tuple(sorted(d.items()))


def pmul(a, b):
    if len(a) * len(b) > 60000:
        raise Unsupported('polynomial too large')
    r = {}
    for m, c in a.items():
        for n, e in b.items():
            k = mmul(m, n)
            v = r.get(k, F0) + c * e
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def pconst(a):
    if not a:
        return F0
    if len(a) == 1 and () in a:
        return a[()]
    return None


ONE = {(): F1}


def pkey(a):
    return tuple(sorted(a.items()))


class Atoms:
    """atoms of the current path"""

    @staticmethod
    def tab():
        return path().tables.setdefault('@sc', {'var': {}, 'atom': {}, 'info': {}, 'cons': [], 'z3': {}})


def var(name, lo=None, hi=None, integer=False, strict=False):
    t = Atoms.tab()
    while name in t['var']:
        name = name + "'"
    t['var'][name] = integer
    x = Sc({((name, 1),): F1})
    if lo is not None:
        t['cons'].append(('gt' if strict else 'ge', padd(x.n, (sc(lo) * 1).n, -1)))
    if hi is not None:
        t['cons'].append(('gt' if strict else 'ge', padd((sc(hi) * 1).n, x.n, -1)))
    return x


def var_once(name, lo=None, hi=None):
    t = Atoms.tab()
    return Sc({((name, 1),): F1}) if name in t['var'] else var(name, lo, hi)


def is_int_gen(g):
    t = Atoms.tab()
    if g in t['var']:
        return t['var'][g]
    return t['info'][g][0] in ('floor', 'digit')


def new_atom(kind, *args):
    t = Atoms.tab()
    k = (kind,) + tuple(a.key() if isinstance(a, Sc) else a for a in args)
    if k not in t['atom']:
        g = '~%s%d' % (kind, len(t['atom']))
        t['atom'][k] = g
        t['info'][g] = (kind, args)
    return t['atom'][k]


def reduce_sqrt(p):
    """square roots raised to a power of at least two -> (Sc or poly)"""
    t = None
    for m in p:
        for g, e in m:
            if e >= 2 and g.startswith('~sqrt'):
                t = Atoms.tab()
                break
        if t:
            break
    if t is None:
        return Sc(p)
    out = Sc({})
    for m, c in p.items():
        r = Sc({(): c})
        for g, e in m:
            if e >= 2 and g.startswith('~sqrt'):
                a = t['info'][g][1][0]
                for _ in range(e // 2):
                    r = r * a
                if e % 2:
                    r = r * Sc({((g, 1),): F1})
            else:
                r = Sc._raw(pmul(r.n, {((g, e),): F1}), r.d)
        out = out + r
    return out


def cancel(n, d):
    c = pconst(d)
    if c is not None:
        if c == 0:
            raise Unsupported('division by zero')
        return ({m: v / c for m, v in n.items()} if c != 1 else n), ONE
    if not n:
        return n, ONE
    # common monomial factor
    com = None
    for m in list(n) + list(d):
        dm = dict(m)
        com = dm if com is None else {g: min(e, dm[g]) for g, e in com.items() if g in dm}
        if not com:
            break
    if com:
        def div(p):
            r = {}
            for m, c in p.items():
                q = {g: e - com.get(g, 0) for g, e in m}
                r[tuple(sorted((g, e) for g, e in q.items() if e))] = c
            return r
        n, d = div(n), div(d)
    q = pdivexact(n, d)
    if q is not None:
        return q, ONE
    # make the leading coefficient of d one
    lead = d[max(d)]
    if lead != 1:
        n = {m: v / lead for m, v in n.items()}
        d = {m: v / lead for m, v in d.items()}
    if len(n) > 1:
        q = pdivexact(d, n)
        if q is not None:
            return cancel(ONE, q) if len(q) == 1 else (ONE, q)
    return n, d


def pdivexact(a, b, limit=400):
    """a / b when b divides a, else None"""
    if len(b) > len(a) * 4 + 4:
        return None
    gens = sorted({g for p in (a, b) for m in p for g, _ in m})
    if len(gens) > 12:
        return None
    ix = {g: i for i, g in enumerate(gens)}

    def vec(m):
        v = [0] * len(gens)
        for g, e in m:
            v[ix[g]] = e
        return tuple(v)
    A = {vec(m): c for m, c in a.items()}
    B = {vec(m): c for m, c in b.items()}
    lb = max(B)
    q = {}
    k = 0
    while A:
        k += 1
        if k > limit:
            return None
        la = max(A)
        e = tuple(x - y for x, y in zip(la, lb))
        if min(e, default=0) < 0:
            return None
        c = A[la] / B[lb]
        q[e] = c
        for m, v in B.items():
            t = tuple(x + y for x, y in zip(m, e))
            w = A.get(t, F0) - c * v
            if w:
                A[t] = w
            else:
                A.pop(t, None)
    return {tuple((gens[i], e) for i, e in enumerate(m) if e): c for m, c in q.items()}


INVERSE = {}


def in_text():
    """the number is only formatted into a text (the % operator of a str): the text is not
    a number any more, so its content cannot reach a postcondition"""
    f = sys._getframe(2)
    code = f.f_code.co_code
    return dis.opname[code[f.f_lasti]] == 'BINARY_OP' and code[f.f_lasti + 1] in (6, 19)


class Sc:
    __slots__ = ('n', 'd')

    def __init__(self, n, d=None):
        self.n, self.d = (n, ONE) if d is None else cancel(n, d)

    @staticmethod
    def _raw(n, d):
        x = Sc.__new__(Sc)
        x.n, x.d = n, d
        return x

    def key(self):
        return pkey(self.n), pkey(self.d)

    def const(self):
        if self.d is ONE or pconst(self.d) is not None:
            c = pconst(self.n)
            return None if c is None else c / pconst(self.d)
        return None

    def is_int(self):
        return self.d == ONE and all(c.denominator == 1 and all(is_int_gen(g) for g, _ in m) for m, c in self.n.items())

    # arithmetic
    def _co(self, o):
        if isinstance(o, Sc):
            return o
        if isinstance(o, np.ndarray) and o.ndim > 0 or isinstance(o, (list, tuple)):
            return NotImplemented
        if isinstance(o, np.ndarray):
            o = o.item()
            if isinstance(o, Sc):
                return o
        if isinstance(o, complex):
            raise Unsupported('complex number')
        if not isinstance(o, (int, float, Fraction, np.generic)):
            return NotImplemented
        c = rational(o)
        return Sc._raw({(): c} if c else {}, ONE)

    def __add__(self, o):
        o = self._co(o)
        if o is NotImplemented:
            return o
        if self.d == o.d:
            n = padd(self.n, o.n)
            return Sc._raw(n, ONE) if self.d == ONE else Sc(n, self.d)
        return Sc(padd(pmul(self.n, o.d), pmul(o.n, self.d)), pmul(self.d, o.d))

    __radd__ = __add__

    def __neg__(self):
        return Sc._raw({m: -c for m, c in self.n.items()}, self.d)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = self._co(o)
        if o is NotImplemented:
            return o
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        o = self._co(o)
        if o is NotImplemented:
            return o
        n = reduce_sqrt(pmul(self.n, o.n))
        if self.d == ONE and o.d == ONE:
            return n
        d = reduce_sqrt(pmul(self.d, o.d))
        return _quot(n, d)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = self._co(o)
        if o is NotImplemented:
            return o
        require_nonzero(o)
        return _quot(Sc._raw(self.n, self.d), o)

    def __rtruediv__(self, o):
        return self._co(o) / self

    def __floordiv__(self, o):
        return (self / o).floor()

    def __rfloordiv__(self, o):
        return (self._co(o) / self).floor()

    def __mod__(self, o):
        return self - o * (self // o)

    def __rmod__(self, o):
        return self._co(o) % self

    def __pow__(self, k):
        if isinstance(k, Sc):
            c = k.const()
            if c is None:
                raise Unsupported('symbolic exponent')
            k = c
        k = rational(k)
        if k.denominator == 1:
            k = int(k)
            if k < 0:
                return 1 / (self ** (-k))
            r, b = Sc._raw(ONE, ONE), self
            if k > 40:
                raise Unsupported('power')
            while k:
                if k & 1:
                    r = r * b
                b = b * b
                k >>= 1
            return r
        if k.denominator == 2:
            return self.sqrt() ** int(2 * k)
        raise Unsupported('fractional power')

    def __rpow__(self, b):
        c = self.const()
        if c is not None and c.denominator == 1:
            return sc(b) ** int(c)
        return self.apply2('pow', sc(b), self)

    def __abs__(self):
        return self if bool(self >= 0) else -self

    def sqrt(self):
        c = self.const()
        if c is not None:
            if c < 0:
                raise Unsupported('square root of a negative number')
            return sqrt_const(c)
        if self.d == ONE and len(self.n) == 1:
            (m, c), = self.n.items()
            if c > 0 and all(e % 2 == 0 for _, e in m):
                r = sqrt_const(c)
                for g, e in m:
                    v = Sc({((g, e // 2),): F1})
                    r = r * abs(v)
                return r
        if not known_nonneg(self) and not bool(self >= 0):
            raise Unsupported('square root of a negative number')
        q = self.perfect_square()
        if q is not None:
            return abs(q)
        return Sc({((new_atom('sqrt', self), 1),): F1})

    def perfect_square(self):
        """q with q^2 = self for univariate quadratics etc. (only squares of linear forms)"""
        if self.d != ONE:
            return None
        lin = {}
        for m, c in self.n.items():
            if m and len(m) == 1 and m[0][1] == 2:
                r = _fsqrt(c)
                if r is None:
                    return None
                lin[m[0][0]] = r
            if m == ():
                r = _fsqrt(c)
                if r is None:
                    return None
                lin[None] = r
        gs = list(lin)
        if not gs or len(gs) > 4:
            return None
        for s in range(2 ** (len(gs) - 1)):
            q = Sc({})
            for i, g in enumerate(gs):
                v = lin[g] * (-1 if i and (s >> (i - 1)) & 1 else 1)
                q = q + (Sc({(): v}) if g is None else Sc({((g, 1),): v}))
            if pkey(padd((q * q).n, self.n, -1)) == ():
                return q
        return None

    def floor(self):
        c = self.const()
        if c is not None:
            return Sc({(): Fraction(math.floor(c))} if math.floor(c) else {})
        if self.is_int():
            return self
        # integer part outside
        ip = {m: c for m, c in self.n.items() if self.d == ONE and c.denominator == 1 and all(is_int_gen(g) for g, _ in m)}
        r = Sc._raw(padd(self.n, ip, -1), self.d)
        return Sc({((new_atom('floor', r), 1),): F1}) + Sc._raw(ip, ONE)

    def ceil(self):
        return -((-self).floor())

    def trunc(self):
        if self.is_int():
            return self
        return self.floor() if bool(self >= 0) else self.ceil()

    def rint(self):
        if self.is_int():
            return self
        raise Unsupported('rounding')

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def item(self):
        return self

    def apply(self, name):
        """an opaque function; F and F^-1 cancel"""
        i = INVERSE.get(name)
        if name.endswith('^-1'):
            i = name[:-3]
        elif name[:2] == 'F_':
            i = name + '^-1'
        if i is not None and self.d == ONE and len(self.n) == 1:
            (m, c), = self.n.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                info = Atoms.tab()['info'].get(m[0][0])
                if info and info[0] == i:
                    return info[1][0]
        return Sc({((new_atom(name, self), 1),): F1})

    @staticmethod
    def apply2(name, *a):
        return Sc({((new_atom(name, *a), 1),): F1})

    def exp(self):
        c = self.const()
        if c == 0:
            return sc(1)
        return self.apply('exp')

    def log(self):
        c = self.const()
        if c == 1:
            return sc(0)
        return self.apply('log')

    def cos(self):
        return self.apply('cos')

    def sin(self):
        return self.apply('sin')

    def isnan(self):
        return False

    def isfinite(self):
        return True

    def isinf(self):
        return False

    def sign(self):
        if bool(self > 0):
            return sc(1)
        return sc(-1) if bool(self < 0) else sc(0)

    # comparisons
    def _cmp(self, o, rel):
        if isinstance(o, (float, np.floating)) and math.isnan(o):
            return rel == 'ne'
        if isinstance(o, (float, np.floating)) and math.isinf(o):
            return {'lt': o > 0, 'le': o > 0, 'gt': o < 0, 'ge': o < 0, 'eq': False, 'ne': True}[rel]
        if o is None or isinstance(o, (str, type)):
            return rel == 'ne'
        o = self._co(o)
        if o is NotImplemented:
            return o
        return Cond(rel, self - o)

    def __lt__(self, o):
        return self._cmp(o, 'lt')

    def __le__(self, o):
        return self._cmp(o, 'le')

    def __gt__(self, o):
        return self._cmp(o, 'gt')

    def __ge__(self, o):
        return self._cmp(o, 'ge')

    def __eq__(self, o):
        return self._cmp(o, 'eq')

    def __ne__(self, o):
        return self._cmp(o, 'ne')

    def __hash__(self):
        c = self.const()
        return hash(c) if c is not None else hash(self.key())

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        c = self.const()
        if c is None:
            if all(g.startswith('~sqrt') and Atoms.tab()['info'][g][1][0].const() is not None for m in list(self.n) + list(self.d) for g, _ in m):
                return self.value()
            if in_text():
                return float('nan')
            raise Unsupported('float() of a symbolic number')
        return float(c)

    def value(self):
        def ev(p):
            s = 0.0
            for m, c in p.items():
                v = float(c)
                for g, e in m:
                    v *= math.sqrt(float(Atoms.tab()['info'][g][1][0].const())) ** e
                s += v
            return s
        return ev(self.n) / ev(self.d)

    def __int__(self):
        return self.trunc().__index__()

    def __index__(self):
        c = self.const()
        if c is not None:
            if c.denominator == 1:
                return int(c)
            raise TypeError('not an integer')
        # case split over the integer values allowed by the path condition
        for _ in range(64):
            v = model_value(self)
            if v is None:
                raise PathInfeasible()
            if bool(self == v):
                return v
        raise Unsupported('unbounded index')

    def __format__(self, s):
        return '<sym>'

    def __repr__(self):
        return 'Sc(%s)' % (show(self),)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def dot(self, o):
        return self * o


def show(x):
    def f(p):
        return ' + '.join('%s%s' % (c, ''.join('*%s^%d' % ge if ge[1] != 1 else '*' + ge[0] for ge in m)) for m, c in list(p.items())[:8]) or '0'
    return f(x.n) if x.d == ONE else '(%s)/(%s)' % (f(x.n), f(x.d))


def sc(x):
    if isinstance(x, Sc):
        return x
    return Sc._raw({}, ONE)._co(x)


def _fsqrt(c):
    if c < 0:
        return None
    p, q = math.isqrt(c.numerator), math.isqrt(c.denominator)
    return Fraction(p, q) if p * p == c.numerator and q * q == c.denominator else None


def sqrt_const(c):
    r = _fsqrt(c)
    if r is not None:
        return Sc({(): r} if r else {})
    n = c.numerator * c.denominator
    out, rad, k = 1, [], 2
    if n > 10 ** 13:
        return Sc({((new_atom('sqrt', Sc({(): c})), 1),): F1})
    while k * k <= n and k < 20000:
        e = 0
        while n % k == 0:
            n //= k
            e += 1
        out *= k ** (e // 2)
        if e % 2:
            rad.append(k)
        k += 1
    if n > 1:
        rad.append(n)
    x = Sc({(): Fraction(out, c.denominator)})
    for r in rad:
        x = Sc(pmul(x.n, {((new_atom('sqrt', Sc({(): Fraction(r)})), 1),): F1}))
    return x


def _quot(n, d):
    """n / d for Sc n, d (d != 0 known)"""
    nn, dd = pmul(n.n, d.d), pmul(n.d, d.n)
    # rationalise a denominator that is a monomial in square roots
    if len(dd) == 1:
        (m, c), = dd.items()
        rt = [g for g, e in m if g.startswith('~sqrt')]
        if rt:
            t = Atoms.tab()
            a = reduce_sqrt(pmul(nn, {tuple((g, 1) for g in sorted(rt)): F1}))
            rest = Sc({tuple((g, e) for g, e in m if g not in rt): c})
            for g in rt:
                rest = rest * t['info'][g][1][0]
            return Sc(pmul(a.n, rest.d), pmul(a.d, rest.n))
    # or a sum of two constants with one root
    a = reduce_sqrt(nn)
    b = reduce_sqrt(dd)
    return Sc(pmul(a.n, b.d), pmul(a.d, b.n))


# ------------------------------------------------------------------ conditions
# answers of the solver along the replayed prefixes of the paths of one harness
DECIDED = {}


class Cond:
    """rel(e, 0)"""
    __slots__ = ('rel', 'e')
    NEG = {'lt': 'ge', 'ge': 'lt', 'gt': 'le', 'le': 'gt', 'eq': 'ne', 'ne': 'eq'}

    def __init__(self, rel, e):
        self.rel, self.e = rel, e

    def decide_const(self):
        c = self.e.const()
        if c is None:
            return None
        if abs(c) <= Fraction(1, 10 ** 14):
            c = F0
        return {'lt': c < 0, 'le': c <= 0, 'gt': c > 0, 'ge': c >= 0, 'eq': c == 0, 'ne': c != 0}[self.rel]

    def neg(self):
        return Cond(self.NEG[self.rel], self.e)

    def __invert__(self):
        return self.neg()

    def __bool__(self):
        v = self.decide_const()
        if v is not None:
            return v
        t = Atoms.tab()
        ck = (self.rel, self.e.key())
        memo = path().memo
        if ck in memo:
            return memo[ck]
        gk = (tuple(x[1] for x in path().trace), len(t['cons']), self.rel, self.e.key())
        if gk in DECIDED:
            a, b = DECIDED[gk]
        else:
            a = possible(self)
            b = possible(self.neg()) if a is not False else True
            DECIDED[gk] = a, b
        if a is False and b is False:
            raise PathInfeasible()
        if a is None or b is None:
            t['uncertain'] = True
        v = path().decide('%s %s 0' % (show(self.e)[:60], self.rel), a is not False, b is not False)
        t['cons'].append((self.rel, self.e) if v else (self.NEG[self.rel], self.e))
        memo[ck] = v
        return v

    def __repr__(self):
        return '%s %s 0' % (show(self.e), self.rel)


def z3_env():
    import z3
    t = Atoms.tab()
    vs = t['z3']

    def gen(g):
        if g not in vs:
            vs[g] = z3.Int(g) if is_int_gen(g) else z3.Real(g)
        return vs[g]

    def pol(p):
        terms = []
        for m, c in p.items():
            f = [z3.RealVal(str(c))] if c != 1 or not m else []
            for g, e in m:
                x = gen(g)
                x = z3.ToReal(x) if is_int_gen(g) else x
                f += [x] * e
            r = f[0]
            for y in f[1:]:
                r = r * y
            terms.append(r)
        return z3.Sum(terms) if len(terms) > 1 else (terms[0] if terms else z3.RealVal(0))

    rl = {'eq': lambda e: e == 0, 'ne': lambda e: e != 0, 'lt': lambda e: e < 0, 'le': lambda e: e <= 0, 'gt': lambda e: e > 0, 'ge': lambda e: e >= 0}

    def con(rel, e):
        if isinstance(e, dict):
            return rl[rel](pol(e))
        if e.d == ONE:
            return rl[rel](pol(e.n))
        if rel in ('eq', 'ne'):
            return z3.And(rl[rel](pol(e.n)), pol(e.d) != 0)
        d = pol(e.d)
        return z3.Or(z3.And(d > 0, rl[rel](pol(e.n))), z3.And(d < 0, rl[rel](-pol(e.n))))
    return gen, pol, con


MONO = {'exp', 'log', 'erf', 'cdf', 'erfinv'}


def used_gens(es):
    t = Atoms.tab()
    todo, seen = list(es), set()
    while todo:
        e = todo.pop()
        ps = [e] if isinstance(e, dict) else [e.n, e.d]
        for p in ps:
            for m in p:
                for g, _ in m:
                    if g not in seen:
                        seen.add(g)
                        if g in t['info']:
                            todo += [a for a in t['info'][g][1] if isinstance(a, Sc)]
    return seen


def solver(extra, timeout, everything=False):
    import z3
    t = Atoms.tab()
    gen, pol, con = z3_env()
    s = z3.Solver()
    s.set('timeout', timeout)
    # cone of influence: constraints sharing unknowns with the query
    gens = used_gens([e for _, e in extra])
    cons = list(t['cons'])
    if len(cons) > 6 and not everything:
        left, cur = cons, gens
        sel = []
        ch = True
        while ch:
            ch = False
            rest = []
            for c in left:
                u = used_gens([c[1]])
                if u & cur:
                    sel.append(c)
                    cur = cur | u
                    ch = True
                else:
                    rest.append(c)
            left = rest
        cons = sel
    for r, e in cons:
        s.add(con(r, e))
    for r, e in extra:
        s.add(con(r, e))
    gens = used_gens([e for _, e in list(extra) + cons])
    mono, cong = {}, {}
    for g in sorted(gens):
        if g in t['info']:
            k, args = t['info'][g]
            x = gen(g)
            if k == 'sqrt':
                a = args[0]
                s.add(x >= 0, x * x * pol(a.d) == pol(a.n))
            elif k == 'floor':
                a = args[0]
                import z3 as Z
                xr = Z.ToReal(x)
                if a.d == ONE:
                    s.add(xr <= pol(a.n), pol(a.n) < xr + 1)
                else:
                    s.add(con('le', Sc({((g, 1),): F1}) - a), con('lt', a - Sc({((g, 1),): F1}) - 1))
            elif k == 'exp':
                s.add(x > 0)
            elif k[:2] == 'F_' and not k.endswith('^-1'):
                # a distribution function
                s.add(x >= 0, x <= 1)
            if k[:2] == 'f_' and all(isinstance(a, Sc) for a in args):
                cong.setdefault((k, len(args)), []).append((args, x))
            if (k in MONO or k[:2] == 'F_') and len(args) == 1:
                mono.setdefault(k, []).append((args[0], x))
            for ax in AXIOMS.get(k, []):
                for r, e in ax(Sc({((g, 1),): F1}), *args):
                    s.add(con(r, e))
    for l in cong.values():
        for i in range(len(l)):
            for j in range(i):
                s.add(z3.Implies(z3.And(*[con('eq', a - b) for a, b in zip(l[i][0], l[j][0])]), l[i][1] == l[j][1]))
    for k, l in mono.items():
        for i in range(len(l)):
            for j in range(i):
                e = l[i][0] - l[j][0]
                s.add(z3.Implies(con('lt', e), l[i][1] < l[j][1]), z3.Implies(con('gt', e), l[i][1] > l[j][1]), z3.Implies(con('eq', e), l[i][1] == l[j][1]))
    return s


AXIOMS = {}


def linear_unsat(extra):
    """no solution even when products of unknowns are taken for unknowns of their own"""
    import z3
    t = Atoms.tab()
    cons = list(t['cons']) + list(extra)
    deg = lambda p: any(sum(e for _, e in m) > 1 for m in p) or any(g.startswith('~sqrt') for m in p for g, _ in m)
    num = lambda e: e if isinstance(e, dict) else e.n if e.d == ONE else None
    if not any(num(e) is not None and deg(num(e)) for _, e in cons):
        return False
    vs = {}
    s = z3.SolverFor('QF_LRA')
    s.set('timeout', 1000)
    rl = {'eq': lambda e: e == 0, 'ne': lambda e: e != 0, 'lt': lambda e: e < 0, 'le': lambda e: e <= 0, 'gt': lambda e: e > 0, 'ge': lambda e: e >= 0}
    size = 0
    for r, e in reversed(cons):
        p = num(e)
        if p is None or len(p) > 400:
            continue
        size += len(p)
        if size > 3000:
            break
        l = []
        for m, c in p.items():
            if m and m not in vs:
                vs[m] = z3.Real('m%d' % len(vs))
                if all(k % 2 == 0 or g.startswith('~sqrt') for g, k in m):
                    s.add(vs[m] >= 0)
            l.append(z3.RealVal(str(c)) * vs[m] if m else z3.RealVal(str(c)))
        s.add(rl[r](z3.Sum(l) if l else z3.RealVal(0)))
    return s.check() == z3.unsat


def check(extra, timeout=3000, everything=False):
    import time
    import z3
    t0 = time.time()
    if extra and not everything and linear_unsat(extra):
        stats.Z3_CALLS += 1
        stats.Z3_TIME += time.time() - t0
        return False, None
    s = solver(extra, timeout, everything)
    r = s.check()
    stats.Z3_CALLS += 1
    stats.Z3_TIME += time.time() - t0
    return (True if r == z3.sat else False if r == z3.unsat else None), s


def possible(c, timeout=3000):
    """True / False / None (unknown)"""
    return check([(c.rel, c.e)], timeout)[0]


def model_value(x):
    import z3
    gen, pol, con = z3_env()
    r, s = check([('eq', x - x)] + [('ge', Sc(p)) for p in ()], 3000)
    # make sure the unknowns of x are constrained
    s2 = solver([('ge', x * x)], 3000)
    if s2.check() != z3.sat:
        return None
    m = s2.model()
    v = m.eval(pol(x.n), model_completion=True)
    f = Fraction(v.as_fraction()) if hasattr(v, 'as_fraction') else None
    if f is None or f.denominator != 1:
        raise Unsupported('index')
    return int(f)


def nonneg(terms):
    """sum of f b^2 over the given (f, b): not negative, since every f is positive on this path"""
    r = sc(0)
    for f, b in terms:
        if not bool(sc(f) > 0):
            raise Unsupported('a factor that is not positive')
        r = r + sc(f) * b * b
    path().tables.setdefault('@nonneg', []).append(r)
    return r


def known_nonneg(x):
    for h in path().tables.get('@nonneg', []):
        if x.n and h.n:
            try:
                if not (x - h).n:
                    return True
            except Unsupported:
                pass
    return False


def require_nonzero(o):
    c = o.const()
    if c is not None:
        if c == 0:
            raise Unsupported('division by zero')
        return
    if all(g.startswith('~sqrt') for m in o.n for g, _ in m) and len(o.n) == 1:
        return
    if not bool(o != 0):
        raise Unsupported('division by an expression that vanishes')


def fdiv(x, y):
    """entrywise division of arrays: by zero it gives infinities and nan"""
    if not isinstance(x, Sc) and not isinstance(y, Sc):
        if y != 0 and isinstance(x, (int, Fraction)) and isinstance(y, (int, Fraction)):
            return sc(x) / y
        with np.errstate(all='ignore'):
            return float(np.true_divide(x, y))
    if any(isinstance(v, (float, np.floating)) and not math.isfinite(v) for v in (x, y)):
        raise Unsupported('arithmetic with infinities')
    if not bool(sc(y) != 0):
        if not bool(sc(x) != 0):
            return float('nan')
        return float('inf') if bool(sc(x) > 0) else -float('inf')
    return sc(x) / y


# ------------------------------------------------------------------ arrays
class SA(np.ndarray):
    """object array that may hold Sc"""
    __array_priority__ = 500

    def __array_ufunc__(self, uf, method, *inputs, **kw):
        ins = [np.asarray(x) if isinstance(x, SA) else x for x in inputs]
        out = kw.pop('out', None)
        if out is not None:
            kw['out'] = tuple(np.asarray(o) if isinstance(o, SA) else o for o in out)
        n = uf.__name__
        if n in ('isnan', 'isinf') and method == '__call__':
            return np.zeros(np.shape(ins[0]), bool)
        if n == 'isfinite' and method == '__call__':
            return np.ones(np.shape(ins[0]), bool)
        if n in ('sign', 'exp', 'log', 'sqrt', 'cos', 'sin', 'floor', 'ceil', 'trunc', 'rint') and method == '__call__':
            ins = [elementwise(lambda v: sc(v), ins[0])]
        if n in ('power', 'float_power') and method == '__call__':
            kw.pop('dtype', None)
            a = np.asarray(ins[0], dtype=object)
            r = np.frompyfunc(lambda x, y: (sc(x) if not isinstance(x, Sc) else x) ** y, 2, 1)(a, np.asarray(ins[1], dtype=object))
            return wrap(r)
        if n in ('maximum', 'minimum', 'fmax', 'fmin') and method == '__call__':
            g = (lambda x, y: x if bool(x >= y) else y) if n in ('maximum', 'fmax') else (lambda x, y: x if bool(x <= y) else y)
            return wrap(np.frompyfunc(g, 2, 1)(*[np.asarray(x, dtype=object) for x in ins]))
        if n in ('greater', 'greater_equal', 'less', 'less_equal', 'equal', 'not_equal') and method == '__call__':
            import operator
            f = {'greater': operator.gt, 'greater_equal': operator.ge, 'less': operator.lt, 'less_equal': operator.le, 'equal': operator.eq, 'not_equal': operator.ne}[n]
            r = np.frompyfunc(lambda x, y: bool(f(x, y)), 2, 1)(*[np.asarray(x, dtype=object) for x in ins])
            return np.asarray(r, dtype=bool) if np.ndim(r) else bool(r)
        if n in ('true_divide', 'divide') and method == '__call__' and out is None:
            return wrap(np.frompyfunc(fdiv, 2, 1)(*[np.asarray(x, dtype=object) for x in ins]))
        ins = [rat_arr(x) for x in ins]
        if out is not None:
            if any(np.asarray(o).dtype != object for o in kw['out']):
                raise Unsupported('in-place operation on a float array')
        r = getattr(uf, method)(*ins, **kw)
        if out is not None:
            return out[0] if len(out) == 1 else out
        return wrap(r)

    def __setitem__(self, k, v):
        # numpy writes arrays with one entry into one place
        if isinstance(v, np.ndarray) and v.size == 1 and v.ndim:
            t = np.ndarray.__getitem__(self, k)
            if not isinstance(t, np.ndarray) or t.ndim == 0:
                v = v.reshape(-1)[0]
        np.ndarray.__setitem__(self, k, v)

    def astype(self, dt, *a, **k):
        d = np.dtype(dt) if not isinstance(dt, np.dtype) else dt
        if d.kind in 'iu':
            if all(not isinstance(v, Sc) or v.const() is not None for v in self.flat):
                return np.array([int(v) for v in self.flat], dtype=d).reshape(self.shape)
            return elementwise(lambda v: v.trunc() if isinstance(v, Sc) else int(v), self)
        if d.kind == 'b':
            return np.array([bool(v) for v in self.flat], dtype=bool).reshape(self.shape)
        return self.copy()

    def mean(self, axis=None, **k):
        s = self.sum(axis=axis, **{q: v for q, v in k.items() if q == 'keepdims'})
        n = self.size if axis is None else np.prod([self.shape[i] for i in np.atleast_1d(axis)])
        return s / int(n)

    def tolist(self):
        return np.asarray(self).tolist()

    @property
    def real(self):
        return self

    def __array_function__(self, func, types, args, kwargs):
        r = super().__array_function__(func, types, args, kwargs)
        return wrap(r)


def rat_arr(x):
    """float arrays meeting symbolic ones: keep constants exact"""
    return x


def elementwise(f, x):
    x = np.asarray(x, dtype=object)
    r = np.empty(x.shape, dtype=object)
    for i in np.ndindex(x.shape):
        r[i] = f(x[i])
    return wrap(r) if x.ndim else r[()]


def wrap(r):
    if isinstance(r, tuple):
        return tuple(wrap(x) for x in r)
    if isinstance(r, np.ndarray) and r.dtype == object and not isinstance(r, SA):
        if r.ndim == 0:
            v = r.item()
            if isinstance(v, (Sc, int, float)):
                return v
            return r
        if all(isinstance(v, (Sc, int, float, bool, np.number, Fraction)) for v in r.flat) and r.size:
            return r.view(SA)
    return r


def has_sc(x, depth=0):
    if isinstance(x, (Sc, SA)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(has_sc(v, depth + 1) for v in x.flat)
    if isinstance(x, (list, tuple)) and depth < 4:
        return any(has_sc(v, depth + 1) for v in x)
    return False


def arr(x):
    return wrap(np.asarray(x, dtype=object))


# ------------------------------------------------------------------ postconditions
def small(p):
    return all(abs(c) <= TOL for c in p.values())


def prove_zero(e):
    """-> (verdict, message); verdict True proved / False refuted / None undecided"""
    e = sc(e)
    if small(e.n) and all(abs(c) <= TOL for c in e.n.values()):
        return True, ''
    r, s = check([('ne', e)], 8000)
    if r is False:
        return True, ''
    # constants rounded by the code: a nonzero but tiny difference
    if r is True:
        if any(c.denominator > 10 ** 12 for c in e.n.values()) and all(check([('gt', sg * e - TOL)], 8000)[0] is False for sg in (1, -1)):
            return True, ''
        if any(c.denominator > 10 ** 12 for c in e.n.values()) or Atoms.tab().get('uncertain'):
            return None, 'not proved: %s = 0' % show(e)
        if opaque([e]):
            return None, 'not proved (opaque functions): %s = 0' % show(e)
        r2, s2 = check([('ne', e)], 4000, everything=True)
        LAST.append(floats(s2 if r2 else s))
        return False, '%s is not 0: %s' % (show(e)[:300], str(s.model())[:200])
    return None, 'not decided: %s = 0' % show(e)[:300]


def opaque(es):
    t = Atoms.tab()
    return any(g in t['info'] and t['info'][g][0] not in ('sqrt', 'floor') and (t['info'][g][0][:2] != 'f_' or t['info'][g][0] == 'f_normal') for g in used_gens(es))


def prove(c):
    if isinstance(c, Cond):
        v = c.decide_const()
        if v is not None:
            return v, '' if v else repr(c)
        r, s = check([(c.NEG[c.rel], c.e)], 8000)
        if r is False:
            return True, ''
        if r is True and not Atoms.tab().get('uncertain') and not opaque([c.e]):
            r2, s2 = check([(c.NEG[c.rel], c.e)], 4000, everything=True)
            LAST.append(floats(s2 if r2 else s))
            return False, '%r fails: %s' % (c, str(s.model())[:300])
        return None, 'not decided: %r' % (c,)
    return bool(c), ''


LAST = []


def floats(s):
    """the unknowns of the harness in a model of the solver"""
    t = Atoms.tab()
    gen, pol, con = z3_env()
    m = s.model()
    out = {}
    for v in t['var']:
        if v not in t['z3']:
            out[v] = 0
            continue
        x = m.eval(t['z3'][v], model_completion=True)
        try:
            f = Fraction(x.as_fraction()) if hasattr(x, 'as_fraction') else (Fraction(x.as_long()) if hasattr(x, 'as_long') else Fraction(x.approx(20).as_fraction()))
        except Exception:
            return None
        out[v] = int(f) if t['var'][v] else float(f)
    return out


def model_floats(obl=()):
    """values of the unknowns for the replay of a failed obligation of the current path"""
    if LAST:
        m = LAST[-1]
        LAST.clear()
        if m:
            return m
    try:
        r, s = check([], 3000, everything=True)
        return floats(s) if r else None
    except (Exception, Unsupported):
        return None


# ------------------------------------------------------------------ numpy for the verified modules
USED = {}


def note(n):
    USED[n] = USED.get(n, 0) + 1


def lt(a, b):
    return bool(sc(a) < b) if isinstance(a, Sc) or isinstance(b, Sc) else bool(a < b)


def _cmp(a, b):
    return -1 if lt(a, b) else (1 if lt(b, a) else 0)


def f_lexsort(keys, axis=-1):
    import functools
    ks = [np.asarray(k, dtype=object).reshape(-1) for k in keys]
    n = ks[0].size

    def cmp(i, j):
        for k in reversed(ks):
            c = _cmp(k[i], k[j])
            if c:
                return c
        return 0
    return np.array(sorted(range(n), key=functools.cmp_to_key(cmp)), dtype=int)


def f_argsort(x, axis=-1, kind=None, **k):
    x = np.asarray(x, dtype=object)
    if x.ndim != 1:
        raise Unsupported('argsort of an array of order %d' % x.ndim)
    return f_lexsort([x])


def f_sort(x, axis=-1, **k):
    x = np.asarray(x, dtype=object)
    if x.ndim == 1:
        return wrap(x[f_lexsort([x])])
    ax = axis % x.ndim
    r = np.empty(x.shape, dtype=object)
    for i in np.ndindex(*[s for j, s in enumerate(x.shape) if j != ax]):
        ix = i[:ax] + (slice(None),) + i[ax:]
        r[ix] = x[ix][f_lexsort([x[ix]])]
    return wrap(r)


def isnan1(v):
    return isinstance(v, (float, np.floating)) and math.isnan(v)


def f_nanmin(x, **k):
    if k.get('axis') is not None:
        raise Unsupported('nanmin along an axis')
    best = None
    for v in np.asarray(x, dtype=object).flat:
        if isnan1(v):
            continue
        if best is None or lt(v, best):
            best = v
    return float('nan') if best is None else best


def _red(f):
    def g(x, axis=None, keepdims=False, **k):
        k = {a: b for a, b in k.items() if b is not None}
        if k:
            raise Unsupported('keyword of a reduction')
        x = np.asarray(x, dtype=object)
        if axis is None:
            r = f(list(x.flat))
            return wrap(np.full((1,) * x.ndim, r, dtype=object)) if keepdims else r
        axes = tuple(a % x.ndim for a in np.atleast_1d(axis))
        out = np.empty([s for j, s in enumerate(x.shape) if j not in axes], dtype=object)
        for i in np.ndindex(*out.shape):
            it = iter(i)
            ix = tuple(slice(None) if j in axes else next(it) for j in range(x.ndim))
            out[i] = f(list(x[ix].flat))
        if keepdims:
            out = out.reshape([1 if j in axes else s for j, s in enumerate(x.shape)])
        return wrap(out) if out.ndim else out[()]
    return g


def _first(better):
    def f(l):
        if not l:
            raise ValueError('zero-size array to reduction operation which has no identity')
        b = l[0]
        for v in l[1:]:
            if better(v, b):
                b = v
        return b
    return f


def _argfirst(better):
    def g(x, axis=None, **k):
        x = np.asarray(x, dtype=object)
        if x.size == 0:
            raise ValueError('attempt to get argmin of an empty sequence')
        if axis is not None and x.ndim > 1:
            y = np.moveaxis(x, axis, -1)
            o = np.empty(y.shape[:-1], dtype=int)
            for i in np.ndindex(o.shape):
                o[i] = g(y[i])
            return o
        l = list(x.flat)
        b = 0
        for i in range(1, len(l)):
            if better(l[i], l[b]):
                b = i
        return np.int64(b)
    return g


def f_unique(x, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    x = np.asarray(x, dtype=object)
    if axis is None:
        rows = [(v,) for v in x.reshape(-1)]
    elif axis == 0:
        rows = [tuple(v.reshape(-1)) for v in x]
    else:
        raise Unsupported('unique along axis %r' % axis)
    import functools

    def cmp(i, j):
        for a, b in zip(rows[i], rows[j]):
            c = _cmp(a, b)
            if c:
                return c
        return 0
    o = sorted(range(len(rows)), key=functools.cmp_to_key(cmp))
    first, inv, cnt = [], np.zeros(len(rows), dtype=int), []
    for p, i in enumerate(o):
        if p == 0 or cmp(o[p - 1], i) != 0:
            first.append(i)
            cnt.append(0)
        inv[i] = len(first) - 1
        cnt[-1] += 1
    r = [wrap(x.reshape(-1)[first]) if axis is None else wrap(x[first])]
    if return_index:
        r.append(np.array(first, dtype=int))
    if return_inverse:
        r.append(inv)
    if return_counts:
        r.append(np.array(cnt, dtype=int))
    return r[0] if len(r) == 1 else tuple(r)


def f_matmul(a, b, **k):
    return wrap(np.asarray(a, dtype=object) @ np.asarray(b, dtype=object)) if np.ndim(a) > 0 and np.ndim(b) > 0 else _bad('matmul')


def _bad(n):
    raise Unsupported('numpy.%s' % n)


def f_array(x, dtype=None, *a, **k):
    if dtype in (int, np.int64, np.int32):
        r = np.asarray(x, dtype=object).view(SA).astype(int)
    elif dtype is bool:
        return np.array([bool(v) for v in np.asarray(x, dtype=object).flat]).reshape(np.shape(np.asarray(x, dtype=object)))
    else:
        r = np.array(x, dtype=object)
    nd = k.get('ndmin')
    while nd and r.ndim < nd:
        r = r[np.newaxis]
    return r.view(SA) if isinstance(r, np.ndarray) else r


def f_allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return all(bool(abs(sc(x) - y) <= atol + rtol * abs(sc(y))) for x, y in zip(*[q.flat for q in np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))]))


def f_isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    f = np.frompyfunc(lambda x, y: bool(abs(sc(x) - y) <= atol + rtol * abs(sc(y))), 2, 1)
    r = f(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
    return np.asarray(r, dtype=bool) if np.ndim(r) else bool(r)


def f_array_equal(a, b, **k):
    a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    return a.shape == b.shape and all(bool(sc(x) == y) for x, y in zip(a.flat, b.flat))


def f_norm(x, ord=None, axis=None, **k):
    if np.ndim(x) == 1 and isinstance(ord, float) and math.isinf(ord) and ord > 0 and axis is None:
        return FN['max'](elementwise(abs, arr(x)))
    if ord == 2 and np.ndim(x) == 2 and axis is None:
        return spectral_norm(x)
    if ord not in (None, 2, 'fro') or (ord == 2 and np.ndim(x) != 1 and axis is None):
        raise Unsupported('norm')
    x = arr(x)
    s = _red(lambda l: nonneg([(1, v) for v in l]))(x, axis=axis, **k)
    return elementwise(lambda v: sc(v).sqrt(), s) if np.ndim(s) else sc(s).sqrt()


def f_polyval(p, x):
    p = np.asarray(p, dtype=object).reshape(-1)
    y = arr(x) * 0 if np.ndim(x) else sc(0)
    for v in p:
        y = y * x + v
    return y


def f_searchsorted(a, v, side='left', **k):
    a = list(np.asarray(a, dtype=object))

    def one(x):
        n = 0
        for y in a:
            if lt(y, x) or (side == 'right' and not lt(x, y)):
                n += 1
            else:
                break
        return n
    if np.ndim(v) == 0:
        return np.int64(one(v))
    return np.array([one(x) for x in np.asarray(v, dtype=object).flat], dtype=int).reshape(np.shape(v))


def f_isin(a, b, assume_unique=False, invert=False, **k):
    b = list(np.asarray(b, dtype=object).flat)
    x = np.asarray(a, dtype=object)
    r = np.array([any(bool(sc(v) == w) if isinstance(v, Sc) or isinstance(w, Sc) else v == w for w in b) for v in x.flat], dtype=bool).reshape(x.shape)
    return ~r if invert else r


def f_solve(A, b):
    """exact elimination; the matrix must be provably regular on the path"""
    A = np.array(A, dtype=object)
    b = np.array(b, dtype=object)
    n = A.shape[0]
    vec = b.ndim == 1
    B = b.reshape(n, -1).copy()
    for j in range(n):
        for p in range(j, n):
            if bool(sc(A[p, j]) != 0):
                break
        else:
            raise np.linalg.LinAlgError('Singular matrix')
        if p != j:
            A[[j, p]] = A[[p, j]]
            B[[j, p]] = B[[p, j]]
        piv = sc(A[j, j])
        for i in range(n):
            if i != j:
                f = sc(A[i, j]) / piv
                for q in range(j, n):
                    A[i, q] = A[i, q] - f * A[j, q]
                for q in range(B.shape[1]):
                    B[i, q] = B[i, q] - f * B[j, q]
        for q in range(j + 1, n):
            A[j, q] = sc(A[j, q]) / piv
        for q in range(B.shape[1]):
            B[j, q] = sc(B[j, q]) / piv
        A[j, j] = 1
    return wrap(B.reshape(-1) if vec else B)


def f_inv(A):
    n = np.shape(A)[0]
    return f_solve(A, np.eye(n, dtype=int).astype(object))


def f_pinv(A, **k):
    """the inverse, for a square matrix that is not singular"""
    if np.ndim(A) != 2 or np.shape(A)[0] != np.shape(A)[1]:
        raise Unsupported('pinv')
    return f_inv(A)


def f_qr(A, mode='reduced'):
    """contract of QR of a matrix of full column rank: A = Q R with Q^T Q = 1, R upper triangular
    (computed exactly by Gram-Schmidt, negative diagonal as LAPACK)"""
    A = np.asarray(A, dtype=object)
    if A.ndim != 2 or A.shape[0] < A.shape[1] or mode != 'reduced':
        raise Unsupported('qr')
    m, n = A.shape
    Q, R = np.empty((m, n), dtype=object), np.empty((n, n), dtype=object)
    R[...] = sc(0)
    U, D = [], []
    for j in range(n):
        u = [sc(v) for v in A[:, j]]
        for k in range(j):
            p = sum((U[k][i] * A[i, j] for i in range(m)), sc(0))
            R[k, j] = -p / D[k].sqrt()
            u = [x - p / D[k] * y for x, y in zip(u, U[k])]
        d = sum((x * x for x in u), sc(0))
        if not bool(d > 0):
            raise Unsupported('qr of a matrix of deficient rank')
        U.append(u)
        D.append(d)
        R[j, j] = -d.sqrt()
        for i in range(m):
            Q[i, j] = -u[i] / d.sqrt()
    return wrap(Q), wrap(R)


def f_cholesky(A):
    """exact factor of a symmetric positive definite matrix"""
    A = np.asarray(A, dtype=object)
    n = A.shape[0]
    L = np.empty((n, n), dtype=object)
    L[...] = sc(0)
    for j in range(n):
        d = sc(A[j, j]) - sum((L[j, k] * L[j, k] for k in range(j)), sc(0))
        if not bool(d > 0):
            raise np.linalg.LinAlgError('Matrix is not positive definite')
        L[j, j] = d.sqrt()
        for i in range(j + 1, n):
            L[i, j] = (A[i, j] - sum((L[i, k] * L[j, k] for k in range(j)), sc(0))) / L[j, j]
    return wrap(L)


def f_lstsq(A, b, rcond=None):
    """contract for full column rank: the solution of the normal equations"""
    A, b = np.asarray(A, dtype=object), np.asarray(b, dtype=object)
    if A.shape[0] < A.shape[1]:
        raise Unsupported('lstsq with fewer rows than columns')
    try:
        x = f_solve(f_matmul(A.T, A), f_matmul(A.T, b))
    except np.linalg.LinAlgError:
        raise Unsupported('lstsq of a matrix of deficient rank')
    return x, None, A.shape[1], None


class Diags:
    """scipy.sparse.diags of one diagonal: only its product is used"""
    def __init__(self, d):
        self.d = np.asarray(d, dtype=object).reshape(-1)

    def dot(self, A):
        A = np.asarray(A, dtype=object)
        return wrap(self.d.reshape((-1,) + (1,) * (A.ndim - 1)) * A)
    __matmul__ = dot

    def toarray(self):
        return wrap(np.diag(self.d))


def spectral_norm(A):
    """contract: between the largest entry and the Frobenius norm"""
    v = [sc(x) for x in np.asarray(A, dtype=object).flat]
    if all(not small_nonzero(x) for x in v):
        return sc(0)
    f = nonneg([(1, x) for x in v])
    s = var_once('spectral%d' % (hash(tuple(x.key() for x in v)) % 10**9), lo=0)
    t = Atoms.tab()
    t['cons'].append(('ge', f - s * s))
    for x in v:
        t['cons'].append(('ge', s * s - x * x))
    return s


def small_nonzero(x):
    return bool(x.n)


def f_cond(A, p=None):
    """contract: the matrix is regular and its condition number is at most 1e12"""
    return var_once('cond%d' % (hash(tuple(sc(v).key() for v in np.asarray(A, dtype=object).flat)) % 10**9), lo=1, hi=10**12)


def f_var(x, axis=None, **k):
    if k:
        raise Unsupported('var')
    x = arr(x)
    m = x.mean(axis=axis)
    q = (x * x).mean(axis=axis)
    return q - m * m


def f_unravel_index(i, shape, order='C'):
    """contract: the digits of i"""
    i = np.asarray(i, dtype=object)
    shape = [int(b) for b in np.atleast_1d(shape)]
    tot = int(np.prod(shape))
    out = [np.empty(i.shape, dtype=object) for _ in shape]
    for p in np.ndindex(i.shape):
        v = sc(i[p])
        if not v.is_int():
            raise TypeError('only int indices permitted')
        if not bool(v >= 0) or not bool(v < tot):
            raise ValueError('index is out of bounds for array with size %d' % tot)
        ds = [Sc({((new_atom('digit', v, k, tuple(shape), order), 1),): F1}) for k in range(len(shape))]
        t = Atoms.tab()
        s = sc(0)
        w = 1
        for k in (range(len(shape)) if order == 'F' else reversed(range(len(shape)))):
            s = s + ds[k] * w
            w *= shape[k]
        for e in [s - v]:
            t['cons'].append(('eq', e))
        for d, b in zip(ds, shape):
            t['cons'] += [('ge', d), ('le', d - (b - 1))]
        for k in range(len(shape)):
            out[k][p] = ds[k]
    return tuple(wrap(o) if o.ndim else o[()] for o in out)


def f_ravel_multi_index(ix, shape, mode='raise', order='C', **k):
    if mode != 'raise':
        raise Unsupported('ravel_multi_index')
    shape = [int(b) for b in np.atleast_1d(shape)]
    ix = [np.asarray(x, dtype=object) for x in ix]
    out = np.empty(ix[0].shape, dtype=object)
    for p in np.ndindex(out.shape):
        s, w = sc(0), 1
        for k in (range(len(shape)) if order == 'F' else reversed(range(len(shape)))):
            d = sc(ix[k][p])
            if not d.is_int():
                raise TypeError('only int indices permitted')
            if not bool(d >= 0) or not bool(d < shape[k]):
                raise ValueError('invalid entry in coordinates array')
            s = s + d * w
            w *= shape[k]
        out[p] = s
    return wrap(out) if out.ndim else out[()]


def f_where(c, *a):
    c = np.asarray(c)
    if c.dtype == object:
        c = np.array([bool(v) for v in c.flat], dtype=bool).reshape(c.shape)
    if not a:
        return np.where(c)
    return wrap(np.where(c, np.asarray(a[0], dtype=object), np.asarray(a[1], dtype=object)))


def f_nonzero(x):
    x = np.asarray(x)
    if x.dtype == object:
        x = np.array([bool(v) for v in x.flat], dtype=bool).reshape(x.shape)
    return np.nonzero(x)


def f_median_bad(*a, **k):
    raise Unsupported('median')


def f_svd(A, full_matrices=True, compute_uv=True, **k):
    """contract: singular values in decreasing order, not negative; the singular vectors are
    arbitrary (their orthonormality is not needed where this is used)"""
    A = np.asarray(A, dtype=object)
    if A.ndim != 2 or full_matrices:
        raise Unsupported('svd')
    h = tuple(sc(v).key() for v in A.flat), A.shape
    t = Atoms.tab().setdefault('svd', {})
    if h not in t and path().tables.get('@rank1'):
        r = rank_one_svd(A)
        if r:
            t[h] = r
    if h not in t:
        i = len(t)
        m, n = A.shape
        r = min(m, n)
        s = [var('sv%d_%d' % (i, j), lo=0) for j in range(r)]
        for j in range(r - 1):
            Atoms.tab()['cons'].append(('ge', s[j] - s[j + 1]))
        U = arr([[var('u%d_%d_%d' % (i, a, j)) for j in range(r)] for a in range(m)])
        V = arr([[var('v%d_%d_%d' % (i, j, a)) for a in range(n)] for j in range(r)])
        t[h] = (U, arr(s), V)
    U, s, V = t[h]
    return U.copy(), s.copy(), V.copy()


def rank_one_svd(A):
    """exact contract for a matrix of rank one: A = U0 s0 V0^T with unit U0 and V0, the other
    singular values are zero, their vectors arbitrary.  U0 is minus a normalised column, the
    sign LAPACK usually gives; None if the matrix is not of rank one"""
    m, n = A.shape
    j0 = next((j for j in range(n) if any(sc(A[i, j]).n for i in range(m))), None)
    if j0 is None:
        return None
    for j in range(n):
        for i in range(m):
            for k in range(i):
                if (sc(A[i, j]) * A[k, j0] - sc(A[k, j]) * A[i, j0]).n:
                    return None
    nu = nonneg([(1, A[i, j0]) for i in range(m)])
    if not bool(nu > 0):
        return None
    c0 = nu.sqrt()
    u = [-A[i, j0] / c0 for i in range(m)]
    # |A|^2 = |column|^2 |multiples|^2
    i0 = next(i for i in range(m) if sc(A[i, j0]).n)
    mult = []
    for j in range(n):
        if j == j0:
            mult.append(sc(1))
        else:
            w = sum(sc(A[i, j]) * A[i, j0] for i in range(m)) / nu
            mult.append(w)
    nv = nonneg([(1, w) for w in mult])
    c1 = nv.sqrt()
    r = min(m, n)
    i = len(Atoms.tab()['svd'])
    s = [c0 * c1] + [sc(0)] * (r - 1)
    U = arr([[u[a] if j == 0 else var('u%d_%d_%d' % (i, a, j)) for j in range(r)] for a in range(m)])
    V = arr([[-mult[a] / c1 if j == 0 else var('v%d_%d_%d' % (i, j, a)) for a in range(n)] for j in range(r)])
    return U, arr(s), V


def f_eig(A, **k):
    """contract: A has the decompositions the harness declared (values in any order), each
    checked here to be one: A V = V diag(lam), V^T V = 1, distinct values"""
    A = np.asarray(A, dtype=object)
    n = A.shape[0]
    for lam, V in reversed(path().tables.get('@eig', [])):
        if len(lam) != n:
            continue
        R = [prove_zero(sc(sum(A[i, q] * V[q, j] for q in range(n)) - V[i, j] * lam[j]))[0] for i in range(n) for j in range(n)]
        R += [prove_zero(sc(sum(V[q, i] * V[q, j] for q in range(n)) - (i == j)))[0] for i in range(n) for j in range(n)]
        if all(r is True for r in R):
            return arr(list(lam)), arr([list(r) for r in V])
    try:
        N = np.array([[float(v) for v in r] for r in A])
    except Unsupported:
        N = None
    if N is not None:
        note('numpy.linalg.eig on constants, in floating point')
        return tuple(np.linalg.eig(N))
    raise Unsupported('eigenvalues of a matrix without a declared decomposition')


def f_cumprod(x, axis=None, **k):
    x = arr(x)
    if axis is None:
        x = x.reshape(-1)
        axis = 0
    return wrap(np.cumprod(np.asarray(x), axis=axis))


def f_round(*a, **k):
    raise Unsupported('rounding')


def f_isreal(x):
    return np.ones(np.shape(x), bool) if np.ndim(x) else True


FN = {
    'unravel_index': f_unravel_index, 'ravel_multi_index': f_ravel_multi_index,
    'array': f_array, 'asarray': f_array, 'asanyarray': f_array, 'lexsort': f_lexsort, 'argsort': f_argsort, 'sort': f_sort,
    'nanmin': f_nanmin, 'min': _red(_first(lt)), 'amin': _red(_first(lt)), 'max': _red(_first(lambda a, b: lt(b, a))), 'amax': _red(_first(lambda a, b: lt(b, a))),
    'argmin': _argfirst(lt), 'argmax': _argfirst(lambda a, b: lt(b, a)), 'unique': f_unique, 'matmul': f_matmul,
    'allclose': f_allclose, 'isclose': f_isclose, 'array_equal': f_array_equal, 'linalg.norm': f_norm, 'polyval': f_polyval,
    'searchsorted': f_searchsorted, 'isin': f_isin, 'in1d': lambda a, b, **k: f_isin(np.ravel(np.asarray(a, dtype=object)), b, **k), 'linalg.solve': f_solve, 'where': f_where, 'nonzero': f_nonzero,
    'linalg.svd': f_svd, 'linalg.eig': f_eig, 'cumprod': f_cumprod, 'isreal': f_isreal, 'iscomplexobj': lambda x: False, 'isrealobj': lambda x: True,
    'linalg.inv': f_inv, 'linalg.pinv': f_pinv, 'linalg.qr': f_qr, 'linalg.cond': f_cond, 'var': f_var, 'linalg.cholesky': f_cholesky, 'linalg.lstsq': f_lstsq,
    'mean': lambda x, axis=None, **k: arr(x).mean(axis=axis, **k),
    'isnan': lambda x: np.array([isnan1(v) for v in np.asarray(x, dtype=object).flat]).reshape(np.shape(x)) if np.ndim(x) else isnan1(x),
    'isfinite': lambda x: np.array([isinstance(v, Sc) or math.isfinite(v) for v in np.asarray(x, dtype=object).flat]).reshape(np.shape(x)) if np.ndim(x) else True,
    'isinf': lambda x: np.array([not isinstance(v, Sc) and math.isinf(v) for v in np.asarray(x, dtype=object).flat]).reshape(np.shape(x)) if np.ndim(x) else False,
    'round': f_round, 'around': f_round, 'median': f_median_bad,
    'isscalar': lambda x: isinstance(x, (Sc, int, float, np.generic)),
    'all': lambda x, axis=None, **k: _red(all)(_tobool(x), axis=axis, **k) if axis is not None else all(bool(v) for v in np.asarray(x, dtype=object).flat),
    'any': lambda x, axis=None, **k: _red(any)(_tobool(x), axis=axis, **k) if axis is not None else any(bool(v) for v in np.asarray(x, dtype=object).flat),
    'count_nonzero': lambda x, **k: int(sum(bool(v) for v in np.asarray(x, dtype=object).flat)) if not k else _bad('count_nonzero'),
    'prod': _red(lambda l: __import__('functools').reduce(lambda a, b: a * b, l, 1)),
    'sum': lambda x, axis=None, keepdims=False, **k: _red(lambda l: sum(l[1:], l[0]) if l else 0)(x, axis=axis, keepdims=keepdims, **k),
    'abs': lambda x: elementwise(abs, x) if np.ndim(x) else abs(x), 'absolute': lambda x: elementwise(abs, x) if np.ndim(x) else abs(x),
    'sqrt': lambda x, **k: elementwise(lambda v: sc(v).sqrt(), x) if np.ndim(x) else sc(x).sqrt(),
    'floor': lambda x, **k: elementwise(lambda v: sc(v).floor(), x) if np.ndim(x) else sc(x).floor(),
    'ceil': lambda x, **k: elementwise(lambda v: sc(v).ceil(), x) if np.ndim(x) else sc(x).ceil(),
    'exp': lambda x, **k: elementwise(lambda v: sc(v).exp(), x) if np.ndim(x) else sc(x).exp(),
    'log': lambda x, **k: elementwise(lambda v: sc(v).log(), x) if np.ndim(x) else sc(x).log(),
    'square': lambda x, **k: arr(x) * arr(x) if np.ndim(x) else x * x,
    'real': lambda x: x, 'isneginf': lambda x: False,
}
# structural functions: numpy moves the entries without looking at them
PASS = {'reshape', 'transpose', 'concatenate', 'hstack', 'vstack', 'stack', 'column_stack', 'ravel', 'atleast_1d', 'atleast_2d', 'expand_dims', 'squeeze', 'repeat', 'tile',
        'flip', 'fliplr', 'flipud', 'roll', 'moveaxis', 'swapaxes', 'rollaxis', 'broadcast_to', 'meshgrid', 'split', 'array_split', 'hsplit', 'vsplit', 'dsplit', 'take', 'delete', 'insert', 'append', 'copy',
        'diag', 'diagonal', 'triu', 'tril', 'outer', 'kron', 'dot', 'vdot', 'inner', 'tensordot', 'einsum', 'cumsum', 'diff', 'trace', 'add', 'subtract', 'multiply', 'divide', 'true_divide',
        'negative', 'power', 'maximum', 'minimum', 'fmax', 'fmin', 'sign', 'mod', 'remainder', 'floor_divide', 'trunc', 'rint', 'shape', 'size', 'ndim', 'nan_to_num', 'ix_', 'full_like', 'zeros_like', 'ones_like',
        'greater', 'greater_equal', 'less', 'less_equal', 'equal', 'not_equal', 'logical_and', 'logical_or', 'logical_not', 'broadcast_arrays', 'fill_diagonal', 'float_power', 'cos', 'sin', 'result_type', 'setdiff1d', 'conjugate', 'conj', 'empty_like', 'broadcast', 'heaviside', 'clip', 'compress', 'choose', 'dstack', 'rot90', 'vander', 'polyder', 'linalg.multi_dot', 'permute_dims', 'array_repr', 'array_str', 'array2string'}


def _tobool(x):
    x = np.asarray(x)
    return np.array([bool(v) for v in x.flat], dtype=bool).reshape(x.shape)


def deep(x):
    """drop the symbolic type where no entry is symbolic"""
    if isinstance(x, SA) and not any(isinstance(v, (Sc, Fraction)) for v in x.flat):
        try:
            return np.asarray(x).astype(float)
        except (TypeError, ValueError):
            return x
    return x


class Proxy:
    def __init__(self, real, prefix=''):
        self.__dict__.update(_real=real, _prefix=prefix, _cache={})

    def __getattr__(self, name):
        c = self._cache
        if name in c:
            return c[name]
        r = getattr(self._real, name)
        q = self._prefix + name
        import types
        if isinstance(r, types.ModuleType):
            v = Proxy(r, q + '.')
        elif callable(r) and not isinstance(r, type):
            v = self._wrap(q, r)
        else:
            v = r
        c[name] = v
        return v

    def _wrap(self, q, r):
        def f(*a, **k):
            if has_sc(a) or has_sc(tuple(k.values())):
                if q in FN:
                    note('numpy.' + q)
                    return FN[q](*a, **k)
                if q in PASS:
                    note('numpy.' + q)
                    k = {x: y for x, y in k.items() if not (x == 'dtype' and y in (float, None))}
                    return wrap(r(*[np.asarray(x, dtype=object) if isinstance(x, (list, tuple)) and q in ('diag', 'dot', 'outer', 'kron', 'multiply', 'add') and has_sc(x) else x for x in a], **k))
                if any(isinstance(x, SA) for x in a):
                    b = tuple(deep(x) for x in a)
                    if not has_sc(b) and not has_sc(tuple(k.values())):
                        return r(*b, **k)
                raise Unsupported('numpy.%s on symbolic numbers' % q)
            if q in ('zeros', 'ones', 'empty', 'full', 'zeros_like', 'ones_like', 'empty_like', 'full_like') and (k.get('dtype') in (None, float, object) or k['dtype'] is int and path().tables.get('@intarr')) and len(a) <= (2 if q.startswith('full') else 1):
                o = r(*a, **k)
                if o.dtype in (np.float64, np.int64) and o.size <= 4096 and (o.dtype == np.float64 or k.get('dtype') is int):
                    x = np.empty(o.shape, dtype=object)
                    if q.startswith('empty'):
                        x[...] = 0
                    else:
                        for i in np.ndindex(o.shape):
                            v = float(o[i])
                            x[i] = int(v) if v.is_integer() else v
                    return x.view(SA)
                return o
            return r(*a, **k)
        f.__name__ = q
        return f


class Uniform:
    """contract of scipy.stats.uniform(loc, scale)"""

    @staticmethod
    def _each(f, real, x, loc, scale):
        if not has_sc((x, loc, scale)):
            return real(x, loc, scale)
        note('scipy.stats.uniform')
        return elementwise(f, x) if np.ndim(x) else f(x)

    def cdf(self, x, loc=0, scale=1):
        def f(v):
            t = (sc(v) - loc) / scale
            return sc(0) if bool(t <= 0) else sc(1) if bool(t >= 1) else t
        return self._each(f, stats_uniform().cdf, x, loc, scale)

    def ppf(self, x, loc=0, scale=1):
        def f(v):
            v = sc(v)
            return float('nan') if bool(v < 0) or bool(v > 1) else v * scale + loc
        return self._each(f, stats_uniform().ppf, x, loc, scale)

    def pdf(self, x, loc=0, scale=1):
        def f(v):
            t = (sc(v) - loc) / scale
            return sc(0) if bool(t < 0) or bool(t > 1) else 1 / sc(scale)
        return self._each(f, stats_uniform().pdf, x, loc, scale)


class Norm:
    """contract of scipy.stats.norm(loc, scale): the distribution function is an increasing
    function of (x - loc) / scale, the quantile function its inverse, the density that of the
    standard variable at the same point divided by scale"""

    @staticmethod
    def _each(f, real, x, loc, scale):
        if not has_sc((x, loc, scale)):
            return real(x, loc, scale)
        note('scipy.stats.norm')
        return elementwise(f, x) if np.ndim(x) else f(x)

    def cdf(self, x, loc=0, scale=1):
        def f(v):
            if isinstance(v, (float, np.floating)) and math.isinf(v):
                return sc(1 if v > 0 else 0)
            return ((sc(v) - loc) / scale).apply('F_normal')
        return self._each(f, stats_norm().cdf, x, loc, scale)

    def ppf(self, x, loc=0, scale=1):
        return self._each(lambda v: sc(v).apply('F_normal^-1') * scale + loc, stats_norm().ppf, x, loc, scale)

    def pdf(self, x, loc=0, scale=1):
        return self._each(lambda v: ((sc(v) - loc) / scale).apply('f_normal') / scale, stats_norm().pdf, x, loc, scale)


def stats_norm():
    import scipy.stats
    return scipy.stats.norm


def stats_uniform():
    import scipy.stats
    return scipy.stats.uniform


_PATCHED = []


def install():
    import sys
    import types
    import tensap  # noqa
    un, no = stats_uniform(), stats_norm()
    import scipy.sparse
    dg = scipy.sparse.diags

    def diags(d, *a, **k):
        if has_sc(d) and not a and not k:
            note('scipy.sparse.diags')
            return Diags(d)
        return dg(d, *a, **k)
    px = Proxy(np)
    for n, m in list(sys.modules.items()):
        if n == 'tensap' or n.startswith('tensap.'):
            for k, v in list(vars(m).items()):
                if v is np:
                    _PATCHED.append((m, k, v))
                    setattr(m, k, px)
                elif v is un:
                    _PATCHED.append((m, k, v))
                    setattr(m, k, Uniform())
                elif v is dg:
                    _PATCHED.append((m, k, v))
                    setattr(m, k, diags)
                elif v is no:
                    _PATCHED.append((m, k, v))
                    setattr(m, k, Norm())
                elif callable(v) and not isinstance(v, type) and getattr(v, '__module__', None) == 'numpy' and getattr(np, getattr(v, '__name__', ''), None) is v:
                    # from numpy import array, ...
                    _PATCHED.append((m, k, v))
                    setattr(m, k, getattr(px, v.__name__))
                elif isinstance(v, types.ModuleType) and v.__name__.startswith('numpy.'):
                    _PATCHED.append((m, k, v))
                    setattr(m, k, Proxy(v, v.__name__[6:] + '.'))


def uninstall():
    while _PATCHED:
        m, k, v = _PATCHED.pop()
        setattr(m, k, v)
