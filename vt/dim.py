"""Symbolic sizes: multivariate polynomials with rational coefficients over size
symbols (each symbol ranges over the integers >= its lower bound), and the path
explorer that forks the execution of the real code on undecided comparisons."""
import math
from fractions import Fraction


class Unsupported(BaseException):
    """The verified code used something outside the verifier's reach."""


class PathInfeasible(BaseException):
    pass


class Path:
    """One execution path: a list of decisions, replayed and then extended."""
    cur = None
    limit = 40

    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.trace = []          # (description, value)
        self.alternatives = []   # prefixes still to explore
        self.subst = {}          # symbol -> Dim
        self.cons = []           # constraints: ('eq0'|'ne0'|'ge0'|'lt0', Dim)
        self.lower = {}          # symbol -> lower bound
        self.fresh = 0
        self.memo = {}
        self.tables = {}
        self.nforks = 0

    def new_id(self, base):
        self.fresh += 1
        return '%s#%d' % (base, self.fresh)

    def decide(self, desc, can_true=True, can_false=True):
        if can_true and not can_false:
            return True
        if can_false and not can_true:
            return False
        k = len(self.trace)
        if k < len(self.prefix):
            v = self.prefix[k]
        else:
            v = True
            self.alternatives.append([t[1] for t in self.trace] + [False])
        self.trace.append((desc, v))
        self.nforks += 1
        if len(self.trace) > Path.limit:
            raise Unsupported('too many forks on one path')
        return v


def path():
    if Path.cur is None:
        Path.cur = Path()
    return Path.cur


class Dim:
    __slots__ = ('t',)
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t   # dict: monomial (tuple of sorted symbol names) -> Fraction

    @staticmethod
    def sym(name, lower=1):
        path().lower.setdefault(name, lower)
        return Dim({(name,): Fraction(1)})

    @staticmethod
    def of(x):
        if isinstance(x, Dim):
            return x
        if isinstance(x, (int,)):
            return Dim({(): Fraction(x)} if x else {})
        if isinstance(x, Fraction):
            return Dim({(): x} if x else {})
        if hasattr(x, 'dtype') and getattr(x, 'ndim', 1) == 0:
            x = x.item()
            if isinstance(x, Dim):
                return x
        if isinstance(x, int):
            return Dim({(): Fraction(x)} if x else {})
        if isinstance(x, float):
            if math.isfinite(x):
                f = Fraction(x)
                return Dim({(): f} if f else {})
        raise Unsupported('size of type %r' % (type(x),))

    def norm(self):
        s = path().subst
        if not s or not any(v in s for m in self.t for v in m):
            return self
        out = Dim({})
        for m, c in self.t.items():
            r = Dim({(): c})
            for v in m:
                r = r._mul(s[v].norm() if v in s else Dim({(v,): Fraction(1)}))
            out = out._add(r)
        return out

    def _add(self, o, sign=1):
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m, 0) + sign * c
            if v:
                t[m] = v
            else:
                t.pop(m, None)
        return Dim(t)

    def _mul(self, o):
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = tuple(sorted(m1 + m2))
                v = t.get(m, 0) + c1 * c2
                if v:
                    t[m] = v
                else:
                    t.pop(m, None)
        return Dim(t)

    def const(self):
        """int/Fraction value if constant, else None"""
        n = self.norm()
        if not n.t:
            return 0
        if len(n.t) == 1 and () in n.t:
            c = n.t[()]
            return int(c) if c.denominator == 1 else c
        return None

    def key(self):
        return tuple(sorted(self.norm().t.items()))

    def __hash__(self):
        c = self.const()
        return hash(c) if c is not None else hash(self.key())

    @staticmethod
    def wrap(d):
        c = d.const()
        return c if isinstance(c, int) else d

    def _bin(self, o, f):
        if isinstance(o, float) and (math.isinf(o) or math.isnan(o)):
            return NotImplemented
        from .sym import SymArray
        if isinstance(o, SymArray) or (hasattr(o, 'dtype') and getattr(o, 'ndim', 0) > 0):
            return NotImplemented
        return Dim.wrap(f(self, Dim.of(o)))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a._add(b))
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a._add(b, -1))

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b._add(a, -1))

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a._mul(b))
    __rmul__ = __mul__

    def __neg__(self):
        return Dim.wrap(Dim({})._add(self, -1))

    def __pos__(self):
        return self

    def __pow__(self, k):
        if not isinstance(k, int) or k < 0:
            raise Unsupported('Dim ** %r' % (k,))
        r = Dim.of(1)
        for _ in range(k):
            r = r._mul(self)
        return Dim.wrap(r)

    def _div(self, o):
        o = Dim.of(o).norm()
        a = self.norm()
        if len(o.t) == 1:
            (mo, co), = o.t.items()
            t = {}
            for m, c in a.t.items():
                rest = list(m)
                for v in mo:
                    if v not in rest:
                        return None
                    rest.remove(v)
                t[tuple(rest)] = c / co
            return Dim(t)
        if a.key() == o.key():
            return Dim.of(1)
        # try polynomial quotients by candidates: a = o * q with q a monomial/known poly
        return _polydiv(a, o)

    def idiv(self, o):
        """exact integer quotient or None"""
        r = self._div(o)
        if r is None or any(c.denominator != 1 for c in r.norm().t.values()):
            return None
        return r

    def __floordiv__(self, o):
        a, b = self.const(), Dim.of(o).const()
        if a is not None and b is not None:
            return a // b
        r = self.idiv(o)
        if r is None:
            raise Unsupported('inexact size division')
        return Dim.wrap(r)

    def __truediv__(self, o):
        r = self._div(o)
        if r is None:
            raise Unsupported('inexact size division')
        return Dim.wrap(r)

    def __rtruediv__(self, o):
        return Dim.of(o) / self

    def __mod__(self, o):
        a, b = self.const(), Dim.of(o).const()
        if a is not None and b is not None:
            return a % b
        r = self.idiv(o)
        if r is None:
            raise Unsupported('size modulo')
        return 0

    def __index__(self):
        c = self.const()
        if isinstance(c, int):
            return c
        raise Unsupported('symbolic size used as a concrete integer: %r' % (self,))

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __bool__(self):
        return self != 0

    def _rel(self, o, rel):
        if isinstance(o, float) and math.isinf(o):
            return {'lt': o > 0, 'le': o > 0, 'gt': o < 0, 'ge': o < 0, 'eq': False}[rel]
        try:
            o = Dim.of(o)
        except Unsupported:
            return NotImplemented
        d = self._add(o, -1)
        return decide_dim(d, rel)

    def __eq__(self, o):
        return self._rel(o, 'eq')

    def __ne__(self, o):
        r = self._rel(o, 'eq')
        return r if r is NotImplemented else not r

    def __lt__(self, o):
        return self._rel(o, 'lt')

    def __le__(self, o):
        return self._rel(o, 'le')

    def __gt__(self, o):
        return self._rel(o, 'gt')

    def __ge__(self, o):
        return self._rel(o, 'ge')

    def __repr__(self):
        n = self.norm()
        if not n.t:
            return '0'
        return '+'.join(('' if c == 1 and m else str(c)) + '*'.join(m) for m, c in sorted(n.t.items()))
    __str__ = __repr__

    def __format__(self, s):
        return repr(self)


def _polydiv(a, o):
    # multivariate exact division with lexicographic leading terms
    if not o.t:
        return None
    def lead(d):
        return max(d.t)
    q = Dim({})
    r = a
    lo = lead(o)
    for _ in range(50):
        if not r.t:
            return q
        lr = lead(r)
        rest = list(lr)
        for v in lo:
            if v not in rest:
                return None
            rest.remove(v)
        t = Dim({tuple(rest): r.t[lr] / o.t[lo]})
        q = q._add(t)
        r = r._add(t._mul(o), -1)
    return None


def _sign(d):
    """Sign information from the lower bounds (all symbols >= lower): returns
    (can_neg, can_zero, can_pos), over-approximated."""
    d = d.norm()
    c = d.const()
    if c is not None:
        return (c < 0, c == 0, c > 0)
    # substitute v = lower + v', v' >= 0 and look at coefficients
    out = Dim({})
    low = path().lower
    for m, c in d.t.items():
        r = Dim({(): c})
        for v in m:
            r = r._mul(Dim({(v,): Fraction(1)})._add(Dim.of(low.get(v, 0))))
        out = out._add(r)
    pos = all(c >= 0 for c in out.t.values())
    neg = all(c <= 0 for c in out.t.values())
    k = out.t.get((), 0)
    if pos:
        return (False, k == 0, True)
    if neg:
        return (True, k == 0, False)
    return (True, True, True)


def _z3_possible(d, rel):
    r"""Is path-condition /\ (d rel 0) satisfiable?  unknown counts as possible."""
    try:
        import z3
    except ImportError:
        return True
    p = path()
    s = z3.Solver()
    s.set('timeout', 2000)
    vs = {}

    def tr(x):
        x = x.norm()
        e = z3.IntVal(0)
        den = 1
        for c in x.t.values():
            den = den * c.denominator // math.gcd(den, c.denominator)
        for m, c in x.t.items():
            t = z3.IntVal(int(c * den))
            for v in m:
                if v not in vs:
                    vs[v] = z3.Int(v)
                t = t * vs[v]
            e = e + t
        return e

    def rl(e, r):
        return {'eq': e == 0, 'ne': e != 0, 'lt': e < 0, 'le': e <= 0, 'gt': e > 0, 'ge': e >= 0}[r]
    goal = rl(tr(d), rel)
    cs = [rl(tr(x), r) for r, x in p.cons]
    s.add(goal, *cs)
    for v in list(vs):
        s.add(vs[v] >= p.lower.get(v, 0))
    from . import stats
    r = stats.check(s)
    return r != z3.unsat


NEG = {'eq': 'ne', 'lt': 'ge', 'le': 'gt', 'gt': 'le', 'ge': 'lt', 'ne': 'eq'}


def decide_dim(d, rel):
    d = d.norm()
    n, z, p = _sign(d)
    holds = {'eq': z, 'ne': n or p, 'lt': n, 'le': n or z, 'gt': p, 'ge': p or z}
    ct, cf = holds[rel], holds[NEG[rel]]
    if ct and cf:
        k = (rel, d.key())
        pm = path().memo
        if k in pm:
            return pm[k]
        ct = _z3_possible(d, rel)
        cf = _z3_possible(d, NEG[rel])
        if not ct and not cf:
            raise PathInfeasible()
        if ct and cf:
            v = path().decide('%r %s 0' % (d, rel))
            assume_dim(d, rel if v else NEG[rel])
        else:
            v = ct
        path().memo[k] = v
        return v
    return ct


def assume_dim(d, rel):
    p = path()
    d = d.norm()
    p.cons.append((rel, d))
    if rel in ('le', 'ge', 'eq'):
        n, z, q = _sign(d)
        if (rel == 'le' and not n and z) or (rel == 'ge' and not q and z):
            rel = 'eq'
    if rel == 'eq':
        # solve for a symbol occurring linearly with coefficient +-1 as a monomial alone
        cand = []
        for m, c in d.t.items():
            if len(m) == 1 and abs(c) == 1 and not any(m[0] in m2 for m2 in d.t if m2 != m):
                cand.append((m[0], c))
        # prefer eliminating derived symbols, then the lexicographically largest
        cand.sort(key=lambda x: ('#' in x[0], x[0]), reverse=True)
        for v, c in cand:
            rest = Dim({m: x for m, x in d.t.items() if m != (v,)})
            r = rest._mul(Dim({(): Fraction(-1) / c}))
            # only substitute when the replacement respects the lower bound syntactically
            k = r.const()
            if k is not None or all(x > 0 for x in r.t.values()):
                p.subst[v] = r
                return


def size_min(a, b):
    """min of two sizes, as a fresh symbol k with k<=a, k<=b, k>=1 when not decided"""
    a, b = Dim.of(a), Dim.of(b)
    d = a._add(b, -1)
    n, z, p = _sign(d)
    if not p:
        return Dim.wrap(a)
    if not n:
        return Dim.wrap(b)
    key = ('min', tuple(sorted([a.key(), b.key()])))
    pm = path().memo
    if key in pm:
        return pm[key]
    k = Dim.sym(path().new_id('min'))
    assume_dim(k._add(a, -1), 'le')
    assume_dim(k._add(b, -1), 'le')
    pm[key] = k
    return k


def size_model(p, cap=40):
    """a small assignment of the size symbols satisfying the path condition p, or None"""
    try:
        import z3
    except ImportError:
        return None
    old = Path.cur
    Path.cur = p
    try:
        o = z3.Optimize()
        o.set('timeout', 3000)
        vs = {v: z3.Int(v) for v in p.lower}

        def tr(x):
            den = 1
            for c in x.t.values():
                den = den * c.denominator // math.gcd(den, c.denominator)
            e = z3.IntVal(0)
            for m, c in x.t.items():
                t = z3.IntVal(int(c * den))
                for v in m:
                    t = t * vs.setdefault(v, z3.Int(v))
                e = e + t
            return e
        rl = {'eq': lambda e: e == 0, 'ne': lambda e: e != 0, 'lt': lambda e: e < 0, 'le': lambda e: e <= 0, 'gt': lambda e: e > 0, 'ge': lambda e: e >= 0}
        for r, x in p.cons:
            o.add(rl[r](tr(x)))
        for v, d in p.subst.items():
            o.add(vs.setdefault(v, z3.Int(v)) == tr(d))
        for v, e in vs.items():
            o.add(e >= p.lower.get(v, 0))
        o.minimize(z3.Sum(list(vs.values())) if vs else z3.IntVal(0))
        if o.check() != z3.sat:
            return None
        m = o.model()
        out = {v: m.eval(e, model_completion=True).as_long() for v, e in vs.items() if '#' not in v}
        return out
    finally:
        Path.cur = old


def explore(fn, max_paths=200):
    """Run fn() once per feasible path; yields (path, result or exception)."""
    todo = [[]]
    n = 0
    while todo:
        pre = todo.pop()
        p = Path(pre)
        Path.cur = p
        n += 1
        if n > max_paths:
            raise Unsupported('more than %d paths' % max_paths)
        try:
            r = ('ok', fn())
        except PathInfeasible:
            todo.extend(p.alternatives)
            continue
        except (Exception, Unsupported) as e:   # reported by the caller
            r = ('exc', e)
        yield p, r
        todo.extend(p.alternatives)
    Path.cur = None
