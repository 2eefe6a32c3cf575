"""Relational engine: integer arrays of symbolic length and contents.

An array is a (symbolic) shape and a function from indices to z3 terms; the real function is
executed on such arrays.  Loops over symbolic ranges are cut by the Hoare rule: the statement
`for`/`while` of the real source is rewritten mechanically into
    initiation check; havoc; (one iteration; preservation check) or (exit)
with the body unchanged (break and continue keep their meaning), comprehensions over symbolic
arrays into a map, and `[]` into a list that can have a symbolic length.  Nothing is dropped.
Every index is an obligation (0 <= index < length).  Obligations are first order formulas over
integers and uninterpreted functions, discharged by z3 (refutation of the negation)."""
import ast
import builtins
import inspect
import math
import textwrap
import time
from fractions import Fraction
import numpy as _np
from .dim import Unsupported, path
from . import stats

USED = {}


def note(q):
    USED[q] = USED.get(q, 0) + 1


def z():
    import z3
    return z3


def tab():
    return path().tables.setdefault('@rel', {'ax': [], 'n': 0})


def fresh(name):
    t = tab()
    t['n'] += 1
    return '%s!%d' % (name, t['n'])


def ivar(name):
    return z().Int(fresh(name))


def fun(name, arity, out=None):
    Z = z()
    return Z.Function(fresh(name), *([Z.IntSort()] * arity), out if out is not None else Z.IntSort())


def seq_sort():
    """finite sequences of integers: only equality and concatenation (up to associativity) matter"""
    t = tab()
    if 'Word' not in t:
        Z = z()
        W = t['Word'] = Z.DeclareSort('Word')
        t['unit'] = Z.Function('unit', Z.IntSort(), W)
        t['cat'] = Z.Function('cat', W, W, W)
        t['empty'] = Z.Const('empty', W)
        t['size'] = Z.Function('size', W, Z.IntSort())
    return t['Word']


def is_seq(t):
    return t.sort().name() == 'Word'


def unit(v):
    seq_sort()
    return tab()['unit'](v)


def empty():
    seq_sort()
    return tab()['empty']


def cat(*ts):
    seq_sort()
    t = tab()
    parts = []

    def flat(x):
        if x.eq(t['empty']):
            return
        if x.decl().eq(t['cat']):
            flat(x.arg(0))
            flat(x.arg(1))
        else:
            parts.append(x)
    for x in ts:
        flat(x)
    if not parts:
        return t['empty']
    r = parts[-1]
    for x in parts[-2::-1]:
        r = t['cat'](x, r)
    return r


def entries_of_words():
    """get(w, i): entry i of a sequence; size(w): its length (definitions over unit and cat)"""
    t = tab()
    if 'get' not in t:
        Z = z()
        W = seq_sort()
        g = t['get'] = Z.Function('get', W, Z.IntSort(), Z.IntSort())
        n, u, k = t['size'], t['unit'], t['cat']
        a, b, i = Z.Const('a', W), Z.Const('b', W), Z.Int('i')
        assume(n(t['empty']) == 0)
        assume(Z.ForAll([i], Z.And(n(u(i)) == 1, g(u(i), 0) == i), patterns=[u(i)]))
        assume(Z.ForAll([a], n(a) >= 0, patterns=[n(a)]))
        assume(Z.ForAll([a, b], n(k(a, b)) == n(a) + n(b), patterns=[k(a, b)]))
        assume(Z.ForAll([a, b, i], g(k(a, b), i) == Z.If(i < n(a), g(a, i), g(b, i - n(a))), patterns=[g(k(a, b), i)]))
    return t['get']


def assume(f):
    tab()['ax'].append(f)


def forall(f, k=1, patterns=None):
    """for all integers; patterns: function of the variables giving a list of trigger terms"""
    Z = z()
    vs = [ivar('x') for _ in range(k)]
    b = f(*vs)
    if patterns is None:
        return Z.ForAll(vs, b)
    ps = patterns(*vs)
    return Z.ForAll(vs, b, patterns=[Z.MultiPattern(*p) if isinstance(p, (list, tuple)) else p for p in ps])


def assume_all(f):
    """for all integers, also written for x - 1 (triggers of terms in x + 1)"""
    assume(forall(f))
    Z = z()
    x = ivar('x')
    assume(Z.ForAll([x], Z.simplify(f(x - 1))))


def least(p, measure):
    """least number principle: if some x has p, some x with p has the least measure"""
    Z = z()
    w = ivar('least')
    assume(forall(lambda x: Z.Implies(p(x), Z.And(p(w), measure(w) <= measure(x))), 1, lambda x: [measure(x)]))
    return w


def entails(goal, timeout=None):
    """True: proved from the assumptions of the path; None: not proved"""
    Z = z()

    def attempt(ms, seed, fresh):
        s = Z.Solver()
        for a in tab()['ax']:
            s.add(a)
        s.add(Z.Not(goal))
        if fresh:
            s = s.translate(Z.Context())
        s.set('timeout', ms)
        s.set('auto_config', False)
        s.set('smt.mbqi', False)
        s.set('smt.random_seed', seed)
        return stats.check(s) == Z.unsat
    if timeout:
        return attempt(timeout, 0, False) or None
    # the search depends on the numbering of terms: a few independent attempts
    return any(attempt(ms, seed, fresh) for ms, seed, fresh in ((4000, 0, False), (6000, 0, True), (10000, 7, True))) or None


def cond(b):
    """the truth value of a condition: forks the path when it is not determined"""
    Z = z()
    b = Z.simplify(b)
    if Z.is_true(b) or Z.is_false(b):
        return Z.is_true(b)
    known = tab().setdefault('known', {})
    if b.get_id() in known:
        return known[b.get_id()][0]
    if entails(b, 500):
        v = True
    elif entails(Z.Not(b), 500):
        v = False
    else:
        if tab().get('generic'):
            raise Unsupported('condition on a generic element')
        v = path().decide(str(b)[:80])
        assume(b if v else Z.Not(b))
    if not tab().get('generic'):
        known[b.get_id()] = (v, b)
    return v


# ------------------------------------------------------------------ scalars
def zi(x):
    Z = z()
    if isinstance(x, I):
        return x.t
    if isinstance(x, B):
        return Z.If(x.t, Z.IntVal(1), Z.IntVal(0))
    if isinstance(x, (bool, _np.bool_)):
        return Z.IntVal(int(x))
    if isinstance(x, (int, _np.integer)):
        return Z.IntVal(int(x))
    if isinstance(x, _np.ndarray) and x.ndim == 0 and x.dtype.kind in 'iu':
        return Z.IntVal(int(x))
    if Z.is_expr(x):
        return Z.If(x, Z.IntVal(1), Z.IntVal(0)) if Z.is_bool(x) else x
    if isinstance(x, (float, _np.floating)) and math.isfinite(x):
        q = Fraction(float(x)).limit_denominator(10 ** 7)
        if abs(float(q) - float(x)) <= 1e-14 * max(1.0, abs(float(x))):
            return Z.RealVal(str(q))
    raise Unsupported('%s used as an integer' % type(x).__name__)


def zb(x):
    Z = z()
    if isinstance(x, B):
        return x.t
    if isinstance(x, (bool, _np.bool_)):
        return Z.BoolVal(bool(x))
    if Z.is_expr(x):
        return x if Z.is_bool(x) else x != 0
    return zi(x) != 0


def num(t):
    """the value of a term that is a numeral"""
    Z = z()
    t = Z.simplify(t)
    return t.as_long() if Z.is_int_value(t) else None


def wrap(t):
    Z = z()
    if Z.is_bool(t):
        return B(t)
    if is_seq(t):
        return Q(t)
    v = num(t)
    return I(t) if v is None else v


class I:
    __array_ufunc__ = None
    size, ndim, shape = 1, 0, ()

    def __init__(self, t):
        self.t = t

    def _op(self, o, f):
        if isinstance(o, (R, Q)):
            return NotImplemented
        return wrap(f(self.t, zi(o)))

    def __add__(self, o):
        return self._op(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._op(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._op(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._op(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (list, tuple)):
            raise Unsupported('list repeated a symbolic number of times')
        return self._op(o, lambda a, b: a * b)

    def __rmul__(self, o):
        if isinstance(o, (list, tuple)):
            raise Unsupported('list repeated a symbolic number of times')
        return self._op(o, lambda a, b: a * b)

    def __floordiv__(self, o):
        if num(zi(o)) is None or num(zi(o)) <= 0:
            raise Unsupported('division by a symbolic number')
        return self._op(o, lambda a, b: a / b)

    def __mod__(self, o):
        if num(zi(o)) is None or num(zi(o)) <= 0:
            raise Unsupported('remainder by a symbolic number')
        return self._op(o, lambda a, b: a % b)

    def __truediv__(self, o):
        return self._op(o, ratio)

    def __rtruediv__(self, o):
        return self._op(o, lambda a, b: ratio(b, a))

    def __pow__(self, p):
        return wrap(real_power(self.t, p))

    def __neg__(self):
        return wrap(-self.t)

    def __pos__(self):
        return self

    def __eq__(self, o):
        return False if o is None else self._op(o, lambda a, b: a == b)

    def __ne__(self, o):
        return True if o is None else self._op(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._op(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._op(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._op(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._op(o, lambda a, b: a >= b)

    def __bool__(self):
        return cond(self.t != 0)

    def __hash__(self):
        raise Unsupported('symbolic integer used as a key')

    def __index__(self):
        raise Unsupported('symbolic integer where Python needs its value')

    __int__ = __index__

    def __repr__(self):
        return 'I(%s)' % self.t

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    size = 1

    def flatten(self):
        return R((1,), lambda i: self.t)


def is_real(t):
    Z = z()
    return Z.is_expr(t) and Z.is_real(t)


def real(t):
    Z = z()
    return Z.ToReal(t) if Z.is_int(t) else t


def ratio(a, b):
    Z = z()
    if num(real(b)) is None:
        prove('no division by zero', b != 0)
    return real(a) / real(b)


def power_symbol(p):
    """x^p for x >= 0: an increasing function with 0^p = 0, 1^p = 1 and, for q = 1/p, (x^p)^q = x"""
    Z = z()
    if isinstance(p, (I, R)):
        raise Unsupported('symbolic exponent')
    q = Fraction(float(p)).limit_denominator(1000)
    if q <= 0:
        raise Unsupported('exponent that is not positive')
    if q == 1:
        return lambda t: t
    d = tab().setdefault('power', {})
    if q not in d:
        f = d[q] = Z.Function('power_%s' % q, Z.RealSort(), Z.RealSort())
        x, y = Z.Real('x'), Z.Real('y')
        assume(f(Z.RealVal(0)) == 0)
        assume(f(Z.RealVal(1)) == 1)
        assume(Z.ForAll([x], Z.Implies(x >= 0, f(x) >= 0), patterns=[f(x)]))
        assume(Z.ForAll([x, y], Z.Implies(Z.And(0 <= x, x < y), f(x) < f(y)), patterns=[Z.MultiPattern(f(x), f(y))]))
        if 1 / q in d:
            g = d[1 / q]
            assume(Z.ForAll([x], Z.Implies(x >= 0, f(g(x)) == x), patterns=[g(x)]))
            assume(Z.ForAll([x], Z.Implies(x >= 0, g(f(x)) == x), patterns=[f(x)]))
    f = d[q]
    return lambda t: f(real(t))


def real_power(t, p):
    f = power_symbol(p)
    prove('power of a number that is not negative', t >= 0)
    return f(t)


class PyInt(I):
    """an int of Python: not an array"""
    @property
    def size(self):
        raise AttributeError("'int' object has no attribute 'size'")


class B:
    __array_ufunc__ = None

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return cond(self.t)

    def __invert__(self):
        return wrap(z().Not(self.t))

    def __and__(self, o):
        return wrap(z().And(self.t, zb(o)))

    def __or__(self, o):
        return wrap(z().Or(self.t, zb(o)))
    __rand__, __ror__ = __and__, __or__

    def __eq__(self, o):
        return wrap(self.t == zb(o))

    def __ne__(self, o):
        return wrap(self.t != zb(o))

    def __hash__(self):
        raise Unsupported('symbolic condition used as a key')

    def __index__(self):
        raise Unsupported('symbolic condition where Python needs its value')

    def __repr__(self):
        return 'B(%s)' % self.t


class Q:
    """a finite sequence of integers (an element of a list of arrays)"""
    __array_ufunc__ = None

    def __init__(self, t):
        self.t = t

    @property
    def size(self):
        return wrap(tab()['size'](self.t))

    def __iter__(self):
        raise Unsupported('iteration over a sequence term')

    def __len__(self):
        raise Unsupported('length of a sequence term')

    # the entries of the sequence
    def arr(self):
        get = entries_of_words()
        t = self.t
        return R((tab()['size'](t),), lambda i: get(t, i))

    def __getitem__(self, k):
        return self.arr()[k]

    def __add__(self, o):
        return self.arr() + o

    def __sub__(self, o):
        return self.arr() - o

    def __eq__(self, o):
        raise Unsupported('comparison of sequence terms')

    def __hash__(self):
        raise Unsupported('sequence term used as a key')

    def __repr__(self):
        return 'Q(%s)' % self.t


def has(x, depth=0):
    if isinstance(x, (I, B, R, Q, L, Poison)):
        return True
    if isinstance(x, (list, tuple)) and depth < 3:
        return any(has(y, depth + 1) for y in x)
    if isinstance(x, slice):
        return has([x.start, x.stop, x.step])
    return False


# ------------------------------------------------------------------ arrays
def prove(label, f):
    c = path().tables['@ctx']
    c.prove(label, f)


def within(i, n, what='index in range'):
    Z = z()
    g = Z.simplify(Z.And(0 <= i, i < n))
    if not Z.is_true(g):
        prove(what, g)


class R:
    """array: shape (z3 terms), f: indices -> term.  mem: the set of the entries, when known;
    meta: where the array comes from (for the hints of the harness)"""
    __array_ufunc__ = None

    def __init__(self, shape, f, mem=None, meta=None, rank=None):
        self.sh = tuple(zi(s) for s in shape)
        self.f, self.mem, self.meta, self.rank = f, mem, meta, rank

    # python side
    @property
    def shape(self):
        return tuple(wrap(s) for s in self.sh)

    @property
    def ndim(self):
        return len(self.sh)

    @property
    def size(self):
        r = self.sh[0]
        for s in self.sh[1:]:
            r = r * s
        return wrap(r)

    def __len__(self):
        v = num(self.sh[0])
        if v is None:
            raise Unsupported('len() of a symbolic array')
        return v

    def __iter__(self):
        v = num(self.sh[0])
        if v is None or self.ndim != 1:
            raise Unsupported('iteration over a symbolic array')
        return iter([wrap(self.f(z().IntVal(k))) for k in range(v)])

    def __bool__(self):
        raise Unsupported('truth value of an array')

    def __hash__(self):
        raise Unsupported('array used as a key')

    def freeze(self):
        return R(self.sh, self.f, self.mem, self.meta, self.rank)

    def copy(self):
        return self.freeze()

    def flatten(self):
        if self.ndim == 1:
            return self.freeze()
        raise Unsupported('flatten of a symbolic matrix')
    ravel = flatten

    def astype(self, t):
        if t is int:
            f = self.f
            return R(self.sh, lambda *i: zi(f(*i)), self.mem, self.meta)
        raise Unsupported('astype')

    def _bin(self, o, op, swap=False):
        f = self.f
        if isinstance(o, R):
            if o.ndim != self.ndim:
                raise Unsupported('arrays of different dimensions')
            for a, b in zip(self.sh, o.sh):
                if not z().is_true(z().simplify(a == b)):
                    prove('same sizes', a == b)
            g = o.f
            return R(self.sh, (lambda *i: op(g(*i), f(*i))) if swap else (lambda *i: op(f(*i), g(*i))))
        if isinstance(o, (I, B, int, float, _np.integer, _np.floating, bool, _np.bool_)) or isinstance(o, _np.ndarray) and o.ndim == 0:
            v = zi(o)
            return R(self.sh, (lambda *i: op(v, f(*i))) if swap else (lambda *i: op(f(*i), v)), meta=self.meta)
        raise Unsupported('operation between a symbolic array and %s' % type(o).__name__)

    def _shift(self, r, o, sign):
        # the set of the entries of x + v
        if self.mem is not None and not isinstance(o, R) and self.ndim == 1:
            v, m = zi(o), self.mem
            r.mem = lambda y: m(y - v if sign > 0 else y + v)
            if hasattr(self, "at"):
                at = self.at
                r.at = lambda y: at(y - v if sign > 0 else y + v)
        if self.rank is not None and not isinstance(o, R):
            v2, k = zi(o), self.rank
            r.rank = lambda y: k(y - v2 if sign > 0 else y + v2)
        return r

    def __add__(self, o):
        return self._shift(self._bin(o, lambda a, b: zi(a) + zi(b)), o, 1)
    __radd__ = __add__

    def __sub__(self, o):
        return self._shift(self._bin(o, lambda a, b: zi(a) - zi(b)), o, -1)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: zi(a) - zi(b), True)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: zi(a) * zi(b))
    __rmul__ = __mul__

    def _in_range(self, ix):
        return z().And(*[z().And(0 <= i, i < n) for i, n in zip(ix, self.sh)])

    def __truediv__(self, o):
        Z = z()
        if isinstance(o, R):
            ix = [ivar('i') for _ in o.sh]
            prove('no division by zero', Z.ForAll(ix, Z.Implies(o._in_range(ix), o.f(*ix) != 0)))
        else:
            prove('no division by zero', zi(o) != 0)
        return self._bin(o, lambda a, b: real(zi(a)) / real(zi(b)))

    def __rtruediv__(self, o):
        Z = z()
        ix = [ivar('i') for _ in self.sh]
        prove('no division by zero', Z.ForAll(ix, Z.Implies(self._in_range(ix), self.f(*ix) != 0)))
        return self._bin(o, lambda a, b: real(zi(a)) / real(zi(b)), True)

    def __neg__(self):
        f = self.f
        return R(self.sh, lambda *i: -zi(f(*i)))

    def __pow__(self, p):
        return np_power(self, p)

    @property
    def T(self):
        return np_transpose(self)

    def __iadd__(self, o):
        self.f = (self + o).f
        self.mem = self.rank = None
        return self

    def __isub__(self, o):
        self.f = (self - o).f
        self.mem = self.rank = None
        return self

    def __eq__(self, o):
        return self._bin(o, lambda a, b: zi(a) == zi(b))

    def __ne__(self, o):
        return self._bin(o, lambda a, b: zi(a) != zi(b))

    def __lt__(self, o):
        return self._bin(o, lambda a, b: zi(a) < zi(b))

    def __le__(self, o):
        return self._bin(o, lambda a, b: zi(a) <= zi(b))

    def __gt__(self, o):
        return self._bin(o, lambda a, b: zi(a) > zi(b))

    def __ge__(self, o):
        return self._bin(o, lambda a, b: zi(a) >= zi(b))

    def __and__(self, o):
        return self._bin(o, lambda a, b: z().And(zb(a), zb(b)))

    def __or__(self, o):
        return self._bin(o, lambda a, b: z().Or(zb(a), zb(b)))

    def __invert__(self):
        f = self.f
        return R(self.sh, lambda *i: z().Not(zb(f(*i))), meta=self.meta)

    def isbool(self):
        return z().is_bool(self.f(*[z().IntVal(0)] * self.ndim))

    # indexing
    def _slice(self, k, axis):
        """-> (start, length)"""
        Z = z()
        n = self.sh[axis]
        if k.step not in (None, 1):
            raise Unsupported('slice with a step')
        a = zi(0 if k.start is None else k.start)
        b = n if k.stop is None else zi(k.stop)
        if k.start is not None and not Z.is_true(Z.simplify(Z.And(a >= 0, a <= n))):
            prove('slice within the array', Z.And(a >= 0, a <= n))
        if k.stop is not None and num(b) is not None and num(b) < 0:
            b = n + b
        if k.stop is not None and not Z.is_true(Z.simplify(Z.And(b >= a, b <= n))):
            if is_real(zi(self.f(*[Z.IntVal(0)] * self.ndim))) if not self.isbool() and not is_seq(self.f(*[Z.IntVal(0)] * self.ndim)) else False:
                # Python cuts the slice at the end of the array
                if not entails(b <= n):
                    b = Z.If(b > n, n, b)
                prove('slice within the array', b >= a)
            else:
                prove('slice within the array', Z.And(b >= a, b <= n))
        return a, Z.simplify(b - a)

    def _key(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        if len(key) == 1 and self.ndim > 1:
            key = key + (slice(None),) * (self.ndim - 1)
        return tuple(R((1,), lambda i, v=k: zi(v[0])) if isinstance(k, (list, _np.ndarray)) and len(k) == 1 and not isinstance(k[0], (list, R)) else k for k in key)

    def __getitem__(self, key):
        Z = z()
        if isinstance(key, tuple) and key and isinstance(key[0], str):
            return self._entries(key[1])
        key = self._key(key)
        key = tuple(k.arr() if isinstance(k, Q) else k for k in key)
        f = self.f
        if self.ndim == 1:
            if len(key) == 2 and key[1] is None and isinstance(key[0], slice) and key[0] == slice(None):
                return R((self.sh[0], 1), lambda i, j: f(i))
            if len(key) != 1:
                raise Unsupported('index of a vector')
            k = key[0]
            if isinstance(k, slice):
                a, l = self._slice(k, 0)
                return R((l,), lambda i: f(i + a))
            if isinstance(k, R):
                if k.isbool():
                    if not Z.is_true(Z.simplify(k.sh[0] == self.sh[0])):
                        prove('mask of the right size', k.sh[0] == self.sh[0])
                    e = nonzero(k)
                    return self._gather(e)
                return self._gather(k)
            i = zi(k)
            if num(i) is not None and num(i) < 0:
                i = i + self.sh[0]
            within(i, self.sh[0])
            return wrap(Z.simplify(f(i)))
        if self.ndim != 2 or len(key) != 2:
            raise Unsupported('index of an array')
        a, b = key
        scal = lambda x: isinstance(x, (I, int, _np.integer))
        if scal(a) and scal(b):
            i, j = zi(a), zi(b)
            within(i, self.sh[0])
            within(j, self.sh[1])
            return wrap(f(i, j))
        if scal(a) and isinstance(b, slice):
            i = zi(a)
            within(i, self.sh[0])
            s, l = self._slice(b, 1)
            return R((l,), lambda j: f(i, j + s), meta=('row', self.meta, i) if b == slice(None) else None)
        if isinstance(a, slice) and scal(b):
            j = zi(b)
            within(j, self.sh[1])
            s, l = self._slice(a, 0)
            return R((l,), lambda i: f(i + s, j), meta=('col', self.meta, j) if a == slice(None) else None)
        if isinstance(a, slice) and a == slice(None) and isinstance(b, R) and b.ndim == 1 and not b.isbool():
            g = b.f
            x = ivar('k')
            prove('indices in range', Z.ForAll([x], Z.Implies(Z.And(0 <= x, x < b.sh[0]), Z.And(0 <= g(x), g(x) < self.sh[1]))))
            return R((self.sh[0], b.sh[0]), lambda i, j: f(i, g(j)), meta=('gather', self.meta, b))
        if isinstance(a, slice) and isinstance(b, slice):
            s, l = self._slice(a, 0)
            s2, l2 = self._slice(b, 1)
            return R((l, l2), lambda i, j: f(i + s, j + s2))
        if isinstance(a, R) and isinstance(b, R) and a.ndim == 2 and b.ndim == 1 and num(a.sh[1]) == 1:
            g, h = a.f, b.f
            x = ivar('k')
            prove('indices in range', Z.ForAll([x], Z.Implies(Z.And(0 <= x, x < a.sh[0]), Z.And(0 <= g(x, Z.IntVal(0)), g(x, Z.IntVal(0)) < self.sh[0]))))
            prove('indices in range', Z.ForAll([x], Z.Implies(Z.And(0 <= x, x < b.sh[0]), Z.And(0 <= h(x), h(x) < self.sh[1]))))
            return R((a.sh[0], b.sh[0]), lambda i, j: f(g(i, Z.IntVal(0)), h(j)))
        raise Unsupported('index of a matrix')

    def _entries(self, x):
        """the entries of a flattened matrix that are not zero"""
        Z = z()
        if x is not self:
            raise Unsupported('nonzero of another array')
        m = self.meta[1]
        a, b, y = ivar('a'), ivar('b'), ivar('y')
        for h in path().tables['@ctx'].sets:
            cand = h(m)
            if cand is None:
                continue
            mem, wit = cand
            i, j = wit(y)
            if entails(Z.ForAll([a, b], Z.Implies(Z.And(0 <= a, a < m.sh[0], 0 <= b, b < m.sh[1], m.f(a, b) != 0), mem(m.f(a, b))))) \
                    and entails(Z.Implies(mem(y), Z.And(0 <= i, i < m.sh[0], 0 <= j, j < m.sh[1], m.f(i, j) == y, y != 0))):
                return enumeration_of(mem, 'entries', False)
        raise Unsupported('nonzero entries of a matrix')

    def _gather(self, k):
        Z = z()
        if k.ndim != 1:
            raise Unsupported('gather with a matrix')
        g, f = k.f, self.f
        x = ivar('k')
        prove('indices in range', Z.ForAll([x], Z.Implies(Z.And(0 <= x, x < k.sh[0]), Z.And(0 <= g(x), g(x) < self.sh[0]))))
        return R(k.sh, lambda i: f(g(i)), meta=('gather', self, k))

    def __setitem__(self, key, val):
        Z = z()
        key = self._key(key)
        f = self.f
        if len(key) == 1 and isinstance(key[0], Q):
            v = [v for v in path().tables['@ctx'].singletons if entails(key[0].t == unit(v))]
            if not v:
                raise Unsupported('assignment at the entries of a word')
            key = (vec([wrap(v[0])]),)
        scal = lambda x: isinstance(x, (I, B, int, _np.integer, bool, _np.bool_))
        isb = self.isbool()
        isq = is_seq(f(*[Z.IntVal(0)] * self.ndim))
        cv = (lambda v: v) if isq else zb if isb else zi
        self.mem = self.rank = None
        if self.ndim == 1 and len(key) == 1:
            k = key[0]
            if isinstance(k, R) and k.isbool():
                if not Z.is_true(Z.simplify(k.sh[0] == self.sh[0])):
                    prove('mask of the right size', k.sh[0] == self.sh[0])
                if not scal(val):
                    raise Unsupported('array assigned to a mask')
                m, v = k.f, cv(val)
                self.f = lambda i: Z.If(zb(m(i)), v, f(i))
                return
            if isinstance(k, R):
                inv = None if scal(val) and k.mem is not None else inverse(k, not scal(val))
                x = ivar('k')
                g = k.f
                prove('indices in range', Z.ForAll([x], Z.Implies(Z.And(0 <= x, x < k.sh[0]), Z.And(0 <= g(x), g(x) < self.sh[0]))))
                if scal(val):
                    v = cv(val)
                    e = k.mem
                    self.f = lambda i: Z.If(inv(i) >= 0 if inv is not None else e(i), v, f(i))
                elif isinstance(val, R) and val.ndim == 1:
                    if not Z.is_true(Z.simplify(val.sh[0] == k.sh[0])):
                        prove('as many values as indices', val.sh[0] == k.sh[0])
                    h = val.f
                    self.f = lambda i: Z.If(inv(i) >= 0, cv(h(inv(i))), f(i))
                else:
                    raise Unsupported('assignment')
                return
            if isinstance(k, slice):
                s, l = self._slice(k, 0)
                if scal(val):
                    v = cv(val)
                    self.f = lambda i: Z.If(Z.And(i >= s, i < s + l), v, f(i))
                elif isinstance(val, R) and val.ndim == 1:
                    prove('same sizes', val.sh[0] == l)
                    h = val.f
                    self.f = lambda i: Z.If(Z.And(i >= s, i < s + l), cv(h(i - s)), f(i))
                else:
                    raise Unsupported('assignment')
                return
            if isinstance(k, (I, int, _np.integer)):
                j = zi(k)
                if num(j) is not None and num(j) < 0:
                    j = j + self.sh[0]
                within(j, self.sh[0])
                if isq:
                    if not isinstance(val, Q):
                        raise Unsupported('assignment')
                    v = val.t
                else:
                    v = cv(val)
                self.f = lambda i: Z.If(i == j, v, f(i))
                return
        if self.ndim == 2 and len(key) == 2:
            rng = []
            for ax in (0, 1):
                k = key[ax]
                if isinstance(k, slice):
                    s, l = self._slice(k, ax)
                    rng.append((s, l, True))
                elif isinstance(k, (I, int, _np.integer)):
                    j = zi(k)
                    within(j, self.sh[ax])
                    rng.append((j, Z.IntVal(1), False))
                else:
                    raise Unsupported('assignment to a matrix')
            inside = lambda i, j: Z.And(*[Z.And(x >= r[0], x < r[0] + r[1]) if r[2] else x == r[0] for x, r in zip((i, j), rng)])
            if scal(val):
                v = cv(val)
                self.f = lambda i, j: Z.If(inside(i, j), v, f(i, j))
                return
            sl = [r for r in rng if r[2]]
            if isinstance(val, R) and val.ndim == len(sl):
                for r, s in zip(sl, val.sh):
                    if not Z.is_true(Z.simplify(r[1] == s)):
                        prove('same sizes', r[1] == s)
                h = val.f

                def at(i, j):
                    ix = [x - r[0] for x, r in zip((i, j), rng) if r[2]]
                    return cv(h(*ix))
                self.f = lambda i, j: Z.If(inside(i, j), at(i, j), f(i, j))
                return
        raise Unsupported('assignment')


def inverse(k, injective):
    """inv(x): a position of x among the entries of k, or -1"""
    Z = z()
    g, n = k.f, k.sh[0]
    if injective:
        a, b = ivar('k'), ivar('l')
        prove('no repeated index', Z.ForAll([a, b], Z.Implies(Z.And(0 <= a, a < b, b < n), g(a) != g(b))))
    inv = fun('inv', 1)
    assume(forall(lambda x: Z.And(inv(x) >= -1, inv(x) < n, Z.Implies(inv(x) >= 0, g(inv(x)) == x)), 1, lambda x: [inv(x)]))
    assume_all(lambda j: Z.Implies(Z.And(0 <= j, j < n), Z.And(inv(g(j)) >= 0, *([inv(g(j)) == j] if injective else []))))
    return inv


def is_enumeration(mask, count, g, inv):
    """g: [0, count) -> indices where the mask holds, increasing, inv its inverse (proved)"""
    Z = z()
    n = mask.sh[0]
    a, b, x = ivar('k'), ivar('l'), ivar('x')
    m = lambda i: zb(mask.f(i))
    goals = [count >= 0,
             Z.ForAll([a], Z.Implies(Z.And(0 <= a, a < count), Z.And(0 <= g(a), g(a) < n, m(g(a))))),
             Z.ForAll([a, b], Z.Implies(Z.And(0 <= a, a < b, b < count), g(a) < g(b))),
             Z.ForAll([x], Z.Implies(Z.And(0 <= x, x < n, m(x)), Z.And(0 <= inv(x), inv(x) < count, g(inv(x)) == x)))]
    return all(entails(t) for t in goals)


def nonzero(mask):
    """the increasing enumeration of the indices where a vector is not zero.  It is unique, so
    an enumeration proposed by the harness is taken once it is proved to be it."""
    Z = z()
    note('numpy.nonzero / boolean mask')
    n = mask.sh[0]
    ctx = path().tables['@ctx']
    for h in ctx.enumerations:
        cand = h(mask)
        if cand is None:
            continue
        if is_enumeration(mask, *cand):
            count, g, inv = cand
            return R((count,), g, mem=lambda x: Z.And(0 <= x, x < n, zb(mask.f(x))), rank=inv)
    count, g, inv = ivar('count'), fun('nz', 1), fun('rank', 1)
    m = lambda i: zb(mask.f(i))
    assume(Z.And(count >= 0, count <= n))
    assume(forall(lambda k: Z.Implies(Z.And(0 <= k, k < count), Z.And(0 <= g(k), g(k) < n, m(g(k)), inv(g(k)) == k)), 1, lambda k: [g(k)]))
    assume_all(lambda x: Z.Implies(Z.And(0 <= x, x < n, m(x)), Z.And(0 <= inv(x), inv(x) < count, g(inv(x)) == x)))
    assume(forall(lambda k, l: Z.Implies(Z.And(0 <= k, k < l, l < count), g(k) < g(l)), 2, lambda k, l: [(g(k), g(l))]))
    for x in ctx.instances:
        assume(Z.Implies(Z.And(0 <= x, x < n, m(x)), Z.And(0 <= inv(x), inv(x) < count, g(inv(x)) == x)))
    return R((count,), g, mem=lambda x: Z.And(0 <= x, x < n, m(x)), rank=inv)


def enumeration_of(mem, name='set', increasing=True):
    """a vector whose entries are the elements of a finite set of integers, once each when increasing"""
    Z = z()
    count, g, inv = ivar(name), fun(name, 1), fun('at', 1)
    assume(count >= 0)
    assume(forall(lambda k: Z.Implies(Z.And(0 <= k, k < count), mem(g(k))), 1, lambda k: [g(k)]))
    assume(forall(lambda x: Z.Implies(mem(x), Z.And(0 <= inv(x), inv(x) < count, g(inv(x)) == x)), 1, lambda x: [inv(x)]))
    assume_all(lambda x: Z.Implies(mem(x), Z.And(0 <= inv(x), inv(x) < count, g(inv(x)) == x)))
    if increasing:
        assume(forall(lambda k, l: Z.Implies(Z.And(0 <= k, k < l, l < count), g(k) < g(l)), 2, lambda k, l: [(g(k), g(l))]))
    r = R((count,), g, mem=mem)
    r.at = inv
    return r


class L:
    """list (of integers) of symbolic length"""
    def __init__(self, r=None):
        self.r = r if r is not None else R((0,), lambda i: z().IntVal(0))

    def append(self, v):
        Z = z()
        n, f, v = self.r.sh[0], self.r.f, zi(v)
        self.r = R((n + 1,), lambda i: Z.If(i == n, v, f(i)))

    def __len__(self):
        raise Unsupported('len() of a symbolic list')

    def __iter__(self):
        raise Unsupported('iteration over a symbolic list')


class Poison:
    """value of a variable after a loop that the invariant does not describe"""
    def __init__(self, name):
        object.__setattr__(self, 'name', name)

    def _no(self, *a, **k):
        raise Unsupported('variable %s is not described by the loop invariant' % object.__getattribute__(self, 'name'))
    __getattr__ = __setattr__ = __getitem__ = __setitem__ = __call__ = __iter__ = __len__ = __bool__ = __index__ = _no
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __contains__ = _no
    __hash__ = None


def vec(x):
    """1-D array from a list of numbers or an array"""
    if isinstance(x, R):
        return x
    if isinstance(x, L):
        return x.r
    if isinstance(x, Q):
        return x.arr()
    if isinstance(x, I):
        return R((1,), lambda i: x.t)
    if isinstance(x, (list, tuple, _np.ndarray)):
        Z = z()
        v = [zi(y) for y in x]

        def f(i):
            if not v:
                return Z.IntVal(0)
            r = v[-1]
            for k in range(len(v) - 2, -1, -1):
                r = Z.If(i == k, v[k], r)
            return r
        return R((len(v),), f, mem=lambda y: Z.Or(*[y == t for t in v]) if v else Z.BoolVal(False))
    raise Unsupported('%s as an array' % type(x).__name__)


def seq(x):
    """the sequence of the entries"""
    Z = z()
    if isinstance(x, Q):
        return x.t
    if isinstance(x, L):
        x = x.r
    if isinstance(x, R) and x.ndim == 1 and num(x.sh[0]) is not None:
        x = [x.f(Z.IntVal(k)) for k in builtins.range(num(x.sh[0]))]
    if isinstance(x, (list, tuple, _np.ndarray)):
        return cat(*[unit(zi(y)) for y in x])
    raise Unsupported('%s as a sequence term' % type(x).__name__)


# ------------------------------------------------------------------ numpy
class NP:
    def __getattr__(self, name):
        real = getattr(_np, name)
        mine = globals().get('np_' + name)
        if name == 'linalg':
            return Linalg()
        if not callable(real) or isinstance(real, type):
            return real

        def f(*a, **k):
            a = tuple(int if x is rel_int else x for x in a)
            k = {n: int if x is rel_int else x for n, x in k.items()}
            if has(a) or has(tuple(k.values())):
                if mine is None:
                    raise Unsupported('numpy.%s on symbolic arrays' % name)
                note('numpy.' + name)
                return mine(*a, **k)
            return real(*a, **k)
        return f


class Linalg:
    def __getattr__(self, name):
        fn = getattr(_np.linalg, name)

        def f(*a, **k):
            if has(a) or any(isinstance(x, Opaque) for x in a):
                h = path().tables['@ctx'].linalg.get(name)
                if h is None:
                    raise Unsupported('numpy.linalg.%s on symbolic arrays' % name)
                note('numpy.linalg.' + name)
                return h(*a, **k)
            return fn(*a, **k)
        return f


class Opaque:
    """a matrix of which only the shape is used"""
    __array_ufunc__ = None

    def __init__(self, *sh):
        self.sh = sh

    @property
    def shape(self):
        return tuple(wrap(s) for s in self.sh)
    ndim = 2


def np_power(x, p):
    Z = z()
    if isinstance(x, R):
        g, f = power_symbol(p), x.f
        ix = [ivar('i') for _ in x.sh]
        prove('power of numbers that are not negative', Z.ForAll(ix, Z.Implies(x._in_range(ix), f(*ix) >= 0)))
        return R(x.sh, lambda *i: g(f(*i)))
    return x ** p


def np_sqrt(x):
    return np_power(x, 0.5) if isinstance(x, R) else wrap(real_power(zi(x), 0.5))


def np_square(x):
    return np_power(x, 2)


def np_flip(x, axis=None):
    if not isinstance(x, R) or x.ndim != 1:
        raise Unsupported('flip')
    f, n = x.f, x.sh[0]
    return R(x.sh, lambda i: f(n - 1 - i))


def prefix_sums(x):
    """k -> sum of the first k entries: a closed form proposed by the harness is proved by induction"""
    Z = z()
    x = vec(x)
    if x.ndim != 1:
        raise Unsupported('sum of a matrix')
    f, n = x.f, x.sh[0]
    for h in path().tables['@ctx'].sums:
        p = h(x)
        k = ivar('k')
        if p is not None and entails(p(Z.IntVal(0)) == 0) and entails(Z.Implies(Z.And(0 <= k, k < n), p(k + 1) == p(k) + f(k))):
            return p
    p = fun('prefix_sum', 1, Z.RealSort() if is_real(f(Z.IntVal(0))) else None)
    assume(p(Z.IntVal(0)) == 0)
    assume_all(lambda k: Z.Implies(Z.And(0 <= k, k < n), p(k + 1) == p(k) + f(k)))
    return p


def np_cumsum(x):
    x = vec(x)
    p = prefix_sums(x)
    return R(x.sh, lambda i: p(i + 1))


def np_atleast_1d(x):
    return vec(x)


def np_atleast_2d(x):
    if isinstance(x, R) and x.ndim == 2:
        return x
    if isinstance(x, R) and x.ndim == 1:
        f = x.f
        return R((1, x.sh[0]), lambda i, j: f(j))
    raise Unsupported('atleast_2d')


def np_transpose(x):
    if isinstance(x, R) and x.ndim == 2:
        f = x.f
        return R((x.sh[1], x.sh[0]), lambda i, j: f(j, i))
    if isinstance(x, R) and x.ndim == 1:
        return x
    raise Unsupported('transpose')


def np_any(x):
    Z = z()
    if isinstance(x, R) and x.ndim == 1:
        i = ivar('i')
        return B(Z.Exists([i], Z.And(0 <= i, i < x.sh[0], zb(x.f(i)))))
    raise Unsupported('any')


def np_all(x):
    Z = z()
    if isinstance(x, R) and x.ndim == 1:
        i = ivar('i')
        return B(Z.ForAll([i], Z.Implies(Z.And(0 <= i, i < x.sh[0]), zb(x.f(i)))))
    raise Unsupported('all')


def np_copy(x):
    return x.copy() if isinstance(x, R) else x


def np_array(x, dtype=None):
    if isinstance(x, I):
        return I(x.t)
    if isinstance(x, Q):
        return x
    return vec(x).copy()


np_asarray = lambda x, dtype=None: x if isinstance(x, R) else np_array(x)


def dims_of(shape):
    return tuple(shape) if isinstance(shape, (list, tuple)) else (shape,)


def np_zeros(shape, dtype=float):
    if dtype not in (int, bool):
        raise Unsupported('symbolic array of numbers that are not integers')
    Z = z()
    for s in dims_of(shape):
        if num(zi(s)) is None:
            prove('no negative size', zi(s) >= 0)
    return R(dims_of(shape), lambda *i: Z.BoolVal(False) if dtype is bool else Z.IntVal(0))


def np_ones(shape, dtype=float):
    if dtype is not int:
        raise Unsupported('symbolic array of numbers that are not integers')
    return R(dims_of(shape), lambda *i: z().IntVal(1))


def np_full(shape, v, dtype=None):
    v = zb(v) if isinstance(v, (bool, B)) else zi(v)
    return R(dims_of(shape), lambda *i: v)


def np_repeat(v, n):
    return np_full((n,), v)


def np_arange(a, b=None, step=1):
    Z = z()
    if b is None:
        a, b = 0, a
    a, b = zi(a), zi(b)
    if num(zi(step)) not in (1, -1):
        raise Unsupported('arange with a step')
    s = num(zi(step))
    d = b - a if s == 1 else a - b
    n = Z.simplify(d)
    if entails(n >= 0, 2000) is None:
        n = Z.If(n > 0, n, Z.IntVal(0))
    r = R((n,), lambda i: a + s * i, mem=lambda x: Z.And(x >= a, x < b) if s == 1 else Z.And(x <= a, x > b), rank=lambda x: (x - a) * s)
    return r


def rel_range(*a):
    return np_arange(*a) if has(a) else builtins.range(*a)


def rel_len(x):
    if isinstance(x, (R, L)):
        r = x.r if isinstance(x, L) else x
        return wrap(r.sh[0])
    return builtins.len(x)


def rel_enumerate(x, start=0):
    if has(x):
        raise Unsupported('enumerate of a symbolic array')
    return builtins.enumerate(x, start)


def rel_int(x=0, *a):
    return x if isinstance(x, I) else wrap(zi(x)) if isinstance(x, B) else builtins.int(x, *a)


def rel_any(x):
    if isinstance(x, R):
        raise Unsupported('any')
    return builtins.any(x)


def np_nonzero(x):
    if isinstance(x, R) and x.ndim == 1:
        return (nonzero(x),)
    if isinstance(x, R) and x.ndim == 2 and num(x.sh[0]) == 1 and x.meta and x.meta[0] == 'flat':
        return ('nonzero of a row', x)
    raise Unsupported('nonzero')


def np_flatnonzero(x):
    return nonzero(x)


def np_sum(x, axis=None):
    """sum of a matrix of zeros and ones along the rows: the numbers of the ones"""
    Z = z()
    ctx = path().tables['@ctx']
    if isinstance(x, R) and x.ndim == 1 and axis in (None, 0):
        return wrap(prefix_sums(x)(x.sh[0]))
    if not isinstance(x, R) or x.ndim != 2 or axis not in (1, 0) or ctx.row_ones is None:
        raise Unsupported('sum')
    i = ivar('i')
    f = x.f if axis == 1 else (lambda i, j: x.f(j, i))
    count, g, inv = ctx.row_ones(axis, i)
    k = ivar('j')
    row = R((x.sh[axis],), lambda j: f(i, j) != 0)
    prove('zeros and ones', Z.ForAll([i, k], Z.Implies(Z.And(0 <= i, i < x.sh[1 - axis], 0 <= k, k < x.sh[axis]), Z.Or(f(i, k) == 0, f(i, k) == 1))))
    mark = len(tab()['ax'])
    assume(Z.And(0 <= i, i < x.sh[1 - axis]))
    ok = is_enumeration(row, count, g, inv)
    del tab()['ax'][mark:]
    if not ok:
        raise Unsupported('sum of a row')
    return R((x.sh[1 - axis],), lambda t: ctx.row_ones(axis, t)[0])


def extremum(x, sign):
    Z = z()
    if isinstance(x, R) and x.ndim == 1:
        prove('not empty', x.sh[0] > 0)
        w, f = ivar('argmax'), x.f
        m = Z.Real(fresh('max')) if is_real(f(w)) else ivar('max')
        assume(Z.And(0 <= w, w < x.sh[0], f(w) == m))
        assume_all(lambda i: Z.Implies(Z.And(0 <= i, i < x.sh[0]), f(i) <= m if sign > 0 else f(i) >= m))
        for t in path().tables['@ctx'].instances:
            assume(Z.Implies(Z.And(0 <= t, t < x.sh[0]), f(t) <= m if sign > 0 else f(t) >= m))
        return wrap(m)
    if isinstance(x, (list, tuple)) and all(isinstance(y, (I, int, float, _np.number)) for y in x):
        inf = math.inf if sign < 0 else -math.inf
        ts = [zi(y) for y in x if not (isinstance(y, (float, _np.floating)) and y == inf)]
        r = ts[0]
        for t in ts[1:]:
            r = Z.If(t < r, t, r) if sign < 0 else Z.If(t > r, t, r)
        return wrap(r)
    raise Unsupported('max')


def np_max(x, axis=None):
    return extremum(x, 1)


def np_min(x, axis=None):
    return extremum(x, -1)


def np_matmul(v, a):
    """row times matrix whose columns have at most one entry that is not zero: that entry"""
    Z = z()
    ctx = path().tables['@ctx']
    v = vec(v) if not isinstance(v, builtins.range) else vec(list(v))
    if not isinstance(a, R) or a.ndim != 2 or ctx.column_entry is None:
        raise Unsupported('matmul')
    prove('same sizes', v.sh[0] == a.sh[0])
    i, j = ivar('i'), ivar('j')
    w = ctx.column_entry
    n, m = a.sh
    ok = entails(Z.ForAll([i, j], Z.Implies(Z.And(0 <= i, i < n, 0 <= j, j < m, a.f(i, j) != 0), w(j) == i)))
    if not ok:
        raise Unsupported('sum with more than one term')

    def f(j):
        x = a.f(w(j), j)
        return Z.If(Z.And(0 <= w(j), w(j) < n), Z.If(x == 1, v.f(w(j)), Z.If(x == 0, Z.IntVal(0), x * v.f(w(j)))), Z.IntVal(0))
    return R((m,), f)


np_dot = np_matmul


def np_reshape(x, shape):
    Z = z()
    if isinstance(x, R) and x.ndim == 2 and list(shape) == [1, -1]:
        row, col, at = fun('row', 1), fun('col', 1), fun('flat', 2)
        n = x.sh[0] * x.sh[1]
        N = ivar('n')
        assume(N == n)
        assume(N >= 0)
        assume(forall(lambda q: Z.Implies(Z.And(0 <= q, q < N), Z.And(0 <= row(q), row(q) < x.sh[0], 0 <= col(q), col(q) < x.sh[1], at(row(q), col(q)) == q)), 1, lambda q: [row(q)]))
        assume(forall(lambda a, b: Z.Implies(Z.And(0 <= a, a < x.sh[0], 0 <= b, b < x.sh[1]), Z.And(0 <= at(a, b), at(a, b) < N, row(at(a, b)) == a, col(at(a, b)) == b)), 2, lambda a, b: [at(a, b)]))
        f = x.f
        r = R((1, N), lambda i, q: f(row(q), col(q)), meta=('flat', x, at))
        return r
    if isinstance(x, R) and x.ndim == 1 and shape in (-1, [-1], (-1,)):
        return x.copy()
    raise Unsupported('reshape')


def np_isin(x, s):
    Z = z()
    x, s = vec(x), vec(s)
    if s.mem is not None:
        m = s.mem
        f = x.f
        return R(x.sh, lambda *i: m(f(*i)))
    inv = inverse(s, False)
    f = x.f
    return R(x.sh, lambda *i: inv(f(*i)) >= 0)


np_in1d = np_isin


def members(x):
    x = vec(x)
    if x.mem is not None:
        return x.mem
    inv = inverse(x, False)
    return lambda y: inv(y) >= 0


def np_setdiff1d(a, b):
    Z = z()
    m, k = members(a), members(b)
    return enumeration_of(lambda x: Z.And(m(x), Z.Not(k(x))))


def np_union1d(a, b):
    m, k = members(a), members(b)
    return enumeration_of(lambda x: z().Or(m(x), k(x)))


def np_unique(a):
    return enumeration_of(members(a))


def np_concatenate(xs, axis=0):
    Z = z()
    if any(isinstance(x, Q) for x in xs):
        return Q(cat(*[seq(x) for x in xs]))
    xs = [vec(x) for x in xs]
    off = [Z.IntVal(0)]
    for x in xs:
        off.append(Z.simplify(off[-1] + x.sh[0]))

    def f(i):
        r = xs[-1].f(i - off[-2])
        for k in builtins.range(len(xs) - 2, -1, -1):
            r = Z.If(i < off[k + 1], xs[k].f(i - off[k]), r)
        return r
    mem = None
    if all(x.mem is not None for x in xs):
        mem = lambda y: Z.Or(*[x.mem(y) for x in xs])
    r = R((off[-1],), f, mem=mem)
    r.parts = list(zip(off, xs))
    return r


def np_append(a, b):
    return np_concatenate((a, b))


def np_hstack(xs):
    """concatenation of a list of sequences"""
    Z = z()
    if isinstance(xs, R) and is_seq(xs.f(Z.IntVal(0))):
        for h in path().tables['@ctx'].families:
            count, f, total = h(xs)
            k = ivar('k')
            if entails(count == xs.sh[0]) and entails(Z.ForAll([k], Z.Implies(Z.And(0 <= k, k < count), xs.f(k) == f(k)))):
                return Q(total)
        raise Unsupported('concatenation of a symbolic list of arrays')
    return np_concatenate(xs)


def np_split(x, n):
    Z = z()
    if isinstance(x, R) and entails(zi(n) == x.sh[0]):
        f = x.f
        return R(x.sh, lambda i: unit(f(i)))
    raise Unsupported('split')


def np_sort(x):
    """of a sequence: a function of its multiset of entries"""
    Z = z()
    s = tab().setdefault('sort', Z.Function('sorted', seq_sort(), seq_sort()))
    return Q(s(seq(x)))


def np_array_equal(a, b):
    return wrap(seq(a) == seq(b))


# ------------------------------------------------------------------ the cut of loops
class Loop:
    """state(c, k, env): dict name -> value after k iterations; assume(c, k, env): more facts;
    check: obligations of the same form as assume (the same function by default);
    kinds: names compared by their set of entries instead of entry by entry"""
    def __init__(self, state, facts=None, sets=()):
        self.state, self.facts, self.sets = state, facts, set(sets)


class Cut:
    def __init__(self, c, name, loops):
        self.c, self.name, self.loops = c, name, loops
        self.run = {}

    def cut(self, j, it=None):
        if it is None:
            return j in self.loops
        if not has(it):
            return False
        if isinstance(it, R) and num(it.sh[0]) is not None and j not in self.loops:
            return False
        if j not in self.loops:
            raise Unsupported('loop %d of %s has no invariant' % (j, self.name))
        return True

    def begin(self, j, it, env, mutated):
        Z = z()
        sp = self.loops[j]
        sp.it = it
        env = {k: v for k, v in env.items() if not k.startswith('__')}
        zero = sp.state(self.c, Z.IntVal(0), env)
        missing = [m for m in mutated if m not in zero and m in env]
        if missing:
            raise Unsupported('%s is modified in loop %d of %s and not described by its invariant' % (missing, j, self.name))
        self.compare(j, 'initiation', env, zero, sp, Z.IntVal(0))
        k = ivar('iteration')
        assume(k >= 0)
        st = sp.state(self.c, k, env)
        for n, v in st.items():
            o = env.get(n)
            if n not in mutated or isinstance(o, (I, int)):
                continue
            if isinstance(o, R) and isinstance(v, R):
                o.sh, o.f, o.mem, o.rank = v.sh, v.f, v.mem, v.rank
                st[n] = o
            elif isinstance(o, L) and isinstance(v, L):
                o.r = v.r
                st[n] = o
            else:
                raise Unsupported('%s is modified in place in loop %d of %s' % (n, j, self.name))
        for _, f in (sp.facts(self.c, k, env) if sp.facts else []):
            assume(f)
        self.run[j] = (k, it, st)

    def value(self, j, name):
        return self.run[j][2].get(name, Poison(name))

    def more(self, j):
        k, it, st = self.run[j]
        assume(k <= it.sh[0])
        return cond(k < it.sh[0])

    def element(self, j):
        k, it, st = self.run[j]
        return wrap(it.f(k))

    def preserve(self, j, env):
        from .ctx import SkipCase
        k, it, st = self.run[j]
        sp = self.loops[j]
        env = {a: v for a, v in env.items() if not a.startswith('__')}
        self.compare(j, 'preservation', env, sp.state(self.c, k + 1, env), sp, k + 1)
        raise SkipCase()

    def compare(self, j, what, env, want, sp, k):
        lab = 'loop %d of %s, %s' % (j, self.name, what)
        for n, v in want.items():
            if n not in env:
                raise Unsupported('no variable %s in %s' % (n, self.name))
            if n in sp.sets:
                self.c.same_set('%s: set %s' % (lab, n), env[n], v)
            else:
                self.c.equal('%s: %s' % (lab, n), env[n], v)
        for l, f in (sp.facts(self.c, k, env) if sp.facts else []):
            self.c.prove('%s: %s' % (lab, l), f)


class Rewrite(ast.NodeTransformer):
    def __init__(self):
        self.n = 0

    def visit_List(self, node):
        self.generic_visit(node)
        if not node.elts and isinstance(node.ctx, ast.Load):
            return ast.copy_location(ast.Call(ast.Name('__list__', ast.Load()), [], []), node)
        return node

    def visit_ListComp(self, node):
        self.generic_visit(node)
        if len(node.generators) == 1 and not node.generators[0].ifs and isinstance(node.generators[0].target, ast.Name):
            g = node.generators[0]
            lam = ast.Lambda(ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, []), node.elt)
            return ast.copy_location(ast.Call(ast.Name('__map__', ast.Load()), [lam, g.iter], []), node)
        return node

    @staticmethod
    def assigned(stmts):
        names, mut = set(), set()
        for s in stmts:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    names.add(x.id)
                if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store):
                    mut.add(x.value.id if isinstance(x.value, ast.Name) else '.')
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                    mut.add('.')
                if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                    mut.add(x.target.id)
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.attr in ('append', 'extend', 'insert', 'pop', 'remove', 'sort', 'reverse', 'fill', 'resize', 'update', 'add'):
                    mut.add(x.func.value.id)
                if isinstance(x, ast.NamedExpr):
                    names.add(x.target.id)
        return sorted(n for n in names if not n.startswith('__')), sorted(mut)

    def loop(self, node):
        j = self.n
        self.n += 1
        names, mut = self.assigned(node.body)
        if '.' in mut:
            raise Unsupported('attribute assigned in a loop')
        if node.orelse:
            raise Unsupported('else of a loop')
        is_for = isinstance(node, ast.For)
        tg = ast.unparse(node.target) if is_for else ''
        import copy
        body = []
        for s in node.body:
            r = self.visit(copy.deepcopy(s))
            body += r if isinstance(r, list) else [r]
        end = self.n
        P = lambda s: ast.parse(textwrap.dedent(s)).body
        out = []
        if is_for:
            out += P('__it%d = None' % j)
            out[0].value = self.visit(node.iter)
        head = P('__rel__.begin(%d, %s, dict(locals()), %r)' % (j, '__it%d' % j if is_for else 'None', mut))
        head += [x for n in names for x in P('%s = __rel__.value(%d, %r)' % (n, j, n))]
        once = P('for __once in (0,):\n    pass\nelse:\n    __rel__.preserve(%d, dict(locals()))' % j)[0]
        once.body = body
        if is_for:
            step = P('if __rel__.more(%d):\n    %s = __rel__.element(%d)' % (j, tg, j))[0]
            step.body.append(once)
        else:
            step = ast.If(node.test, [once], [])
            step.test = self.visit(node.test)
        cutv = head + [step]
        native = copy.copy(node)
        native.body = [copy.deepcopy(s) for s in body]
        native.orelse = []
        if is_for:
            native.iter = ast.Name('__it%d' % j, ast.Load())
        test = P('__rel__.cut(%d%s)' % (j, ', __it%d' % j if is_for else ''))[0].value
        out.append(ast.If(test, cutv, [native]))
        self.n = end
        return [ast.fix_missing_locations(ast.copy_location(s, node)) for s in out]

    visit_For = visit_While = loop


def made_after(t, count):
    """whether a term holds a symbol introduced after the given count"""
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z().is_quantifier(x):
            todo.append(x.body())
            continue
        if z().is_app(x):
            n = x.decl().name()
            if '!' in n and n.rpartition('!')[2].isdigit() and int(n.rpartition('!')[2]) > count:
                return True
            todo.extend(x.children())
    return False


def rel_map(f, it):
    if isinstance(it, R) and num(it.sh[0]) is None and it.ndim == 1:
        k = ivar('k')
        mark = len(tab()['ax'])
        x = it.f(k)
        assume(z().And(0 <= k, k < it.sh[0]))
        if it.mem is not None:
            assume(it.mem(x))
        was = tab().get('generic')
        tab()['generic'] = True
        count = tab()['n']
        y = f(wrap(x))
        tab()['generic'] = was
        del tab()['ax'][mark:]
        Z = z()
        t = y.t if isinstance(y, (I, B, Q)) else zb(y) if isinstance(y, (bool, _np.bool_)) else zi(y)
        if count != tab()['n'] and made_after(t, count):
            # a symbol introduced for one element stands for that element only
            raise Unsupported('element of a comprehension described by a new symbol')
        r = R(it.sh, lambda i: Z.substitute(t, (k, i if Z.is_expr(i) else Z.IntVal(i))))
        r.over = it
        return r
    return [f(x) for x in it]


def source(fn):
    f = inspect.unwrap(getattr(fn, '__func__', fn))
    src = textwrap.dedent(inspect.getsource(f))
    return f, ast.parse(src)


def real_function(c, fn, loops=None, names=None):
    """the real function, its loops cut at the given invariants; names: contracts that replace
    global names (the constructor of the result)"""
    f, tree = source(fn)
    if f.__closure__:
        raise Unsupported('closure')
    fd = tree.body[0]
    fd.decorator_list = []
    if any(isinstance(x, (ast.FunctionDef, ast.Global, ast.Nonlocal, ast.Yield)) for s in fd.body for x in ast.walk(s)):
        raise Unsupported('function with inner functions')
    rw = Rewrite()
    body = []
    for s in fd.body:
        r = rw.visit(s)
        body += r if isinstance(r, list) else [r]
    fd.body = body
    ast.fix_missing_locations(tree)
    g = dict(f.__globals__)
    g.update(np=NP(), range=rel_range, len=rel_len, enumerate=rel_enumerate, int=rel_int, any=rel_any, __map__=rel_map, __list__=L,
             __rel__=Cut(c, f.__qualname__, loops or {}))
    g.update(names or {})
    exec(compile(tree, inspect.getsourcefile(f), 'exec'), g)
    return g[fd.name]


def install():
    pass


def uninstall():
    pass
