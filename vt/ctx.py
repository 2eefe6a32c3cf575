"""The two execution modes of a contract harness.

A harness builds inputs, calls the real code and states postconditions.  In
symbolic mode (SymCtx) sizes and entries are symbolic and every postcondition is
an obligation discharged for all of them; in concrete mode (ConCtx) sizes and
entries are drawn at random: the bounded stand-in, and the replay of a failure."""
import contextlib
import string
import numpy as np
from .dim import Dim, Unsupported, path, decide_dim
from . import sym, idx
from .sym import SymArray


class SkipCase(Exception):
    pass


class Failure(Exception):
    pass


HARNESSES = []


class Harness:
    def __init__(self, prop, name, fn, configs, symbolic, concrete, functions, quick=None, exhaustive=False, tol=1e-9, tags=(), engine='array', paths=200):
        self.engine, self.paths = engine, paths
        if engine == 'scalar':
            self.backend = 'rational normal form and z3'
        if engine == 'relational':
            self.backend = 'first order formulas, z3'
        self.prop, self.name, self.fn = prop, name, fn
        self.configs, self.symbolic, self.concrete = configs, symbolic, concrete
        self.functions, self.exhaustive, self.tol = functions, exhaustive, tol
        self.mode = 'value'
        self.tags = tags


def harness(prop, functions, configs=None, symbolic=True, concrete=8, name=None, exhaustive=False, tol=1e-9, engine='array', paths=200):
    """register a contract harness.  concrete = number of random cases per config
    (quick tier)"""
    def deco(fn):
        props = prop if isinstance(prop, (list, tuple)) else [prop]
        for p in props:
            HARNESSES.append(Harness(p, name or fn.__name__, fn, configs or [{}], symbolic, concrete, functions if isinstance(functions, (list, tuple)) else [functions], exhaustive=exhaustive, tol=tol, engine=engine, paths=paths))
        return fn
    return deco


# ------------------------------------------------------------------ snapshots
PUBLIC = {
    'FullTensor': ['data'],
    'CanonicalTensor': ['core', 'space'],
    'DiagonalTensor': ['data', '_order', 'order', 'shape'],
    'SparseTensor': ['data', 'indices', 'shape'],
    'TreeBasedTensor': ['tensors', 'ranks', 'is_active_node', 'tree'],
    'DimensionTree': ['adjacency_matrix', 'dim2ind', 'dims', 'root', 'is_leaf', 'level'],
    'MultiIndices': ['array'],
    'Truncator': ['tolerance', 'max_rank', 'thresholding_type', 'thresholding_parameter'],
}


class Lazy:
    """a symbolic value, put in normal form when compared (under the path condition known
    then)"""
    __hash__ = None

    def __init__(self, x):
        self.x = x.copy() if hasattr(x, 'copy') else x

    def form(self):
        return self.x.norm().key() if isinstance(self.x, Dim) else self.x.canon()

    def __eq__(self, o):
        return isinstance(o, Lazy) and type(self.x) is type(o.x) and self.form() == o.form()


def snapshot(x, depth=0):
    if depth > 8:
        return None
    if isinstance(x, SymArray):
        return ('sym', Lazy(x))
    if isinstance(x, Dim):
        return ('dim', Lazy(x))
    if hasattr(x, 'canon') and hasattr(x, 'cols'):
        return ('int', Lazy(x))
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ('objarr', x.shape, tuple(snapshot(y, depth + 1) for y in x.flat))
        return ('arr', x.shape, x.astype(float).tobytes() if x.dtype.kind in 'ifub' else x.tobytes())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(snapshot(y, depth + 1) for y in x)
    if isinstance(x, dict):
        return ('dict',) + tuple((repr(k), snapshot(v, depth + 1)) for k, v in sorted(x.items(), key=lambda kv: repr(kv[0])))
    if x is None or isinstance(x, (bool, int, float, str, complex, np.generic)):
        return ('v', repr(x.item() if isinstance(x, np.generic) else x))
    n = type(x).__name__
    if n in PUBLIC:
        out = [n]
        for a in PUBLIC[n]:
            try:
                v = getattr(x, a)
            except (Exception, Unsupported):
                continue
            if callable(v) and not isinstance(v, (np.ndarray,)):
                continue
            out.append((a, snapshot(v, depth + 1)))
        return tuple(out)
    if callable(x) and not hasattr(x, '__dict__'):
        return ('fn', id(x))
    if hasattr(x, '__dict__'):
        return (n,) + tuple((k, snapshot(v, depth + 1)) for k, v in sorted(vars(x).items()) if not k.startswith('_'))
    return ('obj', id(x))


def diff(a, b, where=''):
    if type(a) != type(b):
        return where
    if isinstance(a, tuple):
        if len(a) != len(b):
            return where
        for i, (x, y) in enumerate(zip(a, b)):
            tag = x if isinstance(x, str) and i == 0 else ''
            d = diff(x, y, where + '/' + (x[0] if isinstance(x, tuple) and x and isinstance(x[0], str) else str(i)))
            if d is not None:
                return d
        return None
    return None if a == b else where


class Ctx:
    # 'value': postconditions about results; 'frame': only the frame conditions (C03)
    mode = 'value'

    def counts(self, label):
        return label.startswith('frame:') == (self.mode == 'frame')

    def __init__(self, cfg):
        self.cfg = cfg
        self.obl = []          # (label, ok, message)
        self.notes = []

    # frame condition: the operands keep their value
    @contextlib.contextmanager
    def frame(self, label, *objs):
        if self.mode != 'frame':
            yield
            return
        s = [snapshot(o) for o in objs]
        yield
        t = [snapshot(o) for o in objs]
        for i, (x, y) in enumerate(zip(s, t)):
            d = diff(x, y)
            self._record('frame:%s:operand %d unchanged' % (label, i), d is None, 'operand %d changed at %s' % (i, d))

    def stage(self, name):
        """name the part of the harness that follows (used when reporting an exception)"""
        self._stage = name

    def true(self, label, cond, msg=''):
        self._record(label, bool(cond), msg or 'condition is false')

    def same(self, label, a, b, msg=''):
        """concrete python/numpy values are equal"""
        try:
            ok = bool(np.array_equal(np.asarray(a), np.asarray(b)))
        except (Exception, Unsupported) as e:
            ok = False
        self._record(label, ok, '%s: got %r, expected %r' % (msg, a, b))

    def data(self, x):
        """the entry array behind a FullTensor/array/scalar"""
        import tensap
        if isinstance(x, tensap.FullTensor):
            return x.data
        if hasattr(x, 'full') and not isinstance(x, (np.ndarray, SymArray)):
            return self.data(x.full())
        return x


class SymCtx(Ctx):
    symbolic = True
    scalar = False

    def _record(self, label, ok, msg):
        if not self.counts(label):
            return
        self.obl.append((label, ok, '' if ok else msg))

    def dim(self, name, lo=1, hi=None):
        return Dim.sym(name, lo)

    def dims(self, name, k, lo=1, hi=None):
        return [Dim.sym('%s%d' % (name, i), lo) for i in range(k)]

    def array(self, name, shape, kind=None):
        if name in path().tables:
            name = path().new_id(name)
        return SymArray.input(name, [Dim.of(s) for s in shape])

    def real(self, name, kind=None):
        return SymArray.input(name, ())

    def indices(self, name, K, ns):
        """an arbitrary K x len(ns) array of indices (column j below ns[j]) and its 0/1
        selector matrices"""
        S = [idx.selector('%s%d' % (name, j), K, n) for j, n in enumerate(ns)]
        return idx.IntArr(S, 2), S

    def assume(self, cond):
        from .dim import PathInfeasible
        if not cond:
            raise PathInfeasible()

    def einsum(self, spec, *ops):
        ins, out = spec.replace(' ', '').split('->')
        return sym.contract([SymArray.lift(o) for o in ops], [list(s) for s in ins.split(',')], list(out))

    def join(self, x, groups):
        """merge axes of x, first index of each group fastest"""
        x = SymArray.lift(x)
        y = x.transpose(*[i for g in groups for i in g])
        axes, p = [], 0
        for g in groups:
            axes.append(tuple(f for i in range(p, p + len(g)) for f in y.axes[i]))
            p += len(g)
        return SymArray(axes, y.blocks)

    def cat(self, xs, axis):
        return sym.concatenate(xs, axis)

    def zeros(self, shape):
        return SymArray.full(shape, 0)

    def ones(self, shape):
        return SymArray.full(shape, 1)

    def eye(self, n):
        return SymArray.eye(n)

    def diag(self, v):
        return sym.diag(v)

    def sqrt(self, x):
        return sym.fn_apply('sqrt', SymArray.lift(x))

    def eq(self, label, actual, expected, tol=None):
        if not self.counts(label):
            return
        if actual is None:
            self._record(label, False, 'no value returned')
            return
        a, e = self.data(actual), self.data(expected)
        ok, msg = sym.equal(a, e)
        self._record(label, ok, msg)

    def size_eq(self, label, a, b):
        a = [a] if np.ndim(a) == 0 else list(a)
        b = [b] if np.ndim(b) == 0 else list(b)
        ok = len(a) == len(b) and all(Dim.of(x)._add(Dim.of(y), -1).norm().const() == 0 for x, y in zip(a, b))
        self._record(label, ok, 'sizes %r != %r' % (a, b))


    def holds(self, a, b):
        return sym.equal(self.data(a), self.data(b))[0]

    @contextlib.contextmanager
    def truncations(self, exact=False):
        """callers of Truncator.trunc_svd are checked against its contract; yields the
        list of the calls.  exact: of truncations at tolerance zero"""
        import tensap
        from . import npx
        calls = []
        cls = tensap.Truncator
        real = cls.__dict__['trunc_svd']

        def trunc_svd(tr, matrix, tolerance=None, power=2, max_rank=None):
            tolerance = tr.tolerance if tolerance is None else tolerance
            max_rank = tr.max_rank if max_rank is None else max_rank
            if not isinstance(matrix, SymArray):
                if matrix.shape != (1, 1):
                    raise Unsupported('truncation of a constant matrix')
                return real(tr, matrix, tolerance, power, max_rank)
            if not exact and isinstance(max_rank, Dim) or np.size(max_rank) != 1:
                raise Unsupported('rank bound %r' % (max_rank,))
            npx.note('Truncator.trunc_svd (contract, checked by C05.trunc_svd)')
            if exact:
                W, s, V = sym.svd_any(matrix)
                calls.append(Call(matrix, W, s.shape[0], float(tolerance), power, float('inf') if isinstance(max_rank, Dim) else float(max_rank)))
                return tensap.CanonicalTensor([W, V], s)
            W, s, V, k = sym.trunc(matrix, max_rank)
            calls.append(Call(matrix, W, k, float(tolerance), power, float(max_rank)))
            return tensap.CanonicalTensor([W, V], s)

        def hsvd(tr, tensor, tree=None, is_active_node=None):
            if not isinstance(tensor, tensap.TreeBasedTensor):
                raise Unsupported('hsvd of a dense tensor')
            npx.note('Truncator.hsvd at tolerance zero (contract, obligations of C05)')
            return tensor
        hreal = cls.__dict__['hsvd']
        cls.trunc_svd = trunc_svd
        if exact:
            cls.hsvd = hsvd
        try:
            yield calls
        finally:
            cls.trunc_svd = real
            cls.hsvd = hreal


class Call:
    def __init__(self, M, W, rank, tol, power, max_rank):
        self.M, self.W, self.rank, self.tol, self.power, self.max_rank = M, W, rank, tol, power, max_rank


class ScCtx(Ctx):
    """sizes from the configuration, entries arbitrary real (or integer) numbers"""
    symbolic = True
    scalar = True

    def __init__(self, cfg):
        super().__init__(cfg)
        from . import sc
        self.S = sc

    def _record(self, label, ok, msg):
        if not self.counts(label):
            return
        self.obl.append((label, ok, '' if ok else msg))

    def scal(self, name, lo=None, hi=None, strict=False, grid=None):
        return self.S.var(name, lo, hi, strict=strict)

    def scals(self, name, shape, lo=None, hi=None, strict=False, grid=None):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        r = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            r[i] = self.S.var('_'.join([name] + [str(j) for j in i]), lo, hi, strict=strict)
        return r.view(self.S.SA)

    def integer(self, name, lo=None, hi=None):
        return self.S.var(name, lo, hi, integer=True)

    def integers(self, name, shape, lo=None, hi=None):
        r = np.empty(shape, dtype=object)
        for i in np.ndindex(*r.shape):
            r[i] = self.S.var('_'.join([name] + [str(j) for j in i]), lo, hi, integer=True)
        return r.view(self.S.SA)

    def fun(self, name, like=None):
        """an arbitrary function of the entries of its argument"""
        def f(v):
            return self.S.Sc.apply2('f_' + name, *[self.S.sc(x) for x in np.asarray(v, dtype=object).reshape(-1)])
        return f

    def sqrt(self, x):
        return self.S.elementwise(lambda v: self.S.sc(v).sqrt(), x) if np.ndim(x) else self.S.sc(x).sqrt()

    def const(self, p, q=1):
        from fractions import Fraction
        return self.S.sc(Fraction(p, q))

    def symbolic_int_arrays(self):
        """np.zeros(..., dtype=int) and the like may receive symbolic integers"""
        from .dim import path
        path().tables['@intarr'] = True

    def pick(self, name, n):
        """an arbitrary element of range(n)"""
        from .dim import path
        for k in range(n - 1):
            if path().decide('%s = %d' % (name, k)):
                return k
        return n - 1

    def rank_one_svd(self):
        from .dim import path
        path().tables['@rank1'] = True

    def nonneg(self, terms):
        """sum of f b^2 over (f, b); tells the engine that it is not negative (f > 0)"""
        return self.S.nonneg(terms)

    def eig(self, lam, V):
        """declares an eigendecomposition (eigenvectors in columns) the code may ask for"""
        from .dim import path
        path().tables.setdefault('@eig', []).append((list(lam), np.asarray(V, dtype=object)))

    def rv(self, name):
        """a random variable with an arbitrary increasing distribution function"""
        import tensap
        S = self.S

        class AnyRandomVariable(tensap.RandomVariable):
            def __init__(self):
                tensap.RandomVariable.__init__(self)

            def _at(self, f, x, ends=None):
                def one(v):
                    if ends and isinstance(v, (float, np.floating)) and np.isinf(v):
                        return S.sc(1 if v > 0 else 0)
                    return S.sc(v).apply(f)
                return S.elementwise(one, x) if np.ndim(x) else one(x)

            def cdf(self, x):
                return self._at('F_' + name, x, True)

            def icdf(self, x):
                return self._at('F_' + name + '^-1', x)

            def pdf(self, x):
                return self._at('f_' + name, x)

            def support(self):
                return S.arr([S.var_once('inf_' + name), S.var_once('sup_' + name)])

            def get_parameters(self):
                return ()

            def random_variable_statistics(self):
                return S.var_once('mean_' + name), S.var_once('var_' + name, lo=0)

            def __eq__(self, o):
                return getattr(o, '_name', None) == name

            def __hash__(self):
                return hash(name)
            _name = name
        AnyRandomVariable.__abstractmethods__ = frozenset()
        return AnyRandomVariable()

    def arr(self, x):
        return self.S.arr(x)

    def assume(self, cond):
        from .dim import PathInfeasible
        if not cond:
            raise PathInfeasible()

    def eq(self, label, actual, expected, tol=None):
        if not self.counts(label):
            return
        if actual is None:
            self._record(label, False, 'no value returned')
            return
        a, e = self.data(actual), self.data(expected)
        a, e = np.asarray(a, dtype=object), np.asarray(e, dtype=object)
        if a.shape != e.shape:
            self._record(label, False, 'shape %r, expected %r' % (a.shape, e.shape))
            return
        bad = None
        for x, y in zip(a.flat, e.flat):
            ok, msg = self._eq1(x, y)
            if ok is not True and (bad is None or ok is False):
                bad = (ok, msg)
        self._record(label, *(bad or (True, '')))

    def _eq1(self, x, y):
        if isinstance(x, (float, np.floating)) or isinstance(y, (float, np.floating)):
            if not isinstance(x, self.S.Sc) and not isinstance(y, self.S.Sc):
                ok = bool(np.isclose(float(x), float(y), rtol=1e-9, atol=1e-9, equal_nan=True))
                return ok, '%r is not %r' % (x, y)
            if not all(isinstance(v, self.S.Sc) or np.isfinite(v) for v in (x, y)):
                return False, '%r is not %r' % (x, y)
        return self.S.prove_zero(self.S.sc(x) - y)

    def le(self, label, a, b):
        self._rel(label, a, b, 'le')

    def lt(self, label, a, b):
        self._rel(label, a, b, 'lt')

    def _rel(self, label, a, b, rel):
        bad = None
        for x, y in zip(*[q.flat for q in np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))]):
            r = self.S.sc(x)._cmp(y, rel)
            ok, msg = self.S.prove(r) if isinstance(r, self.S.Cond) else (bool(r), '%r %s %r' % (x, rel, y))
            if ok is not True and (bad is None or ok is False):
                bad = (ok, msg)
        self._record(label, *(bad or (True, '')))


class RelCtx(Ctx):
    """arrays of symbolic length and contents; postconditions are formulas for z3"""
    symbolic = True
    scalar = False

    def __init__(self, cfg):
        super().__init__(cfg)
        from . import rel
        self.X = rel
        path().tables['@ctx'] = self
        self.enumerations, self.families, self.instances, self.sets = [], [], [], []
        self.row_ones = self.column_entry = None
        self.singletons, self.sums, self.linalg = [], [], {}
        self.terms = []     # functions: their value at the element under proof helps the solver

    def mention(self, x):
        X = self.X
        for f in self.terms:
            t = f(x)
            g = X.z().Function('mention', t.sort(), X.z().BoolSort())
            X.assume(g(t))

    def _record(self, label, ok, msg):
        if self.counts(label):
            self.obl.append((label, ok, '' if ok else msg))

    def prove(self, label, f, about=(), split=()):
        Z = self.X.z()
        ax = self.X.tab()['ax']
        mark = len(ax)
        for x in about:
            self.mention(x)
        f = f if Z.is_expr(f) else Z.BoolVal(bool(f)) if isinstance(f, (bool, np.bool_)) else self.X.zb(f)
        goals = [f]
        for s in split:
            goals = [Z.Implies(t, g) for g in goals for t in (s, Z.Not(s))]
        ok = True if Z.is_true(Z.simplify(f)) else all([self.X.entails(g) for g in goals]) or None
        del ax[mark:]
        self._record(label, True if ok else None, 'not proved: ' + str(f)[:3000])

    def equal(self, label, a, b):
        X = self.X
        Z = X.z()
        if isinstance(a, X.Q) or isinstance(b, X.Q):
            return self.prove(label, X.seq(a) == X.seq(b))
        if isinstance(a, (X.R, X.L, list, tuple, np.ndarray)) and np.ndim(a if isinstance(a, np.ndarray) else [0]) > 0 or isinstance(b, (X.R, X.L)):
            a, b = X.vec(a), X.vec(b)
            if a.ndim != b.ndim:
                return self._record(label, None, 'dimensions %d and %d' % (a.ndim, b.ndim))
            self.prove(label + ' (size)', Z.And(*[s == t for s, t in zip(a.sh, b.sh)]))
            ix = [X.ivar('i') for _ in a.sh]
            u, v = a.f(*ix), b.f(*ix)
            if Z.is_bool(u) != Z.is_bool(v):
                u, v = X.zi(u), X.zi(v)
            return self.prove(label, Z.ForAll(ix, Z.Implies(Z.And(*[Z.And(0 <= i, i < s) for i, s in zip(ix, b.sh)]), u == v)))
        if isinstance(a, (X.B, bool, np.bool_)) or isinstance(b, (X.B, bool, np.bool_)):
            return self.prove(label, X.zb(a) == X.zb(b))
        self.prove(label, X.zi(a) == X.zi(b))

    def same_set(self, label, a, b):
        X = self.X
        x = X.ivar('x')
        m, k = X.members(a), X.members(b)
        self.prove(label, m(x) == k(x), [x])

    def lists(self, label, a, mem, increasing=True):
        """a lists exactly the elements of a set, in increasing order"""
        X = self.X
        Z = X.z()
        a = X.vec(a)
        k, l, x = X.ivar('k'), X.ivar('l'), X.ivar('x')
        m = a.mem
        self.prove(label + ': only these', Z.ForAll([k], Z.Implies(Z.And(0 <= k, k < a.sh[0]), mem(a.f(k)))))
        if m is None:
            m = X.members(a)
        self.prove(label + ': all of them', Z.Implies(mem(x), m(x)), [x])
        if increasing:
            self.prove(label + ': increasing', Z.ForAll([k, l], Z.Implies(Z.And(0 <= k, k < l, l < a.sh[0]), a.f(k) < a.f(l))))

    def real(self, fn, loops=None, names=None):
        return self.X.real_function(self, fn, loops, names)

    def loop(self, state, facts=None, sets=()):
        return self.X.Loop(state, facts, sets)


class ConCtx(Ctx):
    symbolic = False
    scalar = False

    def _grid(self, lo, hi, strict, grid):
        r = self.rng.random()
        if grid is None and r < 0.5 or grid:
            # values that meet often
            v = float(self.rng.integers(-4, 5)) / (grid or 1)
        elif r < 0.6:
            v = 0.0
        else:
            v = float(3 * self.rng.standard_normal())
        if lo is not None and hi is not None:
            lo, hi = float(lo), float(hi)
            v = lo + (hi - lo) * (float(self.rng.integers(0, 9)) / 8 if self.rng.random() < 0.4 else float(self.rng.random()))
            if strict and v in (lo, hi):
                v = lo + (hi - lo) * float(0.1 + 0.8 * self.rng.random())
        elif lo is not None:
            v = float(lo) + abs(v)
            if strict and v == lo:
                v = float(lo) + 0.5
        elif hi is not None:
            v = float(hi) - abs(v)
            if strict and v == hi:
                v = float(hi) - 0.5
        return v

    def _forced(self, name, v):
        v = self.force.get(name, v)
        self.drawn[name] = v
        return v

    def scal(self, name, lo=None, hi=None, strict=False, grid=None):
        return float(self._forced(name, self._grid(lo, hi, strict, grid)))

    def scals(self, name, shape, lo=None, hi=None, strict=False, grid=None):
        r = np.empty(shape)
        for i in np.ndindex(*r.shape):
            r[i] = self.scal('_'.join([name] + [str(j) for j in i]), lo, hi, strict, grid)
        return r

    def integer(self, name, lo=None, hi=None):
        lo = -6 if lo is None else lo
        return int(self._forced(name, int(self.rng.integers(lo, (lo + 9 if hi is None else hi) + 1))))

    def integers(self, name, shape, lo=None, hi=None):
        r = np.empty(shape, dtype=int)
        for i in np.ndindex(*r.shape):
            r[i] = self.integer('_'.join([name] + [str(j) for j in i]), lo, hi)
        return r

    def fun(self, name, like=None):
        w = self.rng.standard_normal(12)

        def f(v):
            v = np.asarray(v, dtype=float).reshape(-1)
            return float(np.sin(np.dot(w[:v.size], v) + w[11]) + w[10] * np.prod(v) + np.sum(w[:v.size] * v ** 2))
        return f

    def const(self, p, q=1):
        return p / q

    def symbolic_int_arrays(self):
        pass

    def eig(self, lam, V):
        pass

    def nonneg(self, terms):
        return sum(f * b * b for f, b in terms)

    def rv(self, name):
        import tensap
        k = int(self.rng.integers(4))
        if k == 0:
            return tensap.UniformRandomVariable(0, 1)
        if k == 1:
            return tensap.UniformRandomVariable(-1.5, 2)
        if k == 2:
            return tensap.NormalRandomVariable(0.5, 2)
        return tensap.UniformRandomVariable(-1, 1)

    def arr(self, x):
        return np.asarray(x, dtype=float)

    def le(self, label, a, b):
        a, b = np.broadcast_arrays(np.asarray(a, dtype=float), np.asarray(b, dtype=float))
        ok = bool(np.all(a <= b + self.tol * np.maximum(1, np.abs(b)))) if a.size else True
        self._record(label, ok, '%s <= %s is false' % (np.array2string(a, threshold=20), np.array2string(b, threshold=20)))

    def lt(self, label, a, b):
        # (strictness is decided by the proof; rounded values may meet)
        self.le(label, a, b)

    def __init__(self, cfg, seed, tol=1e-9):
        super().__init__(cfg)
        self.rng = np.random.default_rng(seed)
        self.seed = seed
        self.tol = tol
        self.drawn = {}
        self.force = {}

    def _record(self, label, ok, msg):
        if not self.counts(label):
            return
        self.obl.append((label, ok, '' if ok else msg))
        if not ok:
            raise Failure('%s: %s' % (label, msg))

    def dim(self, name, lo=1, hi=4):
        hi = 4 if hi is None else hi
        v = int(self.rng.integers(lo, max(hi, lo) + 1))
        if self.rng.random() < 0.15:
            v = lo
        v = self.force.get(name, v)
        self.drawn[name] = v
        return v

    def dims(self, name, k, lo=1, hi=4):
        return [self.dim('%s%d' % (name, i), lo, hi) for i in range(k)]

    def pick(self, name, n):
        return int(self.rng.integers(0, n))

    def rank_one_svd(self):
        pass

    def array(self, name, shape, kind=None):
        shape = tuple(int(s) for s in shape)
        if kind == 'real':
            return self.rng.standard_normal(shape)
        if kind == 'pos':
            return self.rng.random(shape) + 0.1
        a = self.rng.integers(-4, 5, size=shape).astype(float)
        return a

    def real(self, name, kind=None):
        return float(self.rng.integers(-5, 6))

    def indices(self, name, K, ns):
        I = np.stack([self.rng.integers(0, int(n), size=int(K)) for n in ns], axis=1)
        S = [np.eye(int(n))[I[:, j]] for j, n in enumerate(ns)]
        return I, S

    def assume(self, cond):
        if not cond:
            raise SkipCase()

    def einsum(self, spec, *ops):
        return np.einsum(spec, *[np.asarray(o, dtype=float) for o in ops])

    def join(self, x, groups):
        x = np.asarray(x)
        y = np.transpose(x, [i for g in groups for i in g])
        shp = [int(np.prod([x.shape[i] for i in g], dtype=int)) for g in groups]
        return np.reshape(y, shp, order='F')

    def cat(self, xs, axis):
        return np.concatenate(xs, axis)

    def zeros(self, shape):
        return np.zeros([int(s) for s in shape])

    def ones(self, shape):
        return np.ones([int(s) for s in shape])

    def eye(self, n):
        return np.eye(int(n))

    def diag(self, v):
        return np.diag(v)

    def sqrt(self, x):
        return np.sqrt(x)

    def eq(self, label, actual, expected, tol=None):
        if not self.counts(label):
            return
        if actual is None:
            self._record(label, False, 'no value returned')
            return
        a, e = self.data(actual), self.data(expected)
        try:
            a = np.asarray(a, dtype=float)
            e = np.asarray(e, dtype=float)
        except Exception as ex:
            self._record(label, False, 'not numeric: %r (%s)' % (a, ex))
            return
        if a.shape != e.shape:
            self._record(label, False, 'shape %r, expected %r' % (a.shape, e.shape))
            return
        tol = self.tol if tol is None else tol
        fin = np.isfinite(e)
        sc = max(1.0, float(np.max(np.abs(e[fin]))) if fin.any() else 1.0)
        with np.errstate(invalid='ignore'):
            d = np.where(np.isinf(e) & (a == e), 0., np.abs(a - e))
        ok = bool(np.all(d <= tol * sc)) if a.size else True
        if ok and a.size and not np.all(np.isfinite(a) == np.isfinite(e)):
            ok = False
        self._record(label, ok, '' if ok else 'max difference %g; got %s expected %s' % (np.nanmax(d) if d.size else 0, np.array2string(a, threshold=20), np.array2string(e, threshold=20)))

    @contextlib.contextmanager
    def truncations(self, exact=False):
        yield []

    def size_eq(self, label, a, b):
        self._record(label, list(np.atleast_1d(a)) == list(np.atleast_1d(b)), 'sizes %r != %r' % (a, b))
