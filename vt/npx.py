"""The numpy interface offered to the code under verification: symbolic arrays and
sizes go to the assumed contracts of numpy functions below; anything else goes to
real numpy; a numpy function without a contract raises Unsupported."""
import types
from fractions import Fraction
import numpy as _np
from .dim import Dim, Unsupported, path, size_min
from . import sym
from .sym import SymArray, SymCond
from . import idx
from .idx import IntArr, SymRows

USED = {}          # name -> number of times an assumed contract was used


def note(n):
    USED[n] = USED.get(n, 0) + 1


def _int_dtype(k):
    d = k.get('dtype')
    return d is int or d == 'int' or d is _np.int_ or d is _np.int64


def has_sym(x, depth=0):
    if isinstance(x, (SymArray, SymCond)):
        return True
    if depth < 4 and isinstance(x, (list, tuple)):
        return any(has_sym(y, depth + 1) for y in x)
    if isinstance(x, _np.ndarray) and x.dtype == object and x.size < 2000:
        return any(isinstance(y, (SymArray, SymCond)) for y in x.flat)
    return False


def has_dim(x, depth=0):
    if isinstance(x, Dim):
        return True
    if depth < 4 and isinstance(x, (list, tuple)):
        return any(has_dim(y, depth + 1) for y in x)
    if isinstance(x, _np.ndarray) and x.dtype == object and x.size < 2000:
        return any(isinstance(y, Dim) for y in x.flat)
    return False


def _shape(x):
    if isinstance(x, (Dim, int, _np.integer)):
        return (x,)
    if isinstance(x, _np.ndarray):
        return tuple(x.reshape(-1).tolist())
    return tuple(x)


def np_array(x, dtype=None, **k):
    if isinstance(x, SymArray):
        return x.copy()
    if isinstance(x, SymCond):
        return x
    if isinstance(x, (list, tuple)):
        if has_sym(x):
            if len(x) == 1 and isinstance(x[0], SymArray):
                g = idx.generalise(x[0])
                if g is not None:
                    return g
            parts = [np_array(y) for y in x]
            if any(isinstance(p, SymCond) for p in parts):
                raise Unsupported('array of conditions')
            parts = [SymArray.lift(p) for p in parts]
            return sym.concatenate([p.expand_dims(0) for p in parts], 0)
        if has_dim(x):
            # sizes: an object array of the same nesting
            if any(isinstance(y, (list, tuple, _np.ndarray)) for y in x):
                rows = [np_array(y) for y in x]
                out = _np.empty((len(rows),) + _np.shape(rows[0]), dtype=object)
                for i, r in enumerate(rows):
                    out[i] = r
                return out
            out = _np.empty(len(x), dtype=object)
            for i, y in enumerate(x):
                out[i] = y
            return out
    if isinstance(x, Dim):
        out = _np.empty((), dtype=object)
        out[()] = x
        return out
    return _np.array(x, **({'dtype': dtype} if dtype is not None else {}), **k)


def conv_shape_arr(x):
    return x


class ScalarCheck:
    pass


def f_sum(x, axis=None, dtype=None, out=None, keepdims=False, **k):
    return SymArray.lift(x).sum(axis, keepdims)


def f_mean(x, axis=None, dtype=None, out=None, keepdims=False):
    return SymArray.lift(x).mean(axis, keepdims)


def f_norm(x, ord=None, axis=None, keepdims=False):
    x = SymArray.lift(x)
    if ord not in (None, 2, 'fro'):
        raise Unsupported('norm order')
    if ord == 2 and x.ndim == 2 and axis is None:
        raise Unsupported('spectral norm')
    return sym.fn_apply('sqrt', (x * x).sum(axis, keepdims))


def f_einsum(*args, **k):
    if isinstance(args[0], str):
        sub = args[0].replace(' ', '')
        if '.' in sub:
            raise Unsupported('einsum ellipsis')
        if '->' in sub:
            ins, out = sub.split('->')
        else:
            ins = sub
            al = ins.replace(',', '')
            out = ''.join(sorted(c for c in set(al) if al.count(c) == 1))
        ops = [SymArray.lift(a) for a in args[1:]]
        return sym.contract(ops, [list(s) for s in ins.split(',')], list(out))
    ops, labs = [], []
    args = list(args)
    while len(args) >= 2:
        ops.append(SymArray.lift(args.pop(0)))
        labs.append([int(i) for i in args.pop(0)])
    if args:
        out = [int(i) for i in args.pop(0)]
    else:
        al = [l for s in labs for l in s]
        out = sorted(l for l in set(al) if al.count(l) == 1)
    if len(set(out)) != len(out):
        raise ValueError('einstein sum subscripts string includes output subscript multiple times')
    return sym.contract(ops, labs, out)


def f_pad(x, padding, mode='constant', **k):
    if mode != 'constant':
        raise Unsupported('pad mode')
    x = SymArray.lift(x)
    padding = [[sym._shape_item(v) for v in p] for p in (padding.tolist() if isinstance(padding, _np.ndarray) else padding)]
    for ax, (lo, hi) in enumerate(padding):
        parts = [x]
        shp = list(x.shape)
        if not (Dim.of(lo) == 0):
            parts.insert(0, SymArray.full(shp[:ax] + [lo] + shp[ax + 1:], 0))
        if not (Dim.of(hi) == 0):
            parts.append(SymArray.full(shp[:ax] + [hi] + shp[ax + 1:], 0))
        if len(parts) > 1:
            x = sym.concatenate(parts, ax)
    return x


def f_prod(x, axis=None, **k):
    x = SymArray.lift(x)
    if axis is None:
        if x.ndim != 1:
            raise Unsupported('prod over all axes')
        axis = 0
    n = Dim.of(x.shape[int(axis)]).__index__()
    r = x._pick(int(axis) % x.ndim, 0)
    for i in range(1, n):
        r = r * x._pick(int(axis) % x.ndim, i)
    return r


def f_atleast(n):
    def f(*xs):
        out = []
        for x in xs:
            x = SymArray.lift(x)
            if n >= 1 and x.ndim == 0:
                x = x.expand_dims(0)
            if n >= 2 and x.ndim == 1:
                x = x.expand_dims(0)
            out.append(x)
        return out[0] if len(out) == 1 else out
    return f


def f_kron(a, b):
    a, b = SymArray.lift(a), SymArray.lift(b)
    n = max(a.ndim, b.ndim)
    while a.ndim < n:
        a = a.expand_dims(0)
    while b.ndim < n:
        b = b.expand_dims(0)
    r = sym.contract([a, b], [[2 * i for i in range(n)], [2 * i + 1 for i in range(n)]], list(range(2 * n)))
    # C order inside each pair: the second factor is fastest
    return r.reshape([Dim.wrap(Dim.of(a.shape[i])._mul(Dim.of(b.shape[i]))) for i in range(n)], order='C')


def f_all(x, *a, **k):
    if isinstance(x, SymCond):
        return bool(x)
    if isinstance(x, (list, tuple)):
        return all(bool(y) for y in x)
    return bool(SymCond(SymArray.lift(x), 'ne'))


def f_any(x, *a, **k):
    if isinstance(x, SymCond):
        return x.any()
    if isinstance(x, (list, tuple)):
        return any(bool(y) for y in x)
    return SymCond(SymArray.lift(x), 'ne').any()


def f_isscalar(x):
    return isinstance(x, SymArray) and x.ndim == 0


def f_triu(*a, **k):
    raise Unsupported('triu')


def f_stack(xs, axis=0):
    return sym.concatenate([SymArray.lift(x).expand_dims(axis) for x in xs], axis)


def f_hstack(xs):
    xs = [f_atleast(1)(x) for x in xs]
    return sym.concatenate(xs, 0 if xs[0].ndim == 1 else 1)


def f_vstack(xs):
    return sym.concatenate([f_atleast(2)(x) for x in xs], 0)


def f_outer(a, b):
    return sym.contract([SymArray.lift(a).ravel(), SymArray.lift(b).ravel()], [[0], [1]], [0, 1])


def f_moveaxis(x, s, d):
    x = SymArray.lift(x)
    s = [s] if _np.ndim(s) == 0 else list(s)
    d = [d] if _np.ndim(d) == 0 else list(d)
    s = [int(i) % x.ndim for i in s]
    d = [int(i) % x.ndim for i in d]
    order = [i for i in range(x.ndim) if i not in s]
    for dd, ss in sorted(zip(d, s)):
        order.insert(dd, ss)
    return x.transpose(*order)


def f_swapaxes(x, a, b):
    p = list(range(x.ndim))
    p[a], p[b] = p[b], p[a]
    return x.transpose(*p)


def f_allclose(a, b, *x, **k):
    return bool(SymArray.lift(a) == b)


def f_repeat(x, n, axis=None):
    raise Unsupported('repeat')


def f_where(c, *a):
    raise Unsupported('where')


def f_trace(x):
    return sym.contract([x], [[0, 0]], [])


def f_tile(x, reps):
    x = SymArray.lift(x)
    reps = [reps] if _np.ndim(reps) == 0 else list(reps)
    while x.ndim < len(reps):
        x = x.expand_dims(0)
    while len(reps) < x.ndim:
        reps.insert(0, 1)
    for ax, r in enumerate(reps):
        r = sym._shape_item(r)
        if x.shape[ax] == 1 and len(x.axes[ax]) == 0:
            if not (Dim.of(r) == 1):
                shp = [1] * x.ndim
                shp[ax] = r
                x = x * SymArray.full(shp, 1)
        elif not (Dim.of(r) == 1):
            raise Unsupported('tile')
    return x


SYM = {
    'array': np_array, 'asarray': lambda x, *a, **k: x if isinstance(x, SymArray) else np_array(x),
    'copy': lambda x: SymArray.lift(x).copy(),
    'reshape': lambda x, shape, order='C': SymArray.lift(x).reshape(*( [shape] ), order=order),
    'transpose': lambda x, axes=None: SymArray.lift(x).transpose(axes),
    'permute_dims': lambda x, axes=None: SymArray.lift(x).transpose(axes),
    'squeeze': lambda x, axis=None: SymArray.lift(x).squeeze(axis),
    'expand_dims': lambda x, axis: SymArray.lift(x).expand_dims(axis),
    'ravel': lambda x, order='C': SymArray.lift(x).ravel(order),
    'shape': lambda x: SymArray.lift(x).shape, 'ndim': lambda x: SymArray.lift(x).ndim,
    'size': lambda x, axis=None: SymArray.lift(x).size if axis is None else SymArray.lift(x).shape[axis],
    'sum': f_sum, 'mean': f_mean, 'prod': f_prod,
    'multiply': lambda a, b: SymArray.lift(a) * b, 'add': lambda a, b: SymArray.lift(a) + b,
    'subtract': lambda a, b: SymArray.lift(a) - b, 'negative': lambda a: -a,
    'divide': lambda a, b: SymArray.lift(a) / b, 'true_divide': lambda a, b: SymArray.lift(a) / b,
    'power': lambda a, b: SymArray.lift(a) ** b, 'square': lambda a: a * a,
    'sqrt': lambda a: sym.fn_apply('sqrt', a), 'abs': abs, 'absolute': abs,
    'exp': lambda a: sym.fn_apply('exp', a), 'log': lambda a: sym.fn_apply('log', a),
    'dot': lambda a, b: SymArray.lift(a).dot(b), 'matmul': sym.matmul, 'vdot': lambda a, b: (SymArray.lift(a) * b).sum(),
    'inner': lambda a, b: sym.tensordot(a, b, ([-1], [-1])),
    'tensordot': sym.tensordot, 'einsum': f_einsum, 'concatenate': sym.concatenate, 'stack': f_stack,
    'hstack': f_hstack, 'vstack': f_vstack, 'pad': f_pad, 'diag': lambda v, k=0: sym.diag(v),
    'diagonal': lambda v: sym.diag(v),
    'atleast_1d': f_atleast(1), 'atleast_2d': f_atleast(2), 'kron': f_kron, 'outer': f_outer, 'all': f_all, 'any': f_any,
    'isscalar': f_isscalar, 'take': lambda x, i, axis=None: SymArray.lift(x).take(_np.atleast_1d(i), axis),
    'moveaxis': f_moveaxis, 'swapaxes': f_swapaxes, 'trace': f_trace, 'tile': f_tile,
    'ones_like': lambda x, **k: SymArray.full(x.shape, 1), 'zeros_like': lambda x, **k: SymArray.full(x.shape, 0),
    'equal': lambda a, b: SymArray.lift(a) == b, 'allclose': f_allclose, 'array_equal': f_allclose,
    'linalg.norm': f_norm, 'linalg.qr': lambda a, mode='reduced': sym.qr(a), 'linalg.svd': lambda a, full_matrices=True, compute_uv=True: sym.svd(a, full_matrices, compute_uv),
    'linalg.inv': sym.inv, 'linalg.matrix_rank': sym.matrix_rank,
    'count_nonzero': lambda x: (_ for _ in ()).throw(Unsupported('count_nonzero')),
    'iscomplexobj': lambda x: False, 'isreal': lambda x: True,
}
# constructors taking (symbolic) shapes
SHAPED = {
    'zeros': lambda shape, *a, **k: SymArray.full(_shape(shape), 0),
    'ones': lambda shape, *a, **k: SymArray.full(_shape(shape), 1),
    'empty': lambda shape, *a, **k: SymArray.full(_shape(shape), 0),
    'full': lambda shape, v, *a, **k: SymArray.full(_shape(shape), v),
    'eye': lambda n, m=None, *a, **k: SymArray.eye(n) if m is None or Dim.of(m) == n else (_ for _ in ()).throw(Unsupported('rectangular eye')),
    'identity': lambda n, *a, **k: SymArray.eye(n),
}
UF = {'add': 'add', 'subtract': 'subtract', 'multiply': 'multiply', 'true_divide': 'divide', 'divide': 'divide', 'negative': 'negative',
      'matmul': 'matmul', 'power': 'power', 'sqrt': 'sqrt', 'absolute': 'abs', 'square': 'square', 'exp': 'exp', 'log': 'log'}


def ufunc(uf, method, inputs, kw):
    if method != '__call__' or kw.get('out') is not None:
        raise Unsupported('ufunc method %s' % method)
    n = uf.__name__
    if n in ('equal', 'not_equal', 'less', 'less_equal', 'greater', 'greater_equal'):
        a, b = inputs
        rel = {'equal': 'eq', 'not_equal': 'ne', 'less': 'lt', 'less_equal': 'le', 'greater': 'gt', 'greater_equal': 'ge'}[n]
        return SymArray.lift(a)._cmp(b, rel)
    if n not in UF:
        raise Unsupported('ufunc %s' % n)
    note('numpy.' + UF[n])
    return SYM[UF[n]](*inputs)


def array_function(func, args, kw):
    mod = getattr(func, '__module__', '')
    n = ('linalg.' if 'linalg' in mod else '') + func.__name__
    if n in SYM:
        note('numpy.' + n)
        return SYM[n](*args, **kw)
    raise Unsupported('numpy.%s' % n)


class ObjArr(_np.ndarray):
    """a one-dimensional object array: assigning a list puts one element in each place"""

    def __setitem__(self, key, v):
        if isinstance(v, (list, tuple)) and self.ndim == 1 and has_sym(v) and not isinstance(key, (int, _np.integer)):
            pos = _np.arange(self.size)[key]
            if pos.shape != (len(v),):
                raise ValueError('shape mismatch: %d values for %r' % (len(v), pos.shape))
            for p, x in zip(pos.tolist(), v):
                _np.ndarray.__setitem__(self, p, x)
            return
        _np.ndarray.__setitem__(self, key, v)


class FloatArr(_np.ndarray):
    """a vector of zeros of the verified code; a symbolic size stored in it can only be
    read back"""

    def __array_finalize__(self, obj):
        self._sizes = {}
        self._tainted = bool(getattr(obj, '_sizes', None)) or getattr(obj, '_tainted', False)

    def __setitem__(self, key, v):
        if isinstance(v, Dim) and v.const() is None:
            if not isinstance(key, (int, _np.integer)):
                raise Unsupported('symbolic sizes stored in an array of numbers')
            self._sizes[int(key) % self.size] = v
            v = _np.nan
        elif isinstance(key, (int, _np.integer)):
            self._sizes.pop(int(key) % self.size, None)
        elif self._sizes:
            raise Unsupported('symbolic sizes stored in an array of numbers')
        _np.ndarray.__setitem__(self, key, v)

    def __getitem__(self, key):
        if self._sizes or self._tainted:
            if isinstance(key, (int, _np.integer)) and not self._tainted:
                k = int(key) % self.size
                return self._sizes[k] if k in self._sizes else float(_np.ndarray.__getitem__(self, k))
            raise Unsupported('symbolic sizes stored in an array of numbers')
        return self.view(_np.ndarray)[key]

    def __iter__(self):
        return iter([self[i] for i in range(self.size)])

    @staticmethod
    def _plain(x):
        if isinstance(x, FloatArr):
            if x._sizes or x._tainted:
                raise Unsupported('symbolic sizes stored in an array of numbers')
            return x.view(_np.ndarray)
        if isinstance(x, (list, tuple)):
            return type(x)([FloatArr._plain(y) for y in x])
        return x

    def __array_ufunc__(self, uf, method, *inputs, **kw):
        out = kw.pop('out', None)
        if out is not None:
            kw['out'] = tuple(FloatArr._plain(x) for x in out)
            getattr(uf, method)(*[FloatArr._plain(x) for x in inputs], **kw)
            return out[0]
        return getattr(uf, method)(*[FloatArr._plain(x) for x in inputs], **kw)

    def __array_function__(self, func, types, args, kw):
        return func(*FloatArr._plain(list(args)), **{k: FloatArr._plain(v) for k, v in kw.items()})


class _NdMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (_np.ndarray, SymArray, IntArr))

    def __subclasscheck__(cls, c):
        return issubclass(c, (_np.ndarray, SymArray))


class NdArray(metaclass=_NdMeta):
    def __new__(cls, *a, **k):
        return _np.ndarray(*a, **k)


class Proxy:
    """stands for the module numpy (or a submodule) inside the verified modules"""

    def __init__(self, real, prefix='', obj_ints=True):
        self.__dict__['_obj_ints'] = obj_ints
        self.__dict__['_real'] = real
        self.__dict__['_prefix'] = prefix
        self.__dict__['_cache'] = {}

    def __getattr__(self, name):
        c = self._cache
        if name in c:
            return c[name]
        r = getattr(self._real, name)
        q = self._prefix + name
        if name == 'ndarray':
            v = NdArray
        elif isinstance(r, types.ModuleType):
            v = Proxy(r, q + '.', self._obj_ints)
        elif callable(r) and not isinstance(r, type):
            v = self._wrap(q, r)
        elif name in ('array',):
            v = self._wrap(q, r)
        else:
            v = r
        c[name] = v
        return v

    def _wrap(self, q, r):
        def f(*a, **k):
            if any(isinstance(x, (IntArr, SymRows, idx.Mask)) for x in a) or (a and isinstance(a[0], (list, tuple)) and any(isinstance(x, (IntArr, SymRows)) for x in a[0])):
                note('numpy.' + q + ' (index arrays)')
                return idx.fn(q, a, k)
            s = has_sym(a) or (k and has_sym(tuple(k.values())))
            if s:
                if q in SYM:
                    note('numpy.' + q)
                    if any(isinstance(x, SymCond) for x in a) and q not in ('all', 'any', 'array', 'asarray', 'isscalar'):
                        raise Unsupported('array of conditions in numpy.%s' % q)
                    return SYM[q](*a, **k)
                raise Unsupported('numpy.%s on symbolic data' % q)
            if q == 'full' and len(a) > 1 and isinstance(a[1], Dim) and not has_dim(a[0]):
                o = _np.empty(a[0], dtype=object)
                o[...] = a[1]
                return o
            if q in SHAPED and (has_dim(a) or (k and has_dim(tuple(k.values())))):
                if k.get('dtype') in (int,) and False:
                    raise Unsupported
                note('numpy.' + q)
                return SHAPED[q](*a, **k)
            if q in ('zeros', 'empty', 'ones') and _int_dtype(k) and self._obj_ints:
                # integer arrays may receive symbolic sizes: hold Python integers
                o = _np.empty(*a, dtype=object)
                o[...] = 1 if q == 'ones' else 0
                return o
            if q == 'zeros' and not k and len(a) == 1 and self._obj_ints and isinstance(a[0], tuple) and len(a[0]) == 1 and not has_dim(a):
                return r(*a).view(FloatArr)
            if q == 'empty' and (k.get('dtype') in (object, 'object') or (len(a) > 1 and a[1] in (object, 'object'))):
                o = r(*a, **k)
                return o.view(ObjArr) if o.ndim == 1 else o
            if (has_dim(a)):
                if q == 'array' or q == 'asarray':
                    return np_array(a[0])
                if q == 'prod' and len(a) == 1 and set(k) <= {'dtype'}:
                    x = a[0]
                    p = 1
                    for y in (x.reshape(-1).tolist() if isinstance(x, _np.ndarray) else x):
                        p = y * p
                    return p
                if q == 'arange':
                    if all(not isinstance(x, Dim) or x.const() is not None for x in a):
                        return r(*[x.__index__() if isinstance(x, Dim) else x for x in a], **k)
                    return idx.arange(*a)
                if q in ('repeat', 'random.rand', 'random.randn', 'linspace'):
                    raise Unsupported('numpy.%s with symbolic sizes' % q)
                if q == 'isscalar':
                    return True
                if q in ('concatenate', 'hstack') and isinstance(a[0], (list, tuple)):
                    a = (tuple(np_array(x) if isinstance(x, (list, tuple)) and has_dim(x) else x for x in a[0]),) + a[1:]
                    return r(*a, **k)
                a = tuple(np_array(x) if isinstance(x, (list, tuple)) and has_dim(x) and not any(isinstance(y, _np.ndarray) for y in x) else x for x in a)
                res = r(*a, **k)
                return res
            return r(*a, **k)
        f.__name__ = q
        return f


_PATCHED = []


def _stub_diag(real):
    def diag(d, order):
        if has_sym(d) and not all(isinstance(x, int) for x in SymArray.lift(d).shape):
            import tensap
            note('FullTensor.diag (contract proved in C01.diag_loop)')
            return tensap.FullTensor(SymArray.diag_tensor(SymArray.lift(d).ravel() if SymArray.lift(d).ndim != 1 else d, int(order)))
        return real(d, order)
    diag.__wrapped__ = real
    return staticmethod(diag)


def install_stubs():
    """callers of these functions are checked against the callee's contract"""
    import tensap
    real = tensap.FullTensor.__dict__['diag']
    _PATCHED.append((tensap.FullTensor, 'diag', real))
    tensap.FullTensor.diag = _stub_diag(real.__func__)


def install():
    """replace numpy in every loaded tensap module by the proxy"""
    import sys
    import tensap  # noqa
    px = Proxy(_np)
    # dimension trees hold node numbers, never sizes
    px_tree = Proxy(_np, obj_ints=False)
    for n, m in list(sys.modules.items()):
        if n == 'tensap' or n.startswith('tensap.'):
            for k, v in list(vars(m).items()):
                if v is _np:
                    _PATCHED.append((m, k, v))
                    setattr(m, k, px_tree if n.endswith('dimension_tree') else px)
                elif isinstance(v, types.ModuleType) and v.__name__.startswith('numpy.'):
                    _PATCHED.append((m, k, v))
                    setattr(m, k, Proxy(v, v.__name__[6:] + '.'))
    for n, m in list(sys.modules.items()):
        if (n == 'tensap' or n.startswith('tensap.')) and isinstance(m, types.ModuleType) and 'len' not in vars(m):
            _LEN.append(m)
            m.len = sym_len
        if (n == 'tensap' or n.startswith('tensap.')) and isinstance(m, types.ModuleType) and 'range' not in vars(m):
            _LEN.append(m)
            m.range = sym_range
    install_stubs()
    return px


_LEN = []


def sym_len(x):
    """len() of an array with a symbolic first size"""
    if isinstance(x, (SymArray, IntArr)):
        if x.ndim == 0:
            raise TypeError('len() of unsized object')
        return x.shape[0]
    return len(x)


class SymRange:
    """range() with a symbolic bound; can be passed around, not enumerated"""

    def __init__(self, *a):
        self.a = a

    def _no(self, *a):
        raise Unsupported('iteration over a range with a symbolic bound')

    __iter__ = __len__ = __getitem__ = __array__ = _no


def sym_range(*a):
    if any(isinstance(x, Dim) and x.const() is None for x in a):
        return SymRange(*a)
    return range(*a)


def uninstall():
    for m, k, v in _PATCHED:
        setattr(m, k, v)
    _PATCHED.clear()
    for m in _LEN:
        if vars(m).get('len') is sym_len:
            del m.len
        if vars(m).get('range') is sym_range:
            del m.range
    _LEN.clear()
