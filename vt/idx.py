"""Symbolic index arrays.  An index array with a symbolic number of entries is held as
selector matrices: column j of a K x d index array is the 0/1 matrix S_j with
S_j[k, i] = 1 iff entry (k, j) is i.  Indexing an axis is the contraction with S_j."""
import numpy as _np
from .dim import Dim, Unsupported, path, decide_dim
from . import sym
from .sym import SymArray, Ix, ONE


def selector(name, K, n):
    """an arbitrary index array of length K with entries in 0..n-1"""
    K, n = Dim.of(K), Dim.of(n)
    if name in path().tables:
        name = path().new_id(name)
    s = SymArray.input(name, [K, n])
    path().tables[name].kind = 'sel'
    path().tables[name].info = {'cols': n.const() != 1, 'rows': K.const() != 1}
    return s


class IntArr:
    __array_priority__ = 3000
    __hash__ = None

    def __init__(self, cols, nd=1, tr=False):
        self.cols, self.nd, self.tr = list(cols), nd, tr

    @property
    def K(self):
        return self.cols[0].shape[0]

    @property
    def shape(self):
        if self.nd == 1:
            return (self.K,)
        s = (self.K, len(self.cols))
        return s[::-1] if self.tr else s

    ndim = property(lambda self: self.nd)

    @property
    def size(self):
        return Dim.wrap(Dim.of(self.K)._mul(Dim.of(len(self.cols))))

    @property
    def dtype(self):
        return _np.dtype(int)

    @property
    def T(self):
        return self.transpose()

    def transpose(self, *a):
        return IntArr(self.cols, self.nd, (not self.tr) if self.nd == 2 else False)

    def copy(self):
        return IntArr(self.cols, self.nd, self.tr)
    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, *a, **k):
        return self.copy()

    def ravel(self, order='C'):
        if self.nd == 1:
            return self.copy()
        if len(self.cols) == 1:
            return IntArr(self.cols)
        raise Unsupported('ravel of a symbolic index matrix')
    flatten = ravel

    def reshape(self, *shape, order='C'):
        if len(shape) == 1 and _np.ndim(shape[0]) > 0:
            shape = tuple(shape[0])
        if len(self.cols) == 1:
            if len(shape) == 1:
                return IntArr(self.cols)
            if len(shape) == 2 and _is1(shape[1]):
                return IntArr(self.cols, 2)
            if len(shape) == 2 and _is1(shape[0]):
                return IntArr(self.cols, 2, True)
        raise Unsupported('reshape of a symbolic index array')

    def tolist(self):
        return SymRows(self)

    def __len__(self):
        s = self.shape[0]
        if isinstance(s, int):
            return s
        raise Unsupported('len of a symbolic index array')

    def __iter__(self):
        if self.nd == 2 and self.tr:
            return iter([IntArr([x]) for x in self.cols])
        return iter(SymRows(self))

    def __getitem__(self, key):
        if self.nd == 1:
            if isinstance(key, Mask):
                return MaskedIdx(self.cols[0], key)
            if key == slice(None) or key is Ellipsis:
                return self.copy()
            if isinstance(key, tuple) and len(key) == 2 and key[0] == slice(None) and key[1] is None:
                return IntArr(self.cols, 2)
            if isinstance(key, (int, _np.integer)):
                return Entry(self.cols[0]._pick(0, int(key)))
            raise Unsupported('index into a symbolic index array')
        a, b = (key if isinstance(key, tuple) else (key, slice(None)))
        if isinstance(a, Mask) and not self.tr and isinstance(b, (int, _np.integer)):
            return MaskedIdx(self.cols[int(b)], a)
        if self.tr:
            a, b = b, a
        if not isinstance(a, slice) and _np.ndim(a) == 1 and not has(a) and _np.asarray(a).dtype != bool and len(a) == 1 and int(a[0]) == 0 and Dim.of(self.K).norm().const() == 1:
            a = slice(None)
        if not (isinstance(a, slice) and a == slice(None)):
            raise Unsupported('row of a symbolic index matrix')
        if isinstance(b, slice):
            return IntArr(self.cols[b], 2, self.tr)
        if _np.ndim(b) == 0:
            return IntArr([self.cols[int(b)]])
        b = _np.asarray(b)
        if b.dtype == bool:
            b = _np.nonzero(b)[0]
        return IntArr([self.cols[int(i)] for i in b], 2, self.tr)

    def _no(self, *a, **k):
        raise Unsupported('arithmetic on symbolic indices')
    def __eq__(self, o):
        o = as_int(o)
        if isinstance(o, IntArr) and self.nd == 1 and o.nd == 1:
            a, b = self.cols[0], o.cols[0]
            if decide_dim(Dim.of(a.shape[0])._add(Dim.of(b.shape[0]), -1), 'eq') and decide_dim(Dim.of(a.shape[1])._add(Dim.of(b.shape[1]), -1), 'eq'):
                return Mask(sym.contract([a, b], [[0, 1], [0, 1]], [0]))
        raise Unsupported('comparison of symbolic indices')

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __bool__ = __index__ = __array__ = __array_ufunc__ = __array_function__ = __setitem__ = __floordiv__ = __mod__ = _no

    def canon(self):
        return ('int', self.nd, self.tr, tuple(x.canon() for x in self.cols))

    def __repr__(self):
        return 'IntArr%r' % (self.shape,)


class Mask:
    """a boolean vector over the rows, held as a 0/1 vector"""
    __hash__ = None
    __array_priority__ = 3000
    __array_ufunc__ = None

    def __init__(self, vec):
        self.vec = vec

    @property
    def shape(self):
        return self.vec.shape

    @staticmethod
    def of(x):
        if isinstance(x, Mask):
            return x
        if isinstance(x, SymArray) and x.ndim == 1 and sym.equal(x, SymArray.full(x.shape, 1))[0]:
            return Mask(x)
        raise Unsupported('boolean vector')

    def both(self, o):
        return Mask(self.vec * Mask.of(o).vec)
    __and__ = __rand__ = both

    def __bool__(self):
        raise Unsupported('truth of a symbolic boolean vector')

    def canon(self):
        return ('mask', self.vec.canon())


class MaskedIdx:
    """the rows of an index column where a mask holds"""

    def __init__(self, col, mask):
        self.col, self.mask = col, mask


class MaskedVal:
    """the rows of an array where a mask holds (leading axis)"""

    def __init__(self, val, mask):
        self.val, self.mask = val, mask


def masked_get(data, m):
    if data.ndim != 1:
        raise Unsupported('masked index on several axes')
    return MaskedVal(take(data, IntArr([m.col]), 0), m.mask)


def masked_set(arr, mask, v):
    """arr[mask] = v"""
    if arr.ndim != 1:
        raise Unsupported('masked assignment on several axes')
    if isinstance(v, MaskedVal):
        if v.mask.vec.canon() != mask.vec.canon():
            raise Unsupported('different masks')
        v = v.val
    elif not isinstance(v, (int, float)):
        raise Unsupported('masked assignment')
    return arr * (mask.vec * -1 + 1) + mask.vec * v


def has(x):
    return isinstance(x, (IntArr, SymRows, SymArray))


def _is1(x):
    return (isinstance(x, Dim) and x.const() == 1) or (isinstance(x, (int, _np.integer)) and x == 1)


class Entry:
    """one entry of an index array: a selector row (vector of length n)"""
    __hash__ = None

    def __init__(self, row):
        self.row = row

    def __eq__(self, o):
        if isinstance(o, str):
            return False
        raise Unsupported('comparison of a symbolic index')

    def __ne__(self, o):
        return not (self == o)


class SymRows(list):
    """the list form of an index array: iterating gives one generic row"""

    def __init__(self, arr):
        super().__init__()
        self.arr = arr

    def __len__(self):
        return len(self.arr)

    def __iter__(self):
        a = self.arr
        if a.nd == 2 and a.tr:
            return iter([SymRows(IntArr([x])) for x in a.cols])
        K = Dim.of(a.K)
        if K.const() == 1:
            rows = [Entry(x._pick(0, 0)) for x in a.cols]
        else:
            kap = Ix(K)
            path().tables.setdefault('generic', []).append(kap)
            rows = []
            for x in a.cols:
                x = x._drop_ones()
                if len(x.axes[0]) != 1 or len(x.axes[0][0]) != 1:
                    raise Unsupported('generic row of a structured index array')
                blocks = {}
                for k, (vs, e) in x.blocks.items():
                    blocks[k[1:]] = (vs[1:], sym.subst_expr(e, {vs[0]: kap}))
                rows.append(Entry(SymArray(x.axes[1:], blocks)))
        return iter([rows if a.nd == 2 else rows[0]])

    def __getitem__(self, i):
        raise Unsupported('entry of a symbolic index list')

    def __repr__(self):
        return 'SymRows%r' % (self.arr.shape,)


def generalise(x):
    """[value at a generic row] -> the array over all rows"""
    gens = path().tables.get('generic', [])
    if not gens:
        return None
    found = []
    for vs, e in x.blocks.values():
        for t in e:
            for g in t[2]:
                for y in g[1:]:
                    if isinstance(y, Ix) and any(y is z for z in gens) and not any(y is z for z in found):
                        found.append(y)
    if not found:
        return None
    if len(found) > 1:
        raise Unsupported('two generic rows')
    k = found[0]
    blocks = {}
    for key, (vs, e) in x.blocks.items():
        n = Ix(k.dim)
        blocks[(0,) + key] = ((n,) + tuple(vs), sym.subst_expr(e, {k: n}))
    return SymArray((((k.dim,),),) + x.axes, blocks)


def as_int(x):
    return x.arr if isinstance(x, SymRows) else x


def is_int(x):
    return isinstance(x, (IntArr, SymRows))


def take(data, idx, axis):
    """numpy.take along an axis with a one-dimensional index array"""
    idx = as_int(idx)
    data = SymArray.lift(data)
    if idx.nd != 1:
        raise Unsupported('take with an index matrix')
    if axis is None:
        raise Unsupported('take on the flattened array')
    axis = int(axis)
    if axis < 0:
        axis += data.ndim
    S = idx.cols[0]
    if not decide_dim(Dim.of(data.shape[axis])._add(Dim.of(S.shape[1]), -1), 'eq'):
        raise Unsupported('index range differs from the size of the axis')
    lab = list(range(data.ndim))
    out = list(lab)
    out[axis] = 1000
    return sym.contract([S, data], [[1000, axis], lab], out)


def pick_entry(data, ax, en):
    if not decide_dim(Dim.of(data.shape[ax])._add(Dim.of(en.row.shape[0]), -1), 'eq'):
        raise Unsupported('index range differs from the size of the axis')
    lab = list(range(data.ndim))
    return sym.contract([en.row, data], [[ax], lab], [x for x in lab if x != ax])


def arange(*a):
    a = [Dim.of(x) for x in a]
    if len(a) == 1:
        lo, hi, st = Dim.of(0), a[0], ONE
    else:
        lo, hi, st = a[0], a[1], a[2] if len(a) > 2 else ONE
    if lo.norm().const() != 0:
        raise Unsupported('arange from a symbolic or nonzero start')
    if st.norm().const() == 1:
        return IntArr([SymArray.eye(hi)])
    n = st._add(ONE, -1).norm()
    if hi._add(n._mul(n), -1).norm().const() == 0:
        # 0, n+1, 2(n+1), ... below n^2: the n positions (i, i) of an n x n array
        e = SymArray.eye(n)
        s = sym.contract([e, e], [[0, 1], [0, 2]], [0, 1, 2])
        return IntArr([join_axes(s, 1)])
    raise Unsupported('arange with a symbolic step')


def join_axes(s, first):
    """merge the axes from `first` on, first index fastest"""
    s = s._drop_ones()
    return SymArray(s.axes[:first] + (tuple(f for a in s.axes[first:] for f in a),), s.blocks)


def ravel_multi_index(multi, dims, order='C'):
    multi = as_int(multi)
    if isinstance(multi, IntArr):
        if multi.nd != 2 or not multi.tr:
            raise Unsupported('ravel_multi_index')
        cols = list(multi.cols)
    else:
        cols = [as_int(m).cols[0] for m in multi]
    dims = list(dims)
    if len(dims) != len(cols):
        raise ValueError('parameter multi_index must be a sequence of length %d' % len(dims))
    for d, s in zip(dims, cols):
        if not decide_dim(Dim.of(s.shape[1])._add(Dim.of(d), -1), 'eq'):
            raise Unsupported('ravel_multi_index: range differs from the size')
    if order == 'C':
        cols = cols[::-1]
    s = sym.contract(cols, [[0, 1 + j] for j in range(len(cols))], list(range(len(cols) + 1)))
    return IntArr([join_axes(s, 1)])


def fn(q, a, k):
    """numpy functions on index arrays"""
    if q in ('logical_and', 'bitwise_and'):
        return Mask.of(a[0]).both(a[1])
    x = as_int(a[0])
    if q in ('array', 'asarray', 'copy'):
        return x.copy() if isinstance(x, IntArr) else np_list(x)
    if q == 'atleast_1d':
        return x.copy()
    if q == 'atleast_2d':
        return IntArr(x.cols, 2, True) if x.nd == 1 else x.copy()
    if q == 'transpose' and len(a) == 1:
        return x.transpose()
    if q == 'ravel':
        return x.ravel()
    if q == 'reshape':
        return x.reshape(a[1])
    if q == 'expand_dims' and a[1] in (1, -1) and x.nd == 1:
        return IntArr(x.cols, 2)
    if q == 'size':
        return x.size if len(a) == 1 else x.shape[a[1]]
    if q == 'shape':
        return x.shape
    if q == 'ndim':
        return x.nd
    if q in ('repeat', 'tile'):
        ax = a[2] if len(a) > 2 else k.get('axis')
        n = a[1]
        if q == 'tile':
            if _np.ndim(n) == 1 and len(n) == 2 and _is1(n[0]):
                ax, n = 1, n[1]
            else:
                raise Unsupported('tile of an index array')
        if x.nd == 2 and not x.tr and ax in (1, -1):
            return IntArr([c for c in x.cols for _ in range(int(n))], 2)
        raise Unsupported('repeat of an index array')
    if q == 'ravel_multi_index':
        return ravel_multi_index(a[0], a[1], *a[2:], **k)
    if q == 'take':
        d, i = a[0], a[1]
        return take(d, i, a[2] if len(a) > 2 else k.get('axis'))
    if q == 'isscalar':
        return False
    if q in ('hstack', 'column_stack', 'stack', 'concatenate'):
        parts = [as_int(y) for y in a[0]]
        ax = a[1] if len(a) > 1 else k.get('axis', 0)
        if all(isinstance(p, IntArr) and p.nd == 2 and not p.tr for p in parts) and (q in ('hstack', 'column_stack') or ax in (1, -1)) and q != 'stack':
            return IntArr([c for p in parts for c in p.cols], 2)
        if all(isinstance(p, IntArr) and p.nd == 1 for p in parts) and (q == 'column_stack' or (q == 'stack' and ax in (1, -1))):
            return IntArr([p.cols[0] for p in parts], 2)
    raise Unsupported('numpy.%s on symbolic indices' % q)


def np_list(x):
    raise Unsupported('list of symbolic indices')
