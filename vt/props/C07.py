"""C07: multi-index sets.  Integer sets of data-dependent size: bounded checks against the
set-theoretic definitions, on random sets and on every small parameter of the constructors."""
import itertools
import numpy as np
import tensap
from tensap import MultiIndices as MI
from vt.ctx import harness, SkipCase

M = 'MultiIndices.'


def rset(c, d=None, hi=3, nmax=12, lo=0):
    d = int(c.rng.integers(1, 5)) if d is None else d
    pts = list(itertools.product(range(lo, hi + 1), repeat=d)) if (hi - lo + 1) ** d <= 400 else None
    n = int(c.rng.integers(1, nmax + 1))
    if pts is not None:
        p = c.rng.permutation(len(pts))[:n]
        return np.array([pts[i] for i in p], dtype=int)
    return np.unique(c.rng.integers(lo, hi + 1, size=(n, d)), axis=0)


def lower(c, d=None, hi=3):
    """a random downward closed set in random order"""
    a = rset(c, d, hi, 4)
    s = {t for r in a for t in itertools.product(*[range(x + 1) for x in r])}
    s = sorted(s)
    return np.array([s[i] for i in c.rng.permutation(len(s))], dtype=int).reshape(len(s), a.shape[1])


def tup(x):
    a = x.array if isinstance(x, MI) else x
    return [tuple(int(v) for v in r) for r in np.atleast_2d(a)]


def isset(c, label, got, want):
    c.true(label + ': a set of multi-indices', isinstance(got, MI), repr(type(got)))
    g = tup(got) if got.array.size else []
    c.true(label + ': each index once', len(g) == len(set(g)), '%r' % (g,))
    c.true(label + ': members', set(g) == set(want), 'missing %r, extra %r' % (sorted(set(want) - set(g))[:5], sorted(set(g) - set(want))[:5]))


def I2(c, kind=None):
    return lower(c) if c.rng.random() < 0.4 else rset(c)


ONE = [{}]


@harness('C07', [M + f for f in ('__init__', 'cardinal', 'ndim', 'to_list', 'keep_indices', 'get_indices')], ONE, symbolic=False, concrete=60)
def basic(c):
    a = I2(c)
    I = MI(a)
    n, d = a.shape
    c.same('cardinal', I.cardinal(), n)
    c.same('ndim', I.ndim(), d)
    c.same('to_list', np.array(I.to_list()).T, a)
    J = MI(I)
    c.same('copy', J.array, a)
    k = c.rng.permutation(n)[:int(c.rng.integers(1, n + 1))]
    with c.frame('keep_indices', I, k):
        K = I.keep_indices(k)
    c.same('keep_indices', K.array, a[k])
    c.same('get_indices', I.get_indices(k), a[k])
    K = I.keep_indices(int(k[0]))
    c.same('keep one index', K.array, a[k[:1]])
    one = MI(list(a[0]))
    c.same('one multi-index', one.array, a[:1])


@harness('C07', [M + f for f in ('sub2ind', 'ind2sub')], ONE, symbolic=False, concrete=60)
def linear(c):
    d = int(c.rng.integers(1, 5))
    shp = [int(x) for x in c.rng.integers(1, 5, size=d)]
    N = int(np.prod(shp))
    ind = c.rng.permutation(N)[:int(c.rng.integers(1, N + 1))]
    with c.frame('ind2sub', ind, shp):
        I = MI.ind2sub(shp, ind)
    st = np.concatenate(([1], np.cumprod(shp)[:-1]))
    c.same('first index fastest', (I.array * st).sum(1), ind)
    c.true('in range', bool(np.all((I.array >= 0) & (I.array < np.array(shp)))))
    with c.frame('sub2ind', I, shp):
        back = I.sub2ind(shp)
    c.same('inverse', back, ind)


@harness('C07', [M + f for f in ('__eq__', '__le__')], ONE, symbolic=False, concrete=60)
def comparisons(c):
    a = I2(c)
    n, d = a.shape
    b = np.array([a[i] if c.rng.random() < 0.5 else c.rng.integers(0, 4, size=d) for i in range(n)])
    I, J = MI(a), MI(b)
    with c.frame('compare', I, J):
        e, l = I == J, I <= J
    c.same('==', e, [bool((x == y).all()) for x, y in zip(a, b)])
    c.same('<=', l, [bool((x <= y).all()) for x, y in zip(a, b)])
    o = MI(b[:1])
    with c.frame('compare one', I, o):
        e, l = I == o, I <= o
    c.same('== one', e, [bool((x == b[0]).all()) for x in a])
    c.same('<= one', l, [bool((x <= b[0]).all()) for x in a])
    c.same('the second operand is a single index still', o.cardinal(), 1)


@harness('C07', [M + f for f in ('__add__', '__radd__', '__sub__', '__rsub__')], ONE, symbolic=False, concrete=40)
def translation(c):
    a = I2(c)
    I = MI(a)
    for m in (2, [int(x) for x in c.rng.integers(0, 4, size=a.shape[1])]):
        m = np.array(m)if c.rng.random() < 0.5 or not isinstance(m, int) else m
        with c.frame('translate', I, m):
            s = I + m
        c.same('I + m', s.array, a + m)
        with c.frame('translate', I, m):
            s = I - m
        c.same('I - m', s.array, a - m)
    with c.frame('right translation', I):
        s = 2 + I
        t = 5 - I
    c.true('m + I is a set', isinstance(s, MI) and isinstance(t, MI))
    c.same('m + I', s.array, a + 2)
    c.same('m - I', t.array, 5 - a)


@harness('C07', [M + f for f in ('norm', 'weighted_norm', 'sort_by_norm', 'sort_by_weighted_norm')], [{'p': p} for p in (1, 2, 3, 0.5, 'inf')], symbolic=False, concrete=30)
def norms(c, p):
    p = np.inf if p == 'inf' else p
    a = I2(c)
    n, d = a.shape
    w = np.round(c.rng.random(d) * 3 + 0.25, 2)
    I = MI(a)

    def nrm(x):
        return np.max(x, axis=1) if p == np.inf else np.sum(x.astype(float) ** p, axis=1) ** (1 / p)
    with c.frame('norm', I, w):
        u, v = I.norm(p), I.weighted_norm(p, w)
    c.eq('norm', u, nrm(a))
    c.eq('weighted norm', v, nrm(a * w))
    c.eq('default power', I.norm(), np.sqrt(np.sum(a ** 2, axis=1)))
    k = c.rng.permutation(n)[:int(c.rng.integers(1, n + 1))]
    c.eq('norm of some', I.norm(p, k), nrm(a)[k])
    c.eq('weighted norm of some', I.weighted_norm(p, list(w), k), nrm(a * w)[k])
    for mode in ('ascend', 'descend'):
        with c.frame('sort', I, w):
            s, t = I.sort_by_norm(p, mode), I.sort_by_weighted_norm(p, w, mode)
        isset(c, 'sort by norm', s, tup(a))
        isset(c, 'sort by weighted norm', t, tup(a))
        sg = 1 if mode == 'ascend' else -1
        c.true('increasing', bool(np.all(np.diff(sg * nrm(s.array)) >= -1e-12)))
        c.true('increasing weighted', bool(np.all(np.diff(sg * nrm(t.array * w)) >= -1e-12)))


@harness('C07', [M + 'sort'], [{'mode': m} for m in ('ascend', 'descend')], symbolic=False, concrete=60)
def sort(c, mode):
    a = rset(c, hi=2, nmax=25)
    I = MI(a)
    cols = c.rng.permutation(a.shape[1])
    sg = 1 if mode == 'ascend' else -1
    with c.frame('sort', I, cols):
        s = I.sort(cols, mode)
    c.same('sorted', tup(s), sorted(tup(a), key=lambda t: [sg * t[k] for k in cols]))
    s = I.sort(mode=mode)
    c.same('sorted, last column first', tup(s), sorted(tup(a), key=lambda t: [sg * t[k] for k in range(a.shape[1])][::-1]))


@harness('C07', [M + f for f in ('add_indices', 'remove_indices', 'intersect_indices')], ONE, symbolic=False, concrete=80)
def algebra(c):
    a = I2(c)
    d = a.shape[1]
    b = rset(c, d)
    if c.rng.random() < 0.4:
        b = np.unique(np.vstack((b, a[:int(c.rng.integers(1, len(a) + 1))])), axis=0)
        b = b[c.rng.permutation(len(b))]
    I, J = MI(a), MI(b)
    A, B = set(tup(a)), set(tup(b))
    with c.frame('union', I, J):
        U = I.add_indices(J)
    isset(c, 'union', U, A | B)
    c.same('union keeps the order of the first set', tup(U)[:len(a)], tup(a))
    with c.frame('difference', I, J):
        D = I.remove_indices(J)
    isset(c, 'difference', D, A - B)
    c.same('difference keeps the order', tup(D) if D.array.size else [], [t for t in tup(a) if t not in B])
    with c.frame('intersection', I, J):
        N, i, j = I.intersect_indices(J)
    isset(c, 'intersection', N, A & B)
    c.same('positions in I', a[i].reshape(-1, d), N.array.reshape(-1, d))
    c.same('positions in J', b[j].reshape(-1, d), N.array.reshape(-1, d))
    k = c.rng.permutation(len(a))[:int(c.rng.integers(1, len(a) + 1))]
    for kk in (k, [int(x) for x in k], int(k[0])):
        with c.frame('remove numbers', I, kk):
            R = I.remove_indices(kk)
        rm = {int(x) for x in np.atleast_1d(kk)}
        c.same('remove numbers', tup(R) if R.array.size else [], [t for i, t in enumerate(tup(a)) if i not in rm])


@harness('C07', [M + f for f in ('keep_dims', 'remove_dims')], ONE, symbolic=False, concrete=60)
def dims(c):
    a = rset(c, int(c.rng.integers(2, 5)), nmax=20)
    d = a.shape[1]
    k = c.rng.permutation(d)[:int(c.rng.integers(1, d))]
    I = MI(a)
    for kk in (k, [int(x) for x in k]) + ((int(k[0]),) if len(k) == 1 else ()):
        with c.frame('keep_dims', I, kk):
            K = I.keep_dims(kk)
        isset(c, 'keep_dims', K, tup(a[:, np.atleast_1d(kk)]))
        with c.frame('remove_dims', I, kk):
            R = I.remove_dims(kk)
        isset(c, 'remove_dims', R, tup(np.delete(a, np.atleast_1d(kk), axis=1)))


@harness('C07', [M + f for f in ('product', 'product_set', 'bounded_by')], ONE, symbolic=False, concrete=60)
def products(c):
    n = int(c.rng.integers(1, 4))
    parts = []
    for i in range(n):
        q = int(c.rng.integers(0, 3))
        if q == 0:
            parts.append([int(x) for x in c.rng.permutation(5)[:int(c.rng.integers(1, 4))]])
        elif q == 1:
            parts.append(np.array(c.rng.permutation(5)[:int(c.rng.integers(1, 4))]))
        else:
            parts.append(MI(rset(c, int(c.rng.integers(1, 3)), nmax=4)))
    rows = [tup(p) if isinstance(p, MI) else [(int(x),) for x in p] for p in parts]
    with c.frame('product_set', parts, *parts):
        P = MI.product_set(parts)
    want = [sum((rows[i][k[n - 1 - i]] for i in range(n)), ()) for k in itertools.product(*[range(len(r)) for r in rows[::-1]])]
    c.same('product, first factor fastest', tup(P), want)
    a, b = rset(c, nmax=5), rset(c, nmax=5)
    I, J = MI(a), MI(b)
    with c.frame('product', I, J):
        P = I.product(J)
    c.same('product of two', tup(P), [x + y for y in tup(b) for x in tup(a)])
    c.same('product with None', tup(I.product(None)), tup(a))
    d = int(c.rng.integers(1, 4))
    L = [int(x) for x in c.rng.permutation(6)[:int(c.rng.integers(1, 4))]]
    want = [tuple(L[i] for i in k[::-1]) for k in itertools.product(range(len(L)), repeat=d)]
    for x in (np.array(L), [np.array(L)], list(L)):
        with c.frame('power', x):
            P = MI.product_set(x, d)
        c.same('power', tup(P), want)
    m = [int(x) for x in c.rng.integers(0, 4, size=d)]
    m0 = int(c.rng.integers(0, 2))
    if min(m) >= m0:
        with c.frame('bounded_by', m):
            P = MI.bounded_by(m, m0)
        c.same('bounded_by', tup(P), [t[::-1] for t in itertools.product(*[range(m0, x + 1) for x in m[::-1]])])
        c.same('bounded_by, default', set(tup(MI.bounded_by(m))), set(itertools.product(*[range(x + 1) for x in m])))


def is_lower(s, m=0):
    return all(t in s for x in s for t in itertools.product(*[range(m, v + 1) for v in x]))


@harness('C07', [M + 'is_downward_closed'], ONE, symbolic=False, concrete=120)
def downward_closed(c):
    a = I2(c)
    q = c.rng.random()
    if q < 0.5:
        a = lower(c)
        if len(a) > 1 and q < 0.3:
            a = np.delete(a, int(c.rng.integers(0, len(a))), axis=0)
    for m in (0, 1):
        I = MI(a + m)
        with c.frame('is_downward_closed', I):
            r = I.is_downward_closed(m)
        c.same('is_downward_closed', bool(r), is_lower(set(tup(a + m)), m))


@harness('C07', [M + 'envelope'], ONE, symbolic=False, concrete=60)
def envelope(c):
    a = I2(c)
    I = MI(a)
    u = np.round(c.rng.standard_normal(len(a)), 3)
    for v in (u, list(u)):
        with c.frame('envelope', I, v):
            e = I.envelope(v)
        c.eq('envelope', e, [max(abs(u[j]) for j in range(len(a)) if (a[j] >= a[i]).all()) for i in range(len(a))])


def e(d, k):
    return np.eye(d, dtype=int)[k]


@harness('C07', [M + f for f in ('get_maximal_indices', 'get_margin', 'get_reduced_margin')], [{'kind': k} for k in ('lower', 'any')], symbolic=False, concrete=80)
def margins(c, kind):
    a = lower(c) if kind == 'lower' else rset(c)
    d = a.shape[1]
    s = set(tup(a))
    I = MI(a)
    marg = {tuple(np.array(x) + e(d, k)) for x in s for k in range(d)} - s
    with c.frame('margin', I):
        m = I.get_margin()
    isset(c, 'margin', m, marg)
    red = {x for x in marg if all(x[k] == 0 or tuple(np.array(x) - e(d, k)) in s for k in range(d))}
    with c.frame('reduced margin', I):
        r = I.get_reduced_margin()
    isset(c, 'reduced margin', r, red)
    if kind == 'lower':
        with c.frame('maximal', I):
            x = I.get_maximal_indices()
        isset(c, 'maximal indices', x, {t for t in s if not any(u != t and all(p >= q for p, q in zip(u, t)) for u in s)})


def box(d, hi):
    return itertools.product(range(hi + 1), repeat=d)


@harness('C07', [M + f for f in ('with_bounded_norm', 'with_bounded_weighted_norm')], [{'d': d, 'p': p} for d in (1, 2, 3, 4) for p in (1, 2, 3, 0.5, 0.7, 1.5, 'inf')], symbolic=False, concrete=5)
def bounded_norm(c, d, p):
    p = np.inf if p == 'inf' else p

    def nrm(t):
        t = np.array(t, dtype=float)
        return t.max() if p == np.inf else np.sum(t ** p) ** (1 / p)
    for m in range(0, 5 if d < 4 else 4):
        want = {t for t in box(d, m) if nrm(t) <= m * (1 + 1e-12)}
        lim = {t for t in box(d, m) if abs(nrm(t) - m) < 1e-9} if p not in (1, np.inf) else set()
        I = MI.with_bounded_norm(d, p, m)
        g = set(tup(I))
        isset(c, 'bounded norm (indices on the boundary aside)', MI(np.array(sorted(g | lim))), want | lim)
        c.true('each index once', I.cardinal() == len(g))
    w = [float(x) for x in c.rng.choice([0.5, 1, 1.5, 2, 3], size=d)]
    m = int(c.rng.integers(0, 5))
    with c.frame('weights', w):
        I = MI.with_bounded_weighted_norm(d, p, m, w)
    hi = int(m / min(w)) + 1
    near = {t for t in box(d, hi) if abs(nrm(np.array(t) * w) - m) < 1e-9} if p not in (1, np.inf) else set()
    want = {t for t in box(d, hi) if nrm(np.array(t) * w) <= m * (1 + 1e-12)}
    g = set(tup(I))
    c.true('each index once', I.cardinal() == len(g))
    isset(c, 'bounded weighted norm', MI(np.array(sorted(g | near))), want | near)


@harness('C07', [M + f for f in ('hyperbolic_cross_set', 'weighted_hyperbolic_cross_set', 'low_order_interactions')], [{'d': d} for d in (1, 2, 3, 4)], symbolic=False, concrete=6)
def crosses(c, d):
    for p in range(0, 7 if d < 4 else 5):
        isset(c, 'hyperbolic cross', MI.hyperbolic_cross_set(d, p), {t for t in box(d, p) if np.prod(np.array(t) + 1) <= p + 1})
        w = [float(x) for x in c.rng.choice([1, 2, 3], size=d)]
        with c.frame('weights', w):
            I = MI.weighted_hyperbolic_cross_set(d, p, w)
        isset(c, 'weighted hyperbolic cross', I, {t for t in box(d, p) if np.prod((np.array(t) + 1.0) ** w) <= p + 1})
    for p in range(0, 4):
        for m in range(0, d + 2):
            isset(c, 'low order interactions', MI.low_order_interactions(d, p, m), {t for t in box(d, p) if np.count_nonzero(t) <= m})


# ---------------------------------------------------------------- all integers
def same_row(x, y):
    return all(bool(a == b) for a, b in zip(x, y))


def among(x, rows):
    return any(same_row(x, y) for y in rows)


def rows_of(I):
    a = I.array if isinstance(I, MI) else I
    return [list(r) for r in np.asarray(a)]


def symset(c, name, n, d, lo=0, hi=4):
    a = c.integers(name, (n, d), lo=lo, hi=hi)
    for i in range(n):
        for j in range(i):
            c.assume(not same_row(a[i], a[j]))
    return a


def isset_all(c, label, got, want):
    """the rows of got are distinct and are exactly the members of want"""
    c.true(label + ': a set of multi-indices', isinstance(got, MI))
    g = rows_of(got)
    c.true(label + ': each index once', not any(same_row(g[i], g[j]) for i in range(len(g)) for j in range(i)))
    c.true(label + ': no index missing', all(among(x, g) for x in want))
    c.true(label + ': no other index', all(among(x, want) for x in g))


SHAPES7 = [{'n': n, 'm': m, 'd': d} for n, m, d in ((1, 1, 1), (2, 1, 1), (2, 2, 1), (3, 2, 1), (1, 1, 2), (2, 1, 2), (1, 2, 2), (2, 2, 2), (1, 1, 3))]


@harness('C07', [M + f for f in ('add_indices', 'remove_indices', 'intersect_indices', '__eq__', '__le__')], SHAPES7, concrete=6, engine='scalar', paths=900)
def algebra_all_integers(c, n, m, d):
    a, b = symset(c, 'a', n, d, hi=3), symset(c, 'b', m, d, hi=3)
    A, B = rows_of(a), rows_of(b)
    I, J = MI(a), MI(b)
    if n * m * d < 8:
        isset_all(c, 'union', I.add_indices(J), A + B)
    N, i, j = I.intersect_indices(J)
    isset_all(c, 'intersection', N, [x for x in A if among(x, B)])
    c.true('positions', all(same_row(a[p], x) and same_row(b[q], x) for p, q, x in zip(i, j, rows_of(N))) and len(i) == len(j) == len(rows_of(N)))
    isset_all(c, 'difference', I.remove_indices(J), [x for x in A if not among(x, B)])
    c.true('the sets are left as they were', all(same_row(x, y) for x, y in zip(rows_of(I), A)) and all(same_row(x, y) for x, y in zip(rows_of(J), B)))
    if (n == m or m == 1) and n * m * d < 8:
        e, l = I == J, I <= J
        for k in range(n):
            y = B[k if m > 1 else 0]
            c.true('==', bool(e[k]) == same_row(A[k], y))
            c.true('<=', bool(l[k]) == all(bool(p <= q) for p, q in zip(A[k], y)))


@harness('C07', [M + f for f in ('get_margin', 'get_reduced_margin', 'get_maximal_indices', 'envelope')], [{'n': n, 'd': d} for n, d in ((1, 1), (2, 1), (3, 1), (1, 2), (2, 2), (1, 3))], concrete=10, engine='scalar', paths=900)
def margins_all_integers(c, n, d):
    a = symset(c, 'a', n, d, hi=3)
    A = rows_of(a)
    I = MI(a)
    up = [[v + int(j == k) for j, v in enumerate(x)] for x in A for k in range(d)]
    marg = [x for x in up if not among(x, A)]
    isset_all(c, 'margin', I.get_margin(), marg)
    red = [x for x in marg if all(bool(x[k] == 0) or among([v - int(j == k) for j, v in enumerate(x)], A) for k in range(d))]
    isset_all(c, 'reduced margin', I.get_reduced_margin() if red else MI(np.zeros((0, d))), red)
    u = c.scals('u', n)
    w = I.envelope(u)
    for i in range(n):
        sup = [j for j in range(n) if all(bool(p >= q) for p, q in zip(A[j], A[i]))]
        for j in sup:
            c.le('envelope bounds', abs(u[j]), w[i])
        c.true('envelope is attained', any(bool(w[i] == abs(u[j])) for j in sup))


@harness('C07', [M + f for f in ('keep_dims', 'remove_dims', 'keep_indices', 'sort', 'product', 'product_set')], [{'n': n, 'd': d} for n, d in ((1, 2), (2, 2), (3, 2), (2, 3))], concrete=10, engine='scalar', paths=900)
def selections_all_integers(c, n, d):
    c.symbolic_int_arrays()
    a = symset(c, 'a', n, d, hi=3)
    A = rows_of(a)
    I = MI(a)
    for dims in ([0], [d - 1], [d - 1, 0]):
        isset_all(c, 'keep_dims', I.keep_dims(dims), [[x[k] for k in dims] for x in A])
        if len(dims) < d:
            isset_all(c, 'remove_dims', I.remove_dims(dims), [[x[k] for k in range(d) if k not in dims] for x in A])
    for mode in ('ascend', 'descend'):
        s = I.sort(mode=mode)
        isset_all(c, 'sort', s, A)
        r = rows_of(s)
        for x, y in zip(r, r[1:]):
            for k in range(d - 1, -1, -1):
                if not x[k] == y[k]:
                    c.true('sorted, last column first', bool(x[k] < y[k]) == (mode == 'ascend'))
                    break
    b = symset(c, 'b', 2, 1, hi=3)
    P = I.product(MI(b))
    c.true('product, first factor fastest', len(rows_of(P)) == 2 * n and all(same_row(x, y) for x, y in zip(rows_of(P), [p + q for q in rows_of(b) for p in A])))
    Q = MI.product_set([MI(b), a[:, 0]])
    c.true('product of lists', all(same_row(x, y) for x, y in zip(rows_of(Q), [list(p) + [q[0]] for q in A for p in rows_of(b)])))


@harness('C07', [M + f for f in ('norm', 'weighted_norm', 'sort_by_norm', 'sort_by_weighted_norm', '__add__', '__radd__', '__sub__', '__rsub__')], [{'n': n, 'd': d, 'p': p} for n, d in ((1, 1), (2, 2), (3, 1), (2, 3)) for p in (1, 2, 'inf') if d < 3 or p == 1], concrete=10, engine='scalar', paths=900)
def norms_all_integers(c, n, d, p):
    p = np.inf if p == 'inf' else p
    a = symset(c, 'a', n, d, hi=3)
    A = rows_of(a)
    w = c.scals('w', d, lo=0, hi=3, strict=True)
    I = MI(a)

    def power(x, v):
        """p-th power of the weighted norm (the norm itself for p = inf)"""
        y = [q * t for q, t in zip(x, v)]
        if p == np.inf:
            r = y[0]
            for t in y[1:]:
                r = t if bool(t > r) else r
            return r
        return sum(t ** p for t in y)

    def nrm(x, v):
        return c.sqrt(power(x, v)) if p == 2 else power(x, v)
    one = [1] * d
    for i in range(n):
        for got, v in ((I.norm(p), one), (I.weighted_norm(p, w), list(w))):
            c.eq('norm', got[i] * got[i] if p == 2 else got[i], power(A[i], v))
            c.le('norms are not negative', 0, got[i])
        c.eq('norm of one', I.norm(p, [i])[0], I.norm(p)[i])
    for mode in ('ascend', 'descend'):
        for s, v in ((I.sort_by_norm(p, mode), one), (I.sort_by_weighted_norm(p, w, mode), list(w))):
            isset_all(c, 'sort by norm', s, A)
            r = rows_of(s)
            for x, y in zip(r, r[1:]):
                c.le('in order', *((nrm(x, v), nrm(y, v)) if mode == 'ascend' else (nrm(y, v), nrm(x, v))))
    m = c.integers('m', (d,), lo=0, hi=3)
    c.eq('I + m', (I + m).array, a + m)
    c.eq('I - m', (I - m).array, a - m)
    c.eq('m + I', (2 + I).array, a + 2)
    c.eq('m - I', (5 - I).array, 5 - a)
    c.eq('the set is left as it was', I.array, a)


@harness('C07', [M + f for f in ('hyperbolic_cross_set', 'with_bounded_weighted_norm')], [{'d': d, 'p': p} for d, p in ((1, 1), (2, 1), (1, 2), (2, 'inf'))], concrete=10, engine='scalar', paths=900)
def parameters_all_reals(c, d, p):
    """all real bounds and weights"""
    m = c.scal('m', lo=0, hi=2)
    if p == 1:
        H = MI.hyperbolic_cross_set(d, m)
        for t in box(d, 3):
            c.true('hyperbolic cross', (t in tup(H)) == bool(np.prod(np.array(t) + 1) <= m + 1))
        c.true('hyperbolic cross: within the bound', all(max(t) <= 2 for t in tup(H)))
    q = np.inf if p == 'inf' else p
    w = c.scals('w', d, lo=0.7, hi=2)
    I = MI.with_bounded_weighted_norm(d, q, m, w)
    g = tup(I)
    c.true('each index once', len(g) == len(set(g)))
    for t in box(d, 3):
        y = [a * b for a, b in zip(t, w)]
        if q == np.inf:
            inside = all(bool(v <= m) for v in y)
        elif q == 1:
            inside = bool(sum(y) <= m)
        else:
            inside = bool(sum(v * v for v in y) <= m * m)
            if not c.symbolic and abs(sum(v * v for v in y) - m * m) < 1e-9:
                continue
        if not c.symbolic and q == 1 and abs(sum(y) - m) < 1e-9:
            continue
        c.true('bounded weighted norm', (t in g) == inside)
    c.true('no other index', all(max(t) <= 2 for t in g))
