"""C16: grids, set membership, Chebyshev points, magic points."""
import itertools
import numpy as np
import tensap
from vt.ctx import harness, SkipCase

ONE = [{}]


def grids(c, dims=None):
    d = int(c.rng.integers(1, 5))
    out = []
    for k in range(d):
        n = int(c.rng.integers(1, 5))
        e = dims if dims is not None else (1 if c.rng.random() < 0.7 else int(c.rng.integers(1, 3)))
        g = c.array('g', (n, e), 'real')
        out.append(g[:, 0] if e == 1 and c.rng.random() < 0.5 else g)
    return out


def points(gs, ind):
    gs = [np.reshape(g, (len(g), -1)) for g in gs]
    return np.array([np.concatenate([gs[k][i[k]] for k in range(len(gs))]) for i in ind])


def first_fastest(shape):
    return [t[::-1] for t in itertools.product(*[range(n) for n in shape[::-1]])]


@harness('C16', ['FullTensorGrid.__init__', 'FullTensorGrid.array', 'FullTensorGrid.eval_at_indices', 'FullTensorGrid.size', 'FullTensorGrid.multi_indices'], ONE, symbolic=False, concrete=80)
def full_grid(c):
    gs = grids(c)
    if c.rng.random() < 0.25:
        g = c.array('g', (int(c.rng.integers(1, 5)),), 'real')
        d = int(c.rng.integers(1, 4))
        gs = [g] * d
        with c.frame('FullTensorGrid', g):
            G = tensap.FullTensorGrid(list(g) if c.rng.random() < 0.3 else g, d)
    else:
        with c.frame('FullTensorGrid', gs):
            G = tensap.FullTensorGrid(gs)
    shape = [len(g) for g in gs]
    ind = first_fastest(shape)
    c.same('shape', G.shape, shape)
    c.same('dim', (G.dim, G.ndim()), (len(gs), len(gs)))
    c.same('size', G.size, len(ind))
    c.same('indices of the points', G.multi_indices().array, ind)
    with c.frame('array', gs):
        x = G.array()
    c.same('points, first index fastest', x, points(gs, ind))
    k = c.rng.integers(0, len(ind), size=int(c.rng.integers(1, 6)))
    I = np.array(ind)[k]
    with c.frame('eval_at_indices', I):
        y = G.eval_at_indices(I)
    c.same('points at indices', y, points(gs, I))
    c.same('array at indices', G.array(I), points(gs, I))


@harness('C16', ['SparseTensorGrid.__init__', 'SparseTensorGrid.array', 'SparseTensorGrid.size'], ONE, symbolic=False, concrete=60)
def sparse_grid(c):
    gs = grids(c, 1 if c.rng.random() < 0.6 else None)
    iso = c.rng.random() < 0.25
    if iso:
        gs = [c.array('g', (int(c.rng.integers(1, 5)),), 'real')] * len(gs)
    shape = [len(g) for g in gs]
    ind = np.array(first_fastest(shape))
    I = ind[c.rng.permutation(len(ind))[:int(c.rng.integers(1, len(ind) + 1))]]
    with c.frame('SparseTensorGrid', gs, I):
        G = tensap.SparseTensorGrid(gs[0], tensap.MultiIndices(I), len(gs)) if iso else tensap.SparseTensorGrid(gs, tensap.MultiIndices(I))
    c.same('size', G.size, len(I))
    c.same('shape', G.shape, shape)
    with c.frame('array', gs, I):
        x = G.array()
    c.same('points in the order of the indices', x, points(gs, I))
    c.same('again', G.array(), points(gs, I))


@harness('C16', ['FullTensorGrid.random'], ONE, symbolic=False, concrete=20)
def random_grid(c):
    d = int(c.rng.integers(1, 4))
    a = np.sort(c.rng.standard_normal((d, 2)), axis=1)
    X = tensap.RandomVector([tensap.UniformRandomVariable(*r) for r in a])
    n = [int(v) for v in c.rng.integers(1, 5, size=d)]
    if c.rng.random() < 0.4:
        G, n = tensap.FullTensorGrid.random(X, n[0]), [n[0]] * d
    else:
        G = tensap.FullTensorGrid.random(X, n)
    c.same('shape', G.shape, n)
    for k in range(d):
        c.true('points in the support', bool(np.all((G.grids[k] >= a[k, 0]) & (G.grids[k] <= a[k, 1]))))


@harness('C16', ['Function.eval_on_tensor_grid', 'UserDefinedFunction.eval'], ONE, symbolic=False, concrete=60)
def eval_grid(c):
    gs = grids(c, 1)
    d = len(gs)
    a = c.array('a', (d,), 'real')
    k = int(c.rng.integers(3))
    f1 = lambda x: np.cos(x @ a) + x[:, 0]
    f2 = lambda x: np.stack([x @ a, np.sin(x[:, -1])], axis=1)
    f3 = lambda x: np.stack([np.stack([x @ a, x[:, 0]], 1), np.stack([x[:, -1] ** 2, 1 + 0 * x[:, 0]], 1), np.stack([x[:, -1], 2 + 0 * x[:, 0]], 1)], axis=1)
    f, shape = [(f1, 1), (f2, 2), (f3, (3, 2))][k]
    if c.rng.random() < 0.5:
        F = tensap.UserDefinedFunction(f, d, shape)
        F.evaluation_at_multiple_points = True
    else:
        F = tensap.UserDefinedFunction(lambda t: f(np.atleast_2d(t))[0], d, shape)
        F.evaluation_at_multiple_points = False
    G = tensap.FullTensorGrid(gs)
    ind = first_fastest([len(g) for g in gs])
    y = f(points(gs, ind))
    T = F.eval_on_tensor_grid(G)
    if k == 0:
        c.same('shape', T.shape, [len(g) for g in gs])
        for i, t in enumerate(ind):
            c.eq('value at the point of this index', T.data[t], y[i])
    else:
        c.same('shape', T.shape, [len(g) for g in gs] + list(np.atleast_1d(shape)))
        for i, t in enumerate(ind):
            c.eq('value at the point of this index', T.data[t], y[i])
    if k == 0:
        I = np.array(ind)[c.rng.permutation(len(ind))[:int(c.rng.integers(1, len(ind) + 1))]]
        S = F.eval_on_tensor_grid(tensap.SparseTensorGrid(gs, tensap.MultiIndices(I)))
        full = S.full().data
        want = np.zeros([len(g) for g in gs])
        for t in I:
            want[tuple(t)] = y[ind.index(tuple(t))]
        c.eq('sparse grid', full, want)


@harness('C16', 'is_in', ONE, symbolic=False, concrete=80)
def membership(c):
    d = int(c.rng.integers(1, 4))
    B = np.sort(c.rng.integers(-2, 3, size=(2, d)).astype(float), axis=0)
    n = int(c.rng.integers(1, 12))
    x = c.rng.integers(-3, 4, size=(n, d)).astype(float) + c.rng.choice([0.0, 0.0, 0.5], size=(n, d))
    b = B if d > 1 or c.rng.random() < 0.5 else B[:, 0]
    b = b.tolist() if c.rng.random() < 0.3 else b
    with c.frame('is_in', b, x):
        r = tensap.is_in(b, x)
    c.same('membership', r, np.all((x >= B[0]) & (x <= B[1]), axis=1))
    if d > 1:
        c.same('one point', tensap.is_in(b, x[0]), np.all((x[:1] >= B[0]) & (x[:1] <= B[1]), axis=1))


@harness('C16', 'chebyshev_points', [{'n': n} for n in (1, 2, 3, 4, 5, 7, 10, 17, 30)], symbolic=False, concrete=5)
def chebyshev(c, n):
    x = tensap.chebyshev_points(n)
    c.true('shape', x.shape == (n, 1))
    c.eq('roots of the Chebyshev polynomial', np.polynomial.chebyshev.chebval(x, [0] * n + [1]), np.zeros((n, 1)), tol=1e-8)
    c.true('distinct, in the interval', len(np.unique(np.round(x, 9))) == n and bool(np.all(np.abs(x) <= 1)))
    s = np.sort(c.rng.standard_normal(2) * 3)
    with c.frame('chebyshev_points', s):
        y = tensap.chebyshev_points(n, s)
    c.true('in the given interval', y.shape == (n, 1) and bool(np.all((y >= s[0]) & (y <= s[1]))))
    c.eq('image of the reference points', y, (s[0] + s[1]) / 2 + (s[1] - s[0]) / 2 * x)


def greedy(c, F, I, J, n, opt):
    F = np.asarray(F, float)
    c.true('number of indices', len(I) == n and len(J) == n, '%r %r' % (I, J))
    c.true('distinct rows and columns', len(set(map(int, I))) == n and len(set(map(int, J))) == n, '%r %r' % (I, J))
    M = F[np.ix_(I, J)]
    c.true('selected matrix invertible', np.linalg.matrix_rank(M, tol=1e-12 * np.abs(F).max()) == n)
    for k in range(n):
        R = F - (F[:, J[:k]] @ np.linalg.solve(F[np.ix_(I[:k], J[:k])], F[I[:k], :]) if k else 0)
        v = abs(R[I[k], J[k]])
        m = np.abs(R).max() if opt == 'left_right' else np.abs(R[:, k]).max() if opt == 'left' else np.abs(R[k, :]).max()
        c.true('greedy maximisation at step %d' % k, v >= m * (1 - 1e-6) - 1e-12, 'residual %g, maximum %g' % (v, m))
        if opt == 'left':
            c.same('columns in order', J[k], k)
        if opt == 'right':
            c.same('rows in order', I[k], k)


@harness('C16', 'magic_indices', [{'opt': o} for o in (None, 'left_right', 'left', 'right')], symbolic=False, concrete=60)
def magic(c, opt):
    import scipy.sparse
    o = opt or 'left_right'
    m, p = int(c.rng.integers(1, 7)), int(c.rng.integers(1, 7))
    if o == 'left' and m < p:
        m, p = p, m
    if o == 'right' and p < m:
        m, p = p, m
    F = c.rng.standard_normal((m, p))
    r = min(m, p)
    if o == 'left_right' and c.rng.random() < 0.4:
        r = int(c.rng.integers(1, r + 1))
        F = c.rng.standard_normal((m, r)) @ c.rng.standard_normal((r, p))
    n = None if r == min(m, p) and c.rng.random() < 0.4 else int(c.rng.integers(1, r + 1))
    Fa = scipy.sparse.csr_matrix(F) if c.rng.random() < 0.15 else F
    with c.frame('magic_indices', F):
        I, J = tensap.magic_indices(Fa, n, opt) if opt else tensap.magic_indices(Fa, n)
    greedy(c, F, list(I), list(J), min(m, p) if n is None else n, o)


@harness('C16', ['FunctionalBasis.magic_points'], ONE, symbolic=False, concrete=60)
def magic_points(c):
    k = int(c.rng.integers(4))
    n = int(c.rng.integers(1, 6))
    if k == 0:
        B, dim = tensap.PolynomialFunctionalBasis(tensap.LegendrePolynomials(), range(n)), 1
        s = (-1, 1)
    elif k == 1:
        B, dim = tensap.PolynomialFunctionalBasis(tensap.HermitePolynomials(), range(n)), 1
        s = (-2, 2)
    elif k == 2:
        b = [tensap.PolynomialFunctionalBasis(tensap.LegendrePolynomials(), range(int(c.rng.integers(1, 4)))) for _ in range(2)]
        B, dim = tensap.FullTensorProductFunctionalBasis(b), 2
        s = (-1, 1)
    else:
        a = c.rng.random(n) * 3
        B, dim = tensap.UserDefinedFunctionalBasis([(lambda x, e=e: np.exp(e * x)) for e in np.cumsum(a + 0.3)], None, 1), 1
        s = (0, 1)
    N = B.cardinal()
    pts = s[0] + (s[1] - s[0]) * c.rng.random((N + int(c.rng.integers(0, 30)), dim))
    left = c.rng.random() < 0.4 and k < 2
    perm = c.rng.permutation(N) if left else None
    with c.frame('magic_points', B, pts):
        x, I, out = B.magic_points(pts[:, 0] if dim == 1 and c.rng.random() < 0.3 else pts, perm)
    I = [int(i) for i in I]
    c.same('points are those of the candidates', x, pts[I])
    F = np.reshape(B.eval(pts), (len(pts), N))
    G = F[:, perm] if left else F
    J = []
    for q in range(N):
        R = G - (G[:, J] @ np.linalg.solve(G[np.ix_(I[:q], J)], G[I[:q], :]) if q else 0)
        J.append(q if left else int(np.argmax(np.abs(R[I[q]]))))
    greedy(c, G, I, J, N, 'left' if left else 'left_right')
    L = F @ np.linalg.inv(F[I])
    c.eq('Lebesgue constant', out['lebesgue_constant'], np.abs(L).sum(1).max(), tol=1e-6)


@harness('C16', ['FullTensorProductFunctionalBasis.magic_points', 'FunctionalBases.magic_points'], ONE, symbolic=False, concrete=30)
def magic_points_tensor(c):
    d = int(c.rng.integers(1, 4))
    bs = [tensap.PolynomialFunctionalBasis(tensap.LegendrePolynomials(), range(int(c.rng.integers(1, 4)))) for _ in range(d)]
    pts = [-1 + 2 * c.rng.random((b.cardinal() + int(c.rng.integers(0, 10)), 1)) for b in bs]
    H = tensap.FunctionalBases(bs)
    with c.frame('magic_points', pts):
        g = H.magic_points([p[:, 0] for p in pts] if c.rng.random() < 0.3 else pts)[0]
    for k in range(d):
        x = bs[k].magic_points(pts[k])[0]
        c.eq('points of each dimension', np.reshape(g[k], (-1, 1)), x)


# ---------------------------------------------------------------- all reals
def prod_rows(shape):
    return [t[::-1] for t in itertools.product(*[range(n) for n in shape[::-1]])]


@harness('C16', ['FullTensorGrid.__init__', 'FullTensorGrid.array', 'FullTensorGrid.eval_at_indices', 'SparseTensorGrid.__init__', 'SparseTensorGrid.array'], [{'shape': s, 'e': e} for s, e in (([3], [1]), ([2, 3], [0, 1]), ([2, 2], [2, 0]), ([2, 1, 3], [0, 0, 0]), ([2, 2, 2], [1, 2, 0]))], concrete=10, engine='scalar')
def grids_all_reals(c, shape, e):
    d = len(shape)
    gs = [c.scals('g%d' % k, (n, q) if q else n) for k, (n, q) in enumerate(zip(shape, e))]
    rows = [[list(np.reshape(g, (len(g), -1))[i]) for i in range(len(g))] for g in gs]
    at = lambda t: sum([rows[k][i] for k, i in enumerate(t)], [])
    G = tensap.FullTensorGrid(list(gs))
    ind = prod_rows(shape)
    c.eq('points, first index fastest', G.array(), c.arr([at(t) for t in ind]))
    I = np.array([ind[i] for i in (len(ind) - 1, 0, len(ind) // 2)])
    c.eq('points at indices', G.eval_at_indices(I), c.arr([at(t) for t in I]))
    S = tensap.SparseTensorGrid(list(gs), tensap.MultiIndices(I))
    c.eq('sparse grid', S.array(), c.arr([at(t) for t in I]))
    c.eq('sparse grid again', S.array(), c.arr([at(t) for t in I]))
    if e == [1] or e[0] == 0:
        H = tensap.FullTensorGrid(np.reshape(gs[0], -1), 2)
        v = [r[0] for r in rows[0]]
        c.eq('power of a grid', H.array(), c.arr([[v[i] for i in t] for t in prod_rows([shape[0]] * 2)]))
    for g, r in zip(gs, rows):
        c.eq('the points are left as they were', np.reshape(g, (len(g), -1)), c.arr(r))


@harness('C16', 'is_in', [{'d': d, 'n': n} for d, n in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 1))], concrete=15, engine='scalar')
def membership_all_reals(c, d, n):
    lo = c.scals('lo', d, grid=1)
    up = lo + c.scals('w', d, lo=0, grid=1)
    x = c.scals('x', (n, d), grid=1)
    r = tensap.is_in(np.stack([lo, up]), x)
    for i in range(n):
        c.true('membership', bool(r[i]) == all(bool(lo[k] <= x[i, k]) and bool(x[i, k] <= up[k]) for k in range(d)))
    c.true('number of answers', len(r) == n)


@harness('C16', 'chebyshev_points', [{'n': n} for n in (1, 2, 3, 5)], concrete=10, engine='scalar')
def chebyshev_all_intervals(c, n):
    a, h = c.scal('a', lo=-4, hi=4), c.scal('h', lo=0, hi=4, strict=True)
    y = tensap.chebyshev_points(n, c.arr([a, a + h]))
    z = [np.cos(np.pi * (2 * k + 1) / (2 * n)) for k in range(n)]
    c.true('shape', y.shape == (n, 1))
    for k in range(n):
        # all the points, in some order
        c.true('image of a root', any(bool(abs(2 * y[k, 0] - 2 * a - h - t * h) <= 1e-9 * h) for t in z))
    c.le('in the interval', a, y)
    c.le('in the interval', y, a + h)
    for i in range(n):
        for j in range(i):
            c.true('distinct', not bool(y[i, 0] == y[j, 0]))


@harness('C16', 'magic_indices', [{'m': m, 'p': p, 'n': n, 'opt': o} for m, p, n, o in ((1, 1, 1, 'left_right'), (2, 2, 1, 'left_right'), (1, 3, 1, 'left_right'), (3, 1, 1, 'left_right'), (2, 2, 2, 'left_right'), (3, 2, 2, 'left'), (2, 3, 2, 'right'), (2, 2, 2, 'left'), (3, 1, 1, 'left'), (1, 3, 1, 'right'))], concrete=12, engine='scalar', paths=900)
def magic_all_reals(c, m, p, n, opt):
    """every matrix for which the greedy choice is possible"""
    F = c.scals('F', (m, p))
    if not c.symbolic and np.linalg.svd(F[:, :n] if opt == 'left' else F[:n] if opt == 'right' else F)[1][n - 1] < 1e-6:
        raise SkipCase()
    try:
        I, J = tensap.magic_indices(F, n, opt)
    except np.linalg.LinAlgError:
        # (no admissible pivot: the matrix has no such minor)
        for r in itertools.combinations(range(m), n):
            for q in itertools.combinations(range(p), n):
                if opt == 'left_right' or (q if opt == 'left' else r) == tuple(range(n)):
                    M = F[np.ix_(r, q)]
                    if opt == 'left_right' or n == 1:
                        c.eq('no pivot only for a matrix of smaller rank', M[0, 0] if n == 1 else M[0, 0] * M[1, 1] - M[0, 1] * M[1, 0], 0)
        return
    I, J = [int(i) for i in I], [int(j) for j in J]
    c.true('number of indices', len(I) == n and len(J) == n and len(set(I)) == n and len(set(J)) == n)
    if opt == 'left':
        c.same('columns in order', J, list(range(n)))
    if opt == 'right':
        c.same('rows in order', I, list(range(n)))
    for k in range(n):
        R = lambda i, j: F[i, j] if k == 0 else F[i, j] - F[i, J[0]] * F[I[0], j] / F[I[0], J[0]]
        best = abs(R(I[k], J[k]))
        for i in range(m) if opt != 'right' else [k]:
            for j in range(p) if opt != 'left' else [k]:
                c.le('greedy maximisation at step %d' % k, abs(R(i, j)), best)
