"""C12: functional bases and the linear operations on them."""
import numpy as np
import scipy.interpolate
import tensap
from vt.ctx import harness, SkipCase
from vt.props.C09 import family, gauss_legendre, gauss_hermite

FB = 'FunctionalBasis.'


def poly(c, kind=None, deg=None, complete=False):
    """(basis, values(x, k): derivative of order k, points, (x, w) rule)"""
    kind = kind or ['hermite', 'legendre', 'lebesgue', 'normal', 'uniform', 'interval'][int(c.rng.integers(6))]
    P, rule, md = family(c, kind)
    deg = int(c.rng.integers(0, min(md, 6) + 1)) if deg is None else deg
    ind = np.arange(deg + 1)
    if not complete and c.rng.random() < 0.4:
        ind = np.sort(c.rng.permutation(deg + 1)[:int(c.rng.integers(1, deg + 2))])
        if c.rng.random() < 0.3:
            ind = ind[::-1].copy()
    with c.frame('PolynomialFunctionalBasis', P, ind):
        B = tensap.PolynomialFunctionalBasis(P, ind if c.rng.random() < 0.5 else [int(i) for i in ind])
    x, w = rule
    V = np.vander(x, deg + 1, increasing=True)
    # the orthonormal polynomials, by Gram-Schmidt in the exact rule
    C = np.zeros((deg + 1, deg + 1))
    for n in range(deg + 1):
        e = np.zeros(deg + 1)
        e[n] = 1
        for _ in range(2):
            for j in range(n):
                e = e - (w @ ((V @ e) * (V @ C[j]))) * C[j]
        C[n] = e / np.sqrt(w @ (V @ e) ** 2)

    def values(t, k=0):
        out = np.zeros((np.size(t), ind.size))
        for j, i in enumerate(ind):
            out[:, j] = np.polynomial.polynomial.polyval(np.ravel(t), np.polynomial.polynomial.polyder(C[i], k) if k else C[i])
        return out
    lo, hi = (float(min(x)), float(max(x))) if kind not in ('hermite', 'normal') else (w @ x - 2, w @ x + 2)
    pts = lambda n: lo + (hi - lo) * c.rng.random(n)
    return B, values, pts, rule


def piecewise(c):
    n = int(c.rng.integers(1, 5))
    pt = np.cumsum(np.concatenate(([float(c.rng.integers(-3, 3))], c.rng.integers(1, 5, size=n) / 2.0)))
    p = int(c.rng.integers(0, 4)) if c.rng.random() < 0.4 else c.rng.integers(0, 4, size=n)
    with c.frame('PiecewisePolynomialFunctionalBasis', pt, p):
        B = tensap.PiecewisePolynomialFunctionalBasis(pt if c.rng.random() < 0.5 else [float(v) for v in pt], p)
    return B, *pw(c, pt, np.full(n, p) if np.ndim(p) == 0 else p)


def pw(c, pt, p):
    n = len(p)

    def values(t, k=0):
        t = np.ravel(t)
        cols = []
        for i in range(n):
            h = pt[i + 1] - pt[i]
            inside = (t >= pt[i]) & ((t < pt[i + 1]) | (i == n - 1))
            for d in range(p[i] + 1):
                L = np.polynomial.Legendre([0] * d + [1], domain=[pt[i], pt[i + 1]])
                L = L.deriv(k) if k else L
                cols.append(np.where(inside, L(t) * np.sqrt((2 * d + 1) / h), 0))
        return np.stack(cols, 1)
    xs, ws = zip(*[gauss_legendre(pt[i], pt[i + 1], 8) for i in range(n)])
    pts = lambda m: pt[0] + (pt[-1] - pt[0]) * c.rng.random(m)
    return values, pts, (np.concatenate(xs), np.concatenate(ws))


def splines(c):
    deg = int(c.rng.integers(0, 4))
    extra = c.rng.random() < 0.5
    n = int(c.rng.integers(2, 6)) + (0 if extra else deg)
    t = np.cumsum(np.concatenate(([float(c.rng.integers(-2, 2))], c.rng.integers(1, 4, size=n) / 2.0)))
    if extra:
        with c.frame('with_extra_knots', t):
            B = tensap.BSplinesFunctionalBasis.with_extra_knots(t, deg)
        full = np.concatenate((t[0] + np.arange(-deg, 0) * (t[1] - t[0]), t, t[-1] + np.arange(1, deg + 1) * (t[-1] - t[-2])))
    elif c.rng.random() < 0.2:
        B, full = tensap.BSplinesFunctionalBasis.cardinal_bspline(deg), np.arange(deg + 2.0)
        t = full
    else:
        with c.frame('BSplinesFunctionalBasis', t):
            B = tensap.BSplinesFunctionalBasis(t if c.rng.random() < 0.5 else list(t), deg)
        full = t

    def values(x, k=0):
        x = np.ravel(x)
        cols = []
        for i in range(full.size - 1 - deg):
            b = scipy.interpolate.BSpline.basis_element(full[i:i + deg + 2], extrapolate=False)
            b = b.derivative(k) if k else b
            cols.append(np.nan_to_num(b(x)))
        return np.stack(cols, 1)
    xs, ws = zip(*[gauss_legendre(t[i], t[i + 1], 8) for i in range(t.size - 1)])

    def pts(m):
        x = t[0] + (t[-1] - t[0]) * c.rng.random(m)
        return np.where(np.min(np.abs(x[:, None] - full[None, :]), 1) < 1e-6, x + 1e-5, x)
    return B, values, pts, (np.concatenate(xs), np.concatenate(ws))


def user(c):
    fs = [(lambda x: np.cos(x), lambda x: -np.sin(x)), (lambda x: x ** 2, lambda x: 2 * x), (lambda x: np.exp(x), lambda x: np.exp(x)), (lambda x: 0 * x + 1, lambda x: 0 * x)]
    k = [int(i) for i in c.rng.permutation(4)[:int(c.rng.integers(1, 5))]]
    X = tensap.UniformRandomVariable(-1, 2)
    B = tensap.UserDefinedFunctionalBasis([fs[i][0] for i in k], X)
    x, w = gauss_legendre(-1, 2)

    def values(t, d=0):
        if d > 1:
            raise SkipCase()
        return np.stack([fs[i][d](np.ravel(t)) for i in k], 1)
    return B, values, (lambda m: -1 + 3 * c.rng.random(m)), (x, w / 3)


def sub(c):
    B, values, pts, rule = poly(c, deg=int(c.rng.integers(1, 5)), complete=c.rng.random() < 0.6) if c.rng.random() < 0.6 else piecewise(c)
    n = B.cardinal()
    m = int(c.rng.integers(1, n + 1))
    A = c.rng.integers(-3, 4, size=(n, m)) / 2.0
    if c.rng.random() < 0.3:
        A = np.linalg.qr(c.rng.standard_normal((n, m)))[0]
    elif np.linalg.matrix_rank(A) < m:
        raise SkipCase()
    with c.frame('SubFunctionalBasis', B, A):
        S = tensap.SubFunctionalBasis(B, A)
    return S, (lambda t, k=0: values(t, k) @ A), pts, rule


def mass(B, w):
    """means of polynomials are expectations (normalised measure), means of piecewise polynomials are integrals"""
    B = getattr(B, 'underlying_basis', B)
    return w.sum() if isinstance(B, tensap.PolynomialFunctionalBasis) else 1


def mean_of(part):
    (q, w) = part[3]
    return w @ part[1](q) / mass(part[0], w)


KINDS = {'polynomial': poly, 'piecewise': piecewise, 'splines': splines, 'user': user, 'sub': sub}
CFG = [{'kind': k} for k in KINDS]


@harness('C12', ['PolynomialFunctionalBasis.eval', 'PolynomialFunctionalBasis.eval_derivative', 'PiecewisePolynomialFunctionalBasis.eval', 'PiecewisePolynomialFunctionalBasis.eval_derivative', 'PiecewisePolynomialFunctionalBasis.element_number', 'BSplinesFunctionalBasis.eval', 'BSplinesFunctionalBasis.eval_derivative', 'BSplinesFunctionalBasis.with_extra_knots', 'UserDefinedFunctionalBasis.eval', 'SubFunctionalBasis.eval', 'SubFunctionalBasis.eval_derivative', FB + 'eval_jacobian', 'SubFunctionalBasis.eval_jacobian', FB + 'random'], CFG, symbolic=False, concrete=30, tol=1e-7)
def evaluation(c, kind):
    B, values, pts, (qx, qw) = KINDS[kind](c)
    c.same('dimension', B.ndim(), 1)
    x = pts(int(c.rng.integers(1, 7)))
    want = values(x)
    c.same('number of functions', B.cardinal(), want.shape[1])
    with c.frame('eval', B, x):
        c.eq('values', B.eval(x), want)
    c.eq('values at a column of points', B.eval(x[:, None]), want)
    if kind in ('piecewise', 'sub') and c.rng.random() < 0.5:
        k = [int(i) for i in c.rng.permutation(B.cardinal())[:int(c.rng.integers(1, B.cardinal() + 1))]]
        c.eq('values of chosen functions', B.eval(x, k), want[:, k])
    if kind != 'user':
        k = int(c.rng.integers(0, 4))
        if kind == 'piecewise' or kind == 'splines':
            k = int(c.rng.integers(0, 3))
        c.stage('derivatives')
        with c.frame('eval_derivative', B, x):
            D = B.eval_derivative(k, x)
        if kind != 'splines' or k <= B.degree:
            c.eq('derivatives', D, values(x, k), tol=1e-6)
        c.stage('jacobian')
        if kind == 'polynomial' or kind == 'sub' and isinstance(B.underlying_basis, tensap.PolynomialFunctionalBasis):
            J = B.eval_jacobian(x)
            c.same('shape of the jacobian', J.shape, (x.size, B.cardinal(), 1))
            c.eq('jacobian', J[:, :, 0], values(x, 1), tol=1e-6)
    if isinstance(B.measure, tensap.ProbabilityMeasure):
        c.stage('random')
        n = int(c.rng.integers(1, 5))
        H, z = B.random(n)
        c.eq('random evaluations', H, values(z), tol=1e-5)
        c.same('number of random evaluations', np.shape(H), (n, B.cardinal()))
    if kind == 'polynomial':
        c.same('equality', (bool(B == tensap.PolynomialFunctionalBasis(B.basis, B.indices)), bool(B == tensap.PolynomialFunctionalBasis(B.basis, np.append(B.indices, 20)))), (True, False))


@harness('C12', [FB + f for f in ('gram_matrix', 'projection', 'least_squares_projection', 'quasi_projection', 'interpolate', 'magic_points', 'interpolation_points', 'adaptation_path', 'orthonormalize')] + ['PolynomialFunctionalBasis.gram_matrix', 'PolynomialFunctionalBasis.mean', 'PolynomialFunctionalBasis.one', 'PiecewisePolynomialFunctionalBasis.mean', 'PiecewisePolynomialFunctionalBasis.interpolation_points', 'PiecewisePolynomialFunctionalBasis.magic_points', 'SubFunctionalBasis.mean', 'SubFunctionalBasis.gram_matrix', 'SubFunctionalBasis.orthonormalize', 'FunctionalBasisArray.eval'], CFG, symbolic=False, concrete=30, tol=1e-7)
def linear(c, kind):
    B, values, pts, (qx, qw) = KINDS[kind](c)
    n = B.cardinal()
    G = tensap.IntegrationRule(qx, qw)
    Q = values(qx)
    gram = Q.T @ (qw[:, None] * Q)
    c.stage('gram matrix')
    if kind in ('piecewise', 'splines', 'user'):
        with c.frame('gram_matrix', B, G):
            c.eq('Gram matrix', B.gram_matrix(G), gram)
    elif kind == 'polynomial' or isinstance(B.underlying_basis, tensap.PolynomialFunctionalBasis):
        c.eq('Gram matrix', B.gram_matrix(), gram, tol=1e-6)
    c.true('orthonormal flag', not B.is_orthonormal or bool(np.abs(gram - np.eye(n)).max() < 1e-8))
    if kind in ('polynomial', 'piecewise', 'sub'):
        c.stage('mean')
        c.eq('means', np.ravel(B.mean()), qw @ Q / mass(B, qw), tol=1e-6)
    if kind == 'polynomial':
        c.stage('one')
        try:
            o = B.one()
        except ValueError:
            c.true('the constant is not in the basis', 0 not in B.indices)
        else:
            c.eq('coefficients of the constant', values(qx) @ np.ravel(o), np.ones(qx.size))
    c.stage('projection')
    m = int(c.rng.integers(1, 4))
    cf = c.rng.integers(-4, 5, size=(n, m)) / 2.0
    if np.linalg.cond(gram) > 1e8:
        raise SkipCase()
    fun = lambda t: values(t) @ cf
    arg = fun
    shape = 'function'
    if c.rng.random() < 0.4:
        arg, shape = fun(qx), 'values'
    with c.frame('projection', B, G, arg if shape == 'values' else None):
        F = B.projection(arg, G)
    x = pts(4)
    c.eq('projection of a function of the span given by its ' + shape, np.reshape(F.eval(x), (4, m)), fun(x), tol=1e-6)
    g = lambda t: np.abs(np.ravel(t)) * 1.5 - np.sin(3 * np.ravel(t))
    F = (B.quasi_projection if B.is_orthonormal and c.rng.random() < 0.5 else B.least_squares_projection)(g if c.rng.random() < 0.6 else g(qx), G)
    c.eq('projection is orthogonal', Q.T @ (qw * (Q @ np.ravel(F.data) - g(qx))), np.zeros(n), tol=1e-6)
    if kind != 'splines':
        c.stage('interpolation')
        z = pts(n)
        if np.linalg.cond(values(z)) < 1e6:
            F = B.interpolate(fun if c.rng.random() < 0.5 else fun(z), z)
            c.eq('interpolation', np.reshape(F.eval(x), (4, m)), fun(x), tol=1e-5)
            F = B.interpolate(g, z)
            c.eq('interpolation at the points', np.ravel(F.eval(z)), g(z), tol=1e-6)
        if kind == 'piecewise':
            z = B.interpolation_points()
            c.same('number of interpolation points', np.size(z), n)
            c.eq('interpolation at the points of the basis', np.reshape(B.interpolate(fun).eval(x), (4, m)), fun(x), tol=1e-5)
            z = B.magic_points()
            c.true('magic points are unisolvent', np.size(z) == n and np.linalg.cond(values(z)) < 1e7)
        elif np.linalg.cond(gram) < 1e5:
            z = pts(40)
            M = B.magic_points(z if c.rng.random() < 0.5 else z[:, None])
            V = values(z)
            c.eq('magic points are among the given points', np.ravel(M[0]), z[np.ravel(M[1])])
            c.same('number of magic points', np.size(M[1]), n)
            c.eq('Lebesgue constant', M[2]['lebesgue_constant'], np.abs(V @ np.linalg.inv(values(M[0]))).sum(1).max(), tol=1e-6)
            c.eq('interpolation points', np.ravel(B.interpolation_points(z)), np.ravel(M[0]))
    c.stage('adaptation path')
    c.same('adaptation path', B.adaptation_path(), np.triu(np.ones((n, n), bool)))
    if kind == 'sub' and B.underlying_basis.is_orthonormal:
        c.stage('orthonormalize')
        with c.frame('orthonormalize', B):
            S = B.orthonormalize()
        O = S.eval(qx)
        c.eq('orthonormalized sub-basis', O.T @ (qw[:, None] * O), np.eye(n))
        c.eq('orthonormalized sub-basis spans the same functions', O @ (O.T @ (qw[:, None] * Q)), Q, tol=1e-6)
    elif kind == 'polynomial':
        c.stage('orthonormalize')
        with c.frame('orthonormalize', B):
            S = B.orthonormalize()
        O = S.eval(qx)
        c.eq('orthonormalized basis', O.T @ (qw[:, None] * O), np.eye(n), tol=1e-6)


@harness('C12', ['PolynomialFunctionalBasis.kron', 'PolynomialFunctionalBasis.derivative', 'PolynomialFunctionalBasis.gradient', 'PolynomialFunctionalBasis.hessian', 'SubFunctionalBasis.derivative'], [{}], symbolic=False, concrete=30, tol=1e-6)
def operators(c):
    B, values, pts, (qx, qw) = poly(c, complete=True)
    n = B.cardinal()
    x = pts(4)
    k = int(c.rng.integers(0, 4))
    c.stage('derivative')
    with c.frame('derivative', B):
        D = B.derivative(k)
    c.eq('projection of the derivatives', D.eval(x), values(x, k), tol=1e-6)
    c.eq('gradient', B.gradient().eval(x), values(x, 1))
    c.eq('second derivatives', B.hessian(B.measure).eval(x), values(x, 2))
    A = c.rng.integers(-3, 4, size=(n, 2)) / 2.0
    S = tensap.SubFunctionalBasis(B, A)
    c.eq('derivatives of a sub-basis', S.derivative(k).eval(x), values(x, k) @ A)
    c.stage('kron')
    m = int(c.rng.integers(0, 4))
    q = tensap.PolynomialFunctionalBasis(B.basis, np.arange(m + 1))
    with c.frame('kron', B, q):
        K = B.kron(q)
    H, R = values(x), q.eval(x)
    c.eq('products of two bases', K.eval(x), np.stack([H[:, i] * R[:, j] for i in range(n) for j in range(m + 1)], 1))


@harness('C12', ['PiecewisePolynomialFunctionalBasis.' + f for f in ('hp', 'np', 'singularityhp_adapted', 'interpolation_points')], [{}], symbolic=False, concrete=25)
def meshes(c):
    a = float(c.rng.integers(-3, 3))
    b = a + float(c.rng.integers(1, 5))
    p = int(c.rng.integers(0, 3))
    n = int(c.rng.integers(1, 6))
    B = tensap.PiecewisePolynomialFunctionalBasis.np(a, b, n, p)
    c.eq('uniform mesh', B.points, np.linspace(a, b, n + 1))
    c.same('degrees', B.p, np.full(n, p))
    h = [0.3, 0.5, 0.75, 1.0, 10.0][int(c.rng.integers(5))]
    B = tensap.PiecewisePolynomialFunctionalBasis.hp(a, b, h, p)
    H = np.diff(B.points)
    c.true('elements of size at most h', bool(np.all(H <= h + 1e-12) and B.points[0] == a and B.points[-1] == b and H.min() > 0 and (len(H) == 1 or (b - a) / (len(H) - 1) > h)))
    c.same('degrees on a mesh of size h', B.p, np.full(len(H), p))
    s = [[a], [b], [a, b], [(a + b) / 2], [a, (3 * a + b) / 4, b], [(a + b) / 2, (a + 3 * b) / 4]][int(c.rng.integers(6))]
    h = [0.5, 0.1, 0.25, 0.03][int(c.rng.integers(4))]
    with c.frame('singularityhp_adapted', s):
        B = tensap.PiecewisePolynomialFunctionalBasis.singularityhp_adapted(a, b, s if c.rng.random() < 0.7 or len(s) > 1 else s[0], h)
    t, q = B.points, B.p
    c.true('mesh of the interval', t[0] == a and t[-1] == b and bool(np.all(np.diff(t) > 0)))
    c.true('singularities are nodes of the mesh', all(np.min(np.abs(t - v)) < 1e-12 for v in s))
    c.same('one degree per element', len(q), len(t) - 1)
    e = np.unique([a] + s + [b])
    for i in range(len(q)):
        k = np.searchsorted(e, (t[i] + t[i + 1]) / 2) - 1
        li = e[k + 1] - e[k]
        touches = min(abs(t[i] - v) for v in s) < 1e-12 or min(abs(t[i + 1] - v) for v in s) < 1e-12
        size = (t[i + 1] - t[i]) / li
        if touches:
            c.true('elements at the singularities are small and constant', q[i] == 0 and size <= h + 1e-12)
        else:
            d = min(min(abs(t[i] - v), abs(t[i + 1] - v)) for v in s) / li
            c.eq('elements are graded', size, d if size < 0.5 or d < 0.5 else d)
    x = B.interpolation_points()
    c.true('interpolation points', np.size(x) == B.cardinal() and bool(np.all((x > a) & (x < b))))


@harness('C12', ['DeltaFunctionalBasis.__init__', 'DeltaFunctionalBasis.eval', 'DeltaFunctionalBasis.cardinal'], [{}], symbolic=False, concrete=25)
def deltas(c):
    d = int(c.rng.integers(1, 3))
    n = int(c.rng.integers(1, 6))
    v = np.stack([c.rng.permutation(8)[:n] for _ in range(d)], 1).astype(float)
    with c.frame('DeltaFunctionalBasis', v):
        B = tensap.DeltaFunctionalBasis(v[:, 0] if d == 1 and c.rng.random() < 0.5 else v)
    c.same('number of functions', B.cardinal(), n)
    c.same('dimension', B.ndim(), d)
    k = c.rng.integers(0, n, size=int(c.rng.integers(1, 6)))
    x = v[k]
    y = x.copy()
    y[0] += 0.5
    c.eq('indicators of the values', B.eval(x), np.eye(n)[k])
    c.eq('indicators of the values outside', B.eval(y)[0], np.zeros(n))
    if d == 1:
        c.eq('indicators of the values at a vector of points', B.eval(x[:, 0]), np.eye(n)[k])


@harness('C12', ['DilatedBSplinesFunctionalBasis.' + f for f in ('eval', 'eval_derivative', 'with_level_bounded_by', 'cardinal', 'ndim')] + ['DilatedBSplines.' + f for f in ('eval', 'eval_derivative', 'indices_with_level', 'indices_with_level_bounded_by')], [{}], symbolic=False, concrete=25)
def dilated(c):
    m, b, L = int(c.rng.integers(0, 4)), int(c.rng.integers(2, 4)), int(c.rng.integers(0, 3))
    B = tensap.DilatedBSplinesFunctionalBasis.with_level_bounded_by(m, b, L)
    idx = [(l, j) for l in range(L + 1) for j in range(-m, b ** l)]
    c.same('indices', list(zip(*[np.ravel(i) for i in B.indices])), idx)
    c.same('number of functions', B.cardinal(), len(idx))
    c.same('dimension', B.ndim(), 1)
    x = c.rng.random(5) * 0.98 + 0.003
    psi = scipy.interpolate.BSpline.basis_element(np.arange(m + 2.0), extrapolate=False)
    k = int(c.rng.integers(0, m + 1))
    D = psi.derivative(k) if k else psi
    with c.frame('eval', B, x):
        c.eq('values', B.eval(x), np.stack([np.nan_to_num(psi(b ** l * x - j)) * b ** (l / 2) for l, j in idx], 1))
    c.eq('derivatives', B.eval_derivative(k, x), np.stack([np.nan_to_num(D(b ** l * x - j)) * b ** (l / 2 + k * l) for l, j in idx], 1))


def bases(c, d=None, kinds=('polynomial', 'piecewise', 'sub')):
    """FunctionalBases of univariate bases, their values, points and rules"""
    d = d or int(c.rng.integers(1, 4))
    parts = [KINDS[kinds[int(c.rng.integers(len(kinds)))]](c) if kinds != ('polynomial',) else poly(c, deg=int(c.rng.integers(0, 4 if d <= 3 else 2)), complete=True) for _ in range(d)]
    with c.frame('FunctionalBases', [p[0] for p in parts]):
        H = tensap.FunctionalBases([p[0] for p in parts])
    return H, parts, d


@harness('C12', ['FunctionalBases.' + f for f in ('__init__', 'eval', 'eval_derivative', 'derivative', 'mean', 'one', 'gram_matrices', 'cardinals', 'kron', 'keep_bases', 'remove_bases', 'transpose', '__eq__', 'interpolation_points', 'magic_points', 'random', 'random_dims', 'adaptation_path', 'duplicate', 'ndim', 'domain', 'get_random_vector')], [{}], symbolic=False, concrete=60, tol=1e-6)
def families(c):
    H, parts, d = bases(c, kinds=('polynomial',) if c.rng.random() < 0.6 else ('polynomial', 'piecewise', 'sub'))
    onlypoly = all(isinstance(p[0], tensap.PolynomialFunctionalBasis) for p in parts)
    card = [p[0].cardinal() for p in parts]
    c.same('number of bases', [H.length(), len(H)] + list(H.ndim()) + list(H.cardinals()), [d, d] + [1] * d + card)
    n = int(c.rng.integers(1, 5))
    x = np.stack([p[2](n) for p in parts], 1)
    with c.frame('eval', H, x):
        E = H.eval(x)
    for i in range(d):
        c.eq('values of each basis', E[i], parts[i][1](x[:, i]))
    k = [int(i) for i in c.rng.permutation(d)[:int(c.rng.integers(1, d + 1))]]
    E, z = H.eval(x[:, k], np.array(k) if c.rng.random() < 0.5 else k, 2)
    for i, j in enumerate(k):
        c.eq('values of chosen bases', E[i], parts[j][1](x[:, j]))
        c.eq('points of chosen bases', np.ravel(z[i]), x[:, j])
    E = H.eval([x[:, i] for i in range(d)])
    for i in range(d):
        c.eq('values at a list of points', E[i], parts[i][1](x[:, i]))
    c.stage('derivatives')
    o = [int(i) for i in c.rng.integers(0, 3, size=d)]
    with c.frame('eval_derivative', H, x):
        E = H.eval_derivative(o, x)
    for i in range(d):
        c.eq('derivatives of each basis', E[i], parts[i][1](x[:, i], o[i]))
    E = H.eval_derivative([o[j] for j in k], x[:, k], k)
    for i, j in enumerate(k):
        c.eq('derivatives of chosen bases', E[i], parts[j][1](x[:, j], o[j]))
    c.stage('selection')
    P = [int(i) for i in c.rng.permutation(d)]
    for name, got, want in (('kept', H.keep_bases(k), k), ('removed', H.remove_bases(k), [i for i in range(d) if i not in k]), ('permuted', H.transpose(P), P)):
        c.same(name + ' bases', [len(got)] + [b.cardinal() for b in got.bases], [len(want)] + [card[i] for i in want])
        if want:
            E = got.eval(x[:, want])
            for i, j in enumerate(want):
                c.eq('values of the %s bases' % name, E[i], parts[j][1](x[:, j]))
    c.stage('mean')
    M = H.mean()
    for i in range(d):
        c.eq('means', np.ravel(M[i]), mean_of(parts[i]))
    M = H.mean(k)
    for i, j in enumerate(k):
        c.eq('means of chosen bases', np.ravel(M[i]), mean_of(parts[j]))
    if onlypoly:
        Xs = [tensap.UniformRandomVariable(float(i) - 1, float(i) + 1) for i in range(d)]
        w = [gauss_legendre(float(i) - 1, float(i) + 1) for i in range(d)]
        M = H.mean(None, tensap.RandomVector(Xs))
        for i in range(d):
            c.eq('means for a given random vector', np.ravel(M[i]), w[i][1] / 2 @ parts[i][1](w[i][0]))
        M = H.mean(k, tensap.RandomVector([Xs[j] for j in k]))
        for i, j in enumerate(k):
            c.eq('means of chosen bases for a random vector of their variables', np.ravel(M[i]), w[j][1] / 2 @ parts[j][1](w[j][0]))
        M = H.mean(k, Xs[0])
        for i, j in enumerate(k):
            c.eq('means for a random variable', np.ravel(M[i]), w[0][1] / 2 @ parts[j][1](w[0][0]))
        c.stage('gram matrices')
        G = H.gram_matrices(k)
        for i, j in enumerate(k):
            q, qw = parts[j][3]
            c.eq('Gram matrices', G[i], parts[j][1](q).T @ (qw[:, None] * parts[j][1](q)))
        if all(0 in p[0].indices for p in parts):
            o = H.one()
            for i in range(d):
                c.eq('the constant', parts[i][1](x[:, i]) @ np.ravel(o[i]), np.ones(n))
        if all(sorted(p[0].indices) == list(range(p[0].cardinal())) for p in parts):
            c.stage('kron')
            with c.frame('kron', H):
                K = H.kron(H)
            E = K.eval(x)
            for i in range(d):
                v = parts[i][1](x[:, i])
                c.eq('products of bases', E[i], np.einsum('ni,nj->nij', v, v).reshape(n, -1))
    c.stage('equality')
    c.true('equality', onlypoly is False or bool(H == tensap.FunctionalBases(H)))
    c.stage('points')
    if onlypoly:
        g = [p[2](30)[:, None] for p in parts]
        z = H.interpolation_points(g)
        for i in range(d):
            c.eq('interpolation points', np.ravel(z[i]), np.ravel(parts[i][0].interpolation_points(g[i])))
        z, ind = H.magic_points(np.hstack(g) if c.rng.random() < 0.5 else g)
        for i in range(d):
            c.eq('magic points', np.ravel(z[i]), np.ravel(g[i])[np.ravel(ind[i])])
            c.same('number of magic points', np.size(z[i]), card[i])
    c.stage('random')
    if all(isinstance(p[0].measure, tensap.RandomVariable) for p in parts):
        E, z = H.random(3, tensap.RandomVector([p[0].measure for p in parts]), 2)
        for i in range(d):
            c.eq('random evaluations', (E[i] if d > 1 else E), parts[i][1](np.ravel(z[i])))
        E, z = H.random(3, nargout=2)
        for i in range(d):
            c.eq('random evaluations for the measure of the bases', (E[i] if d > 1 else E), parts[i][1](np.ravel(z[i])))
        K = H.keep_bases(k)
        E, z = K.random(3, nargout=2)
        for i, j in enumerate(k):
            c.eq('random evaluations of kept bases', (E[i] if len(k) > 1 else E), parts[j][1](np.ravel(z[i])))
            c.true('points of kept bases', K.measure.random_variables[i] == parts[j][0].measure if isinstance(K.measure, tensap.RandomVector) else K.measure.measures[i] == parts[j][0].measure)
    D = tensap.FunctionalBases.duplicate(parts[0][0], 3)
    c.same('duplicated basis', [len(D)] + list(D.cardinals()), [3] + [card[0]] * 3)


@harness('C12', ['FunctionalBases.' + f for f in ('__init__', 'eval', 'eval_derivative', 'keep_bases', 'remove_bases', 'transpose', 'ndim', 'cardinals')] + ['FunctionalTensor.eval', 'FunctionalTensor.eval_on_grid'], [{}], symbolic=False, concrete=80, tol=1e-6)
def groups_of_variables(c):
    """FunctionalBases whose elements are bases of functions of one or several variables"""
    d = int(c.rng.integers(1, 4))
    B, V, W = [], [], []
    for i in range(d):
        if c.rng.random() < 0.5:
            b, v, _, _ = poly(c, deg=int(c.rng.integers(0, 4)), complete=True)
            B.append(b)
            V.append(lambda x, o=0, v=v: v(x[:, 0], o if np.ndim(o) == 0 else o[0]))
            W.append(1)
        else:
            b, v, parts, k, ind, full, _ = product(c)
            if full or not all(isinstance(p[0], tensap.PolynomialFunctionalBasis) for p in parts):
                raise SkipCase()
            B.append(b)
            V.append(lambda x, o=None, v=v: v(x, o))
            W.append(k)
    H = tensap.FunctionalBases(B)
    c.same('numbers of variables', [int(k) for k in H.ndim()], W)
    c.same('numbers of functions', [int(k) for k in H.cardinals()], [b.cardinal() for b in B])
    n = int(c.rng.integers(1, 5))
    X = [c.rng.random((n, k)) * 0.8 - 0.4 for k in W]
    with c.frame('eval', H, X):
        for x, kind in ((np.hstack(X), 'columns'), (list(X), 'list')):
            E = H.eval(x)
            for i in range(d):
                c.eq('values at the ' + kind, E[i], V[i](X[i]))
    P = [int(i) for i in c.rng.permutation(d)]
    k = P[:int(c.rng.integers(1, d + 1))]
    E = H.eval(np.hstack([X[i] for i in k]), np.array(k))
    for i, j in enumerate(k):
        c.eq('values of chosen bases', E[i], V[j](X[j]))
    o = [int(c.rng.integers(0, 3)) if W[i] == 1 and not isinstance(B[i], tensap.SparseTensorProductFunctionalBasis) else [int(t) for t in c.rng.integers(0, 3, size=W[i])] for i in range(d)]
    E = H.eval_derivative(o, np.hstack(X))
    for i in range(d):
        c.eq('derivatives', E[i], V[i](X[i], o[i]))
    E = H.eval_derivative([o[i] for i in k], np.hstack([X[i] for i in k]), np.array(k))
    for i, j in enumerate(k):
        c.eq('derivatives of chosen bases', E[i], V[j](X[j], o[j]))
    for name, K, want in (('kept', H.keep_bases(k), k), ('permuted', H.transpose(P), P), ('remaining', H.remove_bases([i for i in range(d) if i not in k]), sorted(k))):
        E = K.eval(np.hstack([X[i] for i in want]))
        for i, j in enumerate(want):
            c.eq('values of the %s bases' % name, E[i], V[j](X[j]))
    C = c.rng.integers(-3, 4, size=[b.cardinal() for b in B]).astype(float)
    F = tensap.FunctionalTensor(tensap.FullTensor(C), H)
    s = 'abc'[:d]
    e = ','.join(['y' + t for t in s]) + ',' + s + '->y'
    with c.frame('function', F, X):
        c.eq('values of a function', np.ravel(F.eval(np.hstack(X))), np.einsum(e, *[V[i](X[i]) for i in range(d)], C))
    g = F.eval_on_grid(list(X))
    g = g.numpy() if hasattr(g, 'numpy') else g
    c.eq('values on a grid', g, np.einsum(','.join(['xyz'[i] + t for i, t in enumerate(s)]) + ',' + s + '->' + 'xyz'[:d], *[V[i](X[i]) for i in range(d)], C))


def product(c):
    """sparse or full product basis, its values(x, orders), points, quadrature, indices"""
    big = c.rng.random() < 0.15
    H, parts, d = bases(c, int(c.rng.integers(4, 7)) if big else None, ('polynomial',) if big or c.rng.random() < 0.7 else ('polynomial', 'piecewise', 'sub'))
    card = [p[0].cardinal() for p in parts]
    if np.prod(card) > 80:
        raise SkipCase()
    full = c.rng.random() < 0.4
    allind = np.stack(np.unravel_index(np.arange(int(np.prod(card))), card, order='F'), 1)
    if full:
        with c.frame('FullTensorProductFunctionalBasis', H):
            B = tensap.FullTensorProductFunctionalBasis(H if c.rng.random() < 0.5 else list(H.bases))
        ind = tensap.MultiIndices.bounded_by(np.array(card) - 1).array
        c.same('all products', sorted(map(tuple, ind)), sorted(map(tuple, allind)))
    else:
        ind = allind[np.sort(c.rng.permutation(len(allind))[:int(c.rng.integers(1, len(allind) + 1))])]
        with c.frame('SparseTensorProductFunctionalBasis', H, ind):
            B = tensap.SparseTensorProductFunctionalBasis(H, tensap.MultiIndices(ind))
        ind = B.indices.array

    def values(x, k=None, cols=None, I=None):
        I = ind if I is None else I
        out = np.ones((x.shape[0], I.shape[0]))
        for pos, i in enumerate(range(d) if cols is None else cols):
            out = out * parts[i][1](x[:, pos], 0 if k is None else k[pos])[:, I[:, pos]]
        return out
    grids = np.meshgrid(*[p[3][0] for p in parts], indexing='ij') if d == 1 or np.prod([len(p[3][0]) for p in parts]) < 300000 else None
    return B, values, parts, d, ind, full, H


def means(parts, ind):
    out = np.ones(len(ind))
    for i, p in enumerate(parts):
        out = out * mean_of(p)[ind[:, i]]
    return out


def grams(parts, ind):
    out = np.ones((len(ind), len(ind)))
    for i, p in enumerate(parts):
        v = p[1](p[3][0])
        out = out * (v.T @ (p[3][1][:, None] * v))[np.ix_(ind[:, i], ind[:, i])]
    return out


ST = 'SparseTensorProductFunctionalBasis.'
FT = 'FullTensorProductFunctionalBasis.'


@harness('C12', [ST + f for f in ('__init__', 'eval', 'eval_derivative', 'derivative', 'mean', 'conditional_expectation', 'gram_matrix', 'gram_matrix_h1_0', 'adaptation_path', 'keep_bases', 'tensor_product_interpolation', 'eval_with_functional_bases_evals', 'cardinal', 'ndim')] + [FT + f for f in ('__init__', 'eval', 'mean', 'conditional_expectation', 'cardinal', 'ndim', 'gram_matrices', 'keep_bases', 'remove_bases', 'transpose', 'interpolation_points', 'orthonormalize')], [{}], symbolic=False, concrete=120, tol=1e-6)
def products(c):
    B, values, parts, d, ind, full, H = product(c)
    N = len(ind)
    c.same('sizes', (B.cardinal(), B.ndim(), len(B)), (N, d, d))
    n = int(c.rng.integers(1, 5))
    x = np.stack([p[2](n) for p in parts], 1)
    with c.frame('eval', B, x):
        c.eq('values', B.eval(x), values(x))
    c.stage('mean')
    with c.frame('mean', B):
        c.eq('means', np.ravel(B.mean()), means(parts, ind))
    c.true('orthonormal flag', not B.is_orthonormal or bool(np.abs(grams(parts, ind) - np.eye(N)).max() < 1e-8))
    onlypoly = all(isinstance(p[0], tensap.PolynomialFunctionalBasis) for p in parts)
    if onlypoly:
        mus = [tensap.UniformRandomVariable(-0.5 - 0.1 * i, 0.7 + 0.2 * i) for i in range(d)]
        want = np.ones(N)
        for i, p in enumerate(parts):
            want = want * np.ravel(p[0].mean(mus[i]))[ind[:, i]]
        with c.frame('mean for a measure', B):
            c.eq('means for another measure', np.ravel(B.mean(tensap.RandomVector(mus))), want)
    if not full:
        c.stage('derivatives')
        o = [int(i) for i in c.rng.integers(0, 3, size=d)]
        with c.frame('eval_derivative', B, x):
            c.eq('derivatives', B.eval_derivative(o, x), values(x, o))
        J = B.eval_jacobian(x)
        for i in range(d):
            c.eq('jacobian', J[:, :, i], values(x, [int(i == j) for j in range(d)]))
        o = [int(i) for i in c.rng.integers(0, 2, size=d)]
        if onlypoly and all(sorted(p[0].indices) == list(range(p[0].cardinal())) for p in parts):
            c.eq('basis of the derivatives', B.derivative(o).eval(x), values(x, o))
            c.stage('gram')
            want = 0
            for i in range(d):
                g = np.ones((N, N))
                for j, p in enumerate(parts):
                    v = p[1](p[3][0], int(i == j))
                    g = g * (v.T @ (p[3][1][:, None] * v))[np.ix_(ind[:, j], ind[:, j])]
                want = want + g
            c.eq('Gram matrix of the gradients', B.gram_matrix_h1_0(), want, tol=1e-5)
        if onlypoly:
            M = B.gram_matrix()
            c.eq('Gram matrix', M.toarray() if hasattr(M, 'toarray') else M, grams(parts, ind))
        p = [1, 2, np.inf][int(c.rng.integers(3))]
        A = B.adaptation_path(p)
        nr = np.linalg.norm(ind, p, axis=1)
        lev = np.unique(np.round(nr, 9))
        c.same('adaptation path', A, np.stack([nr <= l + 1e-8 for l in lev], 1))
    c.stage('conditional expectation')
    k = sorted(int(i) for i in c.rng.permutation(d)[:int(c.rng.integers(1, d + 1))])
    u = k if len(k) == d or c.rng.random() < 0.6 else [k[int(i)] for i in c.rng.permutation(len(k))]
    with c.frame('conditional_expectation', B, u):
        E = B.conditional_expectation(np.array(u) if c.rng.random() < 0.5 else u)
    rest = [i for i in range(d) if i not in k]
    want = values(x[:, k], None, k, ind[:, k]) * means([parts[i] for i in rest], ind[:, rest])[None, :]
    c.eq('conditional expectations', np.reshape(E.eval(x[:, u]), (n, N)), want)
    if all(isinstance(p[0].measure, tensap.RandomVariable) for p in parts):
        E = B.conditional_expectation([])
        c.eq('conditional expectation given nothing', np.ravel(E), means(parts, ind))
    c.stage('selection')
    if full:
        P = [int(i) for i in c.rng.permutation(d)]
        for name, got, want in (('kept', B.keep_bases(k), k), ('removed', B.remove_bases(rest), k), ('permuted', B.transpose(P), P)):
            I = tensap.MultiIndices.bounded_by(np.array([parts[i][0].cardinal() for i in want]) - 1).array
            c.eq('values of the %s bases' % name, got.eval(x[:, want]), values(x[:, want], None, want, I))
        if onlypoly:
            O = B.orthonormalize()
            c.same('orthonormal basis', (O.cardinal(), O.ndim()), (N, d))
        if onlypoly:
            G = B.interpolation_points([p[2](30)[:, None] for p in parts])
            c.same('interpolation grid', np.shape(G[0]), (N, d))
    elif want is not None:
        P = [int(i) for i in c.rng.permutation(d)]
        got = B.transpose(P)
        c.eq('values of the permuted basis', got.eval(x[:, P]), values(x))
        for name, got in (('kept', B.keep_bases(k)), ('remaining', B.remove_bases(rest))):
            I = np.array([ind[j, k] for j in range(N) if not any(np.array_equal(ind[j, k], ind[l, k]) for l in range(j))])
            c.eq('values of the %s bases' % name, got.eval(x[:, k]), values(x[:, k], None, k, I))
            c.same('measure of the %s bases' % name, got.measure.ndim(), len(k))


@harness(['C12', 'C13'], ['FunctionalBasisArray.' + f for f in ('__init__', 'eval', '__add__', '__sub__', '__neg__', '__mul__', 'matmul', 'matdiv', 'dot', 'norm', 'mean', 'expectation', 'variance', 'std', 'dot_product_expectation', 'norm_expectation', 'conditional_expectation', 'variance_conditional_expectation', 'eval_derivative', 'derivative', 'eval_gradient', 'random', 'projection', 'sub_functional_basis', 'get_coefficients', 'storage', 'sparse_storage')], [{}], symbolic=False, concrete=150, tol=1e-6)
def arrays(c):
    B, values, parts, d, ind, full, H = product(c)
    N = len(ind)
    shape = [(1,), (1,), (3,), (2, 2)][int(c.rng.integers(4))]
    m = int(np.prod(shape))
    C = c.rng.integers(-3, 4, size=(N,) + shape) / 2.0
    arg = [shape] if c.rng.random() < 0.5 or shape != (1,) else []
    with c.frame('FunctionalBasisArray', C, B):
        F = tensap.FunctionalBasisArray(C if c.rng.random() < 0.7 else C.ravel(order='F'), B, *arg)
    n = int(c.rng.integers(1, 5))
    x = np.stack([p[2](n) for p in parts], 1)
    Cm = C.reshape(N, m)
    ev = lambda V, M=Cm, s=shape: (V @ M).reshape((V.shape[0],) + tuple(s))
    with c.frame('eval', F, x):
        c.eq('values', F.eval(x), ev(values(x)))
    y = ev(values(x))
    c.eq('call', F(x), y[:, 0] if shape == (1,) else y)
    c.eq('values from the values of the basis', F.eval_with_bases_evals(values(x)), ev(values(x)))
    C2 = c.rng.integers(-3, 4, size=(N,) + shape) / 2.0
    G = tensap.FunctionalBasisArray(C2, B, shape)
    with c.frame('algebra', F, G):
        for name, got, want in (('sum', F + G, C + C2), ('difference', F - G, C - C2), ('opposite', -F, -C), ('multiple', F * 1.5, 1.5 * C), ('product of coefficients', F * G, C * C2)):
            c.eq(name, got.eval(x), ev(values(x), want.reshape(N, m)))
        c.eq('coefficients', F.get_coefficients(), C)
        c.eq('inner product of the coefficients', np.ravel(F.dot(G)), [np.sum(C * C2)])
        c.eq('norm of the coefficients', F.norm(), np.sqrt(np.sum(C ** 2)))
        c.same('storage', (F.storage(), F.sparse_storage()), (N * m, int(np.count_nonzero(C))))
    if len(shape) == 1:
        c.stage('matrix product')
        A = c.rng.integers(-3, 4, size=(shape[0], int(c.rng.integers(1, 4)))) / 2.0
        c.eq('product with a matrix', F.matmul(A).eval(x), ev(values(x), C @ A, (A.shape[1],)))
        A = np.eye(shape[0]) * 2 + np.triu(np.ones((shape[0],) * 2), 1)
        c.eq('product with the inverse of a matrix', F.matdiv(A).eval(x), ev(values(x), C @ np.linalg.inv(A), shape))
        S = F.sub_functional_basis()
        c.eq('spanned basis', S.eval(x), values(x) @ Cm)
    c.stage('mean')
    mu, Gm = means(parts, ind), grams(parts, ind)
    mean = (mu @ Cm).reshape(shape)
    with c.frame('statistics', F, G):
        c.eq('mean', np.reshape(F.mean(), shape), mean)
        c.eq('expectation', np.reshape(F.expectation(), shape), mean)
        if B.is_orthonormal and all(isinstance(p[0], tensap.PolynomialFunctionalBasis) for p in parts):
            c.stage('second moments')
            c.eq('second moment of two functions', np.reshape(F.dot_product_expectation(G), shape), np.einsum('im,ij,jm->m', Cm, Gm, C2.reshape(N, m)).reshape(shape))
            s2 = np.einsum('im,ij,jm->m', Cm, Gm, Cm).reshape(shape)
            c.eq('norm in the space of square integrable functions', np.reshape(F.norm_expectation(), shape), np.sqrt(s2))
            if all(isinstance(p[0].measure, tensap.RandomVariable) for p in parts):
                v = s2 - mean ** 2
                c.eq('variance', np.reshape(F.variance(), shape), v)
                if np.all(v > 1e-6):
                    c.eq('standard deviation', np.reshape(F.std(), shape), np.sqrt(v))
    c.stage('conditional expectation')
    k = sorted(int(i) for i in c.rng.permutation(d)[:int(c.rng.integers(1, d + 1))])
    rest = [i for i in range(d) if i not in k]
    ce = values(x[:, k], None, k, ind[:, k]) * means([parts[i] for i in rest], ind[:, rest])[None, :]
    with c.frame('conditional_expectation', F):
        c.eq('conditional expectation', np.reshape(F.conditional_expectation(np.array(k) if c.rng.random() < 0.5 else k).eval(x[:, k]), (n,) + shape), ev(ce))
    if B.is_orthonormal and all(isinstance(p[0], tensap.PolynomialFunctionalBasis) and isinstance(p[0].measure, tensap.RandomVariable) for p in parts):
        c.stage('variances of conditional expectations')
        sets = [k]
        want = []
        kind = c.rng.random() < 0.5
        al = np.array([[i in k for i in range(d)]]) if kind else np.array([k])
        mk = np.ones((N, N))
        for i in range(d):
            p = parts[i]
            v = p[1](p[3][0])
            mi = p[3][1] @ v
            g = v.T @ (p[3][1][:, None] * v) if i in k else np.outer(mi, mi)
            mk = mk * g[np.ix_(ind[:, i], ind[:, i])]
        want = np.einsum('im,ij,jm->m', Cm, mk, Cm) - mean.ravel() ** 2
        got = F.variance_conditional_expectation(al)
        c.same('shape of the variances', np.shape(got), (1,) + shape)
        c.eq('variance of the conditional expectation', np.ravel(got), want)
    if not full:
        c.stage('derivatives')
        o = [int(i) for i in c.rng.integers(0, 3, size=d)]
        c.eq('derivatives', F.eval_derivative(o, x), ev(values(x, o)))
        if all(isinstance(p[0], tensap.PolynomialFunctionalBasis) and sorted(p[0].indices) == list(range(p[0].cardinal())) for p in parts):
            with c.frame('derivative', F):
                c.eq('derivative', F.derivative(o).eval(x), ev(values(x, o)))
        J = F.eval_gradient(x)
        g = np.stack([ev(values(x, [int(i == j) for j in range(d)])) for i in range(d)], 1)
        c.eq('gradient', J, g[..., 0] if m == 1 else g)
        c.stage('projection')
        allind = tensap.MultiIndices.bounded_by(np.array([p[0].cardinal() for p in parts]) - 1)
        T = tensap.SparseTensorProductFunctionalBasis(H, allind)
        with c.frame('projection', F, T):
            P = F.projection(T) if c.rng.random() < 0.5 else F.projection(T, allind)
        c.eq('projection on a larger basis', P.eval(x), ev(values(x)))
        P = F.projection(tensap.FullTensorProductFunctionalBasis(H), allind)
        c.eq('projection on the full basis', P.eval(x), ev(values(x)))
    if all(isinstance(p[0].measure, tensap.RandomVariable) for p in parts):
        c.stage('random')
        y, z = F.random(3)
        c.eq('random evaluations', y, ev(values(np.asarray(z))))


@harness('C12', [ST + 'tensor_product_interpolation', FT + 'tensor_product_interpolation', FT + 'tensor_product_projection', 'FunctionalBases.tensor_product_interpolation', 'FunctionalTensor.eval'], [{}], symbolic=False, concrete=60, tol=1e-5)
def approximations(c):
    H, parts, d = bases(c, kinds=('polynomial',))
    card = [p[0].cardinal() for p in parts]
    if np.prod(card) > 80:
        raise SkipCase()
    I = np.stack(np.unravel_index(np.arange(int(np.prod(card))), card, order='F'), 1)

    def values(x, ind=I):
        out = np.ones((x.shape[0], len(ind)))
        for i in range(d):
            out = out * parts[i][1](x[:, i])[:, ind[:, i]]
        return out
    cf = c.rng.integers(-3, 4, size=len(I)) / 2.0
    fun = lambda x: values(np.asarray(x)) @ cf
    x = np.stack([p[2](4) for p in parts], 1)
    B = tensap.FullTensorProductFunctionalBasis(H)
    g = [p[2](30)[:, None] for p in parts]
    c.stage('interpolation on a grid')
    with c.frame('tensor_product_interpolation', B, g):
        F, out = (B if c.rng.random() < 0.7 else H).tensor_product_interpolation(fun, g)
    c.eq('tensor product interpolation', np.ravel(F.eval(x)), fun(x))
    G = out['grid']
    c.same('evaluations', out['number_of_evaluations'], len(I))
    T = tensap.FullTensor(fun(G.array()), d, G.shape)
    kind = int(c.rng.integers(3))
    if kind == 1 and d > 1:
        T = tensap.Truncator(tolerance=1e-14).hsvd(T, tensap.DimensionTree.balanced(d)) if T.norm() > 0 else T
    F, out = B.tensor_product_interpolation(T, [g_ for g_ in G.grids])
    c.eq('tensor product interpolation from a tensor of values', np.ravel(F.eval(x)), fun(x))
    c.stage('projection')
    f = tensap.UserDefinedFunction(fun, d)
    f.evaluation_at_multiple_points = True
    rules = [p[0].measure.gauss_integration_rule(int(p[0].cardinal() + c.rng.integers(1, 3))) for p in parts]
    R = tensap.FullTensorProductIntegrationRule(tensap.FullTensorGrid([r.points for r in rules]), [r.weights for r in rules])
    with c.frame('tensor_product_projection', B, R):
        F, out = B.tensor_product_projection(f, R)
    c.eq('tensor product projection', np.ravel(F.eval(x)), fun(x))
    c.stage('sparse interpolation')
    s = I[np.sum(I, 1) <= int(c.rng.integers(0, 4))]
    S = tensap.SparseTensorProductFunctionalBasis(H, tensap.MultiIndices(s))
    cf2 = c.rng.integers(-3, 4, size=len(s)) / 2.0
    A = S.indices.array
    with c.frame('sparse tensor_product_interpolation', S, g):
        F, out = S.tensor_product_interpolation(lambda t: values(np.asarray(t), A) @ cf2, g)
    c.eq('sparse interpolation', np.ravel(F.eval(x)), values(x, A) @ cf2)
    c.same('evaluations of the sparse interpolation', out['number_of_evaluations'], len(s))


@harness('C12', ['PolynomialFunctionalBasis.' + f for f in ('__init__', 'eval', 'eval_derivative', 'gram_matrix', 'mean', 'kron', '__eq__')] + [FB + 'orthonormalize', 'SubFunctionalBasis.__init__'], [{}], symbolic=False, concrete=40, tol=1e-6)
def monomials(c):
    """polynomial bases that are not orthonormal, and measures other than that of the basis"""
    i = int(c.rng.integers(3))
    mu = [tensap.UniformRandomVariable(-1, 2), tensap.NormalRandomVariable(0.5, 1), tensap.LebesgueMeasure(0, 2)][i]
    q, w = [(lambda r: (r[0], r[1] / 3))(gauss_legendre(-1, 2)), gauss_hermite(0.5, 1), gauss_legendre(0, 2)][i]
    ind = np.sort(c.rng.permutation(5)[:int(c.rng.integers(1, 5))])
    if c.rng.random() < 0.3:
        ind = ind[::-1].copy()
    B = tensap.PolynomialFunctionalBasis(tensap.CanonicalPolynomials(mu), ind)
    n = ind.size
    V = lambda t, k=0: np.stack([np.polynomial.polynomial.polyval(np.ravel(t), np.polynomial.polynomial.polyder([0.] * j + [1.], k)) for j in ind], 1)
    x = c.rng.random(4) * 2
    c.eq('values', B.eval(x), V(x))
    c.eq('derivatives', B.eval_derivative(1, x), V(x, 1))
    c.true('orthonormal flag', not B.is_orthonormal or bool(np.abs(V(q).T @ (w[:, None] * V(q)) - np.eye(n)).max() < 1e-9))
    Q = V(q)
    gram = Q.T @ (w[:, None] * Q)
    c.stage('gram matrix')
    with c.frame('gram_matrix', B):
        c.eq('Gram matrix', B.gram_matrix(), gram)
        c.eq('means', np.ravel(B.mean()), w @ Q / w.sum())
    P, values, pts, rule = poly(c)
    for nu, (y, v) in [(tensap.UniformRandomVariable(-0.5, 1), (lambda r: (r[0], r[1] / 1.5))(gauss_legendre(-0.5, 1))), (tensap.NormalRandomVariable(0.3, 0.7), gauss_hermite(0.3, 0.7)), (tensap.LebesgueMeasure(-1, 2), gauss_legendre(-1, 2))]:
        with c.frame('gram_matrix', B, nu):
            c.eq('Gram matrix for another measure', B.gram_matrix(nu), V(y).T @ (v[:, None] * V(y)))
            c.eq('means for another measure', np.ravel(B.mean(nu)), v @ V(y) / v.sum())
        H = values(y)
        c.eq('Gram matrix of orthonormal polynomials for another measure', P.gram_matrix(nu), H.T @ (v[:, None] * H), tol=1e-5)
        c.eq('means of orthonormal polynomials for another measure', np.ravel(P.mean(nu)), v @ H / v.sum(), tol=1e-5)
    c.stage('orthonormalize')
    if np.linalg.cond(gram) < 1e7:
        S = B.orthonormalize()
        O = S.eval(q)
        c.eq('orthonormalized basis', O.T @ (w[:, None] * O), np.eye(n))
        c.eq('orthonormalized basis spans the same functions', O @ (O.T @ (w[:, None] * Q)), Q)
        c.true('declared orthonormal', bool(S.is_orthonormal))
    c.stage('equality')
    C = tensap.CanonicalPolynomials(mu)
    c.same('equality', (bool(B == tensap.PolynomialFunctionalBasis(C, ind.copy())), bool(B == tensap.PolynomialFunctionalBasis(C, np.append(ind, 7))), bool(B == P), bool(P == B)), (True, False, False, False))
    k = int(c.rng.integers(1, 4))
    A = np.linalg.qr(c.rng.standard_normal((n, n)))[0][:, :min(k, n)]
    c.true('combinations of functions that are not orthonormal', np.abs(gram - np.eye(n)).max() < 1e-9 or not tensap.SubFunctionalBasis(B, A).is_orthonormal)
    R = tensap.PolynomialFunctionalBasis(tensap.LegendrePolynomials(), range(n))
    c.true('combinations with orthonormal coefficients', bool(tensap.SubFunctionalBasis(R, np.eye(n)[:, :k]).is_orthonormal) and not tensap.SubFunctionalBasis(R, 2 * np.eye(n)[:, :k]).is_orthonormal)


@harness('C12', ['SparseTensorProductFunctionalBasis.__eq__', 'FullTensorProductFunctionalBasis.__eq__', 'FunctionalBases.__eq__', 'FunctionalBases.get_random_vector', 'FunctionalBases.__init__', 'FunctionalBases.derivative', 'SparseTensorProductFunctionalBasis.derivative', 'FullTensorProductFunctionalBasis.transpose'], [{}], symbolic=False, concrete=30)
def equality(c):
    d = int(c.rng.integers(1, 4))
    fam = lambda k, n: tensap.PolynomialFunctionalBasis([tensap.LegendrePolynomials(), tensap.HermitePolynomials(), tensap.UniformRandomVariable(0, 1).orthonormal_polynomials()][k], range(n))
    ks = [(int(c.rng.integers(3)), int(c.rng.integers(1, 4))) for _ in range(d)]
    mk = lambda ks: tensap.FunctionalBases([fam(*k) for k in ks])
    j = int(c.rng.integers(d))
    other = list(ks)
    other[j] = ((ks[j][0] + 1) % 3, ks[j][1]) if c.rng.random() < 0.5 else (ks[j][0], ks[j][1] + 1)
    H = mk(ks)
    c.same('bases', (bool(H == mk(ks)), bool(H == mk(other)), bool(H == mk(ks + [ks[0]]))), (True, False, False))
    F = tensap.FullTensorProductFunctionalBasis
    c.same('full product', (bool(F(H) == F(mk(ks))), bool(F(H) == F(mk(other))), bool(F(H) == H)), (True, False, False))
    S = tensap.SparseTensorProductFunctionalBasis
    I = tensap.MultiIndices.bounded_by(np.array([k[1] for k in ks]) - 1)
    one = tensap.MultiIndices(I.array[:1])
    if I.cardinal() > 1:
        c.same('sparse product, other indices', bool(S(H, I) == S(mk(ks), tensap.MultiIndices(np.vstack((I.array[:-1], I.array[-1:] + 1))))) if False else bool(S(H, I) == S(mk(ks), I)), True)
    J = tensap.MultiIndices(I.array.copy())
    small = [min(a[1], b[1]) for a, b in zip(ks, other)]
    K = tensap.MultiIndices(np.zeros((1, d), dtype=int))
    c.same('sparse product', (bool(S(H, J) == S(mk(ks), I)), bool(S(H, K) == S(mk(other), K)), bool(S(H, K) == F(H))), (True, False, False))
    if H.bases[0].cardinal() > 1:
        e = np.zeros((1, d), dtype=int)
        e[0, 0] = 1
        c.same('sparse product, one other index', bool(S(H, K) == S(mk(ks), tensap.MultiIndices(e))), False)
    V = H.get_random_vector()
    c.true('random vector', V.size == d and all(v == b.basis.measure for v, b in zip(V.random_variables, H.bases)))
    V = F(H).get_random_vector() if hasattr(F(H), 'get_random_vector') else V
    P = [int(i) for i in c.rng.permutation(d)]
    T = F(H).transpose(P)
    mm = T.measure
    c.true('measure of the permuted basis', all(a == H.bases[i].measure for a, i in zip(getattr(mm, 'measures', getattr(mm, 'random_variables', [])), P)))


# ---------------------------------------------------------------- all bases and coefficients, fixed numbers of functions
import itertools


def total(l):
    l = list(l)
    return sum(l[1:], l[0]) if l else 0


class AnyBasis(tensap.FunctionalBasis):
    """a univariate basis known by its contract only: functions, their derivatives, means and inner products"""

    def __init__(self, c, name, n, orthonormal=False, orders=3, shift=0, data=None):
        tensap.FunctionalBasis.__init__(self)
        self.name, self.n, self.shift = name, n, shift
        self.is_orthonormal = orthonormal
        if data is not None:
            self.fs, self.means, self.grams, self.ones, self.measure = data
            return
        self.fs = [[c.fun('%s%d_d%d' % (name, i, k)) for i in range(n)] for k in range(orders)]
        self.means = {k: c.scals('mean%s_%s' % (k, name), (n,)) for k in ('', 'X', 'Y')}
        self.grams = []
        for k in range(orders):
            g = c.scals('gram%d_%s' % (k, name), (n, n))
            self.grams.append(c.arr([[(1 * (i == j) if orthonormal and k == 0 else g[min(i, j), max(i, j)]) for j in range(n)] for i in range(n)]))
        self.ones = c.scals('one_' + name, (n,))
        self.measure = c.rv(name)

    def cardinal(self):
        return self.n

    def ndim(self):
        return 1

    def eval(self, x, indices=None):
        return self.eval_derivative(0, x)

    def eval_derivative(self, k, x):
        return np.array([[f([t]) for f in self.fs[k + self.shift]] for t in np.ravel(x)] or np.zeros((0, self.n)))

    def mean(self, measure=None):
        return np.array(self.means[getattr(measure, 'label', '')])

    def gram_matrix(self, measure=None):
        return np.array(self.grams[self.shift])

    def one(self):
        return np.array(self.ones)

    def derivative(self, k):
        return AnyBasis(None, self.name, self.n, self.is_orthonormal and not k, shift=self.shift + k, data=(self.fs, self.means, self.grams, self.ones, self.measure))

    def interpolation_points(self, x):
        return x

    def __eq__(self, o):
        return isinstance(o, AnyBasis) and (self.name, self.n, self.shift) == (o.name, o.n, o.shift)

    def __hash__(self):
        return hash(self.name)


def any_parts(c, card, orthonormal=False):
    return [AnyBasis(c, 'abc'[i], n, orthonormal) for i, n in enumerate(card)]


def vals(c, parts, x, ind, k=None):
    """values of the products selected by ind at the rows of x"""
    H = [p.eval_derivative(0 if k is None else k[i], x[:, i]) for i, p in enumerate(parts)]
    out = []
    for r in range(len(x)):
        row = []
        for j in ind:
            v = H[0][r][j[0]]
            for i in range(1, len(parts)):
                v = v * H[i][r][j[i]]
            row.append(v)
        out.append(row)
    return c.arr(out)


def prods(c, vectors, ind):
    out = []
    for j in ind:
        v = vectors[0][j[0]]
        for i in range(1, len(vectors)):
            v = v * vectors[i][j[i]]
        out.append(v)
    return c.arr(out)


CARDS = [(2,), (2, 3), (3, 1), (2, 1, 2)]


@harness('C12', ['FunctionalBases.' + f for f in ('__init__', 'eval', 'eval_derivative', 'derivative', 'mean', 'one', 'gram_matrices', 'cardinals', 'keep_bases', 'remove_bases', 'transpose', '__eq__', 'adaptation_path', 'duplicate', 'ndim', 'interpolation_points', 'length')], [{'card': k} for k in CARDS], concrete=6, engine='scalar')
def families_all_functions(c, card):
    d = len(card)
    parts = any_parts(c, card)
    H = tensap.FunctionalBases(parts)
    c.same('sizes', [H.length(), len(H)] + list(H.ndim()) + list(H.cardinals()), [d, d] + [1] * d + list(card))
    x = c.scals('x', (2, d))

    def family_is(label, F, want):
        c.same(label + ': number', [len(F)] + [p.cardinal() for p in F.bases], [len(want)] + [card[i] for i in want])
        E = F.eval(x[:, want])
        for i, j in enumerate(want):
            c.eq(label + ': values', E[i], parts[j].eval(x[:, j]))
        if isinstance(F.measure, tensap.ProductMeasure):
            c.true(label + ': measure', all(m == parts[j].measure for m, j in zip(F.measure.measures, want)) and len(F.measure.measures) == len(want))
    family_is('family', H, list(range(d)))
    family_is('copy', tensap.FunctionalBases(H), list(range(d)))
    for k in [list(p) for r in range(1, d + 1) for p in itertools.permutations(range(d), r)]:
        with c.frame('selection', H, x):
            family_is('kept', H.keep_bases(k), k)
            rest = [i for i in range(d) if i not in k]
            if rest:
                family_is('removed', H.remove_bases(k), rest)
            if len(k) == d:
                family_is('permuted', H.transpose(k), k)
            E, z = H.eval(x[:, k], k, 2)
            M, G = H.mean(k), H.gram_matrices(k)
            o = [(j + 1) % 3 for j in k]
            D = H.eval_derivative(o, x[:, k], k)
            U = H.one(k)
        for i, j in enumerate(k):
            c.eq('values of chosen bases', E[i], parts[j].eval(x[:, j]))
            c.eq('points of chosen bases', np.ravel(z[i]), x[:, j])
            c.eq('means of chosen bases', np.ravel(M[i]), parts[j].means[''])
            c.eq('Gram matrices of chosen bases', G[i], parts[j].grams[0])
            c.eq('derivatives of chosen bases', D[i], parts[j].eval_derivative(o[i], x[:, j]))
            c.eq('the constant', U[i], parts[j].ones)
    E, F = H.eval([x[:, i] for i in range(d)]), H.eval_derivative([1] * d, [x[:, i] for i in range(d)])
    o = [i % 2 for i in range(d)]
    D = H.derivative(o)
    for i in range(d):
        c.eq('values at lists of points', E[i], parts[i].eval(x[:, i]))
        c.eq('derivatives at lists of points', F[i], parts[i].eval_derivative(1, x[:, i]))
        c.eq('derived family', D.eval(x)[i], parts[i].eval_derivative(o[i], x[:, i]))
        c.eq('interpolation points', H.interpolation_points(x)[i], x[:, i:i + 1])
        c.same('adaptation paths', H.adaptation_path()[i], np.triu(np.ones((card[i],) * 2, bool)))
    L = tensap.FunctionalBases.duplicate(parts[0], 3)
    c.same('duplicates', list(L.cardinals()), [card[0]] * 3)
    c.true('equality', bool(H == tensap.FunctionalBases(H)) and (d == 1 or not bool(H == H.transpose(list(range(d))[::-1]))))


@harness('C12', [ST + f for f in ('__init__', 'eval', 'eval_derivative', 'derivative', 'mean', 'conditional_expectation', 'gram_matrix', 'gram_matrix_h1_0', 'adaptation_path', 'keep_bases', 'remove_bases', 'transpose', 'eval_with_functional_bases_evals', 'cardinal', 'ndim')] + [FT + f for f in ('__init__', 'eval', 'mean', 'conditional_expectation', 'cardinal', 'ndim', 'gram_matrices', 'keep_bases', 'remove_bases', 'transpose')] + [FB + 'eval_jacobian'],
         [{'card': k, 'ind': i} for k in CARDS for i in ('full', 'all', 'some', 'shuffled')], concrete=4, engine='scalar')
def products_all_functions(c, card, ind):
    d = len(card)
    parts = any_parts(c, card)
    H = tensap.FunctionalBases(parts)
    every = [t[::-1] for t in itertools.product(*[range(n) for n in card[::-1]])]
    full = ind == 'full'
    I = {'full': every, 'all': every, 'some': every[1::2] or every, 'shuffled': every[::-1]}[ind]
    B = tensap.FullTensorProductFunctionalBasis(H) if full else tensap.SparseTensorProductFunctionalBasis(H, tensap.MultiIndices(np.array(I).reshape(-1, d)))
    N = len(I)
    c.same('sizes', (B.cardinal(), B.ndim(), len(B)), (N, d, d))
    if not full:
        I = [tuple(int(v) for v in r) for r in B.indices.array]
    x = c.scals('x', (2, d))
    with c.frame('operations', B, x):
        c.eq('values', B.eval(x), vals(c, parts, x, I))
        c.eq('means', np.ravel(B.mean()), prods(c, [p.means[''] for p in parts], I))
    for r in range(1, d + 1):
        for k in itertools.combinations(range(d), r):
            k = list(k)
            rest = [i for i in range(d) if i not in k]
            with c.frame('conditional_expectation', B):
                E = B.conditional_expectation(np.array(k))
            m = prods(c, [parts[i].means[''] for i in rest], [[j[i] for i in rest] for j in I]) if rest else c.arr([1] * N)
            want = vals(c, [parts[i] for i in k], x[:, k], [[j[i] for i in k] for j in I])
            c.eq('conditional expectations', np.reshape(E.eval(x[:, k]), (2, N)), c.arr([[v * w for v, w in zip(row, m)] for row in want]))
            if rest:
                for label, got in (('kept', B.keep_bases(k)), ('remaining', B.remove_bases(rest))):
                    J = []
                    for j in ([t[::-1] for t in itertools.product(*[range(card[i]) for i in k[::-1]])] if full else [tuple(j[i] for i in k) for j in I]):
                        if j not in J:
                            J.append(j)
                    if not full:
                        c.same('indices of the %s bases' % label, sorted(map(tuple, got.indices.array)), sorted(J))
                        J = [tuple(int(v) for v in r) for r in got.indices.array]
                    c.eq('values of the %s bases' % label, got.eval(x[:, k]), vals(c, [parts[i] for i in k], x[:, k], J))
    if full:
        G = B.gram_matrices()
        for i in range(d):
            c.eq('Gram matrices', G[i], parts[i].grams[0])
    else:
        o = [(i + 1) % 3 for i in range(d)]
        c.eq('derivatives', B.eval_derivative(o, x), vals(c, parts, x, I, o))
        o = [i % 2 for i in range(d)]
        c.eq('derived basis', B.derivative(o).eval(x), vals(c, parts, x, I, o))
        g = lambda k: [[prods(c, [[p.grams[k[i]][a[i], b[i]]] for i, p in enumerate(parts)], [[0] * d])[0] for b in I] for a in I]
        with c.frame('gram_matrix', B):
            M = B.gram_matrix()
            c.eq('Gram matrix', M.toarray() if hasattr(M, 'toarray') else M, c.arr(g([0] * d)))
            S = [g([int(i == j) for j in range(d)]) for i in range(d)]
            c.eq('Gram matrix of the gradients', B.gram_matrix_h1_0(), c.arr([[total(s[a][b] for s in S) for b in range(N)] for a in range(N)]))
        J = B.eval_jacobian(x)
        for i in range(d):
            c.eq('jacobian', J[:, :, i], vals(c, parts, x, I, [int(i == j) for j in range(d)]))
        nr = [sum(j) for j in I]
        c.same('adaptation path', B.adaptation_path(), np.array([[v <= l for l in sorted(set(nr))] for v in nr]))
    for P in itertools.permutations(range(d)):
        T = B.transpose(list(P))
        if full:
            c.eq('permuted basis', T.eval(x[:, list(P)]), vals(c, [parts[i] for i in P], x[:, list(P)], [t[::-1] for t in itertools.product(*[range(card[i]) for i in P[::-1]])]))
        else:
            c.eq('permuted basis', T.eval(x[:, list(P)]), vals(c, parts, x, I))


FA = 'FunctionalBasisArray.'


@harness('C12', [FA + f for f in ('__init__', 'eval', '__add__', '__sub__', '__neg__', '__mul__', 'matmul', 'matdiv', 'dot', 'mean', 'expectation', 'variance', 'dot_product_expectation', 'norm_expectation', 'conditional_expectation', 'variance_conditional_expectation', 'eval_derivative', 'derivative', 'eval_gradient', 'projection', 'sub_functional_basis', 'get_coefficients', 'storage')],
         [{'card': k, 'ind': i, 'shape': s} for k in ((2,), (2, 2), (2, 1, 2)) for i in ('full', 'some') for s in ((1,), (2,), (2, 2))], concrete=4, engine='scalar')
def arrays_all_coefficients(c, card, ind, shape):
    d = len(card)
    parts = any_parts(c, card, True)
    H = tensap.FunctionalBases(parts)
    every = [t[::-1] for t in itertools.product(*[range(n) for n in card[::-1]])]
    full = ind == 'full'
    I = every if full else every[1:] or every
    B = tensap.FullTensorProductFunctionalBasis(H) if full else tensap.SparseTensorProductFunctionalBasis(H, tensap.MultiIndices(np.array(I).reshape(-1, d)))
    I = I if full else [tuple(int(v) for v in r) for r in B.indices.array]
    N, m = len(I), int(np.prod(shape))
    C, D = c.scals('c', (N,) + shape), c.scals('d', (N,) + shape)
    F, G = tensap.FunctionalBasisArray(C, B, shape), tensap.FunctionalBasisArray(np.ravel(D, order='F'), B, shape)
    x = c.scals('x', (2, d))
    comp = list(np.ndindex(*shape))

    def ev(V, X):
        out = np.empty((len(V),) + tuple(X.shape[1:]), dtype=object)
        for r in range(len(V)):
            for t in np.ndindex(*X.shape[1:]):
                out[(r,) + t] = total(V[r][j] * X[(j,) + t] for j in range(len(X)))
        return c.arr(out)
    V = vals(c, parts, x, I)
    with c.frame('operations', F, G, x):
        c.eq('values', F.eval(x), ev(V, C))
        c.eq('values from the values of the basis', F.eval_with_bases_evals(V), ev(V, C))
        for name, got, want in (('sum', F + G, C + D), ('difference', F - G, C - D), ('opposite', -F, -C), ('multiple', F * 3, 3 * C), ('product of coefficients', F * G, C * D)):
            c.eq(name, got.eval(x), ev(V, want))
        c.eq('coefficients', F.get_coefficients(), C)
        c.eq('inner product of the coefficients', np.ravel(F.dot(G)), c.arr([total(np.ravel(C * D))]))
        c.same('storage', F.storage(), N * m)
        mu = prods(c, [p.means[''] for p in parts], I)
        mean = ev([mu], C)
        c.eq('mean', F.mean(), mean)
        c.eq('expectation', F.expectation(), mean)
        dots = c.arr(np.array([total(C[(j,) + t] * D[(j,) + t] for j in range(N)) for t in comp], dtype=object).reshape((1,) + shape))
        sq = c.arr(np.array([total(C[(j,) + t] * C[(j,) + t] for j in range(N)) for t in comp], dtype=object).reshape((1,) + shape))
        c.eq('second moment of two functions', F.dot_product_expectation(G), dots)
        c.eq('variance', F.variance(), sq - mean * mean)
        for t in comp:
            c.nonneg([(1, C[(j,) + t]) for j in range(N)])
        nrm = F.norm_expectation()
        c.eq('square of the norm', nrm * nrm, sq)
    if len(shape) == 1:
        A = c.scals('A', (shape[0], 2))
        c.eq('product with a matrix', F.matmul(A).eval(x), ev(V, c.arr([[total(C[j, p] * A[p, q] for p in range(shape[0])) for q in range(2)] for j in range(N)])))
        A = A if shape[0] == 2 else c.scals('A', (1, 1))
        det = A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0] if shape[0] == 2 else A[0, 0]
        c.assume(bool(det * det > 1e-2))
        E = F.matdiv(A).data
        c.eq('product with the inverse of a matrix', c.arr([[total(E[j, p] * A[p, q] for p in range(shape[0])) for q in range(shape[0])] for j in range(N)]), C)
        S = F.sub_functional_basis()
        c.eq('spanned basis', S.eval(x), ev(V, C))
    c.stage('conditional expectation')
    for r in range(1, d + 1):
        for k in itertools.combinations(range(d), r):
            k = list(k)
            rest = [i for i in range(d) if i not in k]
            w = prods(c, [parts[i].means[''] for i in rest], [[j[i] for i in rest] for j in I]) if rest else c.arr([1] * N)
            J = [tuple(j[i] for i in k) for j in I]
            U = vals(c, [parts[i] for i in k], x[:, k], J)
            with c.frame('conditional_expectation', F):
                E = F.conditional_expectation(k)
                got = F.variance_conditional_expectation(np.array([k]))
            c.eq('conditional expectation', np.reshape(E.eval(x[:, k]), (2,) + shape), ev([[p * q for p, q in zip(row, w)] for row in U], C))
            # second moment: the chosen factors are orthonormal
            want = [total(C[(i,) + t] * C[(j,) + t] * w[i] * w[j] for i in range(N) for j in range(N) if J[i] == J[j]) - mean[(0,) + t] * mean[(0,) + t] for t in comp]
            c.eq('variance of the conditional expectation', got, c.arr(np.array(want, dtype=object).reshape((1,) + shape)))
    if not full:
        c.stage('derivatives')
        o = [(i + 1) % 3 for i in range(d)]
        c.eq('derivatives', F.eval_derivative(o, x), ev(vals(c, parts, x, I, o), C))
        o = [i % 2 for i in range(d)]
        with c.frame('derivative', F):
            c.eq('derivative', F.derivative(o).eval(x), ev(vals(c, parts, x, I, o), C))
        J = F.eval_gradient(x)
        for i in range(d):
            g = ev(vals(c, parts, x, I, [int(i == j) for j in range(d)]), C)
            c.eq('gradient', np.reshape(J, (2, d) + shape)[:, i], g)
        c.stage('projection')
        M = tensap.MultiIndices(np.array(every[::-1]).reshape(-1, d))
        T = tensap.SparseTensorProductFunctionalBasis(H, M)
        with c.frame('projection', F, T):
            c.eq('projection on a larger basis', F.projection(T).eval(x), ev(V, C))
        c.eq('projection on the full basis', F.projection(tensap.FullTensorProductFunctionalBasis(H), tensap.MultiIndices(np.array(every).reshape(-1, d))).eval(x), ev(V, C))


class AnyGram(AnyBasis):
    """an arbitrary positive definite Gram matrix"""

    def gram_matrix(self, measure=None):
        return np.array(self.gram)


@harness('C12', [FB + f for f in ('interpolate', 'gram_matrix', 'projection', 'least_squares_projection', 'quasi_projection', 'orthonormalize', 'magic_points', 'interpolation_points', 'adaptation_path')] + ['SubFunctionalBasis.' + f for f in ('__init__', 'eval', 'eval_derivative', 'mean', 'gram_matrix', 'orthonormalize', 'cardinal', 'eval_jacobian', 'derivative')],
         [{'n': n, 'orthonormal': o} for n in (1, 2) for o in (False, True)], concrete=10, engine='scalar', tol=1e-6)
def basis_all_functions(c, n, orthonormal):
    B = AnyGram(c, 'b', n, orthonormal)
    c.stage('interpolation')
    z = c.scals('z', (n,))
    V = B.eval(z)
    det = V[0, 0] if n == 1 else V[0, 0] * V[1, 1] - V[0, 1] * V[1, 0]
    c.assume(bool(det * det > 1e-3))
    x = c.scals('x', (2,))
    for m in (0, 2):
        y = c.scals('y', (n, m) if m else (n,))
        for given in ('values', 'function'):
            with c.frame('interpolate', B, z, y):
                F = B.interpolate(y if given == 'values' else (lambda t: y), z)
            c.eq('interpolation at the points', np.reshape(F.eval(z), (n, -1)), np.reshape(y, (n, -1)))
    a = c.scals('a', (n, 2))
    comb = lambda t: c.arr([[total(r[i] * a[i, j] for i in range(n)) for j in range(2)] for r in B.eval(t)])
    F = B.interpolate(comb, z)
    c.eq('interpolation of an element of the span', F.data, a)
    c.stage('projection')
    q, w = c.scals('q', (n + 1,)), c.scals('w', (n + 1,), lo=0.1)
    G = tensap.IntegrationRule(q, w)
    H = B.eval(q)
    gram = c.arr([[total(w[k] * H[k, i] * H[k, j] for k in range(n + 1)) for j in range(n)] for i in range(n)])
    with c.frame('gram_matrix', B, q, w):
        c.eq('Gram matrix of a rule', tensap.FunctionalBasis.gram_matrix(B, G), gram)
    det = gram[0, 0] if n == 1 else gram[0, 0] * gram[1, 1] - gram[0, 1] * gram[1, 0]
    c.assume(bool(det > 1e-3))
    y = c.scals('v', (n + 1,))
    rhs = c.arr([total(w[k] * H[k, i] * y[k] for k in range(n + 1)) for i in range(n)])
    for arg in (y, lambda t: y):
        with c.frame('projection', B, y):
            F = B.quasi_projection(arg, G)
        c.eq('inner products with the basis', np.ravel(F.data), rhs)
        F = B.least_squares_projection(arg, G)
        c.eq('projection is orthogonal', c.arr([total(gram[i, j] * np.ravel(F.data)[j] for j in range(n)) - rhs[i] for i in range(n)]), np.zeros(n))
        F = B.projection(arg, G)
        if orthonormal:
            c.eq('projection on an orthonormal basis', np.ravel(F.data), rhs)
        else:
            c.eq('projection is orthogonal', c.arr([total(gram[i, j] * np.ravel(F.data)[j] for j in range(n)) - rhs[i] for i in range(n)]), np.zeros(n))
    F = B.least_squares_projection(comb, G)
    c.eq('least-squares projection of an element of the span', F.data, a)
    c.stage('sub-basis')
    A = c.scals('A', (n, n))
    S = tensap.SubFunctionalBasis(B, A)
    mul = lambda M, A: c.arr([[total(M[i, k] * A[k, j] for k in range(n)) for j in range(A.shape[1])] for i in range(len(M))])
    c.same('number of functions', S.cardinal(), n)
    with c.frame('sub-basis', S, x):
        c.eq('values', S.eval(x), mul(B.eval(x), A))
        c.eq('values of chosen functions', S.eval(x, [n - 1]), mul(B.eval(x), A[:, n - 1:]))
        c.eq('derivatives', S.eval_derivative(2, x), mul(B.eval_derivative(2, x), A))
        c.eq('jacobian', S.eval_jacobian(x)[:, :, 0], mul(B.eval_derivative(1, x), A))
        c.eq('derived basis', S.derivative(1).eval(x), mul(B.eval_derivative(1, x), A))
    m = B.means['']
    c.eq('means', np.ravel(S.mean()), c.arr([total(m[k] * A[k, j] for k in range(n)) for j in range(n)]))
    t = c.scals('t', (3,))
    g = c.arr([[t[0] * t[0] + 0.5]]) if n == 1 else c.arr([[t[0] * t[0] + 0.5, t[1]], [t[1], t[2] * t[2] + 0.5 + t[1] * t[1] / (t[0] * t[0] + 0.5)]])
    B.gram = g
    S = tensap.SubFunctionalBasis(B, A)
    c.eq('Gram matrix', S.gram_matrix(), mul(mul(A.T, g), A))
    c.stage('orthonormalize')
    if not orthonormal:
        # a basis found orthonormal may be marked as such and returned
        O = B.orthonormalize()
        c.true('orthonormal flag', O.is_orthonormal)
        c.true('flag of the given basis', O is B or not B.is_orthonormal)
        if isinstance(O, tensap.SubFunctionalBasis):
            T = O.basis
            c.eq('orthonormalized basis', mul(mul(T.T, g), T), np.eye(n))
            c.eq('values of the orthonormalized basis', O.eval(x), mul(B.eval(x), T))
        elif O is B:
            c.eq('a basis returned as it is is orthonormal', g, np.eye(n))
    else:
        det = A[0, 0] if n == 1 else A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
        c.assume(bool(det * det > 1e-3))
        with c.frame('orthonormalize', S):
            T = S.orthonormalize().basis
        c.eq('orthonormalized sub-basis', mul(T.T, T), np.eye(n))
        # the first function of the given sub-basis is a multiple of the first one
        c.eq('same span', c.arr([T[0, 0] * A[k, 0] - T[k, 0] * A[0, 0] for k in range(n)]), np.zeros(n))
    c.same('adaptation path', B.adaptation_path(), np.triu(np.ones((n, n), bool)))


@harness('C12', [FB + 'magic_points', FB + 'interpolation_points'], [{'n': n, 'm': m} for n, m in ((1, 1), (1, 2), (1, 3), (2, 2))], concrete=10, engine='scalar', tol=1e-6)
def magic_all_functions(c, n, m):
    B = AnyBasis(c, 'b', n)
    x = c.scals('x', (m,))
    F = B.eval(x)
    if n == 2:
        det = F[0, 0] * F[1, 1] - F[0, 1] * F[1, 0]
        c.assume(bool(det * det > 1e-3))
    else:
        c.assume(any(bool(v * v > 1e-3) for v in F[:, 0]))
    with c.frame('magic_points', B, x):
        P, ind, out = B.magic_points(x)
    ind = [int(i) for i in ind]
    c.same('number of points', (len(ind), len(set(ind))), (n, n))
    c.eq('points', P, c.arr([[x[i]] for i in ind]))
    c.eq('interpolation points', tensap.FunctionalBasis.interpolation_points(B, x), P)
    if n == 1:
        for k in range(m):
            c.le('largest value', F[k, 0] * F[k, 0], F[ind[0], 0] * F[ind[0], 0])
        c.eq('Lebesgue constant', out['lebesgue_constant'], 1)
    else:
        c.eq('Lebesgue constant', out['lebesgue_constant'], 1)


@harness('C12', ['DeltaFunctionalBasis.' + f for f in ('__init__', 'eval', 'cardinal', 'ndim')] + ['UserDefinedFunctionalBasis.' + f for f in ('__init__', 'eval', 'cardinal', 'ndim')], [{'d': d, 'n': n, 'm': m} for d, n, m in ((1, 2, 2), (1, 3, 1), (2, 2, 1), (2, 1, 2))], concrete=10, engine='scalar')
def tabulated_all_values(c, d, n, m):
    v, x = c.scals('v', (n, d)), c.scals('x', (m, d))
    B = tensap.DeltaFunctionalBasis(v)
    c.same('sizes', (B.cardinal(), B.ndim()), (n, d))
    E = B.eval(x)
    for i in range(m):
        for j in range(n):
            c.eq('indicator of a value', E[i, j], 1 if all(bool(x[i, k] == v[j, k]) for k in range(d)) else 0)
    fs = [c.fun('f%d' % j) for j in range(n)]
    U = tensap.UserDefinedFunctionalBasis([(lambda t, f=f: c.arr([f(r) for r in t])) for f in fs], None, d)
    c.same('sizes', (U.cardinal(), U.ndim()), (n, d))
    with c.frame('eval', x):
        c.eq('values', U.eval(x), c.arr([[f(r) for f in fs] for r in x]))


LEGENDRE = [[1], [0, 1], [-0.5, 0, 1.5], [0, -1.5, 0, 2.5]]


@harness('C12', ['PiecewisePolynomialFunctionalBasis.' + f for f in ('__init__', 'eval', 'eval_derivative', 'element_number', 'mean', 'cardinal', 'interpolation_points')], [{'p': p, 'k': k} for p in ([1], [3], [0, 2], [2, 1], [1, 0, 2]) for k in (0, 1, 2)], concrete=10, engine='scalar', tol=1e-6)
def piecewise_all_meshes(c, p, k):
    n = len(p)
    h = [c.scal('h%d' % i, lo=0.1) for i in range(n)]
    a = c.scal('a')
    pt = [a]
    for v in h:
        pt.append(pt[-1] + v)
    pt = c.arr(pt)
    with c.frame('PiecewisePolynomialFunctionalBasis', pt):
        B = tensap.PiecewisePolynomialFunctionalBasis(pt, p if n > 1 else p[0])
    c.same('number of functions', B.cardinal(), sum(v + 1 for v in p))
    e, s = c.integer('e', 0, n - 1), c.scal('s', lo=0, hi=1)
    e = [i for i in range(n) if bool(e == i)][0]
    x = pt[e] + s * h[e]
    c.assume(e == n - 1 or bool(s < 1))
    with c.frame('eval', B):
        got = B.eval(c.arr([x])) if k == 0 else B.eval_derivative(k, c.arr([x]))
    want = []
    t = 2 * s - 1
    for i in range(n):
        for q in range(p[i] + 1):
            co = np.polynomial.polynomial.polyder(LEGENDRE[q], k) if k else np.array(LEGENDRE[q])
            v = total(float(b) * t ** j for j, b in enumerate(co)) * float(np.sqrt(2 * q + 1)) * 2 ** k / h[i] ** k
            want.append(v / c.sqrt(h[i]) if i == e else 0 * s)
    c.eq('values' if k == 0 else 'derivatives', got, c.arr([want]))
    if k == 0:
        c.eq('values of chosen functions', B.eval(c.arr([x]), [B.cardinal() - 1, 0]), c.arr([[want[-1], want[0]]]))
        m = []
        for i in range(n):
            m += [c.sqrt(h[i])] + [0 * s] * p[i]
        c.eq('means', np.ravel(B.mean()), c.arr(m))
        z = B.interpolation_points()
        j = 0
        for i in range(n):
            for q in range(p[i] + 1):
                c.le('interpolation points lie in their element', pt[i], z[j])
                c.le('interpolation points lie in their element', z[j], pt[i + 1])
                j += 1
        c.same('number of interpolation points', z.size, j)
