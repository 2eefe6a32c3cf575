"""C08: tensorization."""
import numpy as np
import tensap
from vt.ctx import harness, SkipCase

ONE = [{}]


def rvs(c, dim, kinds=('u', 'n', 'u2')):
    """(list of random variables) of the given number"""
    mk = {'u': lambda: tensap.UniformRandomVariable(0, 1), 'u2': lambda: tensap.UniformRandomVariable(-1.5, 2), 'n': lambda: tensap.NormalRandomVariable(0.5, 2)}
    return [mk[kinds[int(c.rng.integers(len(kinds)))]]() for _ in range(dim)]


def tz(c, dim=None, kinds=('u', 'n', 'u2'), ykinds=('u', 'u', 'u2', 'n'), maxd=4):
    b = int(c.rng.integers(2, 5))
    d = int(c.rng.integers(1, maxd + 1))
    dim = int(c.rng.integers(1, 4)) if dim is None else dim
    X, Y = rvs(c, dim, kinds), rvs(c, dim, ykinds)
    mode = int(c.rng.integers(4))
    if mode == 0:
        T, X, Y = tensap.Tensorizer(b, d, dim), [tensap.UniformRandomVariable(0, 1)] * dim, [tensap.UniformRandomVariable(0, 1)] * dim
    elif mode == 1:
        T, X, Y = tensap.Tensorizer(b, d, dim, X[0], Y[0]), [X[0]] * dim, [Y[0]] * dim
    elif mode == 2:
        T, Y = tensap.Tensorizer(b, d, dim, tensap.RandomVector(X)), [tensap.UniformRandomVariable(0, 1)] * dim
    else:
        T = tensap.Tensorizer(b, d, dim, tensap.RandomVector(X), tensap.RandomVector(Y))
    T.ordering_type = int(c.rng.integers(1, 3))
    return T, b, d, dim, X, Y


def column(T, d, dim, k, nu):
    """column of digit k (0 most significant) of variable nu"""
    return nu * d + k if T.ordering_type == 1 else k * dim + nu


@harness('C08', ['integer2baseb', 'baseb2integer'], [{'b': b, 'd': d} for b in (2, 3, 5, 10) for d in (1, 2, 3, 4) if b ** d <= 10000], symbolic=False, concrete=1)
def digits(c, b, d):
    i = np.arange(b ** d)
    with c.frame('integer2baseb', i):
        D = tensap.integer2baseb(i, b, d)
    c.true('shape', D.shape == (b ** d, d))
    c.true('digits in range', bool(np.all((D >= 0) & (D < b))))
    c.same('most significant first', D @ (b ** np.arange(d - 1, -1, -1)), i)
    with c.frame('baseb2integer', D):
        j = tensap.baseb2integer(D, b)
    c.same('inverse', j, i)
    p = c.rng.permutation(b ** d)
    c.same('any list of integers', tensap.integer2baseb(list(p), b, d), D[p])
    c.same('any list of digits', tensap.baseb2integer(D[p].tolist(), b), p)
    for m in {b ** d - 1, b ** (d - 1), b ** d // 2, 1}:
        E = tensap.integer2baseb(np.array([0, m]), b)
        k = 1
        while b ** k <= m:
            k += 1
        c.same('default number of digits is minimal', E.shape[1], k)


@harness('C08', ['Tensorizer.u2z', 'Tensorizer.z2u'], ONE, symbolic=False, concrete=80)
def unit(c):
    b, d = int(c.rng.integers(2, 6)), int(c.rng.integers(1, 6))
    n = int(c.rng.integers(1, 20))
    u = c.rng.random(n)
    e = c.rng.random(n) < 0.3
    u[e] = c.rng.choice([0.0, 1.0, 0.5, 0.25], size=n)[e] if b == 2 else c.rng.choice([0.0, 1.0], size=n)[e]
    with c.frame('u2z', u):
        z = tensap.Tensorizer.u2z(u, b, d)
    y, i = tensap.Tensorizer.u2z(u, b, d, 2)
    c.true('shapes', z.shape == (n, d + 1) and i.shape == (n, d) and np.ravel(y).shape == (n,))
    c.eq('two outputs', np.hstack((i, np.reshape(y, (-1, 1)))), z)
    c.true('digits in range', bool(np.all((i >= 0) & (i < b)) and np.all(i == np.floor(i))))
    c.true('remainder in [0,1]', bool(np.all((y >= 0) & (y <= 1))))
    c.eq('value', (i @ (float(b) ** np.arange(d - 1, -1, -1)) + np.ravel(y)) / float(b) ** d, u)
    c.eq('z2u inverts u2z', np.ravel(tensap.Tensorizer.z2u(z, b)), u)
    zz = np.hstack((c.rng.integers(0, b, size=(n, d)), 0.05 + 0.9 * c.rng.random((n, 1))))
    with c.frame('z2u', zz):
        uu = tensap.Tensorizer.z2u(zz, b)
    c.true('image in [0,1]', bool(np.all((uu >= 0) & (uu <= 1))))
    c.eq('u2z inverts z2u', tensap.Tensorizer.u2z(uu, b, d), zz, tol=1e-9 * b ** d)


@harness('C08', ['Tensorizer.u2z', 'Tensorizer.z2u', 'integer2baseb', 'baseb2integer'], [{'b': b, 'd': d, 'n': n} for b, d, n in [(2, 1, 1), (2, 2, 2), (2, 3, 2), (2, 4, 1), (2, 6, 1), (3, 1, 2), (3, 2, 2), (3, 3, 1), (5, 2, 1), (10, 2, 1)]], concrete=10, engine='scalar')
def unit_all_reals(c, b, d, n):
    """for all points of [0,1]"""
    u = c.scals('u', n, lo=0, hi=1)
    z = tensap.Tensorizer.u2z(u, b, d)
    y, i = tensap.Tensorizer.u2z(u, b, d, 2)
    c.true('shapes', z.shape == (n, d + 1) and i.shape == (n, d) and np.ravel(y).shape == (n,))
    c.eq('two outputs: digits', i, z[:, :-1])
    c.eq('two outputs: remainders', np.ravel(y), z[:, -1])
    c.le('digits in range', 0, z[:, :-1])
    c.le('digits in range', z[:, :-1], b - 1)
    c.le('remainder in [0,1]', 0, z[:, -1])
    c.le('remainder in [0,1]', z[:, -1], 1)
    v = z[:, -1]
    for k in range(d):
        v = v + z[:, k] * b ** (d - 1 - k)
    c.eq('value, the most significant digit first', v, u * b ** d)
    c.eq('z2u inverts u2z', np.ravel(tensap.Tensorizer.z2u(z, b)), u)


@harness('C08', ['Tensorizer.u2z', 'Tensorizer.z2u', 'integer2baseb', 'baseb2integer'], [{'b': b, 'd': d, 'n': n} for b, d, n in [(2, 1, 1), (2, 2, 2), (2, 3, 1), (3, 1, 2), (3, 2, 1), (5, 2, 1)]], concrete=10, engine='scalar', tol=1e-7)
def digits_all_reals(c, b, d, n):
    """for all digits and all remainders in (0,1)"""
    i = c.integers('i', (n, d), 0, b - 1)
    y = c.scals('y', n, lo=0.001, hi=0.999)
    z = np.concatenate((c.arr(i), np.reshape(y, (-1, 1))), axis=1)
    u = tensap.Tensorizer.z2u(z, b)
    c.true('shape', np.shape(u) == (n,))
    c.le('image in [0,1]', 0, u)
    c.le('image in [0,1]', u, 1)
    c.eq('u2z inverts z2u', tensap.Tensorizer.u2z(u, b, d), z)


TZ = [{'b': b, 'd': d, 'dim': m, 'n': n, 'ordering': o} for b, d, m, n in [(2, 1, 1, 2), (2, 2, 2, 1), (3, 2, 2, 2), (2, 3, 2, 1), (2, 2, 3, 1), (3, 1, 3, 2)] for o in (1, 2)]


@harness('C08', ['Tensorizer.__init__', 'Tensorizer.map', 'Tensorizer.inverse_map'], TZ, concrete=10, engine='scalar', tol=1e-7)
def bijection_all_reals(c, b, d, dim, n, ordering):
    """for all random variables with increasing distribution functions and all points"""
    X, Y = [c.rv('X%d' % k) for k in range(dim)], [c.rv('Y%d' % k) for k in range(dim)]
    T = tensap.Tensorizer(b, d, dim, tensap.RandomVector(X), tensap.RandomVector(Y))
    T.ordering_type = ordering
    u = c.scals('u', (n, dim), lo=0.001, hi=0.999)
    x = np.stack([X[k].icdf(u[:, k]) for k in range(dim)], axis=1)
    z = T.map(x)
    c.true('shape', z.shape == (n, dim * (d + 1)))
    dig = z[:, :dim * d]
    c.le('digits in range', 0, dig)
    c.le('digits in range', dig, b - 1)
    for nu in range(dim):
        v = Y[nu].cdf(z[:, dim * d + nu])
        for k in range(d):
            v = v + dig[:, column(T, d, dim, k, nu)] * b ** (d - 1 - k)
        c.eq('digits and remainder of a variable', v, u[:, nu] * b ** d)
    y, i = T.map(x, 2)
    c.eq('two outputs: digits', i, dig)
    c.eq('two outputs: remainders', y, z[:, dim * d:])
    c.eq('inverse after map', T.inverse_map(z), x)


@harness('C08', ['Tensorizer.__init__', 'Tensorizer.map', 'Tensorizer.inverse_map'], TZ, concrete=10, engine='scalar', tol=1e-7)
def inverse_all_reals(c, b, d, dim, n, ordering):
    """for all digits and remainders"""
    X, Y = [c.rv('X%d' % k) for k in range(dim)], [c.rv('Y%d' % k) for k in range(dim)]
    T = tensap.Tensorizer(b, d, dim, tensap.RandomVector(X), tensap.RandomVector(Y))
    T.ordering_type = ordering
    i = c.integers('i', (n, d * dim), 0, b - 1)
    r = c.scals('r', (n, dim), lo=0.001, hi=0.999)
    z = np.concatenate([c.arr(i)] + [np.reshape(Y[k].icdf(r[:, k]), (-1, 1)) for k in range(dim)], axis=1)
    x = T.inverse_map(z)
    c.true('shape of points', x.shape == (n, dim))
    c.eq('map after inverse', T.map(x), z)
    c.eq('one row', T.inverse_map(z[0]), x[:1])


@harness('C08', ['Tensorizer.__init__', 'Tensorizer.map', 'Tensorizer.inverse_map'], ONE, symbolic=False, concrete=120, tol=1e-8)
def bijection(c):
    T, b, d, dim, X, Y = tz(c)
    n = int(c.rng.integers(1, 8))
    u = 0.01 + 0.98 * c.rng.random((n, dim))
    x = np.stack([np.ravel(X[k].icdf(u[:, k])) for k in range(dim)], axis=1)
    with c.frame('map', x):
        z = T.map(x)
    c.true('shape', z.shape == (n, dim * (d + 1)), '%r' % (z.shape,))
    dig = z[:, :dim * d]
    c.true('digits in range', bool(np.all((dig >= 0) & (dig < b)) and np.all(dig == np.floor(dig))))
    for nu in range(dim):
        v = sum(dig[:, column(T, d, dim, k, nu)] * float(b) ** (-k - 1) for k in range(d))
        r = np.ravel(Y[nu].cdf(z[:, dim * d + nu]))
        c.eq('digits and remainder of variable %d' % nu, v + r * float(b) ** (-d), np.ravel(X[nu].cdf(x[:, nu])))
    y, i = T.map(x, 2)
    c.eq('two outputs', np.hstack((i, y)), z)
    with c.frame('inverse_map', z):
        xx = T.inverse_map(z)
    c.eq('inverse after map', xx, x)
    zz = np.hstack((c.rng.integers(0, b, size=(n, dim * d)), np.stack([np.ravel(Y[k].icdf(0.05 + 0.9 * c.rng.random(n))) for k in range(dim)], axis=1)))
    w = T.inverse_map(zz)
    c.true('shape of points', w.shape == (n, dim))
    c.eq('map after inverse', T.map(w), zz, tol=1e-7 * b ** d)
    c.eq('one point', T.inverse_map(zz[:1]), w[:1])
    c.eq('one digit row', T.inverse_map(zz[0]), w[:1])
    if dim == 1:
        c.eq('vector of points', T.map(x[:, 0]), z)


def funs(c, dim):
    a = c.array('a', (dim,), 'real')
    k = int(c.rng.integers(4))
    if k == 0:
        return (lambda x: np.cos(x @ a) + x[:, 0]), ()
    if k == 1:
        return (lambda x: np.exp(-(x ** 2) @ np.abs(a))), ()
    if k == 2:
        return (lambda x: np.stack([x @ a, np.sin(x[:, -1]), x[:, 0] ** 2], axis=1)), (3,)
    return (lambda x: np.stack([np.stack([x @ a, x[:, 0]], 1), np.stack([x[:, -1] ** 2, 1 + 0 * x[:, 0]], 1)], axis=1)), (2, 2)


@harness('C08', ['Tensorizer.tensorize', 'TensorizedFunction.__init__', 'TensorizedFunction.eval', 'TensorizedFunction.domain'], ONE, symbolic=False, concrete=120, tol=1e-7)
def values(c):
    T, b, d, dim, X, Y = tz(c, kinds=('u', 'u2', 'n'))
    f, shape = funs(c, dim)
    n = int(c.rng.integers(1, 7))
    u = 0.01 + 0.98 * c.rng.random((n, dim))
    x = np.stack([np.ravel(X[k].icdf(u[:, k])) for k in range(dim)], axis=1)
    how = int(c.rng.integers(3))
    if how == 0 and shape == ():
        g = f
    else:
        if how == 1:
            g = tensap.UserDefinedFunction(lambda t: f(np.atleast_2d(t))[0], dim, shape or 1)
            g.evaluation_at_multiple_points = False
        else:
            g = tensap.UserDefinedFunction(f, dim, shape or 1)
            g.evaluation_at_multiple_points = True
    F = T.tensorize(g)
    want = f(x)
    z = T.map(x)
    c.eq('value at a point', F(x), want)
    c.eq('value at its digits', F(z), want)
    c.eq('underlying function of the digits', F.fun(z), want)
    c.true('dimensions', F.dim == dim and F.fun.dim == dim * (d + 1) and tuple(np.atleast_1d(F.output_shape)) == (shape or (1,)))
    zz = np.hstack((c.rng.integers(0, b, size=(n, dim * d)), np.stack([np.ravel(Y[k].icdf(0.05 + 0.9 * c.rng.random(n))) for k in range(dim)], axis=1)))
    c.eq('any digits', F(zz), f(T.inverse_map(zz)))
    s = F.domain()
    c.true('domain', len(s) == dim and all(np.allclose(np.asarray(s[k], float), np.asarray(X[k].support(), float)) for k in range(dim)))


@harness('C08', ['Tensorizer.tensorized_function_functional_bases'], ONE, symbolic=False, concrete=60, tol=1e-7)
def bases(c):
    T, b, d, dim, X, Y = tz(c, dim=int(c.rng.integers(1, 3)), ykinds=('u', 'u', 'u2'), maxd=2)
    kind = int(c.rng.integers(5))
    h = int(c.rng.integers(0, 4))
    if kind == 0:
        H = T.tensorized_function_functional_bases()
        h, loc = 1, None
    elif kind == 1:
        H = T.tensorized_function_functional_bases(h)
        loc = None
    elif kind == 2:
        B = tensap.PolynomialFunctionalBasis(Y[0].orthonormal_polynomials(), range(h + 1))
        H = T.tensorized_function_functional_bases(B)
        loc = [B] * dim
    elif kind == 3:
        B = [tensap.PolynomialFunctionalBasis(Y[k].orthonormal_polynomials(), range(h + 1 + k)) for k in range(dim)]
        H = T.tensorized_function_functional_bases(tensap.FunctionalBases(B))
        loc = B
    else:
        fn = lambda t: np.exp(t)
        H = T.tensorized_function_functional_bases(fn)
        loc = None
    c.same('number of bases', len(H.bases), dim * (d + 1))
    n = 5
    D = c.rng.integers(0, b, size=(n, dim * d))
    y = np.stack([np.ravel(Y[k].icdf(c.rng.random(n))) for k in range(dim)], axis=1)
    E = H.eval(np.hstack((D, y)))
    all_d = np.reshape(np.arange(b), (-1, 1))
    for k in range(dim * d):
        c.same('one basis function per digit', H.bases[k].cardinal(), b)
        A = np.reshape(H.bases[k].eval(all_d), (b, b))
        c.eq('orthonormal for the uniform measure on the digits', A.T @ A / b, np.eye(b))
        c.eq('evaluation on digits', E[k], A[D[:, k]])
    for k in range(dim):
        B = H.bases[dim * d + k]
        if loc is not None:
            c.eq('basis in the remaining variable', E[dim * d + k], loc[k].eval(y[:, k]))
        elif kind == 4:
            c.eq('given function', E[dim * d + k], np.exp(y[:, k:k + 1]))
        else:
            c.same('degrees', B.cardinal(), h + 1)
            lo, hi = [float(v) for v in np.ravel(Y[k].support())]
            P = np.stack([np.polynomial.legendre.legval(2 * (y[:, k] - lo) / (hi - lo) - 1, np.eye(h + 1)[j]) * np.sqrt(2 * j + 1) for j in range(h + 1)], axis=1)
            c.eq('orthonormal polynomials of the remaining variable', E[dim * d + k], P)


@harness('C08', ['Tensorizer.tensorized_function_functional_bases', 'FunctionalBases.tensor_product_interpolation', 'TensorizedFunction.eval'], ONE, symbolic=False, concrete=40, tol=1e-7)
def interpolate(c):
    T, b, d, dim, X, Y = tz(c, dim=1 + int(c.rng.random() < 0.3), kinds=('u', 'u2'), ykinds=('u', 'u2'), maxd=2)
    h = int(c.rng.integers(0, 3))
    co = c.array('p', (h + 1,) * dim, 'real')
    f = (lambda x: np.polynomial.polynomial.polyval(x[:, 0], co)) if dim == 1 else (lambda x: np.polynomial.polynomial.polyval2d(x[:, 0], x[:, 1], co))
    F = T.tensorize(f)
    H = T.tensorized_function_functional_bases(h)
    n = 6
    x = np.stack([np.ravel(X[k].icdf(c.rng.random(n))) for k in range(dim)], axis=1)
    G, out = H.tensor_product_interpolation(F)
    c.eq('interpolation reproduces a polynomial', tensap.TensorizedFunction(G, T)(x), f(x))
