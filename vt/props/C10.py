"""C10: quadrature rules."""
import numpy as np
import tensap
from vt.ctx import harness, SkipCase
from vt.props.C09 import gauss_legendre, gauss_hermite

PV = np.polynomial.polynomial.polyval


def measure(c, kind):
    """(measure, exact (points, weights), largest number of points)"""
    if kind == 'normal':
        mu, s = float(c.rng.integers(-2, 3)), float(c.rng.integers(1, 7)) / 2
        return (tensap.NormalRandomVariable(), gauss_hermite(0, 1), 9) if c.rng.random() < 0.3 else (tensap.NormalRandomVariable(mu, s), gauss_hermite(mu, s), 9)
    a = float(c.rng.integers(-3, 3)) / 2
    b = a + float(c.rng.integers(1, 9)) / 2
    if kind == 'uniform':
        if c.rng.random() < 0.3:
            a, b = -1.0, 1.0
        return tensap.UniformRandomVariable(a, b), (lambda r: (r[0], r[1] / (b - a)))(gauss_legendre(a, b)), 12
    if kind == 'lebesgue':
        if c.rng.random() < 0.3:
            a, b = -1.0, 1.0
        return tensap.LebesgueMeasure(a, b), gauss_legendre(a, b), 12
    if kind == 'empirical':
        n = int(c.rng.integers(4, 9))
        xi = c.rng.standard_normal(n) * 1.5 + 0.7
        X = tensap.EmpiricalRandomVariable(xi)
        x, w = np.polynomial.hermite_e.hermegauss(30)
        return X, ((xi[:, None] + X.bandwidth * x[None, :]).ravel(), np.tile(w / np.sqrt(2 * np.pi), n) / n), 4
    n = int(c.rng.integers(1, 8))
    v = c.rng.permutation(12)[:n].astype(float) - 3
    p = c.rng.integers(1, 5, size=n).astype(float)
    return tensap.DiscreteRandomVariable(v, p / p.sum()), (v, p / p.sum()), n + 3


def scaled(c, x, deg):
    q = c.rng.standard_normal(deg + 1)
    s = np.abs(x).max() + 1
    return lambda t: PV(np.asarray(t) / s, q)


KINDS = ['normal', 'uniform', 'lebesgue', 'empirical', 'discrete']


@harness('C10', ['RandomVariable.gauss_integration_rule', 'LebesgueMeasure.gauss_integration_rule', 'DiscreteRandomVariable.gauss_integration_rule', 'IntegrationRule.integrate', 'IntegrationRule.gauss'], [{'kind': k} for k in KINDS], symbolic=False, concrete=25, tol=1e-8)
def gauss(c, kind):
    mu, (x, w), m = measure(c, kind)
    n = int(c.rng.integers(1, m + 1))
    with c.frame('gauss_integration_rule', mu):
        G = mu.gauss_integration_rule(n) if c.rng.random() < 0.5 else tensap.IntegrationRule.gauss(mu, n)
    k = min(n, len(x)) if kind == 'discrete' else n
    c.true('number of points', G.points.size == k and G.weights.size == k)
    c.true('positive weights', bool(np.all(G.weights > 0)))
    c.eq('mass', G.weights.sum(), w.sum())
    s = np.ravel(mu.support())
    c.true('points in the support', bool(np.all((G.points >= s[0] - 1e-9) & (G.points <= s[1] + 1e-9))))
    for d in range(2 * n):
        f = scaled(c, x, d)
        c.eq('exact for degree %d of less than 2n = %d' % (d, 2 * n), G.integrate(f), w @ f(x))
    g = lambda t: np.cos(3 * t) + np.exp(-t ** 2)
    c.eq('weighted sum of the values', G.integrate(g), sum(a * g(b) for a, b in zip(np.ravel(G.weights), np.ravel(G.points))))
    c.same('dimension', G.ndim(), 1)


@harness('C10', ['IntegrationRule.gauss_legendre_composite'], [{}], symbolic=False, concrete=40)
def composite(c):
    m = int(c.rng.integers(1, 5))
    kn = np.sort(c.rng.permutation(20)[:m + 1] / 4.0 - 2)
    n = int(c.rng.integers(1, 5))
    ns = [n] * m
    if c.rng.random() < 0.5:
        ns = [int(v) for v in c.rng.integers(1, 5, size=m)]
        n = ns if c.rng.random() < 0.5 else np.array(ns)
    sh = c.rng.permutation(kn) if c.rng.random() < 0.3 else kn
    with c.frame('gauss_legendre_composite', sh, n):
        G = tensap.IntegrationRule.gauss_legendre_composite(list(sh) if c.rng.random() < 0.3 else sh, n)
    c.true('number of points', G.points.size == sum(ns) and G.weights.size == sum(ns))
    tot = 0
    for k in range(m):
        x, w = gauss_legendre(kn[k], kn[k + 1])
        for d in range(2 * ns[k]):
            f = scaled(c, np.array([3.0]), d)
            inside = lambda t: f(t) * ((np.ravel(t) > kn[k]) & (np.ravel(t) < kn[k + 1]))
            c.eq('exact on each piece', G.integrate(inside), w @ f(x))
    f = scaled(c, np.array([3.0]), 2 * min(ns) - 1)
    x, w = gauss_legendre(kn[0], kn[-1])
    c.eq('exact on the whole interval', G.integrate(f), w @ f(x))


@harness('C10', ['FullTensorProductIntegrationRule.' + f for f in ('__init__', 'integrate', 'integration_rule', 'weights_on_grid', 'ndim')] + ['ProductMeasure.gauss_integration_rule'], [{}], symbolic=False, concrete=40, tol=1e-8)
def product(c):
    d = int(c.rng.integers(1, 4))
    ms = [measure(c, ['normal', 'uniform', 'lebesgue', 'discrete'][int(c.rng.integers(4))]) for _ in range(d)]
    n = [int(c.rng.integers(1, min(m[2], 4) + 1)) for m in ms]
    if c.rng.random() < 0.4:
        mu = tensap.ProductMeasure([m[0] for m in ms])
        if c.rng.random() < 0.3:
            n = [n[0]] * d
            G = mu.gauss_integration_rule(n[0])
        else:
            G = mu.gauss_integration_rule(n)
        R = [m[0].gauss_integration_rule(k) for m, k in zip(ms, n)]
    else:
        R = [m[0].gauss_integration_rule(k) for m, k in zip(ms, n)]
        pts, wts = [r.points for r in R], [r.weights for r in R]
        with c.frame('FullTensorProductIntegrationRule', pts, wts):
            G = tensap.FullTensorProductIntegrationRule(pts if c.rng.random() < 0.5 else tensap.FullTensorGrid(pts), wts)
    c.same('dimension', G.ndim(), d)
    fs = [scaled(c, m[1][0], 2 * k - 1) for m, k in zip(ms, n)]
    want = np.prod([m[1][1] @ f(m[1][0]) for m, f in zip(ms, fs)])
    f = lambda x: np.prod(np.stack([fs[k](x[:, k]) for k in range(d)], 1), 1)
    c.eq('exact for products of polynomials', G.integrate(f), want)
    I = G.integration_rule()
    c.true('points and weights', I.points.shape == (I.weights.size, d) and I.weights.size == np.prod([r.points.size for r in R]))
    for x, w in zip(I.points, I.weights):
        v = 1
        for k in range(d):
            j = int(np.argmin(np.abs(np.ravel(R[k].points) - x[k])))
            c.eq('coordinate is a point of the factor', x[k], np.ravel(R[k].points)[j])
            v = v * np.ravel(R[k].weights)[j]
        c.eq('weight of the point', w, v)
    g = lambda x: np.cos(x.sum(1)) + x[:, 0]
    c.eq('weighted sum of the values', G.integrate(g), sum(w * g(x[None])[0] for x, w in zip(I.points, I.weights)))
    c.eq('weights on the grid', G.weights_on_grid(), I.weights)


@harness('C10', ['FullTensorProductIntegrationRule.gauss_legendre_composite', 'IntegrationRule.tensorize'], [{}], symbolic=False, concrete=30)
def tensorized(c):
    d = int(c.rng.integers(1, 4))
    n = int(c.rng.integers(1, 4))
    if c.rng.random() < 0.5:
        kn = [np.sort(c.rng.permutation(12)[:int(c.rng.integers(2, 4))] / 4.0 - 1) for _ in range(d)]
        G = tensap.FullTensorProductIntegrationRule.gauss_legendre_composite(list(kn) if c.rng.random() < 0.5 else tuple(kn), n)
        ex = [gauss_legendre(k[0], k[-1]) for k in kn]
    else:
        mu, xw, m = measure(c, ['uniform', 'lebesgue', 'normal', 'discrete'][int(c.rng.integers(4))])
        if isinstance(mu, tensap.DiscreteRandomVariable) and c.rng.random() < 0.5:
            R = mu.integration_rule()
        else:
            n = min(n, m)
            R = mu.gauss_integration_rule(n)
        with c.frame('tensorize', R):
            G = R.tensorize(d)
        ex = [xw] * d
    fs = [scaled(c, x, 2 * n - 1) for x, w in ex]
    want = np.prod([w @ f(x) for (x, w), f in zip(ex, fs)])
    c.eq('exact for products of polynomials', G.integrate(lambda x: np.prod(np.stack([fs[k](x[:, k]) for k in range(d)], 1), 1)), want)
    c.same('dimension', G.ndim(), d)


@harness('C10', ['DiscreteMeasure.integration_rule', 'DiscreteRandomVariable.integration_rule', 'EmpiricalRandomVariable.integration_rule', 'IntegrationRule.integrate'], [{}], symbolic=False, concrete=30, tol=1e-8)
def sums(c):
    n, d = int(c.rng.integers(1, 7)), int(c.rng.integers(1, 4))
    v, w = c.rng.standard_normal((n, d)), c.rng.random(n)
    f = lambda x: np.cos(x.sum(1)) + x[:, 0]
    G = tensap.DiscreteMeasure(v, w).integration_rule()
    c.eq('integral for a discrete measure', G.integrate(f), w @ f(v))
    c.same('dimension', G.ndim(), d)
    G = tensap.DiscreteRandomVariable(v[:, 0], w / w.sum()).integration_rule()
    c.eq('integral for a discrete variable', G.integrate(f), (w / w.sum()) @ f(v[:, :1]))
    X, (x, ww), _ = measure(c, 'empirical')
    m = int(c.rng.integers(1, 6))
    G = X.integration_rule(m)
    for k in range(2 * m):
        g = scaled(c, x, k)
        c.eq('integral for an empirical variable', G.integrate(g), ww @ g(x))


# ---------------------------------------------------------------- all reals
class AnyRule(tensap.Measure):
    """a measure known by its quadrature rules"""

    def __init__(self, c, name):
        self._c, self._name = c, name

    def gauss_integration_rule(self, n):
        return tensap.IntegrationRule(self._c.scals('%s_x%d' % (self._name, n), int(n)), self._c.scals('%s_w%d' % (self._name, n), int(n)))

    def ndim(self):
        return 1

    def mass(self):
        return 1

    def support(self):
        return np.array([-1, 1])

    def __eq__(self, o):
        return self is o
    __hash__ = object.__hash__


AnyRule.__abstractmethods__ = frozenset()


def rows(c, f):
    """the vectorised function whose value at a row of points is f(row)"""
    return lambda x: c.arr([f(r) for r in x])


@harness('C10', ['IntegrationRule.__init__', 'IntegrationRule.integrate', 'IntegrationRule.ndim', 'IntegrationRule.tensorize'] + ['FullTensorProductIntegrationRule.' + f for f in ('__init__', 'integrate', 'integration_rule', 'weights_on_grid', 'ndim')], [{'n': n, 'd': d, 'col': k} for n, d, k in [(1, 0, 0), (3, 0, 0), (2, 1, 0), (3, 2, 0), (2, 3, 0), (1, 1, 0)]], concrete=8, engine='scalar')
def sum_all_reals(c, n, d, col):
    """any points, any weights, any function"""
    x = c.scals('x', (n, d) if d else n)
    w = c.scals('w', n)
    f = c.fun('f')
    G = tensap.IntegrationRule(x, w)
    c.eq('weighted sum of the values', G.integrate(rows(c, f)), sum(w[i] * f(x[i]) for i in range(n)))
    c.same('dimension', G.ndim(), max(d, 1))
    c.same('dimension of a discrete measure', tensap.DiscreteMeasure(x, w).ndim(), max(d, 1))
    H = tensap.DiscreteMeasure(x, w).integration_rule()
    c.eq('integral for a discrete measure', H.integrate(rows(c, f)), sum(w[i] * f(x[i]) for i in range(n)))
    if d <= 1:
        for D in (1, 2, 3):
            T = G.tensorize(D)
            c.same('dimension of the tensorised rule', T.ndim(), D)
            want = 0
            for I in np.ndindex(*[n] * D):
                v = f(c.arr([x[i] if d == 0 else x[i, 0] for i in I]))
                for i in I:
                    v = v * w[i]
                want = want + v
            c.eq('tensorised rule', T.integrate(rows(c, f)), want)


@harness('C10', ['FullTensorProductIntegrationRule.' + f for f in ('__init__', 'integrate', 'integration_rule', 'weights_on_grid', 'ndim')] + ['ProductMeasure.gauss_integration_rule', 'ProductMeasure.__init__', 'IntegrationRule.gauss'], [{'n': n} for n in ([2], [1, 3], [3, 2], [2, 1, 2], [2, 3, 2])], concrete=8, engine='scalar')
def product_all_reals(c, n):
    d = len(n)
    f = c.fun('f')
    mu = [AnyRule(c, 'mu%d' % k) for k in range(d)]
    R = [m.gauss_integration_rule(k) for m, k in zip(mu, n)]

    class Known(AnyRule):
        def __init__(self, rules):
            self._rules = rules

        def gauss_integration_rule(self, k):
            return self._rules[int(k)]
    Known.__abstractmethods__ = frozenset()

    def integral(R):
        v = 0
        for I in np.ndindex(*[r.points.size for r in R]):
            t = f(c.arr([r.points[i] for r, i in zip(R, I)]))
            for r, i in zip(R, I):
                t = t * r.weights[i]
            v = v + t
        return v
    for G in (tensap.FullTensorProductIntegrationRule([r.points for r in R], [r.weights for r in R]),
              tensap.ProductMeasure([Known({k: r}) for r, k in zip(R, n)]).gauss_integration_rule(n),
              tensap.IntegrationRule.gauss(tensap.ProductMeasure([Known({k: r}) for r, k in zip(R, n)]), n)):
        c.same('dimension', G.ndim(), d)
        c.eq('weighted sum of the values', G.integrate(rows(c, f)), integral(R))
        I = G.integration_rule()
        c.eq('points', I.points, c.arr([[R[k].points[i] for k, i in enumerate(J[::-1])] for J in np.ndindex(*[r.points.size for r in R[::-1]])]))
        c.eq('weights', I.weights, c.arr([prod1([R[k].weights[i] for k, i in enumerate(J[::-1])]) for J in np.ndindex(*[r.points.size for r in R[::-1]])]))
        c.eq('weights on the grid', G.weights_on_grid(), I.weights)
    Q = [Known({2: AnyRule(c, 'nu%d' % k).gauss_integration_rule(2)}) for k in range(d)]
    c.eq('one number of points for all', tensap.ProductMeasure(Q).gauss_integration_rule(2).integrate(rows(c, f)), integral([q._rules[2] for q in Q]))


def prod1(l):
    r = 1
    for v in l:
        r = r * v
    return r


@harness('C10', ['RandomVariable.gauss_integration_rule', 'LebesgueMeasure.gauss_integration_rule', 'IntegrationRule.gauss'], [{'kind': k, 'n': n} for k in ('uniform', 'lebesgue', 'normal') for n in (1, 2, 3, 4)], concrete=8, engine='scalar')
def gauss_all_parameters(c, kind, n):
    """exactness for all intervals, all means and standard deviations"""
    if kind == 'normal':
        m, s = c.scal('mean', lo=-3, hi=3), c.scal('deviation', lo=0, hi=4, strict=True)
        mu = tensap.NormalRandomVariable(m, s)
        raw = [1]
        for k in range(1, 2 * n):
            raw.append(m * raw[k - 1] + (s * s * (k - 1) * raw[k - 2] if k > 1 else 0))
    else:
        a = c.scal('a', lo=-3, hi=3)
        b = a + c.scal('length', lo=0, hi=4, strict=True)
        mu = (tensap.UniformRandomVariable if kind == 'uniform' else tensap.LebesgueMeasure)(a, b)
        raw = [(b ** (k + 1) - a ** (k + 1)) / (k + 1) / ((b - a) if kind == 'uniform' else 1) for k in range(2 * n)]
    for G in (mu.gauss_integration_rule(n), tensap.IntegrationRule.gauss(mu, n)):
        c.true('number of points', G.points.shape == (n,) and G.weights.shape == (n,))
        for k in range(2 * n):
            c.eq('exact for degree %d of less than %d' % (k, 2 * n), G.integrate(lambda x: x ** k), raw[k], tol=1e-7)
    c.lt('positive weights', 0, G.weights)


@harness('C10', ['IntegrationRule.gauss_legendre_composite', 'FullTensorProductIntegrationRule.gauss_legendre_composite'], [{'m': m, 'n': n, 'perm': p} for m, n, p in [(1, 2, [1, 0]), (2, 1, [0, 1, 2]), (2, [1, 2], [2, 0, 1]), (3, 1, [0, 2, 1, 3]), (2, 2, [0, 1, 2]), (3, [2, 1, 2], [0, 1, 2, 3])]], concrete=8, engine='scalar')
def composite_all_reals(c, m, n, perm):
    """all knots, given in any order"""
    t = [c.scal('a', lo=-3, hi=3)]
    for k in range(m):
        t.append(t[-1] + c.scal('h%d' % k, lo=0, hi=2, strict=True))
    ns = n if isinstance(n, list) else [n] * m
    G = tensap.IntegrationRule.gauss_legendre_composite(c.arr([t[i] for i in perm]), n)
    c.true('number of points', G.points.shape == (sum(ns),) and G.weights.shape == (sum(ns),))
    at = 0
    for k in range(m):
        x, w = G.points[at:at + ns[k]], G.weights[at:at + ns[k]]
        at += ns[k]
        c.lt('points of the piece', t[k], x)
        c.lt('points of the piece', x, t[k + 1])
        c.lt('positive weights', 0, w)
        for j in range(2 * ns[k]):
            c.eq('exact on each piece', sum(w * x ** j), (t[k + 1] ** (j + 1) - t[k] ** (j + 1)) / (j + 1))
    for j in range(2 * min(ns)):
        c.eq('exact on the whole interval', G.integrate(lambda x: x ** j), (t[-1] ** (j + 1) - t[0] ** (j + 1)) / (j + 1))
    if m <= 2 and not isinstance(n, list):
        F = tensap.FullTensorProductIntegrationRule.gauss_legendre_composite([c.arr([t[i] for i in perm]), c.arr(t[:2])], n)
        H = tensap.IntegrationRule.gauss_legendre_composite(c.arr(t[:2]), n)
        f = c.fun('f')
        want = 0
        for x, w in zip(G.points, G.weights):
            for y, v in zip(H.points, H.weights):
                want = want + w * v * f(c.arr([x, y]))
        c.eq('product of composite rules', F.integrate(rows(c, f)), want)


class FromPoints(tensap.OrthonormalPolynomials):
    """the orthonormal polynomials of the probability measure sum w_i delta_{x_i}, by Stieltjes' procedure"""

    def __init__(self, c, x, w):
        n = len(x)
        self._arr = c.arr
        self.measure = tensap.NormalRandomVariable()
        p0, p1, nb = [0] * n, [1] * n, 1
        self._a, self._b = [], []
        for k in range(n):
            nk = sum(v * p * p for v, p in zip(w, p1))
            self._a.append(sum(v * p * p * y for v, p, y in zip(w, p1, x)) / nk)
            self._b.append(nk / nb if k else 0)
            p0, p1 = p1, [(y - self._a[-1]) * p - self._b[-1] * o for y, p, o in zip(x, p1, p0)]
            nb = nk

    def recurrence_monic(self, n):
        assert n < len(self._a)
        return np.stack([self._arr(self._a[:n + 1]), self._arr(self._b[:n + 1])]), None

    def vectors(self, c, x, w):
        """the normalised eigenvectors (columns) of the Jacobi matrix, by the recurrence"""
        V = []
        for y, v in zip(x, w):
            u = [c.sqrt(v)]
            for k in range(len(x) - 1):
                t = (y - self._a[k]) * u[k]
                if k:
                    t = t - c.sqrt(self._b[k]) * u[k - 1]
                u.append(t / c.sqrt(self._b[k + 1]))
            V.append(u)
        return V


FromPoints.__abstractmethods__ = frozenset()


@harness('C10', ['RandomVariable.gauss_integration_rule'], [{'n': n, 'shifted': s, 'perm': p, 'fix': f} for n, p, f in [(1, [0], ''), (2, [0, 1], ''), (2, [1, 0], ''), (3, [2, 0, 1], 'points'), (3, [1, 0, 2], 'weights')] for s in (False, True)], concrete=6, engine='scalar')
def gauss_all_families(c, n, shifted, perm, fix):
    """Golub-Welsch for all recurrence coefficients: the first n pairs of coefficients of any
    family are those of some measure on n points x_1 < ... < x_n with weights w_i; the rule
    returned is this measure, whatever the order and the signs of the eigenvectors"""
    x = [c.const(-1, 2) if fix == 'points' else c.scal('x0', lo=-2, hi=2)]
    for k in range(1, n):
        x.append(x[-1] + (k if fix == 'points' else c.scal('h%d' % k, lo=0.1, hi=2)))
    w, left = [], 1
    for k in range(n - 1):
        w.append(left * (c.const(1 + k, 4) if fix == 'weights' else c.scal('t%d' % k, lo=0.1, hi=0.9)))
        left = left - w[-1]
    w.append(left)
    p = FromPoints(c, x, w)
    if c.symbolic:
        V = p.vectors(c, x, w)
        c.eig([x[i] for i in perm], np.array([[(-1) ** i * v for v in V[i]] for i in perm], dtype=object).T)

    class Any(tensap.RandomVariable):
        def orthonormal_polynomials(self, *a):
            if not shifted:
                return p
            r = tensap.ShiftedOrthonormalPolynomials.__new__(tensap.ShiftedOrthonormalPolynomials)
            r.polynomials, r.shift, r.scaling, r.measure = p, s, h, None
            return r
    Any.__abstractmethods__ = frozenset()
    s, h = (c.scal('shift', lo=-2, hi=2), c.scal('scaling', lo=0.1, hi=3)) if shifted else (0, 1)
    G = Any().gauss_integration_rule(n)
    c.eq('points', G.points, c.arr([s + h * v for v in x]))
    c.eq('weights', G.weights, c.arr(w))
