"""C09: orthonormal polynomials."""
import numpy as np
import tensap
from vt.ctx import harness, SkipCase

OP = 'OrthonormalPolynomials.'
SH = 'ShiftedOrthonormalPolynomials.'


def gauss_legendre(a, b, n=60):
    x, w = np.polynomial.legendre.leggauss(n)
    return (a + b) / 2 + (b - a) / 2 * x, w * (b - a) / 2


def gauss_hermite(mu, s, n=60):
    x, w = np.polynomial.hermite_e.hermegauss(n)
    return mu + s * x, w / np.sqrt(2 * np.pi)


def family(c, kind):
    """(polynomials, exact rule (x, w) of the measure, largest degree)"""
    if kind == 'hermite':
        return tensap.HermitePolynomials(), gauss_hermite(0, 1), 12
    if kind == 'legendre':
        return tensap.LegendrePolynomials(), (lambda r: (r[0], r[1] / 2))(gauss_legendre(-1, 1)), 14
    if kind == 'lebesgue':
        return tensap.LegendrePolynomialsLebesgue(), gauss_legendre(-1, 1), 14
    if kind == 'normal':
        mu, s = float(c.rng.integers(-2, 3)), float(c.rng.integers(1, 7)) / 2
        return tensap.NormalRandomVariable(mu, s).orthonormal_polynomials(), gauss_hermite(mu, s), 10
    a = float(c.rng.integers(-3, 3)) / 2
    b = a + float(c.rng.integers(1, 9)) / 2
    if kind == 'uniform':
        return tensap.UniformRandomVariable(a, b).orthonormal_polynomials(), (lambda r: (r[0], r[1] / (b - a)))(gauss_legendre(a, b)), 12
    if kind == 'interval':
        return tensap.LebesgueMeasure(a, b).orthonormal_polynomials(), gauss_legendre(a, b), 12
    if kind == 'empirical':
        n = int(c.rng.integers(4, 9))
        xi = c.rng.standard_normal(n) * 1.5 + 0.7
        X = tensap.EmpiricalRandomVariable(xi)
        x, w = np.polynomial.hermite_e.hermegauss(30)
        pts = (xi[:, None] + X.bandwidth * x[None, :]).ravel()
        return X.orthonormal_polynomials(), (pts, np.tile(w / np.sqrt(2 * np.pi), n) / n), min(n - 1, 4)
    if kind == 'samples':
        n = int(c.rng.integers(4, 8))
        xi = c.rng.standard_normal(n) * 1.5 + 0.7
        p = tensap.EmpiricalPolynomials(xi)
        z = (xi - xi.mean()) / xi.std()
        h = 3.5 * n ** (-1 / 3)
        x, w = np.polynomial.hermite_e.hermegauss(30)
        return p, ((z[:, None] + h * x[None, :]).ravel(), np.tile(w / np.sqrt(2 * np.pi), n) / n), min(n - 1, 4)
    n = int(c.rng.integers(1, 8))
    v = np.sort(c.rng.permutation(12)[:n]).astype(float) - 3
    if kind == 'discrete_measure':
        w = c.rng.integers(1, 5, size=n).astype(float)
        if c.rng.random() < 0.3:
            return tensap.DiscreteMeasure(v).orthonormal_polynomials(), (v, np.ones(n)), n - 1
        return tensap.DiscreteMeasure(v, w).orthonormal_polynomials(), (v, w), n - 1
    p = c.rng.integers(1, 5, size=n).astype(float)
    if c.rng.random() < 0.3:
        v = c.rng.permutation(v)
    return tensap.DiscreteRandomVariable(v, p / p.sum()).orthonormal_polynomials(), (v, p / p.sum()), n - 1


KINDS = ['hermite', 'legendre', 'lebesgue', 'normal', 'uniform', 'interval', 'empirical', 'samples', 'discrete_measure', 'discrete']
CFG = [{'kind': k} for k in KINDS]


@harness('C09', [OP + 'polyval', SH + 'polyval', 'recurrence_monic', '_precompute_recurrence_monic'], CFG, symbolic=False, concrete=8, tol=1e-7)
def orthonormal(c, kind):
    p, (x, w), n = family(c, kind)
    ind = np.arange(n + 1)
    V = p.polyval(ind, x)
    c.true('shape', V.shape == (x.size, n + 1))
    c.eq('orthonormal for the measure', V.T @ (V * w[:, None]), np.eye(n + 1))
    # degree and sign of the leading coefficient
    D = p.dn_polyval(n, ind, np.array([0.3]))
    f = np.array([float(v) for v in D[0]])
    c.true('degrees', bool(np.all(np.abs(f[:n]) <= 1e-6 * max(1, abs(f[n])))) and abs(f[n]) > 0)
    c.true('orthonormal family', p.is_orthonormal() if callable(p.is_orthonormal) else p.is_orthonormal)
    k = [int(i) for i in c.rng.integers(0, n + 1, size=int(c.rng.integers(1, 5)))]
    c.eq('any list of degrees', p.polyval(k, list(x[:3]) if c.rng.random() < 0.5 else x[:3]), V[:3][:, k])
    c.eq('one degree', np.ravel(p.polyval(k[0], x)), V[:, k[0]])
    mass = w.sum()
    c.eq('mass of the measure', p.measure.mass() if hasattr(p.measure, 'mass') else 1, mass)
    s = [float(v) for v in np.ravel(p.domain())]
    c.true('domain is the support', bool(np.all((x >= s[0] - 1e-9) & (x <= s[1] + 1e-9))))
    if kind in ('legendre', 'lebesgue', 'uniform', 'interval'):
        lo, hi = s
        t = (2 * x - lo - hi) / (hi - lo)
        ref = np.polynomial.legendre.legvander(t, n) * np.sqrt(2 * ind + 1) / np.sqrt(mass)
        c.eq('Legendre polynomials', V, ref)
    one = p.one()
    c.eq('expansion of one', one[0] * V[:, one[1]], np.ones(x.size))


@harness('C09', [OP + 'polyval', 'recurrence_monic'], [{'kind': k, 'n': n} for k in ('hermite', 'legendre', 'lebesgue') for n in (30, 60, 120, 180)], symbolic=False, concrete=1, tol=1e-6)
def high_degree(c, kind, n):
    p = {'hermite': tensap.HermitePolynomials, 'legendre': tensap.LegendrePolynomials, 'lebesgue': tensap.LegendrePolynomialsLebesgue}[kind]()
    x = np.linspace(-1, 1, 9)
    V = p.polyval(np.arange(n + 1), x)
    if kind == 'hermite':
        R = np.zeros_like(V)
        R[:, 0] = 1
        R[:, 1] = x
        for k in range(2, n + 1):
            R[:, k] = (x * R[:, k - 1] - np.sqrt(k - 1) * R[:, k - 2]) / np.sqrt(k)
    else:
        R = np.polynomial.legendre.legvander(x, n) * np.sqrt(2 * np.arange(n + 1) + 1) / (np.sqrt(2) if kind == 'lebesgue' else 1)
    c.eq('values', V, R)
    r = p.roots(n)
    W = p.polyval(np.arange(n + 1), r)
    c.true('roots', bool(np.all(np.diff(r) > 0)) and len(r) == n)
    c.true('polynomial small at its roots', float(np.abs(W[:, n]).max()) <= 1e-5 * float(np.abs(W).max()))
    rec, norms = p.recurrence_monic(n)
    m = min(n, 40)
    c.eq('norms of the monic polynomials', norms[1:m + 1] / norms[:m], np.sqrt(rec[1, 1:m + 1]))
    c.eq('norm of one', norms[0], np.sqrt(2) if kind == 'lebesgue' else 1)


class AnyMeasure(tensap.Measure):
    """a measure known by its mass and its quadrature rules (exact up to degree 2 n - 1)"""

    def __init__(self, c, name='mu'):
        self._c, self._name, self._rules = c, name, {}
        self._mass = c.scal('mass_' + name, lo=0, strict=True)

    def mass(self):
        return self._mass

    def rule(self, n):
        if n not in self._rules:
            self._rules[n] = self._c.scals('%s_x%d' % (self._name, n), n), self._c.scals('%s_w%d' % (self._name, n), n)
        return self._rules[n]

    def gauss_integration_rule(self, n):
        return tensap.IntegrationRule(*self.rule(int(n)))

    def support(self):
        return np.array([-1, 1])

    def __eq__(self, o):
        return self is o
    __hash__ = object.__hash__


AnyMeasure.__abstractmethods__ = frozenset()


class AnyFamily(tensap.OrthonormalPolynomials):
    """the orthonormal polynomials of arbitrary recurrence coefficients a, b > 0"""

    def __init__(self, c, n):
        self.measure = AnyMeasure(c)
        self._n = n
        self._a = c.scals('a', n + 1)
        self._b = c.scals('b', n + 1, lo=0, strict=True)
        self._b[0] = 0

    def recurrence_monic(self, n):
        assert n <= self._n
        return np.stack([self._a[:n + 1], self._b[:n + 1]]), None


AnyFamily.__abstractmethods__ = frozenset()


def favard(c, p, n):
    """coefficients (lists, constant term first) of the orthonormal polynomials of degree <= n,
    by their recurrence sqrt(b_{k+1}) p_{k+1} = (x - a_k) p_k - sqrt(b_k) p_{k-1}"""
    a, b = p._a, [c.sqrt(v) if k else 0 for k, v in enumerate(p._b)]
    P = [[1 / c.sqrt(p.measure.mass())]]
    for k in range(n):
        q = [0] + P[k]
        for j, v in enumerate(P[k]):
            q[j] = q[j] - a[k] * v
        if k:
            for j, v in enumerate(P[k - 1]):
                q[j] = q[j] - b[k] * v
        P.append([v / b[k + 1] for v in q])
    return P


def value(q, x):
    r = 0 * x
    for v in reversed(q):
        r = r * x + v
    return r


def der(q, k):
    for _ in range(k):
        q = [j * v for j, v in enumerate(q)][1:]
    return q or [0]


FAM = [{'ind': i} for i in ([0], [1], [2, 0], [3, 1, 3], [4, 0, 2])]


@harness('C09', [OP + 'polyval', OP + 'poly_coeff', 'UnivariatePolynomials.polyval'], FAM, concrete=10, engine='scalar', tol=1e-6)
def any_family(c, ind):
    """for all recurrence coefficients, masses and points (with Favard's theorem: the family
    is orthonormal for the measure these coefficients belong to)"""
    n = max(ind)
    p = AnyFamily(c, n)
    x = c.scals('x', 2, lo=-2, hi=2)
    P = favard(c, p, n)
    V = p.polyval(ind, x)
    c.true('shape', V.shape == (2, len(ind)))
    c.eq('three-term recurrence', V, np.stack([value(P[k], x) for k in ind], axis=1))
    C = p.poly_coeff(np.array(ind))
    c.eq('coefficients', C, c.arr([P[k] + [0] * (n - k) for k in ind]))
    c.eq('values from the coefficients', tensap.UnivariatePolynomials.polyval(p, ind, x), V)
    c.eq('one', p.one()[0] * p.polyval([p.one()[1]], x)[:, 0], c.arr([1, 1]))


@harness('C09', [OP + 'dn_polyval', OP + 'd_polyval', 'UnivariatePolynomials.dn_polyval', 'UnivariatePolynomials.dn_poly_coeff', 'UnivariatePolynomials.d_poly_coef'], [dict(f, k=k) for f in FAM for k in (0, 1, 2, 3)], concrete=10, engine='scalar', tol=1e-6)
def any_family_derivatives(c, ind, k):
    n = max(ind)
    p = AnyFamily(c, n)
    x = c.scals('x', 2, lo=-2, hi=2)
    P = favard(c, p, n)
    D = np.stack([value(der(P[i], k), x) for i in ind], axis=1)
    c.eq('derivative', p.dn_polyval(k, ind, x), D)
    U = tensap.UnivariatePolynomials
    c.eq('derivative from the coefficients', U.dn_polyval(p, k, ind, x), D)
    C = U.dn_poly_coeff(p, k, np.array(ind))
    c.eq('coefficients of the derivative', np.stack([value(list(r), x) for r in C], axis=1), D)
    if k == 1:
        c.eq('first derivative', p.d_polyval(ind, x), D)
        c.eq('first derivative from the coefficients', U.d_polyval(p, ind, x), D)
        if n > 0:
            c.eq('coefficients of the first derivative', np.stack([value(list(r), x) for r in p.d_poly_coef(np.array(ind))], axis=1), D)


@harness('C09', [SH + 'polyval', SH + 'dn_polyval', SH + 'd_polyval', SH + 'one', SH + 'domain'], [dict(f, k=k) for f in FAM[:4] for k in (0, 1, 2)], concrete=10, engine='scalar', tol=1e-6)
def any_shift(c, ind, k):
    """for all shifts and scalings: p((x - shift) / scaling), normalised by the masses"""
    n = max(ind)
    p = AnyFamily(c, n)
    s, h = c.scal('shift', lo=-2, hi=2), c.scal('scaling', lo=0.5)
    q = tensap.ShiftedOrthonormalPolynomials.__new__(tensap.ShiftedOrthonormalPolynomials)
    q.polynomials, q.shift, q.scaling, q.measure = p, s, h, AnyMeasure(c, 'nu')
    x = c.scals('x', 2, lo=-2, hi=2)
    P = favard(c, p, n)
    f = c.sqrt(p.measure.mass()) / c.sqrt(q.measure.mass())
    y = (x - s) / h
    D = np.stack([value(der(P[i], k), y) for i in ind], axis=1) * f / h ** k
    c.eq('values and derivatives', q.dn_polyval(k, ind, x) if k else q.polyval(ind, x), D)
    if k == 1:
        c.eq('first derivative', q.d_polyval(ind, x), D)
    c.eq('domain', q.domain(), c.arr([s - h, s + h]))
    c.eq('one', q.one()[0] * q.polyval([q.one()[1]], x)[:, 0], c.arr([1, 1]))


@harness('C09', ['UnivariatePolynomials.moment', 'UnivariatePolynomials.mean', OP + 'moment', 'IntegrationRule.integrate'], [{'I': I} for I in ([[0]], [[1], [0], [2]], [[1, 1]], [[2, 0], [1, 2]], [[1, 2, 1], [0, 0, 3]], [[1, 1, 1, 1]])], concrete=10, engine='scalar', tol=1e-6)
def any_moments(c, I):
    """moments are the integrals of the products by a rule exact for their degree"""
    n = max(max(r) for r in I)
    p = AnyFamily(c, n)
    P = favard(c, p, n)
    nu = AnyMeasure(c, 'nu')
    got = p.moment(np.array(I), nu)
    used = sorted(nu._rules)
    c.true('rules exact for the degree', len(used) > 0 and all(2 * k - 1 >= max(sum(r) for r in I) for k in used[-1:]))
    x, w = nu.rule(used[-1])
    want = []
    for r in I:
        v = w
        for i in r:
            v = v * value(P[i], x)
        want.append(sum(v))
    c.eq('moments for any measure', got, c.arr(want))
    if len(I[0]) == 1:
        c.eq('means for any measure', p.mean([r[0] for r in I], nu), c.arr(want) / nu.mass())
        c.eq('means', p.mean([r[0] for r in I]), c.arr([1 / c.sqrt(p.measure.mass()) if r[0] == 0 else 0 for r in I]))
    if len(I[0]) <= 2:
        c.eq('moments for the measure of the family', p.moment(np.array(I)), c.arr([(c.sqrt(p.measure.mass()) if r[0] == 0 else 0) if len(r) == 1 else int(r[0] == r[1]) for r in I]))


@harness('C09', ['CanonicalPolynomials.' + f for f in ('polyval', 'd_polyval', 'dn_polyval', 'poly_coeff', 'moment')], [{'ind': i, 'k': k} for i in ([0], [3, 1, 0], [4, 2, 4]) for k in (0, 1, 2, 3)], concrete=5, engine='scalar', tol=1e-6)
def canonical_all_reals(c, ind, k):
    mu = AnyMeasure(c)
    p = tensap.CanonicalPolynomials(mu)
    x = c.scals('x', 2, lo=-2, hi=2)
    mono = [[0] * i + [1] for i in range(max(ind) + 1)]
    D = np.stack([value(der(mono[i], k), x) for i in ind], axis=1)
    c.eq('monomials and their derivatives', p.dn_polyval(k, ind, x) if k else p.polyval(ind, x), D)
    if k == 1:
        c.eq('first derivative', p.d_polyval(ind, x), D)
    got = p.moment(np.reshape(ind, (-1, 1)))
    m = max(mu._rules)
    y, w = mu.rule(m)
    c.true('rule exact for the degree', 2 * m - 1 >= max(ind))
    c.eq('moments', got, c.arr([sum(w * value(mono[i], y)) for i in ind]))


@harness('C09', [OP + 'd_polyval', OP + 'dn_polyval', SH + 'd_polyval', SH + 'dn_polyval'], CFG, symbolic=False, concrete=8, tol=1e-6)
def derivatives(c, kind):
    p, (x, w), n = family(c, kind)
    ind = np.arange(n + 1)
    t = np.polynomial.chebyshev.chebpts1(max(n + 1, 1)) * 1.3 + 0.2
    y = c.rng.random(4) * 2 - 1
    # the polynomials through their values at n + 1 points
    V = np.linalg.solve(np.vander(t, n + 1, increasing=True), p.polyval(ind, t))
    for k in range(0, min(n, 4) + 2):
        D = np.stack([np.polynomial.polynomial.polyval(y, np.polynomial.polynomial.polyder(V[:, i], k)) if k else np.polynomial.polynomial.polyval(y, V[:, i]) for i in ind], axis=1)
        c.eq('derivative of order %d' % k, p.dn_polyval(k, ind, y), D)
        q = [int(i) for i in c.rng.integers(0, n + 1, size=3)]
        c.eq('derivative of a list of degrees', p.dn_polyval(k, q, y), D[:, q])
        if k == 1:
            c.eq('first derivative', p.d_polyval(ind, y), D)
            c.eq('first derivative of a list of degrees', p.d_polyval(q, y), D[:, q])


@harness('C09', [OP + 'poly_coeff', 'UnivariatePolynomials.polyval', 'UnivariatePolynomials.dn_poly_coeff', 'UnivariatePolynomials.d_poly_coef', 'UnivariatePolynomials.dn_polyval'], [{'kind': k} for k in KINDS if k not in ('normal', 'uniform', 'interval')], symbolic=False, concrete=6, tol=1e-6)
def coefficients(c, kind):
    p, (x, w), n = family(c, kind)
    if not hasattr(p, 'recurrence_monic'):
        p = p.polynomials
    ind = np.arange(n + 1)
    y = c.rng.random(5) * 2 - 1
    q = [int(i) for i in c.rng.integers(0, n + 1, size=3)]
    for k in (ind, q):
        C = p.poly_coeff(k)
        m = max(k)
        c.true('shape', C.shape == (len(k), m + 1))
        c.eq('coefficients give the values', np.vander(y, m + 1, increasing=True) @ C.T, p.polyval(k, y))
        U = tensap.UnivariatePolynomials
        c.eq('values from the coefficients', U.polyval(p, k, y), p.polyval(k, y))
        for o in range(0, 4):
            c.eq('derivative %d from the coefficients' % o, U.dn_polyval(p, o, k, y), p.dn_polyval(o, k, y))
        if m > 0:
            D = p.d_poly_coef(k)
            c.eq('coefficients of the derivative', np.vander(y, m, increasing=True) @ D.T, p.dn_polyval(1, k, y))
            D = p.dn_poly_coeff(1, k)
            c.eq('coefficients of the derivative of order one', np.vander(y, D.shape[1], increasing=True) @ D.T, p.dn_polyval(1, k, y))


@harness('C09', ['CanonicalPolynomials.' + f for f in ('polyval', 'd_polyval', 'dn_polyval', 'poly_coeff', 'moment', 'mean')], [{}], symbolic=False, concrete=20)
def canonical(c):
    n = int(c.rng.integers(0, 6))
    mu = [tensap.UniformRandomVariable(-1, 2), tensap.NormalRandomVariable(0.5, 2), tensap.LebesgueMeasure(0, 3)][int(c.rng.integers(3))]
    p = tensap.CanonicalPolynomials(mu)
    y = c.rng.standard_normal(5)
    k = [int(i) for i in c.rng.integers(0, n + 1, size=int(c.rng.integers(1, 5)))]
    c.eq('monomials', p.polyval(k, y), np.stack([y ** i for i in k], 1))
    c.eq('coefficients', p.poly_coeff(k), np.eye(max(k) + 1)[k])
    for o in range(0, 5):
        D = np.stack([np.prod([i - j for j in range(o)]) * y ** (i - o) if i >= o else 0 * y for i in k], 1)
        c.eq('derivative of order %d' % o, p.dn_polyval(o, k, y), D)
        if o == 1:
            c.eq('first derivative', p.d_polyval(k, y), D)
    xw = gauss_hermite(0.5, 2) if isinstance(mu, tensap.NormalRandomVariable) else gauss_legendre(*mu.support())
    x, w = xw if not isinstance(mu, tensap.UniformRandomVariable) else (xw[0], xw[1] / 3)
    c.eq('moments', p.moment(np.reshape(k, (-1, 1))), np.array([w @ x ** i for i in k]))
    c.eq('means', p.mean(k), np.array([w @ x ** i for i in k]) / w.sum())


@harness('C09', [OP + 'moment', OP + 'mean', SH + 'moment', SH + 'mean', 'UnivariatePolynomials.moment', 'UnivariatePolynomials.mean'], [{'kind': k} for k in KINDS if k != 'discrete_measure'], symbolic=False, concrete=8, tol=1e-6)
def moments(c, kind):
    p, (x, w), n = family(c, kind)
    n = min(n, 5)
    m = int(c.rng.integers(1, 5))
    if kind in ('empirical', 'samples'):
        n, m = min(n, 2), min(m, 2)
    I = c.rng.integers(0, n + 1, size=(int(c.rng.integers(1, 5)), m))
    V = p.polyval(np.arange(n + 1), x)
    want = np.array([w @ np.prod(V[:, r], axis=1) for r in I])
    with c.frame('moment', p, I):
        got = p.moment(I)
    c.eq('moment of products', got, want)
    c.eq('moment of products, measure of the family', p.moment(I, p.measure), want)
    k = [int(i) for i in c.rng.integers(0, n + 1, size=3)]
    c.eq('means', p.mean(k), w @ V[:, k] / w.sum())
    if kind in ('empirical', 'samples', 'discrete'):
        return
    for nu, (y, v) in [(tensap.UniformRandomVariable(-0.5, 1), (lambda r: (r[0], r[1] / 1.5))(gauss_legendre(-0.5, 1))), (tensap.NormalRandomVariable(0.3, 0.7), gauss_hermite(0.3, 0.7)), (tensap.LebesgueMeasure(-1, 2), gauss_legendre(-1, 2)), (tensap.DiscreteRandomVariable([-1., 0, 2], [0.25, 0.25, 0.5]), (np.array([-1., 0, 2]), np.array([0.25, 0.25, 0.5])))]:
        U = p.polyval(np.arange(n + 1), y)
        c.eq('moments for another measure', p.moment(I, nu), np.array([v @ np.prod(U[:, r], axis=1) for r in I]), tol=1e-5)
        c.eq('means for another measure', p.mean(k, nu), v @ U[:, k] / v.sum(), tol=1e-5)


@harness('C09', [OP + 'roots', SH + 'roots'], CFG, symbolic=False, concrete=6, tol=1e-6)
def roots(c, kind):
    p, (x, w), n = family(c, kind)
    if n < 1:
        raise SkipCase()
    k = int(c.rng.integers(1, n + 1))
    r = np.ravel(p.roots(k))
    c.true('number of roots', len(r) == k and len(np.unique(np.round(r, 7))) == k)
    c.true('sorted', bool(np.all(np.diff(r) > 0)))
    V = p.polyval(np.arange(k + 1), r)
    c.eq('polynomial vanishes at its roots', V[:, k] / np.abs(p.polyval(np.arange(k + 1), np.array([r[0] - 1, r[-1] + 1]))).max(), np.zeros(k))
    # quadrature at the roots with interpolatory weights is exact below degree 2k
    A = p.polyval(np.arange(k), r).T
    e = np.zeros(k)
    e[0] = np.sqrt(w.sum())
    wt = np.linalg.solve(A, e)
    c.true('positive weights', bool(np.all(wt > 0)))
    q = c.rng.standard_normal(2 * k)
    sc = np.abs(x).max() + 1
    f = lambda t: np.polynomial.polynomial.polyval(t / sc, q)
    c.eq('quadrature at the roots', wt @ f(r), w @ f(x))


@harness('C09', [OP + 'random', SH + 'random'], [{'kind': k} for k in ('hermite', 'legendre', 'normal', 'uniform', 'discrete')], symbolic=False, concrete=8)
def random(c, kind):
    p, (x, w), n = family(c, kind)
    k = [int(i) for i in c.rng.integers(0, n + 1, size=3)]
    N = int(c.rng.integers(1, 5))
    f, y = p.random(k, N)
    c.true('number of points', np.size(y) == N and np.shape(f) == (N, len(k)))
    c.eq('values at the returned points', f, p.polyval(k, y))
    nu = tensap.UniformRandomVariable(7, 8)
    f, y = p.random(k, N, nu)
    c.eq('values at the points of a given measure', f, p.polyval(k, y), tol=1e-7)
    c.true('points of the given measure', bool(np.all((y >= 7) & (y <= 8))))


@harness('C09', [OP + '__eq__', SH + '__eq__'], [{}], symbolic=False, concrete=10)
def equality(c):
    fs = [tensap.HermitePolynomials, tensap.LegendrePolynomials, tensap.LegendrePolynomialsLebesgue, lambda: tensap.NormalRandomVariable(1, 2).orthonormal_polynomials(), lambda: tensap.UniformRandomVariable(0, 1).orthonormal_polynomials(), lambda: tensap.UniformRandomVariable(0, 2).orthonormal_polynomials(), lambda: tensap.LebesgueMeasure(0, 1).orthonormal_polynomials(), lambda: tensap.DiscreteRandomVariable([0., 1, 2]).orthonormal_polynomials(), lambda: tensap.DiscreteRandomVariable([0., 1, 3]).orthonormal_polynomials(), lambda: tensap.DiscreteRandomVariable([0., 1, 2], [.25, .5, .25]).orthonormal_polynomials(), lambda: tensap.CanonicalPolynomials()]
    i, j = [int(k) for k in c.rng.integers(0, len(fs), size=2)]
    c.true('equal to itself', bool(fs[i]() == fs[i]()))
    if i != j:
        c.true('different families differ', not (fs[i]() == fs[j]()), '%d %d' % (i, j))
