"""C11: probability measures."""
import numpy as np
import scipy.stats
import tensap
from vt.ctx import harness, SkipCase
from vt.props.C09 import gauss_legendre, gauss_hermite

RV = 'RandomVariable.'


def variable(c, kind):
    """(random variable, exact rule (points, weights), reference distribution or None)"""
    if kind == 'normal':
        mu, s = float(c.rng.integers(-4, 5)) / 2, float(c.rng.integers(1, 7)) / 2
        if c.rng.random() < 0.2:
            mu, s = 0.0, 1.0
        X = tensap.NormalRandomVariable(mu, s) if (mu, s) != (0, 1) else tensap.NormalRandomVariable()
        return X, gauss_hermite(mu, s), scipy.stats.norm(mu, s)
    if kind == 'uniform':
        a = float(c.rng.integers(-3, 3)) / 2
        b = a + float(c.rng.integers(1, 9)) / 2
        if c.rng.random() < 0.2:
            a, b = -1.0, 1.0
        X = tensap.UniformRandomVariable(a, b) if (a, b) != (-1, 1) else tensap.UniformRandomVariable()
        return X, (lambda r: (r[0], r[1] / (b - a)))(gauss_legendre(a, b)), scipy.stats.uniform(a, b - a)
    if kind == 'empirical':
        n = int(c.rng.integers(4, 12))
        xi = c.rng.standard_normal(n) * float(c.rng.integers(1, 5)) / 2 + 0.7
        X = tensap.EmpiricalRandomVariable(xi if c.rng.random() < 0.7 else list(xi))
        x, w = np.polynomial.hermite_e.hermegauss(30)
        h = 3.5 * xi.std() * n ** (-1 / 3)

        class D:
            @staticmethod
            def pdf(t):
                return scipy.stats.norm.pdf(np.asarray(t)[..., None], xi, h).mean(-1)

            @staticmethod
            def cdf(t):
                return scipy.stats.norm.cdf(np.asarray(t)[..., None], xi, h).mean(-1)
        return X, ((xi[:, None] + h * x[None, :]).ravel(), np.tile(w / np.sqrt(2 * np.pi), n) / n), D
    n = int(c.rng.integers(1, 7))
    v = c.rng.permutation(12)[:n].astype(float) - 3
    if c.rng.random() < 0.5:
        v = np.sort(v)
    cuts = np.sort(c.rng.integers(0, 17, size=n - 1)) if n > 1 else np.array([], int)
    p = np.diff(np.concatenate(([0], cuts, [16]))) / 16.0
    if c.rng.random() < 0.3:
        p = np.full(n, 1 / n)
        X = tensap.DiscreteRandomVariable(v if c.rng.random() < 0.5 else v.reshape(-1, 1))
    elif c.rng.random() < 0.3:
        X = tensap.DiscreteRandomVariable(v, 3 * p)
    else:
        X = tensap.DiscreteRandomVariable(list(v), list(p)) if c.rng.random() < 0.3 else tensap.DiscreteRandomVariable(v, p)
    return X, (v, p), None


CONT = [{'kind': k} for k in ('normal', 'uniform', 'empirical')]
ALL = CONT + [{'kind': 'discrete'}]


@harness('C11', [k + '.' + f for k in ('UniformRandomVariable', 'NormalRandomVariable', 'EmpiricalRandomVariable') for f in ('pdf', 'cdf', 'icdf', 'support')], CONT, symbolic=False, concrete=15, tol=1e-7)
def distribution(c, kind):
    X, (x, w), D = variable(c, kind)
    m, s = w @ x, np.sqrt(w @ x ** 2 - (w @ x) ** 2)
    t = m + s * (c.rng.random(6) * 4 - 2)
    with c.frame('cdf', X, t):
        F = X.cdf(t)
    c.eq('density', X.pdf(t), D.pdf(t))
    c.eq('cumulative distribution function', F, D.cdf(t))
    # the cdf is the integral of the density
    lo, hi = np.sort(t)[[0, -1]]
    sup = [float(v) for v in np.ravel(X.support())]
    lo, hi = max(lo, sup[0]), min(hi, sup[1])
    if lo < hi:
        y, v = gauss_legendre(lo, hi, 80)
        c.eq('integral of the density', v @ X.pdf(y), float(X.cdf(hi)) - float(X.cdf(lo)), tol=1e-6)
    u = 0.02 + 0.96 * c.rng.random(5)
    q = X.icdf(u)
    c.eq('distribution function of a quantile', X.cdf(q), u)
    inside = t[(F > 1e-3) & (F < 1 - 1e-3)]
    if inside.size:
        c.eq('quantile of a value of the distribution function', X.icdf(X.cdf(inside)), inside, tol=1e-6)
    ts = [float(v) for v in np.ravel(X.truncated_support())]
    c.true('truncated support', sup[0] <= ts[0] < ts[1] <= sup[1] and np.isfinite(ts).all())
    c.eq('mass of the truncated support', float(X.cdf(ts[1])) - float(X.cdf(ts[0])), 1)
    c.eq('mass', X.mass() if hasattr(X, 'mass') else 1, 1)
    c.true('bounds', X.min() == sup[0] and X.max() == sup[1])
    if kind == 'uniform':
        c.eq('mass of the support', float(X.cdf(sup[1])) - float(X.cdf(sup[0])), 1)
    n = int(c.rng.integers(1, 20))
    r = X.random(n)
    c.true('sample', np.size(r) == n and bool(np.all((r >= sup[0]) & (r <= sup[1]))))
    c.eq('likelihood', X.likelihood(q), np.sum(np.log(D.pdf(q) + np.finfo(float).eps)))
    M = 4000 if kind != 'empirical' else 150
    follows(c, np.ravel(X.random(M)), D.cdf)
    p = float(c.rng.choice([0.5, 0.9, 0.999]))
    ts = [float(v) for v in np.ravel(X.truncated_support(p))]
    c.true('truncated support of a given mass', float(X.cdf(ts[1])) - float(X.cdf(ts[0])) >= p - 1e-9)
    if kind == 'normal':
        c.eq('mass of the truncated support of a given mass', np.diff(X.cdf(np.array(ts))), [p])
    c.true('different variables differ', not (X == X.shift(0.5, 1)) and not (X == X.shift(0, 2)) if kind != 'empirical' else not (X == X.shift(0.5, 1)))


def follows(c, r, cdf):
    """the sample r follows the distribution (Kolmogorov distance; a correct sampler fails
    with probability below 1e-12)"""
    r = np.sort(np.ravel(r))
    n = len(r)
    F = np.array([float(cdf(t)) for t in r])
    G = np.array([float(cdf(t)) for t in np.nextafter(r, -np.inf)])
    k = np.arange(n)
    lo, hi = np.searchsorted(r, r, 'left') / n, np.searchsorted(r, r, 'right') / n
    d = max(np.max(np.abs(hi - F)), np.max(np.abs(lo - G)))
    c.true('distribution of the sample', d <= 3.8 / np.sqrt(n), 'Kolmogorov distance %g for %d points' % (d, n))


@harness('C11', ['DiscreteRandomVariable.' + f for f in ('__init__', 'cdf', 'icdf', 'support', 'random', 'mean', 'var', 'integration_rule', '__eq__')], [{}], symbolic=False, concrete=60)
def discrete(c):
    X, (v, p), _ = variable(c, 'discrete')
    c.eq('probabilities', X.probabilities, p)
    t = np.concatenate((v, v + 0.5, [v.min() - 1, v.max() + 1]))
    c.eq('cumulative distribution function', X.cdf(t), np.array([p[v <= s].sum() for s in t]))
    o = np.argsort(v)
    F = np.concatenate(([0], np.cumsum(p[o])))
    F[-1] = 1
    dyadic = bool(np.all(p * 16 == np.floor(p * 16)))
    us = [1.0, 1e-9, 0.03, 0.511, 0.997] + ([f for f in F if f > 0] if dyadic else [])
    for u in us:
        want = v[o][np.nonzero(F[1:] >= u)[0][0]]
        c.eq('quantile %g' % u, X.icdf(u), want)
    if dyadic:
        c.eq('quantiles of an array', X.icdf(np.reshape(us[:4], (2, 2))), np.reshape([v[o][np.nonzero(F[1:] >= u)[0][0]] for u in us[:4]], (2, 2)))
        s = v[p > 0]
        c.eq('quantile of a value of the distribution function', X.icdf(X.cdf(s)), s)
    c.eq('mean', np.ravel(X.mean()), [p @ v])
    c.eq('variance', np.ravel(X.variance()), [p @ v ** 2 - (p @ v) ** 2])
    c.eq('support', np.ravel(X.support()), [v.min(), v.max()])
    r = X.random(int(c.rng.integers(1, 30)))
    c.true('sample', set(r.tolist()) <= set(v[p > 0].tolist()))
    follows(c, X.random(1000), lambda t: p[v <= t].sum())
    c.true('one point by default', np.size(X.random()) == 1)
    Y = tensap.DiscreteRandomVariable(v.copy(), p.copy())
    c.true('equality', bool(X == Y) or not np.array_equal(X.probabilities, Y.probabilities))
    c.true('difference', not (X == tensap.DiscreteRandomVariable(v + 1, p)) and not (X == tensap.UniformRandomVariable()))
    c.true('is discrete', X.is_discrete())


@harness('C11', [RV + f for f in ('moment', 'mean', 'std', 'variance')] + ['random_variable_statistics'], ALL, symbolic=False, concrete=20, tol=1e-7)
def moments(c, kind):
    X, (x, w), D = variable(c, kind)
    k = [int(v) for v in c.rng.integers(0, 5 if kind != 'empirical' else 4, size=int(c.rng.integers(1, 5)))]
    want = np.array([w @ x ** i for i in k])
    with c.frame('moment', X, k):
        got = X.moment(k)
    c.eq('moments', got, want)
    m, Y = X.moment(k, 2)
    c.eq('moments with the variable', m, want)
    c.eq('moments from the stored moments', Y.moment(k), want)
    j = [int(i) for i in c.rng.permutation(max(k) + 1)]
    c.eq('other moments of the variable with stored moments', Y.moment(j), np.array([w @ x ** i for i in j]))
    c.eq('mean', np.ravel(X.mean()), [w @ x])
    v = w @ x ** 2 - (w @ x) ** 2
    c.eq('variance', np.ravel(X.variance()), [v])
    c.eq('standard deviation', np.ravel(X.std()), [np.sqrt(max(v, 0))], tol=1e-6)


@harness('C11', ['get_standard_random_variable', 'shift', RV + 'transfer', 'EmpiricalRandomVariable.transfer'], ALL, symbolic=False, concrete=20, tol=1e-6)
def standard(c, kind):
    X, (x, w), D = variable(c, kind)
    m, s = w @ x, np.sqrt(w @ x ** 2 - (w @ x) ** 2)
    if s < 1e-9:
        raise SkipCase()
    S = X.get_standard_random_variable()
    if kind == 'uniform':
        c.eq('standard uniform variable', np.ravel(S.support()), [-1, 1])
    elif kind == 'empirical':
        xi = np.asarray(X.sample)
        c.eq('standard empirical variable', S.sample, (xi - xi.mean()) / xi.std())
    else:
        c.eq('zero mean, unit deviation', [float(np.ravel(S.mean())[0]), float(np.ravel(S.std())[0])], [0, 1])
    if kind != 'discrete':
        a, b = [float(v) for v in c.rng.integers(-2, 3, size=2)]
        b = abs(b) + 0.5
        Y = X.shift(a, b)
        u = 0.05 + 0.9 * c.rng.random(4)
        want = {'normal': lambda: scipy.stats.norm(getattr(X, 'mu', 0) + a, getattr(X, 'sigma', 1) * b).ppf(u), 'uniform': lambda: a + b * X.icdf(u), 'empirical': lambda: a + b * X.icdf(u)}[kind]()
        c.eq('shifted variable', Y.icdf(u), want)
        # S is the affine image of X
        z = X.icdf(u)
        q = S.icdf(u)
        A = np.polyfit(z, q, 1)
        c.eq('affine relation with the standard variable', np.polyval(A, z), q)
        c.eq('transfer to the standard variable', X.transfer(S, z), q)
        c.eq('transfer back', S.transfer(X, q), z)
    Z = variable(c, 'normal' if c.rng.random() < 0.5 else 'uniform')[0]
    u = 0.05 + 0.9 * c.rng.random(4)
    z = X.icdf(u)
    y = X.transfer(Z, z)
    if kind != 'discrete':
        c.eq('transfer preserves probabilities', Z.cdf(y), X.cdf(z))
    else:
        ok = X.cdf(z) < 1
        c.eq('transfer preserves probabilities', Z.cdf(y[ok]), X.cdf(z[ok]))
    c.eq('transfer from another variable', Z.transfer(X, Z.icdf(u)), z)


@harness('C11', [RV + f for f in ('iso_probabilistic_grid', 'discretize', 'discretize_support', 'lhs_random')], CONT, symbolic=False, concrete=15, tol=1e-6)
def discretization(c, kind):
    X, (x, w), D = variable(c, kind)
    n = int(c.rng.integers(1, 7))
    g = X.iso_probabilistic_grid(n if n == 1 or c.rng.random() < 0.6 else 1 / (n - 0.5))
    c.true('number of points', len(g) == n + 1)
    F = np.concatenate(([0], X.cdf(g[1:-1]), [1])) if n > 1 else np.array([0, 1])
    c.eq('sets of the same probability', np.diff(F), np.full(n, 1 / n))
    c.true('bounds', g[0] == X.min() and g[-1] == X.max())
    Y = X.discretize(n)
    c.eq('quantiles', np.ravel(Y.values), X.icdf((np.arange(n) + 0.5) / n))
    c.eq('equal probabilities', Y.probabilities, np.full(n, 1 / n))
    s = X.icdf(np.array([0.1, 0.9]))
    Y = X.discretize_support(n, s)
    v = s[0] + (s[1] - s[0]) * (np.arange(n) + 0.5) / n
    c.eq('values', np.ravel(Y.values), v)
    F = np.concatenate(([0], X.cdf((v[1:] + v[:-1]) / 2) if n > 1 else [], [1]))
    c.eq('probabilities', Y.probabilities, np.diff(F))
    Y = X.discretize_support(list(v) if c.rng.random() < 0.5 else v)
    c.eq('given values', np.ravel(Y.values), v)
    c.eq('probabilities of given values', Y.probabilities, np.diff(F))
    r = X.lhs_random(n)
    c.same('one point of the sample in each set of probability 1/n', np.sort(np.minimum(np.floor(X.cdf(r) * n + 1e-12), n - 1)), np.arange(n))


def vector(c, kinds=('normal', 'uniform', 'discrete')):
    d = int(c.rng.integers(1, 5))
    vs = [variable(c, kinds[int(c.rng.integers(len(kinds)))]) for _ in range(d)]
    return [v[0] for v in vs], [v[1] for v in vs]


@harness('C11', ['RandomVector.' + f for f in ('__init__', 'marginal', 'transpose', 'mean', 'std', 'variance', 'pdf', 'cdf', 'support', 'truncated_support', 'transfer', 'random', 'ndim', 'size', '__eq__', 'get_standard_random_vector', 'orthonormal_polynomials', 'iso_probabilistic_grid', 'lhs_random')], [{}], symbolic=False, concrete=60, tol=1e-7)
def vectors(c):
    Xs, rules = vector(c)
    d = len(Xs)
    if c.rng.random() < 0.2:
        Xs, rules = [Xs[0]] * d, [rules[0]] * d
        V = tensap.RandomVector(Xs[0], d)
    else:
        with c.frame('RandomVector', Xs):
            V = tensap.RandomVector(Xs if c.rng.random() < 0.5 else np.array(Xs, dtype=object))
        if c.rng.random() < 0.2:
            V = tensap.RandomVector(V)
    c.same('size', (V.size, V.ndim()), (d, d))
    c.eq('mean', V.mean(), [w @ x for x, w in rules])
    c.eq('variance', V.variance(), [w @ x ** 2 - (w @ x) ** 2 for x, w in rules])
    c.eq('standard deviation', V.std(), [np.sqrt(max(w @ x ** 2 - (w @ x) ** 2, 0)) for x, w in rules], tol=1e-6)
    for i in range(d):
        c.same('support', np.ravel(V.support()[i]), np.ravel(Xs[i].support()))
        c.eq('truncated support', np.ravel(V.truncated_support()[i]), np.ravel(Xs[i].truncated_support()))
    n = int(c.rng.integers(1, 6))
    x = np.stack([np.ravel(X.icdf(0.05 + 0.9 * c.rng.random(n))) for X in Xs], 1)
    want = np.prod(np.stack([np.ravel(X.cdf(x[:, i])) for i, X in enumerate(Xs)], 1), 1)
    arg = [x[:, i] for i in range(d)] if c.rng.random() < 0.3 else x
    with c.frame('cdf', V, arg):
        F = V.cdf(arg)
    c.eq('cumulative distribution function', F, want)
    if not any(X.is_discrete() for X in Xs):
        c.eq('density', V.pdf(arg), np.prod(np.stack([np.ravel(X.pdf(x[:, i])) for i, X in enumerate(Xs)], 1), 1))
    p = [int(i) for i in c.rng.permutation(d)]
    W = V.transpose(p)
    c.true('permuted variables', W.size == d and all(W.random_variables[i] == Xs[p[i]] for i in range(d)))
    k = [int(i) for i in c.rng.permutation(d)[:int(c.rng.integers(1, d + 1))]]
    W = V.marginal(np.array(k) if c.rng.random() < 0.5 else k)
    c.true('marginal, in the requested order', W.size == len(k) and all(W.random_variables[i] == Xs[k[i]] for i in range(len(k))))
    W = V.marginal(k[0])
    c.true('marginal on one variable', W.size == 1 and W.random_variables[0] == Xs[k[0]])
    r = V.random(n)
    c.true('sample', r.shape == (n, d) and V.random().shape == (1, d))
    if d > 1:
        R = V.random(1000)
        if all(np.ravel(X.std())[0] > 1e-9 for X in Xs):
            c.true('independent samples', bool(np.all(np.abs(np.corrcoef(R.T) - np.eye(d)) < 0.25)))
    for i in range(d):
        s = np.ravel(Xs[i].support())
        c.true('sample of each variable', bool(np.all((r[:, i] >= s[0]) & (r[:, i] <= s[1]))))
    S = V.get_standard_random_vector() if all(np.ravel(X.std())[0] > 1e-9 for X in Xs) else None
    if S is not None:
        c.true('standard vector', S.size == d and all(S.random_variables[i] == Xs[i].get_standard_random_variable() for i in range(d)))
    Ys, _ = vector(c, ('normal', 'uniform'))
    Ys = (Ys * d)[:d]
    y = V.transfer(tensap.RandomVector(Ys), arg)
    c.eq('transfer', y, np.stack([np.ravel(Xs[i].transfer(Ys[i], x[:, i])) for i in range(d)], 1))
    y = V.transfer(Ys[0], x)
    c.eq('transfer to one variable', y, np.stack([np.ravel(Xs[i].transfer(Ys[0], x[:, i])) for i in range(d)], 1))
    c.true('equality', bool(V == tensap.RandomVector(Xs)))
    if not all(X == Xs[0] for X in Xs):
        q = p[1:] + p[:1]
        c.true('difference', bool(V == V.transpose(q)) == all(Xs[q[i]] == Xs[i] for i in range(d)))
    c.true('different size', not (V == tensap.RandomVector(Xs + [Xs[0]])))
    P = V.orthonormal_polynomials()
    c.true('polynomials', len(P) == d and all(P[i].measure == Xs[i] for i in range(d)))
    P = V.orthonormal_polynomials(3)
    c.true('polynomials up to a degree', len(P) == d and all(P[i].measure == Xs[i] for i in range(d)))
    if not any(X.is_discrete() for X in Xs):
        m = [int(i) for i in c.rng.integers(1, 4, size=d)]
        if c.rng.random() < 0.4:
            m = [m[0]] * d
            G = V.iso_probabilistic_grid(m[0] if c.rng.random() < 0.5 or m[0] == 1 else (m[0] - 0.5) ** -d)
        else:
            G = V.iso_probabilistic_grid(np.array(m))
        for i in range(d):
            c.eq('iso-probabilistic grid', np.ravel(G.grids[i])[1:-1], Xs[i].iso_probabilistic_grid(m[i])[1:-1])
        h = V.lhs_random(n)
        for i in range(d):
            c.same('latin hypercube sample', np.sort(np.minimum(np.floor(Xs[i].cdf(h[:, i]) * n + 1e-12), n - 1)), np.arange(n))


@harness('C11', ['ProductMeasure.' + f for f in ('__init__', 'marginal', 'mass', 'ndim', 'support', 'truncated_support', 'random', 'random_vector', '__eq__', 'duplicate', 'is_discrete')] + ['DiscreteMeasure.' + f for f in ('__init__', 'mass', 'support', 'random')] + ['LebesgueMeasure.' + f for f in ('__init__', 'mass', 'support', 'random', 'shift')], [{}], symbolic=False, concrete=60)
def products(c):
    d = int(c.rng.integers(1, 5))
    ms = []
    for _ in range(d):
        k = int(c.rng.integers(4))
        a = float(c.rng.integers(-3, 3))
        if k == 0:
            ms.append(tensap.LebesgueMeasure(a, a + float(c.rng.integers(1, 4))))
        elif k == 1:
            e = int(c.rng.integers(1, 3))
            v = c.rng.standard_normal((int(c.rng.integers(1, 5)), e))
            ms.append(tensap.DiscreteMeasure(v, c.rng.integers(1, 4, size=len(v)).astype(float)))
        else:
            ms.append(variable(c, ['normal', 'uniform'][k - 2])[0])
    mass = [m.b - m.a if isinstance(m, tensap.LebesgueMeasure) else m.weights.sum() if isinstance(m, tensap.DiscreteMeasure) else 1 for m in ms]
    with c.frame('ProductMeasure', ms):
        P = tensap.ProductMeasure(ms)
    c.eq('mass', P.mass(), np.prod(mass))
    nd = [m.values.shape[1] if isinstance(m, tensap.DiscreteMeasure) else 1 for m in ms]
    c.same('dimension', P.ndim(), sum(nd))
    for i, m in enumerate(ms):
        c.eq('mass of a factor', m.mass(), mass[i])
        s = np.array(P.support()[i], float)
        c.same('support', s, np.array(m.support(), float))
        if isinstance(m, tensap.LebesgueMeasure):
            c.eq('support of a Lebesgue measure', s, [m.a, m.b])
            q = m.shift(1.5, 2)
            c.eq('shifted Lebesgue measure', q.support(), [2 * m.a + 1.5, 2 * m.b + 1.5])
            x = m.random(5)
            c.true('points of a Lebesgue measure', bool(np.all((x >= m.a) & (x <= m.b))))
            follows(c, m.random(1000), lambda t: (t - m.a) / (m.b - m.a))
        if isinstance(m, tensap.DiscreteMeasure):
            c.eq('support of a discrete measure', s, np.vstack((m.values.min(0), m.values.max(0))))
            c.true('equality of discrete measures', bool(m == tensap.DiscreteMeasure(m.values, m.weights)))
            x = m.random(7).reshape(7, -1)
            c.true('points of a discrete measure', all(any(np.array_equal(r, v) for v in m.values) for r in x))
            follows(c, m.random(1000).reshape(1000, -1)[:, 0], lambda t: m.weights[m.values[:, 0] <= t].sum() / m.weights.sum())
            q = tensap.DiscreteMeasure(m.values if m.values.shape[1] > 1 or c.rng.random() < 0.5 else list(m.values[:, 0]))
            c.eq('unit weights by default', q.weights, np.ones(len(m.values)))
            c.eq('values', q.values, m.values)
    k = [int(i) for i in c.rng.permutation(d)[:int(c.rng.integers(1, d + 1))]]
    M = P.marginal(k)
    c.true('marginal, in the requested order', len(M.measures) == len(k) and all(M.measures[i] == ms[k[i]] for i in range(len(k))))
    n = int(c.rng.integers(1, 6))
    x = P.random(n)
    c.true('sample', x.shape == (n, sum(nd)))
    j = 0
    for i, m in enumerate(ms):
        s = np.reshape(np.array(m.support(), float), (2, -1))
        c.true('sample of each factor', bool(np.all((x[:, j:j + nd[i]] >= s[0]) & (x[:, j:j + nd[i]] <= s[1]))))
        j += nd[i]
    c.true('equality', bool(P == tensap.ProductMeasure(list(ms))))
    c.true('different dimension', not (P == tensap.ProductMeasure(ms + [ms[0]])))
    j = int(c.rng.integers(d))
    for other in (tensap.LebesgueMeasure(7, 9), tensap.LebesgueMeasure(getattr(ms[j], 'a', 0), 9), tensap.LebesgueMeasure(-9, getattr(ms[j], 'b', 0)), tensap.DiscreteMeasure([1., 7]), tensap.DiscreteMeasure(getattr(ms[j], 'values', [8.])), tensap.UniformRandomVariable(7, 9)):
        if type(other) is type(ms[j]) and all(np.array_equal(other.__dict__[q], ms[j].__dict__[q]) for q in other.__dict__):
            continue
        c.true('different factor', not (P == tensap.ProductMeasure(ms[:j] + [other] + ms[j + 1:])) and not (ms[j] == other) and not (other == ms[j]))
    c.true('one point by default', P.random().shape == (1, sum(nd)))
    D = tensap.ProductMeasure.duplicate(ms[0], 3)
    c.true('duplicate', len(D.measures) == 3 and all(m == ms[0] for m in D.measures))
    c.true('is discrete', bool(P.is_discrete()) == all(isinstance(m, tensap.DiscreteMeasure) for m in ms))
    if all(isinstance(m, tensap.RandomVariable) for m in ms):
        V = P.random_vector()
        c.true('random vector', V.size == d and all(V.random_variables[i] == ms[i] for i in range(d)))
        c.true('product measure of a random vector', tensap.ProductMeasure(V) == P)


@harness('C11', 'random_multi_indices', [{}], symbolic=False, concrete=20)
def multi(c):
    d = int(c.rng.integers(1, 4))
    shp = [int(v) for v in c.rng.integers(1, 5, size=d)]
    V = tensap.random_multi_indices(shp)
    x = V.random(20)
    c.true('indices in range', x.shape == (20, d) and bool(np.all((x >= 0) & (x < shp))))
    for i in range(d):
        c.eq('uniform on the indices', V.random_variables[i].probabilities, np.full(shp[i], 1 / shp[i]))
    ind = [c.rng.permutation(10)[:n] for n in shp]
    with c.frame('random_multi_indices', ind):
        V = tensap.random_multi_indices(ind)
    x = V.random(20)
    c.true('indices among the given ones', all(set(x[:, i]) <= set(ind[i]) for i in range(d)))


# ---------------------------------------------------------------- all reals
@harness('C11', ['UniformRandomVariable.' + f for f in ('cdf', 'icdf', 'pdf', 'support', 'shift', 'random_variable_statistics', 'get_standard_random_variable', '__eq__')] + [RV + f for f in ('transfer', 'mean', 'std', 'variance', 'min', 'max', 'moment')], [{}], concrete=20, engine='scalar')
def uniform_all_reals(c):
    a = c.scal('a', lo=-4, hi=4)
    h = c.scal('length', lo=0, hi=4, strict=True)
    b = a + h
    X = tensap.UniformRandomVariable(a, b)
    x, u = c.scal('x', lo=-9, hi=9), c.scal('u', lo=0, hi=1)
    F = lambda t: (t - a) / h if a <= t <= b else 1 if t > b else 0
    c.eq('distribution function', X.cdf(x), F(x))
    c.eq('distribution function, array', X.cdf(c.arr([x, a, b])), c.arr([F(x), 0, 1]))
    c.eq('quantile', X.icdf(u), a + u * h)
    c.eq('distribution function of a quantile', X.cdf(X.icdf(u)), u)
    if a < x < b:
        c.eq('density', X.pdf(x), 1 / h)
        c.eq('quantile of a value of the distribution function', X.icdf(X.cdf(x)), x)
    elif x < a or x > b:
        c.eq('density', X.pdf(x), 0)
    c.eq('support', X.support(), c.arr([a, b]))
    c.eq('bounds', c.arr([X.min(), X.max()]), c.arr([a, b]))
    c.eq('mean', X.mean(), (a + b) / 2)
    c.eq('variance', X.variance(), h * h / 12)
    c.eq('standard deviation', X.std() * X.std(), h * h / 12)
    c.le('standard deviation', 0, X.std())
    S = X.get_standard_random_variable()
    c.eq('standard variable', S.support(), c.arr([-1, 1]))
    c.eq('transfer to the standard variable', X.transfer(S, a + u * h), 2 * u - 1)
    m, s = c.scal('m', lo=-3, hi=3), c.scal('s', lo=0, hi=3, strict=True)
    Y = X.shift(m, s)
    c.eq('shifted variable', Y.icdf(u), m + s * X.icdf(u))
    c.eq('shifted support', Y.support(), c.arr([m + s * a, m + s * b]))
    c.eq('transfer to the shifted variable', X.transfer(Y, a + u * h), m + s * (a + u * h))
    c.eq('the variable is left as it was', X.support(), c.arr([a, b]))
    c.true('equality', bool(X == tensap.UniformRandomVariable(a, b)))
    a2, b2 = c.scal('a2', lo=-4, hi=4, grid=1), c.scal('b2', lo=5, hi=9, grid=1)
    c.true('equality of parameters', bool(X == tensap.UniformRandomVariable(a2, b2)) == bool(a == a2 and b == b2))


@harness('C11', ['UniformRandomVariable.moment', 'NormalRandomVariable.moment', RV + 'moment', RV + 'gauss_integration_rule'], [{'kind': k, 'I': I} for k in ('uniform', 'normal') for I in ([0], [1, 3], [2, 0, 4], [5])], concrete=6, engine='scalar', tol=1e-7)
def moments_all_reals(c, kind, I):
    if kind == 'uniform':
        a, h = c.scal('a', lo=-4, hi=4), c.scal('length', lo=0.1, hi=4)
        X = tensap.UniformRandomVariable(a, a + h)
        raw = [((a + h) ** (k + 1) - a ** (k + 1)) / (k + 1) / h for k in range(max(I) + 1)]
    else:
        a, h = c.scal('mean', lo=-4, hi=4), c.scal('deviation', lo=0.1, hi=4)
        X = tensap.NormalRandomVariable(a, h)
        raw = [1, a]
        for k in range(2, max(I) + 1):
            raw.append(a * raw[k - 1] + (k - 1) * h * h * raw[k - 2])
    c.eq('moments', X.moment(I), c.arr([raw[k] for k in I]))
    m, Y = X.moment(I, 2)
    c.eq('moments with the variable', m, c.arr([raw[k] for k in I]))
    J = list(range(max(I), -1, -1))
    c.eq('stored moments', Y.moment(J), c.arr([raw[k] for k in J]))
    c.eq('mean', X.mean(), raw[1] if len(raw) > 1 else a + h / 2 if kind == 'uniform' else a)


@harness('C11', ['NormalRandomVariable.' + f for f in ('cdf', 'icdf', 'pdf', 'shift', 'random_variable_statistics', 'get_standard_random_variable', '__eq__')] + [RV + f for f in ('transfer', 'mean', 'std', 'variance')], [{}], concrete=20, engine='scalar', tol=1e-7)
def normal_all_reals(c):
    m, s = c.scal('mean', lo=-3, hi=3), c.scal('deviation', lo=0, hi=3, strict=True)
    X, N = tensap.NormalRandomVariable(m, s), tensap.NormalRandomVariable()
    x, u = c.scal('x', lo=-4, hi=4), c.scal('u', lo=0.01, hi=0.99)
    z = (x - m) / s
    c.assume(-5 < z)
    c.assume(z < 5)
    c.eq('distribution function', X.cdf(x), N.cdf(z))
    c.eq('density', X.pdf(x), N.pdf(z) / s)
    c.eq('quantile', X.icdf(u), m + s * N.icdf(u))
    c.eq('distribution function of a quantile', X.cdf(X.icdf(u)), u)
    c.eq('quantile of a value of the distribution function', X.icdf(X.cdf(x)), x, tol=1e-5)
    c.eq('mean', X.mean(), m)
    c.eq('variance', X.variance(), s * s)
    c.eq('standard deviation', X.std(), s)
    S = X.get_standard_random_variable()
    c.eq('transfer to the standard variable', X.transfer(S, x), z, tol=1e-5)
    c.eq('transfer from the standard variable', S.transfer(X, z), x, tol=1e-5)
    U = tensap.UniformRandomVariable(0, 1)
    c.eq('transfer to the uniform variable', X.transfer(U, X.icdf(u)), u)
    c.eq('transfer from the uniform variable', U.transfer(X, u), m + s * N.icdf(u))
    a, b = c.scal('a', lo=-3, hi=3), c.scal('b', lo=0, hi=3, strict=True)
    Y = X.shift(a, b)
    c.eq('the variable is left as it was', c.arr([X.mean(), X.std()]), c.arr([m, s]))
    c.eq('deviation of the shifted variable', Y.std(), b * s)
    m2, s2 = c.scal('m2', grid=1), c.scal('s2', lo=0, strict=True, grid=1)
    c.true('equality of parameters', bool(X == tensap.NormalRandomVariable(m2, s2)) == bool(m == m2 and s == s2))


@harness('C11', ['DiscreteRandomVariable.' + f for f in ('__init__', 'cdf', 'icdf', 'support', 'mean', 'var', 'integration_rule')] + [RV + f for f in ('mean', 'std', 'variance', 'min', 'max')], [{'n': 1}, {'n': 2}, {'n': 3}], concrete=20, engine='scalar', paths=500)
def discrete_all_reals(c, n):
    v = c.scals('v', n, lo=-4, hi=4)
    for i in range(n):
        for j in range(i):
            c.assume(v[i] != v[j])
    p, left = [], 1
    for k in range(n - 1):
        p.append(left * c.scal('t%d' % k, lo=0, hi=1))
        left = left - p[-1]
    p = c.arr(p + [left])
    X = tensap.DiscreteRandomVariable(v, p)
    mean = sum(p * v)
    c.eq('mean', np.ravel(X.mean()), c.arr([mean]))
    c.eq('variance', np.ravel(X.variance()), c.arr([sum(p * v * v) - mean * mean]))
    c.eq('values', np.ravel(X.values), v)
    c.eq('probabilities', X.probabilities, p)
    x = c.scal('x', lo=-5, hi=5)
    mass = lambda t: sum([p[i] for i in range(n) if v[i] <= t])
    c.eq('distribution function', X.cdf(x), mass(x) + 0 * x)
    S = np.ravel(X.support())
    c.true('bounds', bool(X.min() == S[0]) and bool(X.max() == S[1]))
    c.le('support', S[0], v)
    c.le('support', v, S[1])
    c.true('bounds are values', any(bool(S[0] == t) for t in v) and any(bool(S[1] == t) for t in v))


@harness('C11', ['DiscreteRandomVariable.icdf', 'DiscreteRandomVariable.cdf', RV + 'transfer'], [{'n': 1}, {'n': 2}, {'n': 3}], concrete=20, engine='scalar', paths=500)
def discrete_quantiles_all_reals(c, n):
    """the quantile at u is the least value whose distribution function reaches u"""
    v = c.scals('v', n, lo=-4, hi=4)
    for i in range(n):
        for j in range(i):
            c.assume(v[i] != v[j])
    p, left = [], 1
    for k in range(n - 1):
        p.append(left * c.scal('t%d' % k, lo=0.1, hi=0.9))
        left = left - p[-1]
    p = c.arr(p + [left])
    X = tensap.DiscreteRandomVariable(v, p)
    u = c.scal('u', lo=0, hi=1, strict=True)
    q = X.icdf(u)
    q = q.reshape(-1)[0] if isinstance(q, np.ndarray) else q
    k = [i for i in range(n) if v[i] == q]
    c.true('quantile is a value', len(k) == 1)
    mass = lambda t: sum([p[i] for i in range(n) if v[i] <= t])
    c.le('quantile reaches the level', u, mass(q))
    below = [i for i in range(n) if v[i] < q]
    if below:
        c.le('no smaller value reaches the level', sum(p[i] for i in below), u)


@harness('C11', [RV + f for f in ('iso_probabilistic_grid', 'discretize', 'discretize_support', 'transfer', 'min', 'max')], [{'n': n} for n in (1, 2, 3, 4)], concrete=12, engine='scalar', tol=1e-7)
def discretization_all_variables(c, n):
    X, Y = c.rv('X'), c.rv('Y')
    x = X.icdf(c.scals('u', 3, lo=0.05, hi=0.95))
    c.eq('transfer', X.transfer(Y, x), Y.icdf(X.cdf(x)))
    c.eq('transfer back', Y.transfer(X, X.transfer(Y, x)), x)
    g = X.iso_probabilistic_grid(n)
    c.true('number of points', len(g) == n + 1)
    if n > 1:
        c.eq('quantiles', c.arr(list(g[1:-1])), X.icdf(c.arr([c.const(k, n) for k in range(1, n)])))
    c.true('bounds', bool(g[0] == X.min()) and bool(g[-1] == X.max()))
    D = X.discretize(n)
    c.eq('quantiles', np.ravel(D.values), X.icdf(c.arr([c.const(2 * k + 1, 2 * n) for k in range(n)])))
    c.eq('equal probabilities', D.probabilities, c.arr([c.const(1, n)] * n))


def uniform_or(c, d):
    return [c.rv('X%d' % i) for i in range(d)]


@harness('C11', ['RandomVector.' + f for f in ('__init__', 'cdf', 'pdf', 'transfer', 'marginal', 'transpose', 'mean', 'std', 'variance', 'support', 'size', 'ndim', '__eq__')], [{'d': d} for d in (1, 2, 3)], concrete=12, engine='scalar', tol=1e-7)
def vector_all_variables(c, d):
    Xs, Ys = uniform_or(c, d), [c.rv('Y%d' % i) for i in range(d)]
    V, W = tensap.RandomVector(Xs), tensap.RandomVector(Ys)
    c.same('size', (V.size, V.ndim()), (d, d))
    n = 2
    u = c.scals('u', (n, d), lo=0.05, hi=0.95)
    x = np.stack([X.icdf(u[:, i]) for i, X in enumerate(Xs)], 1)
    prod = lambda f: c.arr([prod1([f(i, k) for i in range(d)]) for k in range(n)])
    for arg in (x, [x[:, i] for i in range(d)]):
        c.eq('distribution function', V.cdf(arg), prod(lambda i, k: Xs[i].cdf(x[k, i])))
        c.eq('density', V.pdf(arg), prod(lambda i, k: Xs[i].pdf(x[k, i])))
        c.eq('transfer', V.transfer(W, arg), np.stack([Xs[i].transfer(Ys[i], x[:, i]) for i in range(d)], 1))
    c.eq('transfer back', W.transfer(V, V.transfer(W, x)), x)
    c.eq('transfer to one variable', V.transfer(Ys[0], x), np.stack([Xs[i].transfer(Ys[0], x[:, i]) for i in range(d)], 1))
    c.eq('mean', V.mean(), c.arr([X.mean() for X in Xs]))
    c.eq('variance', V.variance(), c.arr([X.variance() for X in Xs]))
    c.eq('standard deviation', V.std(), c.arr([X.std() for X in Xs]))
    for i in range(d):
        c.true('support', all(bool(a == b) for a, b in zip(V.support()[i], Xs[i].support())))
    import itertools
    for p in itertools.permutations(range(d)):
        P = V.transpose(list(p))
        c.true('permuted variables', P.size == d and all(P.random_variables[i] == Xs[p[i]] for i in range(d)))
        for k in range(1, d + 1):
            M = V.marginal(list(p[:k]))
            c.true('marginal, in the requested order', M.size == k and all(M.random_variables[i] == Xs[p[i]] for i in range(k)))
            c.eq('distribution function of the marginal', M.cdf(x[:, list(p[:k])]), c.arr([prod1([Xs[i].cdf(x[r, i]) for i in p[:k]]) for r in range(n)]))
    c.true('equality', bool(V == tensap.RandomVector(Xs)))


def prod1(l):
    r = 1
    for v in l:
        r = r * v
    return r


@harness('C11', ['LebesgueMeasure.' + f for f in ('mass', 'support', 'shift', 'truncated_support', '__eq__')] + ['DiscreteMeasure.' + f for f in ('mass', 'support', '__init__')] + ['ProductMeasure.' + f for f in ('mass', 'ndim', 'support', 'marginal')], [{'n': n, 'e': e} for n, e in ((1, 1), (2, 1), (3, 1), (2, 2))], concrete=12, engine='scalar')
def measures_all_reals(c, n, e):
    a, b = c.scal('a', lo=-4, hi=0), c.scal('b', lo=0, hi=4, strict=True)
    L = tensap.LebesgueMeasure(a, b)
    c.eq('mass of an interval', L.mass(), b - a)
    c.eq('support of an interval', L.support(), c.arr([a, b]))
    m, s = c.scal('m', lo=-3, hi=3), c.scal('s', lo=0, hi=3, strict=True)
    c.eq('shifted interval', L.shift(m, s).support(), c.arr([m + s * a, m + s * b]))
    c.eq('mass of the shifted interval', L.shift(m, s).mass(), s * (b - a))
    c.eq('the measure is left as it was', L.support(), c.arr([a, b]))
    v, w = c.scals('v', (n, e), lo=-4, hi=4), c.scals('w', n, lo=0, hi=2, strict=True)
    D = tensap.DiscreteMeasure(v, w)
    c.eq('mass of a discrete measure', D.mass(), sum(w))
    c.eq('mass with unit weights', tensap.DiscreteMeasure(v).mass(), n)
    S = D.support()
    for k in range(e):
        c.le('support', S[0, k], v[:, k])
        c.le('support', v[:, k], S[1, k])
        c.true('bounds are values', any(bool(S[0, k] == t) for t in v[:, k]) and any(bool(S[1, k] == t) for t in v[:, k]))
    P = tensap.ProductMeasure([D, L, D])
    c.eq('mass of a product', P.mass(), sum(w) * (b - a) * sum(w))
    c.same('dimension', P.ndim(), 2 * e + 1)
    c.eq('support of a factor', P.support()[1], c.arr([a, b]))
    M = P.marginal([1, 0])
    c.eq('mass of a marginal', M.mass(), (b - a) * sum(w))
    c.true('marginal, in the requested order', M.measures[0] is L and M.measures[1] is D)
