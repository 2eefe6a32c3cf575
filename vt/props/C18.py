"""C18: function wrappers evaluate the wrapped function."""
import itertools
import numpy as np
import tensap
from vt.ctx import harness, SkipCase

ONE = [{}]
SHAPES = [1, 2, 3, (2, 2), (3, 2), (2, 1, 3)]


def target(c, d, shape):
    """(vectorised f: (n, d) -> (n, shape) or (n,), point-by-point version)"""
    m = int(np.prod(shape))
    A, B = c.array('A', (d, m), 'real'), c.array('B', (d, m), 'real')

    def f(x):
        y = np.cos(x @ A) + (x ** 2) @ B + x[:, :1]
        return y[:, 0] if shape == 1 else np.reshape(y, (len(x),) + tuple(np.atleast_1d(shape)))
    return f, lambda x: f(np.atleast_2d(x))[0]


def wrapper(c, d, shape, multi=None):
    f, p = target(c, d, shape)
    multi = bool(c.rng.integers(2)) if multi is None else multi
    F = tensap.UserDefinedFunction(f if multi else p, d, shape)
    F.evaluation_at_multiple_points = multi
    return F, f


def draw(c, n, d):
    return c.array('x', (n, d), 'real')


@harness('C18', ['UserDefinedFunction.__init__', 'UserDefinedFunction.eval', 'Function.__call__'], [{'shape': s} for s in SHAPES], symbolic=False, concrete=25)
def evaluation(c, shape):
    d = int(c.rng.integers(1, 4))
    F, f = wrapper(c, d, shape)
    n = int(c.rng.integers(1, 7))
    x = draw(c, n, d)
    with c.frame('call', F, x):
        y = F(x)
    c.eq('values', y, f(x))
    e = F.eval(x)
    c.eq('eval', np.reshape(e, np.shape(y)), f(x))
    y2, g = F(x, True)
    c.eq('values with the function', y2, f(x))
    c.eq('returned function', g(x), f(x))
    p = c.rng.permutation(n)
    c.eq('order of the points', F(x[p]), f(x[p]))
    if d == 1:
        c.eq('vector of points', F(x[:, 0]), f(x))
    G = tensap.UserDefinedFunction(F, d, shape)
    G.evaluation_at_multiple_points = True
    c.eq('wrapped function object', G(x), f(x))


@harness('C18', ['UserDefinedFunction.__init__', 'UserDefinedFunction.eval'], ONE, symbolic=False, concrete=40)
def strings(c):
    d = [1, 2, 3, 11, 13][int(c.rng.integers(5))]
    k = [int(v) for v in c.rng.integers(0, d, size=3)]
    s, f = [('x%d + 2*x%d*x%d' % tuple(k), lambda x: x[:, k[0]] + 2 * x[:, k[1]] * x[:, k[2]]),
            ('np.exp(x%d) - x%d**2/(1 + x%d**2)' % tuple(k), lambda x: np.exp(x[:, k[0]]) - x[:, k[1]] ** 2 / (1 + x[:, k[2]] ** 2)),
            ('np.maximum(x%d, x%d)' % (k[0], k[1]), lambda x: np.maximum(x[:, k[0]], x[:, k[1]]))][int(c.rng.integers(3))]
    F = tensap.UserDefinedFunction(s, d)
    F.evaluation_at_multiple_points = bool(c.rng.integers(2))
    x = draw(c, int(c.rng.integers(1, 6)), d)
    c.eq('function given by a string', F(x), f(x))


@harness('C18', ['UserDefinedFunction.eval'], ONE, symbolic=False, concrete=20)
def lists(c):
    d, m = int(c.rng.integers(1, 4)), int(c.rng.integers(1, 4))
    A = c.array('A', (d, m), 'real')
    F = tensap.UserDefinedFunction(lambda x: [np.sin(x @ A[:, j]) for j in range(m)], d, m)
    F.evaluation_at_multiple_points = True
    x = draw(c, int(c.rng.integers(1, 6)), d)
    y = F(x)
    c.eq('function returning a list of outputs', np.reshape(y, (len(x), m)), np.sin(x @ A))


@harness('C18', ['Function.__call__', 'Function.store_eval'], [{'shape': s} for s in SHAPES], symbolic=False, concrete=30)
def storage(c, shape):
    d = int(c.rng.integers(1, 4))
    F, f = wrapper(c, d, shape)
    calls = []
    g = F.fun
    F.fun = lambda x: (calls.append(len(np.atleast_2d(x))), g(x))[1]
    direct = bool(c.rng.integers(2))
    F.store = not direct or bool(c.rng.integers(2))
    seen = np.zeros((0, d))
    for step in range(int(c.rng.integers(2, 6))):
        k = int(c.rng.integers(0, 4))
        new = draw(c, int(c.rng.integers(1, 4)), d)
        x = new if k == 0 or len(seen) == 0 else seen[c.rng.integers(0, len(seen), size=int(c.rng.integers(1, 4)))] if k == 1 else np.vstack((seen[c.rng.permutation(len(seen))[:int(c.rng.integers(1, 4))]], new))
        x = x[c.rng.permutation(len(x))]
        x0 = x.copy()
        want = f(x0)
        before = sum(calls)
        y = F.store_eval(x)[0] if direct and (step == 0 or c.rng.random() < 0.7) else F(x)
        c.eq('value at step %d' % step, y, want)
        if F.store and direct or not direct:
            fresh = sum(not np.any(np.all(r == seen, axis=1)) for r in x0)
            if F.store:
                c.true('no new evaluation at a stored point', sum(calls) - before <= fresh, '%d evaluations, %d new points' % (sum(calls) - before, fresh))
        if F.store:
            seen = np.vstack((seen, x0))
        # the caller keeps its arrays
        x += 1.0
        if isinstance(y, np.ndarray) and y.flags.writeable:
            y += 7.0


@harness('C18', ['Function.partial_evaluation'], [{'shape': s} for s in SHAPES], symbolic=False, concrete=25)
def partial(c, shape):
    d = int(c.rng.integers(2, 5))
    F, f = wrapper(c, d, shape)
    if c.rng.random() < 0.5:
        F.measure = tensap.RandomVector([tensap.UniformRandomVariable(k, k + 1) for k in range(d)])
    m = int(c.rng.integers(1, d))
    fixed = np.array(c.rng.permutation(d)[:m])
    if c.rng.random() < 0.5:
        fixed = np.sort(fixed)
    free = np.setdiff1d(range(d), fixed)
    v = c.array('v', (1, m), 'real')
    with c.frame('partial_evaluation', fixed, v):
        G = F.partial_evaluation(fixed, v)
    n = int(c.rng.integers(1, 6))
    x = draw(c, n, d - m)
    full = np.zeros((n, d))
    full[:, free] = x
    full[:, fixed] = v
    G.evaluation_at_multiple_points = bool(c.rng.integers(2)) if G.evaluation_at_multiple_points else False
    c.eq('values', G(x), f(full))
    c.same('dimension', G.dim, d - m)
    if F.measure is not None:
        s = G.measure.support()
        c.eq('measure of the remaining variables', np.array(s, float), np.array([[k, k + 1] for k in free], float))


@harness('C18', ['Function.eval_on_tensor_grid'], [{'shape': s} for s in SHAPES], symbolic=False, concrete=15)
def on_grid(c, shape):
    d = int(c.rng.integers(1, 4))
    F, f = wrapper(c, d, shape)
    gs = [c.array('g', (int(c.rng.integers(1, 5)), 1), 'real') for _ in range(d)]
    G = tensap.FullTensorGrid(gs)
    with c.frame('eval_on_tensor_grid', F, gs):
        T = F.eval_on_tensor_grid(G)
    sh = [len(g) for g in gs]
    c.same('shape', T.shape, sh + ([] if shape == 1 else list(np.atleast_1d(shape))))
    for t in itertools.product(*[range(n) for n in sh]):
        x = np.array([[gs[k][t[k], 0] for k in range(d)]])
        c.eq('value', T.data[t], f(x)[0])


@harness('C18', ['Function.random'], ONE, symbolic=False, concrete=15)
def random(c):
    d = int(c.rng.integers(1, 4))
    F, f = wrapper(c, d, 1)
    F.measure = tensap.RandomVector([tensap.UniformRandomVariable(k, k + 1) for k in range(d)])
    n = int(c.rng.integers(1, 6))
    y, x = F.random(n)
    c.true('number of points', np.shape(x) == (n, d))
    c.eq('values at the returned points', np.ravel(y), f(x))
    c.true('points of the measure', bool(np.all((x >= np.arange(d)) & (x <= np.arange(d) + 1))))
    y, x = F.random(n, tensap.RandomVector([tensap.UniformRandomVariable(k + 5, k + 6) for k in range(d)]))
    c.eq('values at the returned points (given measure)', np.ravel(y), f(x))
    c.true('points of the given measure', bool(np.all((x >= np.arange(d) + 5) & (x <= np.arange(d) + 6))))


@harness('C18', ['Function.test_error'], [{'shape': s} for s in SHAPES[:4]], symbolic=False, concrete=15)
def errors(c, shape):
    d = int(c.rng.integers(1, 4))
    F, f = wrapper(c, d, shape)
    G, g = wrapper(c, d, shape)
    n = int(c.rng.integers(2, 9))
    x = draw(c, n, d)
    a, b = np.reshape(f(x), (n, -1)), np.reshape(g(x), (n, -1))
    want = [np.linalg.norm(a - b) / np.linalg.norm(b), np.sqrt(((a - b) ** 2).sum(1)).max() / np.sqrt((b ** 2).sum(1)).max()]
    with c.frame('test_error', x):
        e = F.test_error(G, x)
    c.eq('errors with a function', np.array(e), want)
    c.eq('errors with values', np.array(F.test_error(g(x), x)), want)
    c.eq('zero error', np.array(F.test_error(F, x)), [0, 0])
    mu = tensap.RandomVector([tensap.UniformRandomVariable(k, k + 1) for k in range(d)])

    class Fixed(tensap.RandomVector):
        def random(self, n):
            return x[:n]
    mu = Fixed(mu.random_variables)
    c.eq('errors on a sample of a measure', np.array(F.test_error(G, n, mu)), want)
    F.measure = mu
    c.eq('errors on a sample of the measure of the function', np.array(F.test_error(G, n)), want)
    F.measure = None
    G.measure = mu
    c.eq('errors on a sample of the measure of the other function', np.array(F.test_error(G, n)), want)


@harness('C18', ['CompositionalModelFunction.__init__', 'CompositionalModelFunction.eval'], ONE, symbolic=False, concrete=40)
def composition(c):
    d = int(c.rng.integers(2, 7))
    k = int(c.rng.integers(3))
    perm = list(c.rng.permutation(d))
    tree = tensap.DimensionTree.linear(perm) if k == 0 else tensap.DimensionTree.balanced(d) if k == 1 else tensap.DimensionTree.random(d, int(c.rng.integers(2, 4)))
    X = tensap.RandomVector(tensap.UniformRandomVariable(), d)
    if c.rng.random() < 0.5:
        h = lambda *a: np.tanh(sum((i + 1) * t for i, t in enumerate(a)))
        funs = {n: h for n in tree.internal_nodes}
        F = tensap.CompositionalModelFunction(tree, h, X)
    else:
        co = c.array('w', (tree.nb_nodes + 1,), 'real')
        funs = {int(n): (lambda *a, n=n: np.sin(co[n] + sum((i + 1) * t for i, t in enumerate(a)))) for n in tree.internal_nodes}
        fl = [funs.get(n + 1) for n in range(tree.nb_nodes)]
        F = tensap.CompositionalModelFunction(tree, fl if c.rng.random() < 0.5 else np.array(fl, dtype=object), X)

    def val(n, x):
        if tree.is_leaf[n - 1]:
            return x[:, list(tree.dim2ind).index(n)]
        return funs[int(n)](*[val(int(m), x) for m in tree.children(n)])
    x = draw(c, int(c.rng.integers(1, 6)), d)
    with c.frame('eval', tree, x):
        y = F(x)
    c.eq('composition along the tree', y, val(int(tree.root), x))
    c.same('dimension', F.dim, d)


# ---------------------------------------------------------------- all functions
def any_target(c, name, d, shape):
    """an arbitrary function of d variables: (vectorised, value at one row)"""
    m = int(np.prod(shape))
    fs = [c.fun('%s%d' % (name, j)) for j in range(m)]
    sh = () if shape == 1 else tuple(np.atleast_1d(shape))

    def one(r):
        y = c.arr([f(r) for f in fs])
        return np.reshape(y, sh) if sh else y[0]
    return (lambda x: c.arr([one(r) for r in np.asarray(x).reshape(-1, d)]).reshape((-1,) + sh)), one


def any_wrapper(c, name, d, shape, multi):
    f, one = any_target(c, name, d, shape)
    F = tensap.UserDefinedFunction(f if multi else (lambda x: one(np.asarray(x).reshape(-1))), d, shape)
    F.evaluation_at_multiple_points = multi
    return F, f


ANY = [{'d': d, 'shape': s, 'multi': m} for d, s in ((1, 1), (2, 1), (2, 2), (1, (2, 2)), (3, (2, 1, 2))) for m in (True, False)]


@harness('C18', ['UserDefinedFunction.__init__', 'UserDefinedFunction.eval', 'Function.__call__', 'Function.random'], ANY, concrete=6, engine='scalar')
def evaluation_all_functions(c, d, shape, multi):
    F, f = any_wrapper(c, 'f', d, shape, multi)
    for n in (1, 2, 3):
        x = c.scals('x', (n, d))
        c.eq('values', F(x), f(x))
        c.eq('eval', np.reshape(F.eval(x), f(x).shape), f(x))
        y, g = F(x, True)
        c.eq('values with the function', y, f(x))
        c.eq('returned function', g(x), f(x))
        if d == 1:
            c.eq('vector of points', F(x[:, 0]), f(x))
        G = tensap.UserDefinedFunction(F, d, shape)
        G.evaluation_at_multiple_points = True
        c.eq('wrapped function object', G(x), f(x))


@harness('C18', ['Function.__call__', 'Function.store_eval'], [dict(a, direct=q, n=n) for a in ANY[:8] for q in (True, False) for n in ([1, 1], [1, 2], [2, 1], [1, 1, 1])], concrete=6, engine='scalar', paths=600)
def storage_all_points(c, d, shape, multi, direct, n):
    """all sequences of calls: new points and stored points in any arrangement"""
    F, f = any_wrapper(c, 'f', d, shape, multi)
    calls = []
    g = F.fun
    F.fun = lambda x: (calls.append(np.asarray(x).reshape(-1, d).shape[0]), g(x))[1]
    F.store = True
    seen = []
    for k, m in enumerate(n):
        x = c.scals('x%d' % k, (m, d), grid=2)
        x0 = x.copy()
        before = sum(calls)
        y = F.store_eval(x)[0] if direct else F(x)
        c.eq('values of call %d' % k, np.reshape(y, f(x0).shape), f(x0))
        c.eq('the points are left as they were', x, x0)
        fresh = sum(1 for r in x0 if not any(all(bool(p == q) for p, q in zip(r, t)) for t in seen))
        c.true('no evaluation at a stored point', sum(calls) - before <= fresh)
        seen += [list(r) for r in x0]
        # the caller changes its own arrays
        x += 1
        if isinstance(y, np.ndarray) and y.dtype != bool and y.flags.writeable:
            y += 7


@harness('C18', ['Function.partial_evaluation'], [dict(a, fixed=q) for a in ANY[2:6] + ANY[8:] for q in ([0], [1], [2, 0], [0, 1]) if max(q) < a['d'] and len(q) < a['d']], concrete=6, engine='scalar')
def partial_all_functions(c, d, shape, multi, fixed):
    F, f = any_wrapper(c, 'f', d, shape, multi)
    v = c.scals('v', (1, len(fixed)))
    free = [k for k in range(d) if k not in fixed]
    G = F.partial_evaluation(np.array(fixed), v)
    x = c.scals('x', (2, len(free)))
    full = c.arr([[r[free.index(k)] if k in free else v[0, fixed.index(k)] for k in range(d)] for r in x])
    c.eq('values', G(x), f(full))
    c.same('dimension', G.dim, len(free))
    c.eq('values of the function', F(full), f(full))


@harness('C18', ['Function.eval_on_tensor_grid'], [dict(a, n=n) for a in ANY for n in ([3], [2, 3], [2, 1, 2]) if len(n) == a['d']], concrete=6, engine='scalar')
def on_grid_all_functions(c, d, shape, multi, n):
    F, f = any_wrapper(c, 'f', d, shape, multi)
    gs = [c.scals('g%d' % k, (m, 1)) for k, m in enumerate(n)]
    T = F.eval_on_tensor_grid(tensap.FullTensorGrid(gs))
    c.same('shape', T.shape, n + ([] if shape == 1 else list(np.atleast_1d(shape))))
    for t in itertools.product(*[range(m) for m in n]):
        c.eq('value', T.data[t], f(c.arr([[gs[k][t[k], 0] for k in range(d)]]))[0])
    if shape == 1:
        I = np.array(list(itertools.product(*[range(m) for m in n])))[::-2]
        S = F.eval_on_tensor_grid(tensap.SparseTensorGrid(gs, tensap.MultiIndices(I)))
        c.same('indices of the sparse tensor', S.indices.array, I)
        c.eq('values at the points of a sparse grid', np.reshape(S.data, -1), f(c.arr([[gs[k][t[k], 0] for k in range(d)] for t in I])))


@harness('C18', ['Function.test_error'], [{'shape': s, 'n': n} for s, n in ((1, 2), (2, 2), ((2, 1), 2))], concrete=8, engine='scalar', paths=300)
def errors_all_functions(c, shape, n):
    d = 2
    F, f = any_wrapper(c, 'f', d, shape, True)
    G, g = any_wrapper(c, 'g', d, shape, True)
    x = c.scals('x', (n, d))
    a, b = np.reshape(f(x), (n, -1)), np.reshape(g(x), (n, -1))
    sq = lambda t: [sum(v * v for v in r) for r in t]

    def biggest(l):
        r = l[0]
        for v in l[1:]:
            r = v if bool(v > r) else r
        return r
    c.assume(bool(biggest(sq(b)) > 1e-6))
    for e in (F.test_error(G, x), F.test_error(g(x), x)):
        c.eq('mean-square error', e[0] * e[0] * sum(sq(b)), sum(sq(a - b)))
        c.eq('largest error', e[1] * e[1] * biggest(sq(b)), biggest(sq(a - b)))
        c.le('errors are not negative', 0, c.arr([e[0], e[1]]))


@harness('C18', ['CompositionalModelFunction.__init__', 'CompositionalModelFunction.eval'], [{'tree': t, 'common': q} for t in ('linear3', 'linear4', 'balanced4', 'flat3', 'permuted') for q in (True, False)], concrete=6, engine='scalar')
def composition_all_functions(c, tree, common):
    T = {'linear3': lambda: tensap.DimensionTree.linear(3), 'linear4': lambda: tensap.DimensionTree.linear(4), 'balanced4': lambda: tensap.DimensionTree.balanced(4), 'flat3': lambda: tensap.DimensionTree.trivial(3),
         'permuted': lambda: tensap.DimensionTree.linear([2, 0, 1])}[tree]()
    d = T.dim2ind.size
    h = c.fun('h') if common else None
    fs = {int(n): h if common else c.fun('h%d' % int(n)) for n in T.internal_nodes}
    vec = lambda f: (lambda *a: c.arr([f(c.arr(list(r))) for r in zip(*a)]))
    X = tensap.RandomVector(tensap.UniformRandomVariable(), d)
    if common and len({len(T.children(n)) for n in T.internal_nodes}) == 1:
        F = tensap.CompositionalModelFunction(T, vec(list(fs.values())[0]), X)
    else:
        F = tensap.CompositionalModelFunction(T, [vec(fs[n + 1]) if n + 1 in fs else None for n in range(T.nb_nodes)], X)
    x = c.scals('x', (2, d))

    def val(n, r):
        if T.is_leaf[n - 1]:
            return r[list(T.dim2ind).index(n)]
        return fs[int(n)](c.arr([val(int(m), r) for m in T.children(n)]))
    c.eq('composition along the tree', F(x), c.arr([val(int(T.root), r) for r in x]))
