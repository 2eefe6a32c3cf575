"""C17: principal component analysis from evaluations."""
import contextlib
import copy
import numpy as np
import tensap
from vt.ctx import harness, SkipCase

TP = 'TensorPrincipalComponentAnalysis.'
FP = 'FunctionalTensorPrincipalComponentAnalysis.'


class Fun:
    """entries of a tensor, counting the evaluations"""

    def __init__(self, data):
        self.data, self.n, self.seen, self.bad, self.calls = data, 0, set(), False, []

    def __call__(self, i):
        i = np.asarray(i)
        if i.ndim != 2 or i.shape[1] != self.data.ndim or np.any(i != np.floor(i)) or np.any(i < 0) or np.any(i >= np.array(self.data.shape)):
            self.bad = True
        i = i.astype(int)
        self.n += i.shape[0]
        self.seen.update(map(tuple, i.tolist()))
        self.calls.append(i)
        return self.data[tuple(i.T)]


def tree_of(c, kind, d):
    if kind == 'tt':
        tr = tensap.DimensionTree.linear(d)
        act = np.full(tr.nb_nodes, True)
        act[tr.dim2ind[1:] - 1] = False
        return tr, act
    if kind == 'tucker':
        tr = tensap.DimensionTree.trivial(d)
        return tr, np.full(tr.nb_nodes, True)
    if kind == 'balanced':
        tr = tensap.DimensionTree.balanced(d)
    elif kind == 'linear':
        tr = tensap.DimensionTree.linear(d)
    elif kind == 'permuted':
        tr = tensap.DimensionTree.linear(list(c.rng.permutation(d)))
    else:
        tr = tensap.DimensionTree.random(d, 3)
    act = np.full(tr.nb_nodes, True)
    if c.rng.random() < .4:
        k = c.rng.permutation(tr.dim2ind)[:int(c.rng.integers(1, d + 1))]
        act[k - 1] = False
    return tr, act


def low_rank(c, tr, act, sh, r):
    """a tensor in the tree format; its numerical ranks; the array"""
    rk = np.minimum(r, 10) * np.ones(tr.nb_nodes, dtype=int)
    rk[tr.root - 1] = 1
    for _ in range(6):
        x = tensap.TreeBasedTensor.randn(tr, rk, sh, act)
        data = np.asarray(x.full().data)
        ok = np.linalg.norm(data) > 1e-6
        ranks = np.zeros(tr.nb_nodes, dtype=int)
        for k in range(tr.nb_nodes):
            a = sorted(int(t) for t in tr.dims[k])
            b = [t for t in range(len(sh)) if t not in a]
            M = np.transpose(data, a + b).reshape(int(np.prod([sh[t] for t in a])), -1)
            s = np.linalg.svd(M, compute_uv=False)
            ranks[k] = int(np.sum(s > 1e-8 * s[0]))
            if ranks[k] and s[ranks[k] - 1] < 1e-3 * s[0]:
                ok = False
        if ok:
            return data, ranks
    raise SkipCase


def sampled_rank(data, sh, alpha, samples):
    """rank of the alpha-matricisation restricted to the sampled indices of the other
    modes"""
    d = len(sh)
    b = [t for t in range(d) if t not in alpha]
    M = np.transpose(data, alpha + b).reshape((int(np.prod([sh[t] for t in alpha])),) + tuple(sh[t] for t in b))
    cols = np.unique(np.asarray(samples)[:, b].astype(int), axis=0)
    S = M[(slice(None),) + tuple(cols.T)]
    s = np.linalg.svd(S, compute_uv=False)
    smax = np.linalg.svd(M.reshape(M.shape[0], -1), compute_uv=False)[0]
    return int(np.sum(s > 1e-4 * smax))


def solver(c, cls=None, **kw):
    s = (cls or tensap.TensorPrincipalComponentAnalysis)()
    s.display = bool(c.rng.random() < .3)
    for k, v in kw.items():
        setattr(s, k, v)
    return s


def call(s, method, f, sh, tr, act):
    if method == 'tucker':
        return s.tucker_approximation(f, sh)
    if method == 'tt':
        return s.tt_approximation(f, sh)
    if np.all(act):
        return s.tree_based_approximation(f, sh, tr)
    return s.tree_based_approximation(f, sh, tr, act)


FORMATS = ['tucker', 'tt', 'balanced', 'linear', 'permuted', 'random']
fun_names = ['__init__', 'alpha_principal_components', 'tucker_approximation', 'tt_approximation', 'tree_based_approximation', '_tensor_product_b_alpha']


@harness('C17', [TP + f for f in fun_names], [{'format': f, 'mode': m} for f in FORMATS for m in ('tolerance', 'tolerances', 'rank', 'ranks', 'adaptive')], symbolic=False, concrete=14, tol=1e-7)
def low_rank_tensor(c, format, mode):
    d = int(c.rng.integers(2, 6))
    if format == 'permuted' and d < 3:
        d = 3
    sh = [int(n) for n in c.rng.integers(2, 6 if d < 5 else 4, size=d)]
    tr, act = tree_of(c, format, d)
    data, ranks = low_rank(c, tr, act, sh, int(c.rng.integers(1, 4)))
    f = Fun(data)
    s = solver(c, pca_sampling_factor=int(c.rng.integers(3, 9)))
    nb = tr.nb_nodes
    nodes = [k for k in range(nb) if act[k] and k != tr.root - 1]
    # the entries of a vector parameter, in the documented order
    if format == 'tucker':
        vec = [t - 1 for t in tr.dim2ind]
    elif format == 'tt':
        # ranks of dims {0}, {0,1}, ...
        vec = sorted(nodes, key=lambda k: len(tr.dims[k]))
    else:
        vec = list(range(nb))
    bound = np.full(nb, np.inf)
    if mode == 'tolerance':
        s.tol = 1e-9 if c.rng.random() < .7 else [1e-9]
    elif mode == 'tolerances':
        s.tol = 1e-9 * (1 + c.rng.random(len(vec)))
    elif mode == 'adaptive':
        s.tol = 1e-9
        s.pca_adaptive_sampling = True
    elif mode == 'rank':
        s.tol = np.inf
        s.max_rank = int(ranks.max()) + int(c.rng.integers(0, 2))
        bound[:] = s.max_rank
    else:
        s.tol = np.inf
        b = ranks + (c.rng.random(nb) < .3)
        s.max_rank = np.array([b[k] for k in vec])
        for k in vec:
            bound[k] = b[k]
    old = {k: copy.deepcopy(v) for k, v in vars(s).items()}
    shape = sh if c.rng.random() < .5 else np.array(sh)
    x, out = call(s, format, f, shape, tr, act)
    c.true('a tree-based tensor', isinstance(x, tensap.TreeBasedTensor) and list(x.shape) == sh)
    c.true('indices of entries', not f.bad)
    c.same('active nodes', np.asarray(x.is_active_node), act)
    c.same('reported number of evaluations', out['number_of_evaluations'], f.n)
    c.true('solver unchanged', all(np.array_equal(getattr(s, k), v) for k, v in old.items()))
    c.true('rank bounds', all(x.ranks[k] <= bound[k] for k in nodes))
    I = np.asarray(out['samples'][tr.root - 1])
    # interpolation on the product grid of the root
    dims = [int(t) for t in tr.dims[tr.root - 1]]
    J = np.asarray(out['alpha_grids'][tr.root - 1])
    P = np.zeros_like(J)
    P[:, dims] = J
    scale = np.abs(data).max()
    c.eq('interpolation on the grid of the root', x.eval_at_indices(P) / scale, data[tuple(P.astype(int).T)] / scale, tol=1e-6)
    c.true('evaluations at the reported grid', all(tuple(p) in f.seen for p in P.astype(int).tolist()))
    enough = True
    for k in nodes:
        a = sorted(int(t) for t in tr.dims[k])
        al = [int(t) for t in tr.dims[k]]
        b = [t for t in range(d) if t not in al]
        S = np.asarray(out['samples'][k])
        Q = reorder(S, al, b)
        if mode == 'adaptive':
            # the reported grid is that of the last sample only when samples are drawn one by one
            enough = enough and x.ranks[k] >= ranks[k]
        else:
            enough = enough and sampled_rank(data, sh, a, Q) >= ranks[k]
    if not enough:
        return
    c.true('ranks', all(x.ranks[k] == ranks[k] for k in nodes) if mode[:3] == 'tol' else all(x.ranks[k] >= ranks[k] for k in nodes))
    c.eq('a tensor with the allowed ranks is reproduced', np.asarray(x.full().data) / scale, data / scale, tol=1e-6)


def reorder(S, al, b):
    Q = np.zeros_like(S)
    Q[:, al + b] = S
    return Q


@harness('C17', [TP + 'alpha_principal_components', TP + 'hopca'], [{'mode': m, 'data': t} for m in ('tolerance', 'tolerances', 'rank', 'ranks', 'adaptive') for t in ('low', 'full', 'decay')], symbolic=False, concrete=14, tol=1e-7)
def higher_order(c, mode, data):
    d = int(c.rng.integers(2, 5))
    sh = [int(n) for n in c.rng.integers(2, 7 if d < 4 else 5, size=d)]
    kind = data
    if kind == 'low':
        tr = tensap.DimensionTree.trivial(d)
        data, ranks = low_rank(c, tr, np.full(tr.nb_nodes, True), sh, int(c.rng.integers(1, 4)))
    else:
        data = c.rng.standard_normal(sh)
        if kind == 'decay':
            for k in range(d):
                data = data * np.reshape(10.0 ** (-np.arange(sh[k])), [-1 if j == k else 1 for j in range(d)])
    f = Fun(data)
    s = solver(c, pca_sampling_factor=float(c.rng.choice([1, 1.2, 2, 5])))
    tol = np.full(d, np.nan)
    rk = np.full(d, np.inf)
    if mode in ('tolerance', 'adaptive'):
        s.tol = float(10.0 ** -c.rng.integers(1, 8))
        tol[:] = s.tol
        s.pca_adaptive_sampling = mode == 'adaptive'
    elif mode == 'tolerances':
        s.tol = 10.0 ** -c.rng.integers(1, 8, size=d).astype(float)
        tol[:] = s.tol
    elif mode == 'rank':
        s.tol = np.inf
        s.max_rank = int(c.rng.integers(1, 5))
        rk[:] = s.max_rank
    else:
        s.tol = np.inf
        s.max_rank = c.rng.integers(1, 5, size=d)
        rk[:] = s.max_rank
    pcs, outs = s.hopca(f, sh if c.rng.random() < .5 else np.array(sh))
    c.true('one basis per mode', len(pcs) == d and len(outs) == d)
    c.same('reported number of evaluations', sum(o['number_of_evaluations'] for o in outs), f.n)
    c.true('indices of entries', not f.bad)
    calls = list(f.calls)
    for k in range(d):
        U, o = np.asarray(pcs[k]), outs[k]
        c.true('shape of the principal components', U.ndim == 2 and U.shape[0] == sh[k] and U.shape[1] <= min(sh[k], rk[k]))
        c.eq('orthonormal principal components', U.T @ U, np.eye(U.shape[1]))
        N = int(np.ceil(s.pca_sampling_factor * (sh[k] if not np.isfinite(rk[k]) else rk[k])))
        b = [t for t in range(d) if t != k]
        if mode == 'adaptive':
            q, m = [], 0
            while m < o['number_of_evaluations']:
                q.append(calls.pop(0))
                m += q[-1].shape[0]
            Q = np.concatenate(q)
            K = Q.shape[0] // sh[k]
            c.true('at most all samples', K <= N)
            if K < N:
                c.true('no early stop', U.shape[1] < np.ceil(K / s.pca_sampling_factor) or np.asarray(o['singular_values'])[-1, -1] < 1e-15)
            N = K
        else:
            Q = reorder(np.asarray(o['samples']), [k], b).astype(int)
        c.same('number of evaluations of a mode', o['number_of_evaluations'], N * sh[k])
        c.same('number of samples', Q.shape[0], N * sh[k])
        A = data[tuple(Q.T)].reshape(sh[k], N, order='F')
        c.true('each sample is a fibre', np.array_equal(Q[:, k].reshape(sh[k], N, order='F'), np.arange(sh[k])[:, None] * np.ones((1, N))))
        w, sv, _ = np.linalg.svd(A)
        r = U.shape[1]
        n = np.linalg.norm(A)
        if n < 1e-12:
            raise SkipCase
        e = np.linalg.norm(A - U @ (U.T @ A)) / n
        best = np.sqrt(np.sum(sv[r:] ** 2)) / n
        c.true('the principal components are optimal', e <= best + 1e-7)
        c.eq('singular values', np.diag(np.asarray(o['singular_values'])) / n, sv[:r] / n)
        if np.isfinite(tol[k]):
            c.true('tolerance', e <= tol[k] * (1 + 1e-6) + 1e-9)
            c.true('no larger than needed', r <= 1 or np.sqrt(np.sum(sv[r - 1:] ** 2)) / n > tol[k] * (1 - 1e-6) or sv[r - 1] / n < 1e-9)
        else:
            c.true('all allowed components', r == min(rk[k], sh[k], N) or sv[r] / n < 1e-9)


@harness('C17', [TP + 'tucker_approximation', TP + 'tt_approximation', TP + 'tree_based_approximation', TP + 'hopca'], [{'format': f} for f in FORMATS + ['hopca']], symbolic=False, concrete=10)
def invalid_parameters(c, format):
    d = 4
    sh = [3, 2, 3, 2]
    f = Fun(c.rng.standard_normal(sh))
    if format == 'hopca':
        run = lambda s: s.hopca(f, sh)
        n = d
    else:
        tr, act = tree_of(c, format, d)
        run = lambda s: call(s, format, f, sh, tr, act)
        n = {'tucker': d, 'tt': d - 1}.get(format, tr.nb_nodes)
    for a in ('tol', 'max_rank'):
        s = solver(c)
        if a == 'max_rank':
            s.tol = np.inf
        setattr(s, a, np.full(n + int(c.rng.integers(1, 3)) + (1 if format in ('tucker',) else 0) + (20 if format == 'tt' else 0), 1e-3 if a == 'tol' else 2))
        try:
            run(s)
            raised = False
        except ValueError:
            raised = True
        c.true('wrong length of %s is an error' % a, raised)


@harness('C17', [TP + 'tree_based_approximation', TP + 'tucker_approximation', TP + 'tt_approximation'], [{'format': f, 'mode': m, 'sampling': s} for f in FORMATS for m in ('tolerance', 'rank', 'ranks') for s in ('eim', 'random')], symbolic=False, concrete=8, tol=1e-6)
def any_tensor(c, format, mode, sampling):
    """tensors that are not of low rank: interpolation, ranks and counts"""
    d = int(c.rng.integers(3, 5))
    sh = [int(n) for n in c.rng.integers(2, 5, size=d)]
    tr, act = tree_of(c, format, d)
    data = c.rng.standard_normal(sh)
    f = Fun(data)
    s = solver(c, pca_sampling_factor=float(c.rng.choice([1, 1.5, 3])), subsampling=sampling)
    nodes = [k for k in range(tr.nb_nodes) if act[k] and k != tr.root - 1]
    vec = [t - 1 for t in tr.dim2ind] if format == 'tucker' else sorted(nodes, key=lambda k: len(tr.dims[k])) if format == 'tt' else list(range(tr.nb_nodes))
    bound = np.full(tr.nb_nodes, np.inf)
    if mode == 'tolerance':
        s.tol = float(c.rng.choice([0.3, 1e-2, 1e-8]))
    else:
        s.tol = np.inf
        if mode == 'rank':
            s.max_rank = int(c.rng.integers(1, 4))
            bound[:] = s.max_rank
        else:
            s.max_rank = c.rng.integers(1, 4, size=len(vec))
            bound[vec] = s.max_rank
    x, out = call(s, format, f, sh, tr, act)
    c.true('shape', list(x.shape) == sh)
    c.same('active nodes', np.asarray(x.is_active_node), act)
    c.same('reported number of evaluations', out['number_of_evaluations'], f.n)
    c.true('rank bounds', all(x.ranks[k] <= bound[k] for k in nodes))
    for k in nodes:
        if mode != 'tolerance':
            continue
        n = sh[int(tr.dims[k][0])] if tr.is_leaf[k] else None
        if n is not None:
            loc = s.tol / np.sqrt(len(nodes))
            al = [int(t) for t in tr.dims[k]]
            b = [t for t in range(d) if t not in al]
            Q = reorder(np.asarray(out['samples'][k]), al, b).astype(int)
            A = data[tuple(Q.T)].reshape(n, -1, order='F')
            U = np.asarray(x.tensors[k].data)
            e = np.linalg.norm(A - U @ (U.T @ A)) / np.linalg.norm(A)
            c.true('tolerance shared between the nodes', e <= loc * (1 + 1e-6))
            sv = np.linalg.svd(A, compute_uv=False)
            r = U.shape[1]
            c.true('no larger than needed', r == 1 or np.sqrt(np.sum(sv[r - 1:] ** 2)) > loc * np.linalg.norm(A) * (1 - 1e-6))
    for k in nodes:
        c.same('as many points as basis functions', np.asarray(out['alpha_grids'][k]).shape[0], x.ranks[k])
        c.true('distinct points', len({tuple(p) for p in np.asarray(out['alpha_grids'][k]).tolist()}) == x.ranks[k])
    dims = [int(t) for t in tr.dims[tr.root - 1]]
    J = np.asarray(out['alpha_grids'][tr.root - 1]).astype(int)
    P = np.zeros_like(J)
    P[:, dims] = J
    sv = [np.linalg.cond(out['alpha_basis'][k]) for k in range(tr.nb_nodes) if k != tr.root - 1]
    if max(sv) > 1e5:
        raise SkipCase
    c.eq('interpolation on the grid of the root', x.eval_at_indices(P), data[tuple(P.T)], tol=1e-6 * max(1, max(sv)))
    # the grid of the root is the product of the grids of its children
    ch = tr.children(tr.root)
    c.same('size of the grid', J.shape[0], int(np.prod([np.asarray(out['alpha_grids'][k - 1]).shape[0] for k in ch])))


def polynomial(c, B, d, R):
    co = [c.rng.standard_normal((b.cardinal(), R)) for b in B]

    def f(x):
        x = np.asarray(x)
        v = np.ones((x.shape[0], R))
        for k in range(d):
            v = v * (np.asarray(B[k].eval(x[:, k])) @ co[k])
        return v.sum(1)
    return f


@harness('C17', [FP + f for f in ('__init__', '_prepare', '_projection_operators', '_project', 'hopca', 'tucker_approximation', 'tt_approximation', 'tree_based_approximation')],
         [{'format': f, 'mode': m, 'grid': g} for f in FORMATS + ['hopca'] for m in ('tolerance', 'rank', 'adaptive') for g in ('default', 'given')], symbolic=False, concrete=5, tol=1e-6)
def functions(c, format, mode, grid):
    d = int(c.rng.integers(2, 5))
    if format == 'permuted' and d < 3:
        d = 3
    def basis():
        n = int(c.rng.integers(1, 6))
        if c.rng.random() < .5:
            return tensap.PolynomialFunctionalBasis(tensap.LegendrePolynomials(), range(n))
        return tensap.PolynomialFunctionalBasis(tensap.HermitePolynomials(), range(n))
    B = [basis() for _ in range(d)]
    bases = tensap.FunctionalBases(B)
    R = int(c.rng.integers(1, 3))
    g = polynomial(c, B, d, R)
    count = [0]

    def fun(x):
        count[0] += np.shape(x)[0]
        return g(x)
    tr, act = tree_of(c, 'tucker' if format == 'hopca' else format, d)
    s = solver(c, tensap.FunctionalTensorPrincipalComponentAnalysis, bases=bases, pca_sampling_factor=10)
    if grid == 'given':
        G = []
        for b in B:
            m = b.basis.measure
            n = 20
            G.append(np.linspace(-1, 1, n) if isinstance(m, tensap.UniformRandomVariable) else np.linspace(-3, 3, n))
        s.grid = G
    if mode == 'rank':
        s.tol = np.inf
        s.max_rank = R
    else:
        s.tol = 1e-9
        s.pca_adaptive_sampling = mode == 'adaptive'
    X = np.column_stack([np.asarray(b.basis.measure.random(20)).ravel() for b in B])
    if np.abs(g(X)).max() < 1e-3:
        raise SkipCase
    if format == 'hopca':
        pcs, outs = s.hopca(fun)
        c.same('reported number of evaluations', sum(o['number_of_evaluations'] for o in outs), count[0])
        for k in range(d):
            c.true('sub-bases', isinstance(pcs[k], tensap.SubFunctionalBasis) and (mode != 'rank' or pcs[k].cardinal() <= R))
            # the fibres of the function lie in the span of the principal components
            Y = np.repeat(X[:1], 20, 0)
            Y[:, k] = X[:, k]
            V = np.asarray(pcs[k].eval(X[:, k]))
            v = g(Y)
            if mode != 'adaptive':
                e = v - V @ np.linalg.lstsq(V, v, rcond=None)[0]
                c.eq('fibres in the span', e / max(1, np.abs(v).max()), np.zeros(20))
        return
    if format == 'tucker':
        F, out = s.tucker_approximation(fun)
    elif format == 'tt':
        F, out = s.tt_approximation(fun)
    else:
        F, out = s.tree_based_approximation(fun, tr, act)
    c.true('a functional tensor', isinstance(F, tensap.FunctionalTensor))
    c.same('reported number of evaluations', out['number_of_evaluations'], count[0])
    c.same('active nodes', np.asarray(F.tensor.is_active_node), act)
    if mode == 'rank':
        c.true('rank bounds', all(F.tensor.ranks[k] <= R for k in range(tr.nb_nodes) if act[k]))
    if mode != 'adaptive' or all(F.tensor.ranks[k] >= min(R, 1) for k in range(tr.nb_nodes)):
        v = g(X)
        if mode == 'adaptive' and np.abs(np.asarray(F.eval(X)).ravel() - v).max() > 1e-5 * np.abs(v).max():
            raise SkipCase
        c.eq('a function of the tensor product space with the allowed ranks is reproduced', np.asarray(F.eval(X)).ravel() / np.abs(v).max(), v / np.abs(v).max(), tol=1e-5)


class Entries(Fun):
    """entries that may be symbolic"""

    def __call__(self, i):
        i = np.asarray(i)
        if i.ndim != 2 or i.shape[1] != self.data.ndim or any(float(v) != int(v) for v in i.flat) or any(not 0 <= int(v) < n for r in i for v, n in zip(r, self.data.shape)):
            self.bad = True
        i = np.array([[int(v) for v in r] for r in i], dtype=int).reshape(i.shape)
        self.n += i.shape[0]
        self.seen.update(map(tuple, i.tolist()))
        self.calls.append(i)
        return self.data[tuple(i.T)]


@contextlib.contextmanager
def draws(c, seed):
    """random multi-indices: the outcome belongs to the configuration"""
    cls = tensap.RandomVector
    real = cls.random
    rng = np.random.default_rng(seed)

    def random(X, n=1, *a):
        return np.array([[np.asarray(v.values).ravel()[rng.integers(0, np.size(v.values))] for v in X.random_variables] for _ in range(int(n))]).reshape(int(n), len(X.random_variables))
    if c.symbolic:
        cls.random = random
    try:
        yield
    finally:
        cls.random = real


def signed(c, name, shape, seed):
    """numbers of any size; their signs belong to the configuration"""
    v = c.scals(name, shape, c.const(1, 10) if c.symbolic else .1, 10)
    q = np.random.default_rng(seed)
    for i in np.ndindex(*v.shape):
        if q.random() < .5:
            v[i] = -v[i]
    return v


def fixed_tree(kind, d):
    if kind in ('tt', 'tucker'):
        return tree_of(None, kind, d)
    act = None
    if kind == 'balanced':
        tr = tensap.DimensionTree.balanced(d)
    elif kind == 'rotated':
        tr = tensap.DimensionTree.linear([(k + 1) % d for k in range(d)])
    elif kind == 'inactive':
        tr = tensap.DimensionTree.linear(d)
        act = np.full(tr.nb_nodes, True)
        act[tr.dim2ind[::2] - 1] = False
    if act is None:
        act = np.full(tr.nb_nodes, True)
    return tr, act


def report(c, x, out, f, tr, act, sh):
    c.true('a tree-based tensor', isinstance(x, tensap.TreeBasedTensor) and list(x.shape) == sh)
    c.true('indices of entries', not f.bad)
    c.same('active nodes', np.asarray(x.is_active_node), act)
    c.same('reported number of evaluations', int(out['number_of_evaluations']), f.n)
    c.true('ranks', all(x.ranks[k] == 1 for k in range(tr.nb_nodes) if act[k]))
    J = np.asarray(out['alpha_grids'][tr.root - 1])
    P = np.zeros(J.shape, dtype=int)
    for q, t in enumerate(tr.dims[tr.root - 1]):
        P[:, int(t)] = J[:, q]
    c.true('evaluations at the reported grid', all(tuple(p) in f.seen for p in P.tolist()))
    for k in range(tr.nb_nodes):
        if act[k] and k != tr.root - 1:
            c.same('as many points as basis functions', len(out['alpha_grids'][k]), 1)
    return P


RANK1 = [{'format': f, 'sh': s, 'tol': t, 'seed': e} for f, s in (('tucker', [3, 2]), ('tucker', [2, 2, 2]), ('tt', [2, 2]), ('tt', [2, 1, 2]), ('tt', [2, 2, 2]), ('balanced', [2, 2, 2]), ('rotated', [2, 2, 2]), ('inactive', [2, 2, 2])) for t in (False, True) for e in (0, 1)]


@harness('C17', [TP + f for f in fun_names], RANK1, concrete=4, engine='scalar', paths=300)
def rank_one_all_values(c, format, sh, tol, seed):
    """every tensor of rank one without zero entries"""
    d = len(sh)
    tr, act = fixed_tree(format, d)
    c.rank_one_svd()
    u = [signed(c, 'u%d' % k, n, seed + k) for k, n in enumerate(sh)]
    data = np.empty(sh, dtype=object)
    for i in np.ndindex(*sh):
        p = u[0][i[0]]
        for k in range(1, d):
            p = p * u[k][i[k]]
        data[i] = p
    data = c.arr(data)
    f = Entries(data)
    s = solver_of()
    if tol:
        s.tol = 1e-6
    else:
        s.tol, s.max_rank = np.inf, 1
    with draws(c, seed), c.frame('approximation', data):
        x, out = call(s, format, f, sh, tr, act)
    P = report(c, x, out, f, tr, act, sh)
    c.eq('a tensor with the allowed ranks is reproduced', x.full().data, data)


def solver_of():
    s = tensap.TensorPrincipalComponentAnalysis()
    s.display = False
    return s


@harness('C17', [TP + f for f in fun_names], [{'format': f, 'sh': s, 'seed': e} for e in (0, 1, 2) for f, s in (('tucker', [2, 2]), ('tucker', [2, 2, 2]), ('tt', [2, 2, 2]), ('balanced', [2, 2, 2]), ('rotated', [2, 2, 2]), ('inactive', [2, 2, 2]))], concrete=4, engine='scalar', paths=300)
def interpolation_all_values(c, format, sh, seed):
    """one component per node of any tensor without zero entries: interpolation on the cross"""
    d = len(sh)
    tr, act = fixed_tree(format, d)
    c.rank_one_svd()
    data = signed(c, 'a', sh, seed)
    f = Entries(data)
    s = solver_of()
    s.tol, s.max_rank = np.inf, 1
    with draws(c, seed), c.frame('approximation', data):
        x, out = call(s, format, f, sh, tr, act)
    P = report(c, x, out, f, tr, act, sh)
    A = x.full().data
    c.eq('interpolation on the grid of the root', c.arr([A[tuple(p)] for p in P]), c.arr([data[tuple(p)] for p in P]))


@harness('C17', [TP + 'hopca', TP + 'alpha_principal_components', 'FullTensor.principal_components'], [{'sh': s, 'tol': t, 'seed': e} for s in ([2, 3], [2, 2, 2], [1, 2, 3]) for t in (False, True) for e in (0, 1)], concrete=4, engine='scalar', paths=300)
def higher_order_all_values(c, sh, tol, seed):
    d = len(sh)
    c.rank_one_svd()
    u = [signed(c, 'u%d' % k, n, seed + k) for k, n in enumerate(sh)]
    data = np.empty(sh, dtype=object)
    for i in np.ndindex(*sh):
        p = u[0][i[0]]
        for k in range(1, d):
            p = p * u[k][i[k]]
        data[i] = p
    data = c.arr(data)
    f = Entries(data)
    s = solver_of()
    if tol:
        s.tol = 1e-6
    else:
        s.tol, s.max_rank = np.inf, 1
    with draws(c, seed), c.frame('hopca', data):
        pcs, outs = s.hopca(f, sh)
    c.same('one basis per mode', (len(pcs), len(outs)), (d, d))
    c.true('indices of entries', not f.bad)
    c.same('reported number of evaluations', sum(int(o['number_of_evaluations']) for o in outs), f.n)
    for k in range(d):
        U = pcs[k]
        c.same('shape', np.shape(U), (sh[k], 1))
        c.eq('unit norm', sum(v * v for v in U[:, 0]), 1)
        c.eq('spans the fibres', c.arr([U[i, 0] * u[k][0] - U[0, 0] * u[k][i] for i in range(sh[k])]), c.arr([0] * sh[k]))
        S = outs[k]['samples']
        al = [k] + [t for t in range(d) if t != k]
        P = reorder(np.asarray(S), [k], al[1:]).astype(int)
        M = c.arr([data[tuple(p)] for p in P])
        sv = outs[k]['singular_values']
        c.same('singular values', np.shape(sv), (1, 1))
        c.eq('singular value', sv[0, 0] * sv[0, 0], sum(v * v for v in M))


class NodalBasis(tensap.FunctionalBasis):
    """functions known at the nodes and at the points of the harness"""

    def __init__(self, c, name, n, m):
        tensap.FunctionalBasis.__init__(self)
        self.n, self.V = n, c.scals(name, (n + m, n), None if c.symbolic else -2, None if c.symbolic else 2)
        self.measure = None

    def cardinal(self):
        return self.n

    def ndim(self):
        return 1

    def eval(self, x, indices=None):
        return self.V[[int(t) for t in np.ravel(x)], :]

    def interpolation_points(self, *x):
        return np.reshape(np.arange(self.n), (-1, 1))


NodalBasis.__abstractmethods__ = frozenset()


@harness('C17', [FP + f for f in ('__init__', '_prepare', '_projection_operators', '_project', 'hopca', 'tucker_approximation', 'tt_approximation', 'tree_based_approximation')],
         [{'format': f, 'sh': s, 'seed': e} for e in (0, 1) for f, s in (('tucker', [2, 2]), ('tucker', [2, 1, 2]), ('tt', [2, 2]), ('tt', [1, 2, 2]), ('balanced', [2, 2, 1]), ('inactive', [2, 1, 2]), ('inactive', [1, 2, 2]), ('hopca', [2, 2]))], concrete=4, engine='scalar', paths=300, tol=1e-6)
def functions_all_values(c, format, sh, seed):
    """products of one function of each variable in the spans of the bases"""
    d = len(sh)
    c.rank_one_svd()
    B = [NodalBasis(c, 'abc'[k], n, 1) for k, n in enumerate(sh)]
    w = [signed(c, 'u%d' % k, n, seed + k) for k, n in enumerate(sh)]
    for b in B:
        det = b.V[0, 0] if b.n == 1 else b.V[0, 0] * b.V[1, 1] - b.V[0, 1] * b.V[1, 0]
        c.assume(bool(det * det > c.const(1, 100)))
    count = [0]

    def fun(x):
        count[0] += len(x)
        r = []
        for p in x:
            v = 1
            for k in range(d):
                v = v * w[k][int(p[k])]
            r.append(v)
        return c.arr(r)
    s = tensap.FunctionalTensorPrincipalComponentAnalysis()
    s.display, s.bases, s.tol, s.max_rank = False, tensap.FunctionalBases(B), np.inf, 1
    tr, act = fixed_tree('tucker' if format == 'hopca' else format, d)
    with draws(c, seed), c.frame('approximation', *[b.V for b in B]):
        if format == 'hopca':
            F, outs = s.hopca(fun)
        else:
            F, out = s.tucker_approximation(fun) if format == 'tucker' else s.tt_approximation(fun) if format == 'tt' else s.tree_based_approximation(fun, tr, act)
    if format == 'hopca':
        c.same('reported number of evaluations', sum(int(o['number_of_evaluations']) for o in outs), count[0])
        for k in range(d):
            E = F[k].eval(np.arange(sh[k]))
            c.same('one function', np.shape(E), (sh[k], 1))
            c.eq('spans the fibres', c.arr([E[i, 0] * w[k][0] - E[0, 0] * w[k][i] for i in range(sh[k])]), c.arr([0] * sh[k]))
        return
    c.same('reported number of evaluations', int(out['number_of_evaluations']), count[0])
    c.same('active nodes', np.asarray(F.tensor.is_active_node), act)
    x = np.array([list(sh), [0] * d])
    y = []
    for p in x:
        v = 1
        for k in range(d):
            V = B[k].V
            if sh[k] == 1:
                t = V[p[k], 0] * w[k][0] / V[0, 0]
            else:
                det = V[0, 0] * V[1, 1] - V[0, 1] * V[1, 0]
                t = (V[p[k], 0] * (V[1, 1] * w[k][0] - V[0, 1] * w[k][1]) + V[p[k], 1] * (V[0, 0] * w[k][1] - V[1, 0] * w[k][0])) / det
            v = v * t
        y.append(v)
    c.eq('the function is reproduced', np.ravel(F.eval(x)), c.arr(y))
