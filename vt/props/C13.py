"""C13: functional tensors evaluate the function they represent.

The bases are abstract: their contract says only that evaluating the basis of variable i at
points z gives the matrix of the values of n_i functions at these points (one atom per
basis, set of points and order of derivation), that mean() gives the vector of the means
and gram_matrix() a symmetric matrix.  The obligations therefore hold for every basis that
satisfies C12."""
import numpy as np
import tensap
from vt.ctx import harness, SkipCase
from vt.trees import shape as tree_shape, active_sets
import vt.props.C12
from vt.props.C02 import L, net, tconf, canon, val

FT = 'FunctionalTensor.'


class AbstractBasis(tensap.FunctionalBasis):
    def __init__(self, c, i, n, order=0, parent=None):
        tensap.FunctionalBasis.__init__(self)
        self._c, self.i, self.n, self.order = c, i, n, order
        self._top = parent or self
        if parent is None:
            self._atoms = {}
        self.measure = tensap.UniformRandomVariable(-1, 1)

    def __deepcopy__(self, memo):
        return self

    def __eq__(self, other):
        return isinstance(other, AbstractBasis) and (self._top is other._top) and self.order == other.order
    __hash__ = None

    def cardinal(self):
        return self.n

    def ndim(self):
        return 1

    def _atom(self, key, shape):
        a = self._top._atoms
        if key not in a:
            a[key] = self._c.array('%s%d_%s' % (key[0], self.i, '_'.join(str(k) for k in key[1:])), shape)
        return a[key]

    def eval(self, x):
        return self._atom(('H', x.name, self.order), [x.K, self.n])

    def eval_derivative(self, k, x):
        return self._atom(('H', x.name, self.order + k), [x.K, self.n])

    def derivative(self, k):
        return AbstractBasis(self._c, self.i, self.n, self.order + k, self._top)

    def mean(self, measure=None):
        return self._atom(('m', self.order) + self._key(measure), [self.n])

    def _key(self, measure):
        # the measures are compared by their supports
        if measure is None or measure == self.measure:
            return ()
        return tuple(int(v) for v in measure.support())

    def gram_matrix(self, measure=None):
        f = self._atom(('G', self.order) + self._key(measure), [self.n, self.n])
        return self._c.einsum('ax,bx->ab', f, f)

    def one(self):
        return self._atom(('o', self.order), [self.n])

    def kron(self, q):
        return KronBasis(self._c, self, q)


class KronBasis(AbstractBasis):
    """all products of a function of p and a function of q, those of q varying fastest"""

    def __init__(self, c, p, q):
        AbstractBasis.__init__(self, c, 100 + p.i, p.n * q.n)
        self.p, self.q = p, q

    def eval(self, x):
        return self._c.join(self._c.einsum('ya,yb->yab', self.p.eval(x), self.q.eval(x)), [[0], [2, 1]])


class Points:
    def __init__(self, name, K):
        self.name, self.K = name, K


def make(c, cfg, name='A', n=None):
    """(tensor, dense coefficients, sizes of the functional modes, number of other modes)"""
    k = cfg['kind']
    if k == 'tree':
        R = c.dim('R', 2, 3) if cfg.get('rroot') else 1
        N = net(c, name, cfg['tree'], cfg['num'], cfg['act'], root_rank=R, n=n)
        return N.tensor(), N.full(), N.n, int(bool(cfg.get('rroot'))), N
    d = cfg['order']
    if k == 'full':
        n = n or [c.dim('n%d' % i, 1, 3) for i in range(d)]
        A = c.array(name, n)
        return tensap.FullTensor(A), A, n, 0, None
    if k == 'canonical':
        n, r, sp, co, t = canon(c, name, d, n=n) if n is not None else canon(c, name, d)
        return t, val(c, t), n, 0, (r, sp, co)
    raise ValueError(k)


TREES = tconf([('t2', None), ('t3', 'rev'), ('l3', None), ('m3', 'rev'), ('b4', 'shuf'), ('p4', 'shuf'), ('a4', None)])
CFG = [{'kind': 'full', 'order': d} for d in (1, 2, 3, 4)] + [{'kind': 'canonical', 'order': d} for d in (2, 3)] + [dict(x, kind='tree') for x in TREES]
SMALL = [{'kind': 'full', 'order': d} for d in (1, 2, 3)] + [{'kind': 'canonical', 'order': 3}] + [dict(x, kind='tree') for x in tconf([('t2', None), ('l3', None), ('b4', 'shuf')], ['all', 'none', 'alt'])]


def setup(c, cfg, **kw):
    t, A, n, extra, N = make(c, cfg, **kw)
    d = len(n)
    B = [AbstractBasis(c, i, n[i]) for i in range(d)]
    H = tensap.FunctionalBases(B)
    K = c.dim('K', 1, 4)
    X = [Points('x', K) for _ in range(d)]
    return t, A, n, B, H, X, extra, N


def value(c, A, V, extra=0, tail=None):
    """sum over the coefficients of products of the values V[i] (K x n_i)"""
    d = len(V)
    t = tail or 'z' * extra
    return c.einsum(','.join([L[:d] + t] + ['y' + L[i] for i in range(d)]) + '->y' + t, A, *V)


@harness('C13', [FT + '__init__', FT + 'eval', FT + 'eval_with_bases_evals', 'FunctionalBases.eval', 'FunctionalBases.__init__'], CFG + [dict(x, kind='tree', rroot=1) for x in TREES[:6]], concrete=3)
def evaluation(c, **cfg):
    t, A, n, B, H, X, extra, N = setup(c, cfg)
    F = tensap.FunctionalTensor(t, H)
    V = [b.eval(x) for b, x in zip(B, X)]
    want = value(c, A, V, extra)
    with c.frame('eval', F, V):
        c.eq('values', F.eval(X), want)
    c.eq('values from the values of the bases', F.eval_with_bases_evals(list(V)), want)
    with c.frame('evaluated bases', t, V):
        G = tensap.FunctionalTensor(t, list(V))
        c.eq('values of a function on evaluated bases', G.eval(None), want)
    c.eq('copy', tensap.FunctionalTensor(F, H).eval(X), want)


@harness('C13', [FT + 'eval_on_grid'], SMALL, concrete=3)
def grids(c, **cfg):
    t, A, n, B, H, X, extra, N = setup(c, cfg)
    d = len(n)
    F = tensap.FunctionalTensor(t, H)
    Y = [Points('g%d' % i, c.dim('k%d' % i, 1, 3)) for i in range(d)]
    V = [b.eval(y) for b, y in zip(B, Y)]
    want = c.einsum(','.join([L[:d]] + [L[i].upper() + L[i] for i in range(d)]) + '->' + L[:d].upper(), A, *V)
    with c.frame('eval_on_grid', F, V):
        T = F.eval_on_grid(Y)
    c.eq('values on a grid', val(c, T), want)
    for D in ([0], list(range(1, d)), [d - 1, 0]):
        if not 0 < len(set(D)) == len(D) < d:
            continue
        T = F.eval_on_grid([Y[i] for i in D], np.array(D))
        rest = [i for i in range(d) if i not in D]
        out = ''.join(L[i].upper() if i in D else L[i] for i in range(d))
        c.eq('partial values on a grid %s' % D, val(c, T.tensor), c.einsum(','.join([L[:d]] + [L[i].upper() + L[i] for i in D]) + '->' + out, A, *[V[i] for i in D]))
        c.same('remaining variables %s' % D, list(T.fdims), rest)
        c.eq('values of the remaining function on its grid %s' % D, val(c, T.eval_on_grid([Y[i] for i in rest])) if rest else 0, want)


@harness('C13', [FT + 'mean', FT + 'expectation', FT + 'conditional_expectation', FT + 'dot_product_expectation', FT + 'norm', FT + 'variance', FT + 'variance_conditional_expectation', 'FunctionalBases.mean', 'FunctionalBases.gram_matrices', 'FunctionalBases.keep_bases'], SMALL, concrete=3)
def moments(c, **cfg):
    t, A, n, B, H, X, extra, N = setup(c, cfg)
    d = len(n)
    F = tensap.FunctionalTensor(t, H)
    m = [b.mean() for b in B]
    G = [b.gram_matrix() for b in B]
    with c.frame('mean', F, m):
        mu = F.mean()
    mean = c.einsum(','.join([L[:d]] + [L[i] for i in range(d)]) + '->', A, *m)
    c.eq('mean', mu, mean)
    c.eq('expectation', F.expectation(), mean)
    c.stage('conditional expectations')
    for D in ([0], [d - 1], list(range(1, d)), list(range(d))):
        if not D or len(D) > d:
            continue
        R = [i for i in range(d) if i not in D]
        with c.frame('conditional_expectation', F):
            E = F.conditional_expectation(np.array(D))
        c.eq('conditional expectation given %s' % D, E.eval([X[i] for i in D]), c.einsum(','.join([L[:d]] + [L[i] for i in R] + ['y' + L[i] for i in D]) + '->y', A, *([m[i] for i in R] + [B[i].eval(X[i]) for i in D])))
    c.eq('conditional expectation given nothing', F.conditional_expectation([]), mean)
    c.stage('second moments')
    t2, A2, _, _, _ = make(c, cfg, 'B', n=n)
    F2 = tensap.FunctionalTensor(t2, H)
    U = L[:d].upper()
    dot = lambda P, Q: c.einsum(','.join([L[:d], U] + [L[i] + U[i] for i in range(d)]) + '->', P, Q, *G)
    with c.frame('dot_product_expectation', F, F2):
        c.eq('inner product of two functions', F.dot_product_expectation(F2), dot(A, A2))
    v = F.norm()
    c.eq('square of the norm', v * v, dot(A, A))
    c.eq('variance', F.variance(), dot(A, A) - mean * mean)
    c.stage('variances of conditional expectations')
    for D in ([0], [d - 1]):
        R = [i for i in range(d) if i not in D]
        P = c.einsum(','.join([L[:d]] + [L[i] for i in R]) + '->' + ''.join(L[i] for i in D), A, *[m[i] for i in R]) if R else A
        w = c.einsum('a,A,aA->', P, P, G[D[0]]) - mean * mean
        if not c.symbolic:
            c.eq('variance of the conditional expectation given %s' % D, F.variance_conditional_expectation(np.array([D])), np.reshape(w, (1,)))
            c.eq('variance of the conditional expectation given the indicator of %s' % D, F.variance_conditional_expectation(np.array([[i in D for i in range(d)]])), np.reshape(w, (1,)))


@harness('C13', [FT + 'mean', FT + 'expectation', FT + 'conditional_expectation', FT + 'dot_product_expectation', FT + 'norm', FT + 'variance', 'FunctionalBases.mean', 'FunctionalBases.gram_matrices'], [dict(x, measure=m) for x in SMALL for m in ('variable', 'vector')], concrete=3)
def other_measures(c, measure, **cfg):
    """moments under a measure given by the caller"""
    t, A, n, B, H, X, extra, N = setup(c, cfg)
    d = len(n)
    F = tensap.FunctionalTensor(t, H)
    U = tensap.UniformRandomVariable
    nu = [U(2, 4 + i) for i in range(d)] if measure == 'vector' else [U(3, 5)] * d
    mu = lambda D: tensap.RandomVector([nu[i] for i in D]) if measure == 'vector' else nu[0]
    m = [b.mean(v) for b, v in zip(B, nu)]
    G = [b.gram_matrix(v) for b, v in zip(B, nu)]
    mean = c.einsum(','.join([L[:d]] + [L[i] for i in range(d)]) + '->', A, *m)
    M = mu(range(d))
    with c.frame('moments', F, M):
        c.eq('mean', F.mean(M), mean)
        c.eq('expectation', F.expectation(M), mean)
        c.eq('conditional expectation given nothing', F.conditional_expectation([], M), mean)
        for D in ([0], [d - 1], list(range(1, d)), list(range(d))):
            if not D or len(D) > d:
                continue
            R = [i for i in range(d) if i not in D]
            E = F.conditional_expectation(np.array(D), mu(R)) if R else F.conditional_expectation(np.array(D))
            c.eq('conditional expectation given %s' % D, E.eval([X[i] for i in D]), c.einsum(','.join([L[:d]] + [L[i] for i in R] + ['y' + L[i] for i in D]) + '->y', A, *([m[i] for i in R] + [B[i].eval(X[i]) for i in D])))
        t2, A2, _, _, _ = make(c, cfg, 'B', n=n)
        F2 = tensap.FunctionalTensor(t2, H)
        W = L[:d].upper()
        dot = lambda P, Q: c.einsum(','.join([L[:d], W] + [L[i] + W[i] for i in range(d)]) + '->', P, Q, *G)
        c.eq('inner product of two functions', F.dot_product_expectation(F2, None, M), dot(A, A2))
        v = F.norm(M)
        c.eq('square of the norm', v * v, dot(A, A))
        c.eq('variance', F.variance(M), dot(A, A) - mean * mean)


@harness('C13', [FT + 'eval_derivative', FT + 'derivative', FT + 'eval_gradient', 'FunctionalBases.eval_derivative', 'FunctionalBases.derivative'], SMALL, concrete=3)
def derivatives(c, **cfg):
    t, A, n, B, H, X, extra, N = setup(c, cfg)
    d = len(n)
    F = tensap.FunctionalTensor(t, H)
    o = [(2 * i + 1) % 3 for i in range(d)]
    want = value(c, A, [b.eval_derivative(k, x) for b, k, x in zip(B, o, X)], extra)
    with c.frame('derivatives', F):
        c.eq('derivatives', F.eval_derivative(o, X), want)
        c.eq('derivative', F.derivative(o).eval(X), want)
    c.stage('gradient')
    g = F.eval_gradient(X)
    for i in range(d):
        c.eq('gradient in variable %d' % i, g[:, i], value(c, A, [b.eval_derivative(int(i == j), x) for j, (b, x) in enumerate(zip(B, X))], extra))


@harness('C13', [FT + '__mul__', FT + '__add__', 'FunctionalBases.kron'], [{'kind': 'full', 'order': d} for d in (1, 2, 3)] + [dict(x, kind='tree') for x in tconf([('t2', None), ('l3', None)], ['all', 'none', 'alt'])], concrete=3)
def algebra(c, **cfg):
    t, A, n, B, H, X, extra, N = setup(c, cfg)
    d = len(n)
    F = tensap.FunctionalTensor(t, H)
    V = [b.eval(x) for b, x in zip(B, X)]
    with c.frame('multiple', F):
        c.eq('multiple', (F * 3).eval(X), 3 * value(c, A, V))
    t2, A2, _, _, _ = make(c, cfg, 'B', n=n)
    G = tensap.FunctionalTensor(t2, H)
    c.stage('sum')
    with c.frame('sum', F, G):
        c.eq('sum', (F + G).eval(X), value(c, A, V) + value(c, A2, V))
    c.stage('product')
    n3 = [c.dim('q%d' % i, 1, 3) for i in range(d)]
    t3, A3, _, _, _ = make(c, cfg, 'C', n=n3)
    B3 = [AbstractBasis(c, 10 + i, n3[i]) for i in range(d)]
    P = tensap.FunctionalTensor(t3, tensap.FunctionalBases(B3))
    with c.frame('product', F, P):
        Q = F * P
    c.eq('product', Q.eval(X), value(c, A, V) * value(c, A3, [b.eval(x) for b, x in zip(B3, X)]))


@harness('C13', [FT + 'eval', FT + 'eval_with_bases_evals', 'FunctionalBases.remove_bases'], [{'kind': 'full', 'order': d} for d in (2, 3, 4)] + [{'kind': 'canonical', 'order': d} for d in (2, 3)], concrete=4)
def partial_evaluation(c, **cfg):
    """partially evaluated: a function of the other variables for each sample"""
    t, A, n, B, H, X, extra, N = setup(c, cfg)
    d = len(n)
    F = tensap.FunctionalTensor(t, H)
    for D in ([0], [d - 1], [1], list(range(1, d)), [d - 1, 0]):
        if not 0 < len(set(D)) == len(D) < d:
            continue
        c.stage('variables %s' % D)
        rest = [i for i in range(d) if i not in D]
        pos = 0 if cfg['kind'] == 'full' else sum(i < min(D) for i in rest)
        with c.frame('partial evaluation', F):
            P = F.eval([X[i] for i in D], D)
        lab = [L[i] for i in rest]
        lab.insert(pos, 'y')
        K = X[0].K
        V = [B[i].eval(X[i]) for i in D]
        spec = ','.join([L[:d]] + ['y' + L[i] for i in D]) + '->'
        if K == 1:
            c.eq('partial evaluation %s' % D, val(c, P.tensor), c.einsum(spec + ''.join(x for x in lab if x != 'y'), A, *V))
            c.same('modes of the variables %s' % D, list(P.fdims), list(range(len(rest))))
        else:
            c.eq('partial evaluation %s' % D, val(c, P.tensor), c.einsum(spec + ''.join(lab), A, *V))
            c.same('modes of the variables %s' % D, list(P.fdims), [lab.index(L[i]) for i in rest])
        c.same('bases of the variables %s' % D, [b.i for b in P.bases.bases], rest)
        g = [Points('g%d' % i, c.dim('k%d' % i, 1, 3)) for i in rest]
        W = [B[i].eval(y) for i, y in zip(rest, g)]
        if len(rest) < P.tensor.order:
            v = P.eval_on_grid(g)
            v = getattr(v, 'tensor', v)
        else:
            v = P.eval_on_grid(g)
        o = ''.join(x if x == 'y' else x.upper() for x in lab if not (x == 'y' and len(rest) == P.tensor.order))
        c.eq('values of the partial evaluation %s on a grid' % D, val(c, v), c.einsum(','.join([L[:d]] + ['y' + L[i] for i in D] + [L[i].upper() + L[i] for i in rest]) + '->' + o, A, *(V + W)))


FB = 'FunctionalBasisArray.'
SHAPES = [{'shape': s} for s in (None, 1, (1,), 'p', ('p',), ('p', 'q'), (2, 'p'), ('p', 1))]


@harness('C13', [FB + f for f in ('__init__', 'eval', 'eval_with_bases_evals', 'eval_derivative', 'derivative', 'mean', 'expectation', '__add__', '__sub__', '__neg__', '__mul__', 'matmul', 'dot', 'dot_product_expectation', 'variance', 'norm_expectation', 'get_coefficients', 'storage')], SHAPES, concrete=4)
def coefficient_arrays(c, shape):
    """a function given by an array of coefficients, one column per output component"""
    N = c.dim('N', 1, 4)
    dims = {'p': c.dim('p', 1, 3), 'q': c.dim('q', 1, 3)}
    sh = [] if shape is None else [dims.get(s, s) for s in (shape if isinstance(shape, tuple) else (shape,))]
    full = sh or [1]
    B = AbstractBasis(c, 0, N)
    B.is_orthonormal = True
    A, A2 = c.array('A', [N] + full), c.array('B', [N] + full)
    s = 'pqr'[:len(full)]
    arg = None if shape is None else (sh if isinstance(shape, tuple) else sh[0])
    F = tensap.FunctionalBasisArray(A, B, arg)
    G = tensap.FunctionalBasisArray(A2, B, arg)
    X = Points('x', c.dim('K', 1, 4))
    H = B.eval(X)
    val_ = lambda A, H=H: c.einsum('ya,a%s->y%s' % (s, s), H, A)
    with c.frame('eval', F, H):
        c.eq('values', F.eval(X), val_(A))
        c.eq('values from those of the basis', F.eval_with_bases_evals(H), val_(A))
    c.eq('coefficients', F.get_coefficients(), A)
    H2 = B.eval_derivative(2, X)
    with c.frame('derivatives', F):
        c.eq('values of the derivative', F.eval_derivative(2, X), val_(A, H2))
        c.eq('derivative', F.derivative(2).eval(X), val_(A, H2))
    c.stage('algebra')
    with c.frame('algebra', F, G):
        c.eq('sum', (F + G).eval(X), val_(A) + val_(A2))
        c.eq('difference', (F - G).eval(X), val_(A) - val_(A2))
        c.eq('opposite', (-F).eval(X), -val_(A))
        c.eq('multiple', (F * 3).eval(X), 3 * val_(A))
        c.eq('product of the coefficients', (F * G).eval(X), c.einsum('ya,a%s,a%s->y%s' % (s, s, s), H, A, A2))
    if len(full) == 1:
        M = c.array('M', [full[0], dims['q']])
        c.eq('linear map of the outputs', F.matmul(M).eval(X), c.einsum('ya,ap,pq->yq', H, A, M))
    c.stage('moments')
    m = B.mean()
    mean = c.einsum('a,a%s->%s' % (s, s), m, A)
    one = lambda v: v.reshape([1] + full)
    with c.frame('moments', F, G):
        c.eq('mean', F.mean(), one(mean))
        c.eq('expectation', F.expectation(), one(mean))
        dot = c.einsum('a%s,a%s->%s' % (s, s, s), A, A2)
        c.eq('inner product', F.dot_product_expectation(G), one(dot))
        sq = c.einsum('a%s,a%s->%s' % (s, s, s), A, A)
        c.eq('variance', F.variance(), one(sq) - one(mean) * one(mean))
        w = F.norm_expectation()
        c.eq('square of the norm', w * w, one(sq))


@harness('C13', [FT + 'random', FT + 'random_dims', 'FunctionalBases.random_dims', 'FunctionalBases.eval', FT + 'get_random_vector', FT + '__mul__'], [{}], symbolic=False, concrete=80)
def samples(c):
    """concrete bases: points given as one array or one per variable, random points,
    vector-valued functions"""
    d = int(c.rng.integers(1, 4))
    p = [int(x) for x in c.rng.integers(0, 4, size=d)]
    m = [tensap.LegendrePolynomials() if c.rng.random() < .5 else tensap.HermitePolynomials() for _ in range(d)]
    B = [tensap.PolynomialFunctionalBasis(q, range(k + 1)) for q, k in zip(m, p)]
    H = tensap.FunctionalBases(B)
    r = int(c.rng.integers(1, 4))
    n = [k + 1 for k in p]
    if d > 1:
        tree = tensap.DimensionTree.random(d) if c.rng.random() < .5 else tensap.DimensionTree.balanced(d)
        rk = np.array(tensap.TreeBasedTensor.rand(tree, 2, n).ranks)
        rk = c.rng.integers(1, 4, size=tree.nb_nodes)
        rk[tree.root - 1] = r
        tensors = []
        def rt():
            ts = np.empty(tree.nb_nodes, dtype=object)
            for k in range(1, tree.nb_nodes + 1):
                ch = tree.children(k)
                sh = [n[int(np.nonzero(tree.dim2ind == k)[0][0])]] if len(ch) == 0 else [int(rk[j - 1]) for j in ch]
                if k != tree.root or r > 1:
                    sh = sh + [int(rk[k - 1])]
                ts[k - 1] = tensap.FullTensor(c.rng.integers(-2, 3, size=sh).astype(float))
            return tensap.TreeBasedTensor(ts, tree)
        T, T2 = rt(), rt()
    else:
        r = 1
        T, T2 = [tensap.FullTensor(c.rng.integers(-2, 3, size=n).astype(float)) for _ in range(2)]
    F, G = tensap.FunctionalTensor(T, H), tensap.FunctionalTensor(T2, H)
    K = int(c.rng.integers(2, 5))
    x = np.stack([b.measure.random(K).reshape(-1) for b in B], 1)
    V = [b.eval(x[:, i]) for i, b in enumerate(B)]
    L_ = L[:d]
    tail = 'z' if r > 1 else ''
    dense = lambda t: t.numpy() if isinstance(t, tensap.FullTensor) else t.full().numpy()
    ev = lambda t, V: np.einsum(','.join([L_ + tail] + ['y' + L_[i] for i in range(d)]) + '->y' + tail, dense(t), *V)
    with c.frame('eval', F, x):
        c.eq('values at an array of points', F.eval(x), ev(T, V))
        c.eq('values at points per variable', F.eval([x[:, [i]] for i in range(d)]), ev(T, V))
    c.stage('call')
    c.eq('call', F(x), ev(T, V))
    c.stage('random')
    y, z = F.random(K, nargout=2)
    z = z if isinstance(z, np.ndarray) else np.hstack([np.reshape(a, (-1, 1)) for a in z])
    c.eq('values at random points', y, ev(T, [b.eval(z[:, i]) for i, b in enumerate(B)]))
    c.stage('product')
    Q = F * G
    a, b = ev(T, V), ev(T2, V)
    c.eq('product', Q.eval(x), a * b, tol=1e-6)
    c.stage('gradient')
    g = F.eval_gradient(x)
    for i in range(d):
        c.eq('gradient', g[:, i], ev(T, [b.eval_derivative(int(i == j), x[:, j]) for j, b in enumerate(B)]), tol=1e-6)


@harness('C13', [FT + 'parameter_gradient_eval'], [dict(x, kind='tree', node=k, rroot=0) for x in TREES for k in range(1, tree_shape(x['tree'], x['num']).n + 1) if k not in active_sets(tree_shape(x['tree'], x['num']), x['act'])] + [{'kind': 'canonical', 'order': d, 'node': k} for d in (2, 3) for k in range(1, d + 2)], concrete=2)
def gradients(c, node, **cfg):
    """the value is linear in each parameter: it is the contraction of the parameter with
    its gradient, and the gradient is the derivative of the value with respect to it"""
    t, A, n, B, H, X, extra, N = setup(c, cfg)
    d = len(n)
    F = tensap.FunctionalTensor(t, H)
    V = [b.eval(x) for b, x in zip(B, X)]
    with c.frame('parameter_gradient_eval', F, V):
        g = F.parameter_gradient_eval(node, X)
    if cfg['kind'] == 'canonical':
        r, sp, co = N
        if node == d + 1:
            E = c.einsum(','.join('y' + L[i] + ',' + L[i] + 'z' for i in range(d)) + '->yz', *[z for i in range(d) for z in (V[i], sp[i])])
        else:
            k = node - 1
            rest = [i for i in range(d) if i != k]
            E = c.einsum(','.join(['y' + L[k]] + ['y' + L[i] + ',' + L[i] + 'z' for i in rest]) + '->yz' + L[k], *([V[k]] + [z for i in rest for z in (V[i], sp[i])]))
    else:
        lab, up = N.labels()
        ks = [k for k in sorted(N.arr) if k != node]
        E = c.einsum(','.join([lab[k] for k in ks] + ['Z' + L[i] for i in range(d)]) + '->Z' + lab[node], *([N.arr[k] for k in ks] + V))
    c.eq('gradient', g, E)
    G = tensap.FunctionalTensor(t, list(V))
    c.eq('gradient of a function on evaluated bases', G.parameter_gradient_eval(node), E)


@harness('C13', [FT + 'parameter_gradient_eval_dmrg'], [dict(x, kind='tree', node=k, rroot=0) for x in tconf([('t2', None), ('t3', 'rev'), ('l3', None), ('m3', 'rev'), ('b4', 'shuf'), ('p4', 'shuf')]) for k in range(1, tree_shape(x['tree'], x['num']).n + 1) if k not in active_sets(tree_shape(x['tree'], x['num']), x['act']) and k != tree_shape(x['tree'], x['num']).root], concrete=2)
def gradients_dmrg(c, node, **cfg):
    t, A, n, B, H, X, extra, N = setup(c, cfg)
    d = len(n)
    V = [b.eval(x) for b, x in zip(B, X)]
    F = tensap.FunctionalTensor(t, H)
    with c.frame('parameter_gradient_eval_dmrg', F, V):
        g = F.parameter_gradient_eval_dmrg(node, X)
    lab, up = N.labels()
    gamma = N.sh.par[node]
    ks = [k for k in sorted(N.arr) if k not in (node, gamma)]
    own = lab[node][:-1]
    par = ''.join(x for x in lab[gamma] if x != lab[node][-1])
    E = c.einsum(','.join([lab[k] for k in ks] + ['Z' + L[i] for i in range(d)]) + '->Z' + own + par, *([N.arr[k] for k in ks] + V))
    c.eq('gradient with respect to the merged tensor', g, E)
    c.stage('low rank')
    ga, gg = F.parameter_gradient_eval_dmrg(node, X, 'dmrg_low_rank')
    # the gradient is the product, sample by sample, of the two parts
    x = g if c.symbolic else None
    la, lg = own, par
    c.eq('product of the two parts', c.einsum('Z%s,Z%s->Z%s' % (la, lg, la + lg), c.data(ga), c.data(gg)), E)
