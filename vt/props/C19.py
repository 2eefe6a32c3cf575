"""C19: learning in canonical and tree-based tensor formats."""
import contextlib
import copy
import io
import random
import numpy as np
import tensap
from vt.ctx import harness, SkipCase

TL = 'TensorLearning.'
CL = 'CanonicalTensorLearning.'
TB = 'TreeBasedTensorLearning.'
quiet = lambda: contextlib.redirect_stdout(io.StringIO())


class Problem:
    pass


def problem(c, d, n=3, N=None, m=None, noise=1e-2, nt=20):
    p = Problem()
    p.d = d
    n = n if np.ndim(n) else [n] * d
    p.n = [int(k) for k in n]
    X = tensap.RandomVector(tensap.UniformRandomVariable(), d)
    p.bases = tensap.FunctionalBases([tensap.PolynomialFunctionalBasis(v.orthonormal_polynomials(), range(k)) for v, k in zip(X.random_variables, p.n)])
    N = N or int(np.prod(p.n)) + 20
    p.x, p.xt = c.rng.uniform(-1, 1, (N, d)), c.rng.uniform(-1, 1, (nt, d))
    co = c.rng.standard_normal((3, d)) / 2
    w = c.rng.standard_normal((4, m or 1)) / 2 + 1

    def f(x):
        g = np.stack([1 + x @ co[0], np.prod(1 + x * co[1], 1), np.prod(.5 + x * co[2], 1), np.sin(x[:, 0]) * x[:, -1]], 1) @ w
        g = g + noise * np.cos(7 * x.sum(1, keepdims=True))
        return g if m else g[:, 0]
    p.f, p.y, p.yt = f, f(p.x), f(p.xt)
    return p


def setup(c, s, p, bases=True, test=True):
    if bases:
        s.bases, s.training_data, s.test_data = p.bases, [p.x, p.y], [p.xt, p.yt]
    else:
        s.bases_eval, s.bases_eval_test = p.bases.eval(p.x), p.bases.eval(p.xt)
        s.training_data, s.test_data = [None, p.y], [None, p.yt]
    s.test_error = test
    s.display = bool(c.rng.random() < .2)
    s.tolerance = {'on_error': 1e-10, 'on_stagnation': 1e-10}
    s.linear_model_learning.error_estimation_type = 'residuals'
    s.alternating_minimization_parameters['stagnation'] = 1e-12
    return s


def tensor_of(f):
    return f.tensor if isinstance(f, tensap.FunctionalTensor) else f


def evaluate(p, t, x):
    """values at x of the function with coefficient tensor t, from its definition"""
    a = np.asarray(tensor_of(t).full().data)
    B = p.bases.eval(x)
    r = np.ndim(p.y) == 2
    for b in B:
        a = np.einsum('ni...,ni->n...', a, b) if a.shape[0] == b.shape[0] and b is not B[0] else np.tensordot(b, a, 1)
    return a.reshape(x.shape[0], -1) if r else a.reshape(x.shape[0])


def rel(y, v):
    return np.sum((y - v) ** 2) / np.sum(y ** 2)


def seed(c):
    k = int(c.rng.integers(2 ** 31))
    np.random.seed(k)
    random.seed(k)


def errors_reported(c, p, f, out, bases=True, selected=None, res=None):
    """reported test errors are those of the returned function and of the iterates;
    with model selection the returned function is the best iterate"""
    c.true('finite coefficients', np.all(np.isfinite(tensor_of(f).full().data)))
    c.eq('test error is that of the returned function', out['test_error'], np.sqrt(rel(p.yt, evaluate(p, f, p.xt))))
    its = list(out['iterates'])
    te = np.asarray(out['test_error_iterations'], dtype=float)
    c.true('one test error per iterate', len(its) == te.size and len(its) > 0)
    for k, g in enumerate(its):
        c.eq('test error of iterate is the one reported', te[k], np.sqrt(rel(p.yt, evaluate(p, g, p.xt))))
    er = np.asarray(out.get('error_iterations', []), dtype=float).ravel()
    if selected == 'test_error':
        k = int(out['selected_model_number'])
        c.true('selected iterate has the least test error', te[k] <= np.min(te))
    elif selected == 'cv_error':
        k = int(out['selected_model_number'])
        c.true('selected iterate has the least error', er[k] <= np.min(er))
    else:
        k = len(its) - 1
    c.eq('the returned function is the announced iterate', tensor_of(f).full().data, tensor_of(its[k]).full().data)
    c.eq('reported test error is that of the announced iterate', out['test_error'], te[k])
    if er.size:
        c.true('one error per iterate', er.size == len(its))
        c.eq('reported error is that of the announced iterate', float(np.ravel(out['error'])[0]), er[k])
        if res:
            for k, g in enumerate(its):
                c.eq('error of iterate is its relative empirical risk', er[k], rel(p.y, evaluate(p, g, p.x)), 1e-6)
    if bases:
        c.true('returned with the functional bases', isinstance(f, tensap.FunctionalTensor))
        c.eq('values of the returned function', np.asarray(f.eval(p.xt)).reshape(p.yt.shape), evaluate(p, f, p.xt))


def non_increasing(c, label, e, tol=1e-9):
    e = np.asarray(e, dtype=float).ravel()
    c.true(label, np.all(np.diff(e) <= tol * np.maximum(1, e[:-1])), 'errors %r' % (e,))


# -------------------------------------------------------------------- canonical format
CFUN = [CL + f for f in ('__init__', 'initialize', 'prepare_alternating_minimization_system', 'set_parameter', 'stagnation_criterion', 'pre_processing', 'randomize_exploration_strategy', 'final_display')] + [TL + f for f in ('__init__', 'solve', '_solve_standard')]


def canonical_solver(c, p, **kw):
    s = tensap.CanonicalTensorLearning(p.d, tensap.SquareLossFunction())
    setup(c, s, p, **kw)
    return s


@harness('C19', CFUN, [{'init': i, 'factor': f} for i in ('mean', 'mean_randomized', 'random', 'greedy', 'initial_guess') for f in ('all', 'one', 'shuffled')], symbolic=False, concrete=20, tol=1e-7)
def canonical_fixed_rank(c, init, factor):
    d = int(c.rng.integers(2, 5))
    p = problem(c, d, c.rng.integers(2, 4, d))
    bases = bool(c.rng.random() < .7)
    s = canonical_solver(c, p, bases=bases)
    s.rank = int(c.rng.integers(1, 4 if d > 2 else 1 + min(3, min(p.n))))
    s.initialization_type = init
    r = s.rank
    if init == 'initial_guess':
        s.initial_guess = tensap.CanonicalTensor.randn(r, p.n)
    n = int(c.rng.integers(1, 7))
    s.alternating_minimization_parameters['max_iterations'] = n
    if factor != 'all':
        s.alternating_minimization_parameters['one_by_one_factor'] = factor == 'one' or bool(c.rng.random() < .5)
        s.alternating_minimization_parameters['inner_loops'] = int(c.rng.integers(1, 3))
        s.alternating_minimization_parameters['random'] = factor == 'shuffled'
    s.error_estimation = True
    ms = None
    if c.rng.random() < .5:
        ms = ['test_error', 'cv_error'][int(c.rng.integers(2))]
        s.model_selection_options['type'] = ms
    s.model_selection = ms is not None
    if r > 1:
        s.linear_model_learning.error_estimation_type = 'residuals'
    seed(c)
    with quiet(), c.frame('solve', p.x, p.y, p.xt, p.yt, s.initial_guess):
        f, out = s.solve()
    if init in ('random', 'initial_guess') and d > 2:
        c.true('rank of the returned tensor', len(tensor_of(f).core.data) == r)
    else:
        c.true('rank at most the given one', len(tensor_of(f).core.data) <= r)
    c.true('number of iterations', 1 <= len(out['iterates']) <= n)
    errors_reported(c, p, f, out, bases, ms, res=True)
    if d > 2 or factor == 'one':
        non_increasing(c, 'the empirical risk does not increase', out['error_iterations'])
    if ms == 'cv_error':
        c.true('not worse than any discarded iterate', out['error'] <= np.min(out['error_iterations']))


@harness('C19', [CL + f for f in ('_solve_greedy',)] + [TL + 'solve'], [{'select': m} for m in (None, 'test_error', 'cv_error')], symbolic=False, concrete=24, tol=1e-7)
def canonical_greedy(c, select):
    d = int(c.rng.integers(2, 5))
    p = problem(c, d, c.rng.integers(2, 4, d))
    bases = bool(c.rng.random() < .7)
    s = canonical_solver(c, p, bases=bases)
    s.algorithm = 'greedy'
    s.rank = int(c.rng.integers(1, 5))
    s.alternating_minimization_parameters['max_iterations'] = 5
    est = bool(c.rng.random() < .6) or select == 'cv_error'
    s.error_estimation = est
    s.model_selection = select is not None
    if select:
        s.model_selection_options['type'] = select
    seed(c)
    with quiet(), c.frame('solve', p.x, p.y, p.xt, p.yt):
        f, out = s.solve()
    its = out['iterates']
    te = np.asarray(out['test_error_iterations'])
    c.true('number of iterates', 1 <= len(its) <= s.rank and len(te) == len(its))
    for k, g in enumerate(its):
        c.eq('test error of iterate', te[k], np.sqrt(rel(p.yt, evaluate(p, g, p.xt))))
        c.true('rank of iterate', len(tensor_of(g).core.data) <= k + 1)
        if est:
            c.eq('error of iterate', out['errors'][k], rel(p.y, evaluate(p, g, p.x)), 1e-6)
    if est:
        non_increasing(c, 'the empirical risk does not increase', out['errors'])
    if select == 'test_error':
        k = int(np.argmin(te))
    elif est:
        k = int(np.argmin(out['errors']))
        c.eq('least error reported', out['error'], np.min(out['errors']))
    else:
        k = len(its) - 1
    c.eq('the returned function is the announced iterate', tensor_of(f).full().data, tensor_of(its[k]).full().data)
    c.eq('test error of the returned function', out['test_error'], np.sqrt(rel(p.yt, evaluate(p, f, p.xt))))
    if bases:
        c.eq('values of the returned function', np.asarray(f.eval(p.xt)).ravel(), evaluate(p, f, p.xt))


@harness('C19', [CL + f for f in ('local_solver', 'new_rank_selection', 'initial_guess_new_rank', 'adaptation_display')] + [TL + 'solve', TL + '_solve_adaptation', TL + 'adapt_tree'], [{'select': m, 'stop': t} for m in (None, 'test_error', 'cv_error') for t in (False, True)], symbolic=False, concrete=18, tol=1e-7)
def canonical_rank_adaptation(c, select, stop):
    d = int(c.rng.integers(2, 5))
    p = problem(c, d, c.rng.integers(2, 4, d))
    bases = bool(c.rng.random() < .7)
    s = canonical_solver(c, p, bases=bases)
    s.rank_adaptation = True
    n = int(c.rng.integers(1, 5))
    s.rank_adaptation_options['max_iterations'] = n
    s.rank_adaptation_options['early_stopping'] = stop
    s.rank_adaptation_options['early_stopping_factor'] = [1., 10.][int(c.rng.integers(2))]
    s.alternating_minimization_parameters['max_iterations'] = 4
    s.error_estimation = bool(c.rng.random() < .7) or select == 'cv_error'
    s.model_selection = select is not None
    if select:
        s.model_selection_options['type'] = select
    seed(c)
    with quiet(), c.frame('solve', p.x, p.y, p.xt, p.yt):
        f, out = s.solve()
    c.true('number of iterations', 1 <= len(out['iterates']) <= n)
    for k, g in enumerate(out['iterates']):
        c.true('rank of iterate', len(tensor_of(g).core.data) <= k + 1)
        if d > 2:
            c.true('rank of iterate is raised by one', len(tensor_of(g).core.data) == k + 1)
    errors_reported(c, p, f, out, bases, select, res=s.error_estimation)
    if d > 2 and s.error_estimation:
        non_increasing(c, 'the empirical risk does not increase', out['error_iterations'], 1e-7)


@harness('C19', CFUN, [{}], symbolic=False, concrete=20, tol=1e-6)
def canonical_recovery(c):
    """data of a function of the model class, exact initial guess"""
    d = int(c.rng.integers(2, 5))
    p = problem(c, d, c.rng.integers(2, 4, d))
    r = int(c.rng.integers(1, 3))
    t = tensap.CanonicalTensor.randn(r, p.n)
    p.y, p.yt = evaluate(p, t, p.x), evaluate(p, t, p.xt)
    bases = bool(c.rng.random() < .7)
    s = canonical_solver(c, p, bases=bases)
    s.rank = r
    s.initialization_type = 'initial_guess'
    s.initial_guess = t
    s.error_estimation = True
    s.model_selection = bool(c.rng.random() < .3)
    s.alternating_minimization_parameters['max_iterations'] = int(c.rng.integers(1, 4))
    if r > 1 and c.rng.random() < .5:
        s.alternating_minimization_parameters['one_by_one_factor'] = True
        s.alternating_minimization_parameters['inner_loops'] = 1
    seed(c)
    with quiet(), c.frame('solve', p.x, p.y, p.xt, p.yt, t):
        f, out = s.solve()
    c.eq('the function is kept', tensor_of(f).full().data, t.full().data)
    c.eq('no error', float(np.ravel(out['error'])[0]), 0.)
    c.eq('no test error', out['test_error'], 0.)

# -------------------------------------------------------------------- tree-based format
TFUN = [TB + f for f in ('__init__', 'initialize', 'prepare_alternating_minimization_system', 'set_parameter', 'stagnation_criterion', 'pre_processing', 'randomize_exploration_strategy', 'final_display')] + [TL + f for f in ('__init__', 'solve', '_solve_standard')]
KINDS = ['tt', 'ttt', 'balanced', 'linear', 'permuted', 'random', 'tucker']


def tree_solver(c, kind, d, loss=None):
    loss = loss or tensap.SquareLossFunction()
    if kind == 'tt':
        return tensap.TreeBasedTensorLearning.tensor_train(d, loss)
    if kind == 'ttt':
        return tensap.TreeBasedTensorLearning.tensor_train_tucker(d, loss)
    if kind == 'balanced':
        tr = tensap.DimensionTree.balanced(d)
    elif kind == 'linear':
        tr = tensap.DimensionTree.linear(d)
    elif kind == 'permuted':
        tr = tensap.DimensionTree.linear(list(c.rng.permutation(d)))
    elif kind == 'tucker':
        tr = tensap.DimensionTree.trivial(d)
    else:
        seed(c)
        tr = tensap.DimensionTree.random(d, 3)
    act = np.full(tr.nb_nodes, True)
    if c.rng.random() < .4:
        k = c.rng.permutation(tr.dim2ind)[:int(c.rng.integers(1, d))]
        act[k - 1] = False
    return tensap.TreeBasedTensorLearning(tr, act, loss)


def some_ranks(c, s, p, m=None):
    """admissible ranks of the tree of s"""
    tr, act = s.tree, np.array(s.is_active_node)
    if c.rng.random() < .4:
        return int(c.rng.integers(1, 3))
    r = np.zeros(tr.nb_nodes, dtype=int)
    r[act] = c.rng.integers(1, 4, np.count_nonzero(act))
    r[tr.root - 1] = m or 1
    for _ in range(10):
        for k in range(tr.nb_nodes):
            if not act[k] or k == tr.root - 1:
                continue
            if tr.is_leaf[k]:
                mx = p.n[int(np.nonzero(tr.dim2ind == k + 1)[0][0])]
            else:
                mx = np.prod([r[q - 1] if act[q - 1] else p.n[int(np.nonzero(tr.dim2ind == q)[0][0])] for q in tr.children(k + 1)])
            g = tr.parent(k + 1)
            sib = np.prod([r[q - 1] if act[q - 1] else p.n[int(np.nonzero(tr.dim2ind == q)[0][0])] for q in tr.children(g) if q != k + 1])
            r[k] = max(1, min(r[k], mx, sib * r[g - 1]))
    return r


def expected_ranks(s, r, m=None):
    tr, act = s.tree, np.array(s.is_active_node)
    if np.ndim(r) == 0:
        r = np.where(act, r, 0)
    r = np.array(r)
    r[tr.root - 1] = m or 1
    return r


def within(c, label, t, r):
    c.true(label, np.all(np.asarray(t.ranks) <= np.asarray(r)), 'ranks %r, bound %r' % (list(t.ranks), list(np.atleast_1d(r))))


INITS = ['random', 'ones', 'canonical', 'initial_guess', 'mean']


@harness('C19', TFUN + [TB + f for f in ('tensor_train', 'tensor_train_tucker', 'canonical_initialization', 'enriched_edges_to_ranks_random')], [{'kind': k, 'init': i} for k in KINDS for i in INITS], symbolic=False, concrete=9, tol=1e-7)
def tree_fixed_rank(c, kind, init):
    d = int(c.rng.integers(2, 5)) if kind not in ('permuted', 'balanced') else int(c.rng.integers(3, 5))
    p = problem(c, d, c.rng.integers(2, 4, d))
    m = None
    if init in ('random', 'initial_guess') and c.rng.random() < .35:
        m = int(c.rng.integers(2, 4))
        p = problem(c, d, p.n, m=m)
    bases = bool(c.rng.random() < .7)
    s = tree_solver(c, kind, d)
    setup(c, s, p, bases=bases)
    act = np.array(s.is_active_node)
    c.true('active leaves of the tensor train format', kind != 'tt' or np.count_nonzero(act[s.tree.dim2ind - 1]) == 1)
    c.true('active leaves of the tensor train tucker format', kind != 'ttt' or np.all(act))
    if init == 'mean':
        if not np.all(act):
            raise SkipCase
        s.rank = 1
    else:
        s.rank = some_ranks(c, s, p, m)
    r = expected_ranks(s, s.rank, m)
    seed(c)
    s.initialization_type = init
    if init == 'initial_guess':
        g = tensap.TreeBasedTensor.randn(s.tree, r, p.n, act)
        if not g.is_admissible_rank(r):
            raise SkipCase
        s.initial_guess = g
    n = int(c.rng.integers(1, 6))
    s.alternating_minimization_parameters['max_iterations'] = n
    s.alternating_minimization_parameters['random'] = bool(c.rng.random() < .3)
    s.error_estimation = True
    ms = None
    if c.rng.random() < .5:
        ms = ['test_error', 'cv_error'][int(c.rng.integers(2))]
        s.model_selection_options['type'] = ms
    s.model_selection = ms is not None
    with quiet(), c.frame('solve', p.x, p.y, p.xt, p.yt, s.initial_guess, s.tree):
        f, out = s.solve()
    t = tensor_of(f)
    c.same('ranks of the returned tensor', np.asarray(t.ranks), r)
    c.true('tree of the returned tensor', np.array_equal(t.tree.adjacency_matrix, s.tree.adjacency_matrix) and np.array_equal(t.tree.dim2ind, s.tree.dim2ind) and np.array_equal(t.is_active_node, act))
    c.true('number of iterations', 1 <= len(out['iterates']) <= n)
    errors_reported(c, p, f, out, bases, ms, res=True)
    non_increasing(c, 'the empirical risk does not increase', out['error_iterations'], 1e-7)
    if not s.alternating_minimization_parameters['random'] and init == 'initial_guess' and c.rng.random() < .5:
        c.stage('second call')
        with quiet():
            f2, out2 = s.solve()
        c.eq('solving again gives the same function', tensor_of(f2).full().data, t.full().data)
        c.eq('solving again gives the same test error', out2['test_error'], out['test_error'])


@harness('C19', TFUN, [{'kind': k} for k in KINDS], symbolic=False, concrete=18, tol=1e-6)
def tree_recovery(c, kind):
    d = int(c.rng.integers(2, 5)) if kind not in ('permuted', 'balanced') else int(c.rng.integers(3, 5))
    p = problem(c, d, c.rng.integers(2, 4, d))
    s = tree_solver(c, kind, d)
    act = np.array(s.is_active_node)
    m = int(c.rng.integers(2, 4)) if c.rng.random() < .3 else None
    r = expected_ranks(s, some_ranks(c, s, p, m), m)
    seed(c)
    g = tensap.TreeBasedTensor.randn(s.tree, r, p.n, act)
    if not g.is_admissible_rank(r):
        raise SkipCase
    p.y = np.zeros((len(p.x), m) if m else len(p.x))
    p.y, p.yt = evaluate(p, g, p.x), evaluate(p, g, p.xt)
    bases = bool(c.rng.random() < .7)
    setup(c, s, p, bases=bases)
    s.rank = r
    s.initialization_type = 'initial_guess'
    s.initial_guess = g
    s.error_estimation = True
    s.model_selection = bool(c.rng.random() < .3)
    s.alternating_minimization_parameters['max_iterations'] = int(c.rng.integers(1, 4))
    with quiet(), c.frame('solve', p.x, p.y, p.xt, p.yt, g):
        f, out = s.solve()
    c.eq('the function is kept', tensor_of(f).full().data, g.full().data)
    c.eq('no error', float(np.ravel(out['error'])[0]), 0.)
    c.eq('no test error', out['test_error'], 0.)


@harness('C19', [TB + f for f in ('new_rank_selection', 'initial_guess_new_rank', 'rank_one_correction', 'make_ranks_admissible', 'unique_tol', 'local_solver', 'adaptation_display')] + [TL + 'solve', TL + '_solve_adaptation'], [{'kind': k, 'correction': o, 'select': m} for k in KINDS for o in (True, False) for m in (None, 'test_error', 'cv_error')], symbolic=False, concrete=3, tol=1e-7)
def tree_rank_adaptation(c, kind, correction, select):
    d = int(c.rng.integers(2, 5)) if kind not in ('permuted', 'balanced') else int(c.rng.integers(3, 5))
    m = int(c.rng.integers(2, 4)) if c.rng.random() < .3 else None
    p = problem(c, d, c.rng.integers(2, 4, d), m=m)
    bases = bool(c.rng.random() < .7)
    s = tree_solver(c, kind, d)
    setup(c, s, p, bases=bases)
    s.rank_adaptation = True
    n = int(c.rng.integers(1, 5))
    o = s.rank_adaptation_options
    o['max_iterations'], o['rank_one_correction'], o['theta'] = n, correction, [.8, .3, 1.][int(c.rng.integers(3))]
    o['early_stopping'], o['early_stopping_factor'] = bool(c.rng.random() < .3), 1.
    s.alternating_minimization_parameters['max_iterations'] = 3
    s.tree_adaptation = bool(c.rng.random() < .4)
    s.tree_adaptation_options['tolerance'] = 1e-2 if c.rng.random() < .7 else None
    s.tree_adaptation_options['max_iterations'] = 10
    s.tree_adaptation_options['force_rank_adaptation'] = bool(c.rng.random() < .5)
    s.error_estimation = bool(c.rng.random() < .7) or select == 'cv_error' or s.tree_adaptation
    s.model_selection = select is not None
    if select:
        s.model_selection_options['type'] = select
    if m:
        # documented: rank adaptation by DMRG is disabled for vector-valued functions
        o['type'] = ['standard', 'dmrg', 'dmrg_low_rank'][int(c.rng.integers(3))]
    seed(c)
    with quiet(), c.frame('solve', p.x, p.y, p.xt, p.yt):
        f, out = s.solve()
    its = out['iterates']
    c.true('number of iterations', 1 <= len(its) <= n)
    for g in its:
        t = tensor_of(g)
        c.true('admissible ranks', t.is_admissible_rank(t.ranks))
        c.true('rank of the root', t.ranks[t.tree.root - 1] == (m or 1))
    if not s.tree_adaptation:
        for a, b in zip(its, its[1:]):
            a, b = np.asarray(tensor_of(a).ranks), np.asarray(tensor_of(b).ranks)
            c.true('ranks are raised by at most one', np.all(b >= a) and np.all(b <= a + 1), '%r -> %r' % (a, b))
    errors_reported(c, p, f, out, bases, select, res=s.error_estimation and not s.tree_adaptation)


@harness('C19', [TB + f for f in ('new_rank_selection', 'initial_guess_new_rank', 'make_ranks_admissible', 'enriched_edges_to_ranks_random', 'adapt_tree', 'rank_one_correction', 'canonical_correction')], [{'kind': k} for k in KINDS], symbolic=False, concrete=24, tol=1e-7)
def rank_selection(c, kind):
    """the operations between two iterations of the adaptation"""
    d = int(c.rng.integers(2, 5)) if kind not in ('permuted', 'balanced') else int(c.rng.integers(3, 5))
    p = problem(c, d, c.rng.integers(2, 5, d), N=60)
    s = tree_solver(c, kind, d)
    setup(c, s, p, test=False)
    act = np.array(s.is_active_node)
    r = expected_ranks(s, some_ranks(c, s, p))
    seed(c)
    t = tensap.TreeBasedTensor.randn(s.tree, r, p.n, act)
    if not t.is_admissible_rank(r):
        raise SkipCase
    full = np.array(t.full().data)
    c.stage('admissible ranks')
    add = np.where(act, 1, 0)
    add[s.tree.root - 1] = 0
    q, changed = tensap.TreeBasedTensorLearning.make_ranks_admissible(t, t.ranks + add)
    c.true('admissible ranks', t.is_admissible_rank(q))
    c.true('ranks raised by at most one', np.all(q >= r) and np.all(q <= r + add))
    c.same('nodes of changed rank', np.sort(changed), np.nonzero(np.asarray(q) != r)[0] + 1)
    if t.is_admissible_rank(r + add):
        c.same('an admissible request is granted', q, r + add)
    c.stage('rank selection')
    s.rank = r
    s.rank_adaptation_options['rank_one_correction'] = bool(c.rng.random() < .5)
    s.rank_adaptation_options['theta'] = float(c.rng.uniform(.1, 1))
    s.linear_model_learning.error_estimation = False
    s.bases_eval = p.bases.eval(p.x)
    f = tensap.FunctionalTensor(copy.deepcopy(t), s.bases_eval)
    with quiet(), c.frame('new_rank_selection', f, p.x, p.y):
        new, nodes, g = s.new_rank_selection(f)
    c.eq('the function is unchanged', f.tensor.full().data, full)
    new = np.asarray(new)
    c.true('new ranks are admissible', t.is_admissible_rank(new))
    e = np.array(r)
    e[np.asarray(nodes, dtype=int) - 1] += 1
    c.same('enriched nodes are those whose rank is raised', new, e)
    c.true('neither the root nor inactive nodes are enriched', new[s.tree.root - 1] == r[s.tree.root - 1] and np.all(new[~act] == r[~act]))
    g_full = np.array(g.full().data)
    loc = s.local_solver()
    with quiet(), c.frame('initial_guess_new_rank', g):
        loc = s.initial_guess_new_rank(loc, g, new)
    within(c, 'ranks of the initial guess', loc.initial_guess, np.maximum(new, 0))
    if np.all(np.asarray(g.ranks) <= new):
        c.eq('raising the ranks keeps the function', loc.initial_guess.full().data, g_full)
    c.stage('random enrichment')
    h = copy.deepcopy(t)
    h = tensap.TreeBasedTensorLearning.enriched_edges_to_ranks_random(h, np.array(q))
    c.same('requested ranks are reached', np.asarray(h.ranks), np.asarray(q))
    for k in range(s.tree.nb_nodes):
        a, b = np.asarray(t.tensors[k].data), np.asarray(h.tensors[k].data)
        if act[k]:
            c.eq('existing coefficients are kept', b[tuple(slice(0, v) for v in a.shape)], a)
    c.stage('corrections')
    with quiet(), c.frame('rank_one_correction', f, p.x, p.y):
        h = s.rank_one_correction(f)
    c.true('rank-one correction has ranks raised by one at most', np.all(np.asarray(h.ranks)[act] <= np.asarray(r)[act] + 1))
    c.true('rank-one correction does not increase the empirical risk', rel(p.y, evaluate(p, h, p.x)) <= rel(p.y, evaluate(p, f, p.x)) * (1 + 1e-9))
    c.stage('the tree of the solver follows the one of the function')
    o = copy.deepcopy(s)
    o.tree_adaptation = True
    o.tree_adaptation_options.update(tolerance=1e-3, max_iterations=7)
    w = tensap.DimensionTree.random(d, 3)
    wa = np.ones(w.nb_nodes, dtype=bool)
    if c.rng.random() < .5:
        wa[w.dim2ind[1:] - 1] = False
    asked, h, k = [], tensap.TreeBasedTensor.ones(w, 1, p.n, wa), copy.deepcopy(f)

    def reduced(tolerance, iterations):
        asked.append((tolerance, iterations))
        return h
    k.tensor.optimize_dimension_tree = reduced
    with quiet():
        o2, k, out = o.adapt_tree(k, None, None, {})
    c.true('tolerance and number of trials given to the optimization', asked == [(1e-3, 7)])
    c.true('adapted when the storage is reduced', bool(out['adapted_tree']) == bool(h.storage() < t.storage()))
    if out['adapted_tree']:
        c.eq('the function is the one of the optimization', k.tensor.full().data, h.full().data)
        c.same('tree of the solver', o2.tree.adjacency_matrix, w.adjacency_matrix)
        c.same('leaves of the solver', o2.tree.dim2ind, w.dim2ind)
        c.same('active nodes of the solver', o2.is_active_node, h.is_active_node)
    else:
        c.eq('the function is the given one', k.tensor.full().data, full)
        c.same('tree of the solver', o2.tree.adjacency_matrix, t.tree.adjacency_matrix)
    c.stage('tree adaptation')
    s.tree_adaptation = True
    tol = [1e-8, 1e-2, .3][int(c.rng.integers(3))]
    s.tree_adaptation_options['tolerance'] = tol
    s.tree_adaptation_options['max_iterations'] = 10
    old = f.tensor.storage()
    with quiet():
        s2, g, out = s.adapt_tree(f, None, None, {})
    v = np.asarray(g.tensor.full().data)
    c.true('the function is kept within the tolerance', np.linalg.norm(v - full) <= tol * (1 + 1e-6) * np.linalg.norm(full))
    if out['adapted_tree']:
        c.true('the storage is reduced', g.tensor.storage() < old)
        c.true('the tree of the solver is the one of the function', np.array_equal(s2.tree.adjacency_matrix, g.tensor.tree.adjacency_matrix) and np.array_equal(s2.tree.dim2ind, g.tensor.tree.dim2ind) and np.array_equal(s2.is_active_node, g.tensor.is_active_node))
    else:
        c.true('the representation is kept', g.tensor.storage() == old)
        c.eq('the function is kept', v, full)


@harness('C19', [TB + f for f in ('_solve_dmrg_rank_adaptation', 'create_basis_adaptation_path_dmrg', 'create_basis_adaptation_path_dmrg_low_rank')] + [TL + 'solve'], [{'kind': k, 'type': t} for k in KINDS for t in ('dmrg', 'dmrg_low_rank')], symbolic=False, concrete=9, tol=1e-6)
def dmrg(c, kind, type):
    d = int(c.rng.integers(2, 5)) if kind not in ('permuted', 'balanced') else int(c.rng.integers(3, 5))
    p = problem(c, d, c.rng.integers(2, 4, d), N=100)
    bases = bool(c.rng.random() < .7)
    s = tree_solver(c, kind, d)
    setup(c, s, p, bases=bases)
    s.rank_adaptation = True
    R = int(c.rng.integers(1, 5))
    o = s.rank_adaptation_options
    o['type'], o['max_rank'] = type, R
    o['post_alternating_minimization'] = bool(c.rng.random() < .4)
    s.tolerance['on_error'] = 1e-6
    s.initialization_type = 'random'
    s.rank = 1
    n = int(c.rng.integers(1, 4))
    s.alternating_minimization_parameters['max_iterations'] = n
    s.alternating_minimization_parameters['random'] = bool(c.rng.random() < .3)
    s.tree_adaptation = bool(c.rng.random() < .3)
    s.tree_adaptation_options['tolerance'] = 1e-2
    s.tree_adaptation_options['max_iterations'] = 10
    s.error_estimation = True
    if bases and c.rng.random() < .3:
        s.linear_model_learning.basis_adaptation = True
        s.linear_model_learning.error_estimation_type = 'leave_out'
    ms = [None, 'test_error', 'cv_error'][int(c.rng.integers(3))]
    s.model_selection = ms is not None
    if ms:
        s.model_selection_options['type'] = ms
    seed(c)
    with quiet(), c.frame('solve', p.x, p.y, p.xt, p.yt):
        f, out = s.solve()
    its = out['iterates']
    c.true('number of iterations', 1 <= len(its) <= n)
    for g in its:
        t = tensor_of(g)
        if not s.tree_adaptation:
            c.true('ranks at most the maximal one', np.max(t.ranks) <= R, 'ranks %r, bound %d' % (list(t.ranks), R))
    t = tensor_of(f)
    c.true('rank of the root', t.ranks[t.tree.root - 1] == 1)
    if s.tree_adaptation:
        te = np.sqrt(rel(p.yt, evaluate(p, f, p.xt)))
        if ms:
            c.eq('test error is that of the returned function', out['test_error'], te)
    else:
        errors_reported(c, p, f, out, bases, ms)


@harness('C19', [TB + f for f in ('_solve_dmrg_rank_adaptation', 'create_basis_adaptation_path_dmrg', 'create_basis_adaptation_path_dmrg_low_rank')] + [TL + 'solve'], [{'kind': k, 'type': t} for k in KINDS for t in ('dmrg', 'dmrg_low_rank')], symbolic=False, concrete=6, tol=1e-5)
def dmrg_recovery(c, kind, type):
    d = int(c.rng.integers(2, 5)) if kind not in ('permuted', 'balanced') else int(c.rng.integers(3, 5))
    p = problem(c, d, c.rng.integers(2, 4, d), N=250)
    s = tree_solver(c, kind, d)
    act = np.array(s.is_active_node)
    r = expected_ranks(s, some_ranks(c, s, p))
    seed(c)
    g = tensap.TreeBasedTensor.randn(s.tree, r, p.n, act)
    if not g.is_admissible_rank(r):
        raise SkipCase
    p.y, p.yt = evaluate(p, g, p.x), evaluate(p, g, p.xt)
    setup(c, s, p, bases=bool(c.rng.random() < .7))
    s.rank_adaptation = True
    o = s.rank_adaptation_options
    o['type'], o['max_rank'], o['post_alternating_minimization'] = type, int(np.max(r)) + 1, False
    s.tolerance['on_error'] = 1e-8
    s.initialization_type, s.initial_guess, s.rank = 'initial_guess', g, r
    s.alternating_minimization_parameters['max_iterations'] = 2 if type == 'dmrg' else 8
    s.alternating_minimization_parameters['random'] = bool(c.rng.random() < .3)
    s.error_estimation = True
    with quiet(), c.frame('solve', p.x, p.y, p.xt, p.yt, g):
        f, out = s.solve()
    c.eq('the function is kept', tensor_of(f).full().data, g.full().data)
    c.eq('no test error', out['test_error'], 0.)


@harness('C19', [TB + f for f in ('create_basis_adaptation_path', 'prepare_alternating_minimization_system', 'initialize')] + [TL + '_solve_standard', CL + 'prepare_alternating_minimization_system'], [{'kind': k} for k in KINDS + ['canonical']], symbolic=False, concrete=18, tol=1e-7)
def basis_adaptation(c, kind):
    d = int(c.rng.integers(2, 4)) if kind not in ('permuted', 'balanced') else 3
    p = problem(c, d, c.rng.integers(2, 5, d), N=100)
    s = tree_solver(c, kind, d) if kind != 'canonical' else tensap.CanonicalTensorLearning(d, tensap.SquareLossFunction())
    setup(c, s, p)
    s.linear_model_learning.basis_adaptation = True
    s.linear_model_learning.error_estimation_type = 'leave_out'
    s.error_estimation = True
    s.initialization_type = 'random'
    s.rank = int(c.rng.integers(1, 3))
    if kind == 'canonical' and c.rng.random() < .4:
        s.alternating_minimization_parameters['one_by_one_factor'] = True
        s.alternating_minimization_parameters['inner_loops'] = 1
    s.alternating_minimization_parameters['max_iterations'] = 3
    ms = [None, 'test_error', 'cv_error'][int(c.rng.integers(3))]
    s.model_selection = ms is not None
    if ms:
        s.model_selection_options['type'] = ms
    seed(c)
    with quiet(), c.frame('solve', p.x, p.y, p.xt, p.yt):
        f, out = s.solve()
    if kind == 'canonical' and any(np.linalg.norm(g.tensor.core.data) > 1e4 * g.tensor.norm() for g in out['iterates']):
        # nearly opposite terms of rank one: the errors carry the rounding errors
        raise SkipCase
    errors_reported(c, p, f, out, True, ms)
    if kind == 'canonical':
        return
    c.stage('paths of patterns')
    t = tensor_of(f)
    tr, act = s.tree, np.array(s.is_active_node)
    pats = p.bases.adaptation_path()
    s.bases_adaptation_path = pats
    for k in np.nonzero(act)[0]:
        rk = 1 if k + 1 == tr.root else t.ranks[k]
        P = np.asarray(s.create_basis_adaptation_path(t.ranks, k + 1))
        if tr.is_leaf[k]:
            e = np.asarray(pats[int(np.nonzero(tr.dim2ind == k + 1)[0][0])]).astype(bool)
            c.same('patterns of a leaf', P[:, :e.shape[1]], np.tile(e, (rk, 1)))
            c.true('patterns of a leaf: only repetitions', all(any(np.array_equal(P[:, j], np.tile(e[:, i], rk)) for i in range(e.shape[1])) for j in range(P.shape[1])))
        else:
            ch = tr.children(k + 1)
            sizes = [t.ranks[q - 1] if act[q - 1] else p.n[int(np.nonzero(tr.dim2ind == q)[0][0])] for q in ch]
            P = P.reshape(-1, 1) if P.ndim == 1 else P
            c.true('number of coefficients of a node', P.shape[0] == int(np.prod(sizes)) * rk)
            e = np.ones((1, 1), dtype=bool)
            for q, n in zip(ch, sizes):
                b = np.ones((n, 1), dtype=bool) if act[q - 1] else np.asarray(pats[int(np.nonzero(tr.dim2ind == q)[0][0])]).astype(bool)
                e = np.kron(b, e)
            c.same('patterns of an internal node', P.astype(bool), np.tile(e, (rk, 1)))


@harness('C19', TFUN + [TL + '_solve_adaptation'], [{'kind': k, 'adapt': a} for k in ('ttt', 'balanced', 'tucker') for a in (False, True)], symbolic=False, concrete=12, tol=1e-7)
def density(c, kind, adapt):
    """L2 estimation of a density"""
    d = 3 if kind == 'balanced' else int(c.rng.integers(2, 4))
    p = problem(c, d, c.rng.integers(2, 4, d), N=60)
    p.x = np.tanh(p.x + .3)
    s = tree_solver(c, kind, d, tensap.DensityL2LossFunction())
    setup(c, s, p, test=False)
    s.training_data, s.test_data, s.test_error = p.x, p.xt, True
    s.tolerance['on_error'] = -np.inf
    s.initialization_type = 'random'
    s.rank = 1
    s.error_estimation = True
    s.rank_adaptation = adapt
    s.rank_adaptation_options['max_iterations'] = 3
    s.alternating_minimization_parameters['max_iterations'] = 4
    ms = ['test_error', None][int(c.rng.integers(2))]
    s.model_selection = ms is not None
    seed(c)
    with quiet(), c.frame('solve', p.x, p.xt):
        f, out = s.solve()

    def risk(g, x):
        a = np.asarray(tensor_of(g).full().data)
        return np.sum(a ** 2) - 2 * np.mean(evaluate(p, g, x))
    c.eq('reported risk is that of the returned function', float(out['test_error']), risk(f, p.xt))
    R = []
    for k, g in enumerate(out['iterates']):
        c.eq('risk of iterate', float(out['test_error_iterations'][k]), risk(g, p.xt))
        R.append(risk(g, p.x))
    if not adapt:
        non_increasing(c, 'the empirical risk does not increase', R)
    if ms:
        c.true('least risk', out['test_error'] <= np.min(out['test_error_iterations']))
    c.stage('rank-one correction')
    s.training_data, s.error_estimation = p.x, False
    s.tree = tensor_of(f).tree
    h = tensap.FunctionalTensor(tensor_of(f), s.bases_eval)
    seed(c)
    with quiet(), c.frame('rank_one_correction', h, p.x):
        g = s.rank_one_correction(h)
    B = p.bases.eval(p.x)
    best = B[0]
    for b in B[1:]:
        best = np.einsum('n...,ni->n...i', best, b)
    if np.linalg.norm(np.mean(best, 0) - np.asarray(tensor_of(f).full().data)) < 1e-6:
        # already the minimiser over the whole space: the correction is zero, and the
        # solver returns its initial guess
        raise SkipCase
    c.true('rank-one correction does not increase the empirical risk', risk(g, p.x) <= risk(f, p.x) + 1e-9, '%r, before %r' % (risk(g, p.x), risk(f, p.x)))


# -------------------------------------------------------------------- the outer algorithms
class AnyLinear:
    """contract of a linear solver: some coefficients, an error that depends on them"""
    basis_adaptation = False
    error_estimation = False

    def __init__(self, c):
        n = [0]

        def draw():
            n[0] += 1
            v = c.scals('x%d' % n[0], 2)
            c.assume(bool(v[0] * v[0] > c.const(1, 100)))
            return v
        self.draw = draw
        self.er = c.er

    def solve(self):
        v = self.draw()
        return v, ({'error': self.er(v[:1])} if self.error_estimation else {})


class AnyLearning(tensap.TensorLearning):
    """contract of the formats: an iterate is a pair of numbers; the error of the linear
    solver depends on the first, the test error on both"""

    def __init__(self, c, parameters=1):
        tensap.TensorLearning.__init__(self, tensap.SquareLossFunction())
        self.linear_model_learning = AnyLinear(c)
        self.order = 1
        self._number_of_parameters = parameters
        self._exploration_strategy = np.arange(1, parameters + 1)
        te, st = c.te, c.st
        self.loss_function.test_error = lambda f, data: te(np.ravel(tensor_of(f).data))
        self.stagnation = lambda f, g: st(list(np.ravel(f.tensor.data)) + list(np.ravel(g.tensor.data)))
        new = c.fresh = lambda name, n=[0]: (n.__setitem__(0, n[0] + 1), c.scal('%s%d' % (name, n[0])))[1]
        self.new = new
        self.local_error = c.er
        self._warnings = {'orthonormality_warning_display': False, 'empty_bases_warning_display': False}

    def initialize(self):
        return self, Pair(np.array([self.new('i'), self.new('i')]))

    def pre_processing(self, f):
        return self, f

    def randomize_exploration_strategy(self):
        return self._exploration_strategy[::-1]

    def prepare_alternating_minimization_system(self, f, mu):
        return self, None, None, f

    def set_parameter(self, f, mu, coef):
        f.tensor = Pair(np.array(coef))
        return f

    def stagnation_criterion(self, f, f0):
        return self.stagnation(f, f0)

    def final_display(self, f):
        pass

    def adaptation_display(self, f, nodes):
        pass

    def local_solver(self):
        s = Problem()
        s.tree_adaptation = self.tree_adaptation
        s.model_selection = None

        def solve():
            v = [self.new('v'), self.new('w')]
            return tensap.FunctionalTensor(Pair(np.array(v)), self.bases_eval), {'error': self.local_error(v[:1])} if self.error_estimation else {}
        s.solve = solve
        return s

    def new_rank_selection(self, f):
        return 2, [1], copy.deepcopy(f.tensor)

    def initial_guess_new_rank(self, s, f, rank):
        s.initial_guess = f
        return s

    def adapt_tree(self, f, cv_error, test_error, output, *args):
        if self.adapts:
            f = tensap.FunctionalTensor(Pair(np.array([f.tensor.data[0], self.new('a')])), f.bases)
        output['adapted_tree'] = bool(self.adapts)
        return self, f, output


AnyLearning.__abstractmethods__ = frozenset()


class Pair(tensap.FullTensor):
    ranks = 2


def outer(c, parameters=1):
    # the same functions everywhere: a number for every content
    if c.symbolic:
        er, te, st = c.fun('er'), c.fun('te'), c.fun('st')
    else:
        w = c.rng.standard_normal(4)
        er = lambda v: abs(float(np.sin(w[0] + 5 * np.ravel(v)[0])))
        te = lambda v: abs(float(np.cos(w[1] + 3 * np.ravel(v)[0] + 2 * np.ravel(v)[1])))
        st = lambda v: abs(float(np.sin(w[2] + np.sum(v))))
    c.er, c.te, c.st = er, te, st
    s = AnyLearning(c, parameters)
    s.display = False
    s.bases_eval = s.bases_eval_test = [np.ones((1, 2))]
    s.training_data, s.test_data = [None, np.ones(1)], [None, np.ones(1)]
    s.tolerance = {'on_error': .01, 'on_stagnation': .01}
    return s


def outer_reports(c, s, f, out, select, test, est):
    content = lambda g: np.ravel(tensor_of(g).data)
    its = list(out['iterates'])
    te, er = list(out.get('test_error_iterations', [])), list(out.get('error_iterations', []))
    c.true('at least one iterate', len(its) > 0)
    if test:
        c.same('one test error per iterate', len(te), len(its))
        for t, g in zip(te, its):
            c.eq('test error of the iterate', t, c.te(content(g)))
        c.eq('test error of the returned function', out['test_error'], c.te(content(f)))
    if est:
        c.same('one error per iterate', len(er), len(its))
        for t, g in zip(er, its):
            c.eq('error of the iterate', t, c.er(content(g)[:1]))
        c.eq('error of the returned function', out['error'], c.er(content(f)[:1]))
    if select:
        k = int(out['selected_model_number'])
        e = te if select == 'test_error' else er
        for t in e:
            c.le('no discarded iterate has a smaller error', e[k], t)
    else:
        k = len(its) - 1
    c.eq('the returned function is the announced iterate', content(f), content(its[k]))
    return its, te, er


SEL = [dict(test=t, est=e, select=m) for t, e, m in ((True, False, None), (False, True, None), (True, True, None), (True, False, 'test_error'), (True, True, 'test_error'), (False, True, 'cv_error'), (True, False, 'cv_error'), (True, True, 'cv_error'))]


@harness('C19', [TL + f for f in ('__init__', 'solve', '_solve_standard')], [dict(m, n=n, parameters=p, shuffled=r) for m in SEL for n, p, r in ((1, 1, False), (2, 2, False), (3, 1, False), (2, 3, True))], concrete=10, engine='scalar', paths=2000)
def standard_any_format(c, test, est, select, n, parameters, shuffled):
    """_solve_standard and solve against the contracts of the format and of the linear solver,
    for every sequence of errors and stagnations"""
    s = outer(c, parameters)
    s.test_error, s.error_estimation = test, est
    s.model_selection = select is not None
    s.model_selection_options['type'] = select
    s.alternating_minimization_parameters.update(max_iterations=n, stagnation=.01, random=shuffled)
    with quiet():
        f, out = s.solve()
    its, te, er = outer_reports(c, s, f, out, select, test, est or select == 'cv_error')
    c.true('number of iterations', len(its) <= n and out['iter'] == len(its) - 1)
    c.same('one stagnation per iterate', len(out['stagnation_criterion']), len(its))
    if out['flag'] == 0:
        c.same('all iterations unless a criterion is met', len(its), n)
    else:
        last = out['stagnation_criterion'][-1]
        ok = len(its) > 1 and bool(last < .01) or test and bool(te[-1] < .01)
        c.true('a criterion is met', ok)


@harness('C19', [TL + f for f in ('__init__', 'solve', '_solve_adaptation', 'adapt_tree')], [dict(m, n=n, stop=s, tree=t) for m in SEL for n, s, t in ((1, False, None), (2, True, None), (3, True, None), (3, False, True), (3, True, True), (2, False, False)) if n < 3 or not (m['test'] and m['est'])], concrete=10, engine='scalar', paths=2000)
def adaptation_any_format(c, test, est, select, n, stop, tree):
    """_solve_adaptation and solve against the contracts of the format and of the solver with fixed ranks"""
    s = outer(c)
    s.test_error, s.error_estimation = test, est
    s.model_selection = select is not None
    s.model_selection_options['type'] = select
    s.rank_adaptation = True
    s.rank_adaptation_options.update(max_iterations=n, early_stopping=stop, early_stopping_factor=2)
    s.tree_adaptation, s.adapts = tree is not None, tree
    with quiet():
        f, out = s.solve()
    its, te, er = outer_reports(c, s, f, out, select, test, est or select == 'cv_error')
    c.true('number of iterations', len(its) <= n)
    c.same('one list of enriched nodes per iterate', len(out['enriched_nodes_iterations']), len(its))
    if stop and not tree:
        for e in ([te] if te else []) + ([er] if er else []):
            for k in range(1, len(e) - 1):
                for j in range(k):
                    c.le('no iteration after a large increase of the error', e[k], 2 * e[j])
    if out['flag'] == 1:
        c.true('tolerance met', te and bool(te[-1] < .01) or er and bool(er[-1] < .01))
