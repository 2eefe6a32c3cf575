"""C14: linear-model learning and loss functions."""
import copy
import io
import contextlib
import warnings
import numpy as np
import tensap
from vt.ctx import harness, SkipCase

SQ = 'LinearModelLearningSquareLoss.'
DL = 'LinearModelLearningDensityL2.'
quiet = lambda: contextlib.redirect_stdout(io.StringIO())


def design(c, N, P):
    """well conditioned evaluations of P functions at N points"""
    A = c.rng.integers(-4, 5, size=(N, P)) / 2.0 + c.rng.standard_normal((N, P)) / 8
    if min(N, P) and np.linalg.cond(A) > 1e3:
        raise SkipCase
    return A


def ls(A, y):
    return np.linalg.lstsq(A, y, rcond=None)[0]


def expected_errors(A, y, kind, options, seed=None, gram=None, correction=True):
    """(error, residuals) of one column y by refitting on the retained samples"""
    N, P = A.shape
    if kind == 'residuals':
        d = y - A @ ls(A, y)
        return np.mean(d ** 2) / np.mean(y ** 2), d
    k = options.get('number_of_folds', min(10, N))
    if kind == 'leave_out' or k == N:
        if N - 1 < P:
            return np.inf, np.full(N, np.inf)
        folds = [[i] for i in range(N)]
    else:
        from sklearn.model_selection import KFold
        k = min(N, k)
        if N * (1 - 1 / k) < P:
            return np.inf, np.full(N, np.inf)
        np.random.seed(seed)
        folds = [t for _, t in KFold(n_splits=k, shuffle=True).split(A)]
        if any(N - len(t) < P for t in folds):
            raise SkipCase
    d = np.zeros(N)
    for t in folds:
        keep = np.setdiff1d(np.arange(N), t)
        if P and np.linalg.cond(A[keep]) > 1e4:
            raise SkipCase
        d[t] = y[t] - A[t] @ ls(A[keep], y[keep])
    e = np.mean([np.mean(d[t] ** 2) for t in folds]) / np.mean(y ** 2)
    if correction and N != P:
        C = np.linalg.inv(A.T @ A)
        e = e * N / (N - P) * (1 + np.trace(C if gram is None else C @ gram))
    return np.sqrt(e), d


def problem(c, cfg):
    N = int(c.rng.integers(2, 12))
    P = int(c.rng.integers(1, 6))
    if cfg.get('tall', True) and P >= N:
        P = max(1, N - 1)
    n = {'vector': None, 'column': 1, 'matrix': int(c.rng.integers(2, 4)), 'shared': int(c.rng.integers(1, 4))}[cfg['y']]
    if cfg['y'] == 'shared':
        A = np.stack([design(c, N, P) for _ in range(n)], 2)
    else:
        A = design(c, N, P)
    y = c.rng.standard_normal(N if n is None else (N, n)) * 2 + 0.5
    if cfg['y'] == 'shared' and n == 1 and c.rng.random() < .5:
        y = y[:, 0]
    return N, P, n, A, y


def stacked(cfg, A, y):
    """the equivalent two-dimensional problem: samples x outputs in one column"""
    if cfg['y'] != 'shared':
        return A, y
    n = A.shape[2]
    y = y.reshape(-1, n)
    return np.concatenate([A[:, :, k] for k in range(n)]), np.concatenate([y[:, k] for k in range(n)])[:, None]


def columns(y):
    return y.reshape(y.shape[0], -1)


YS = ['vector', 'column', 'matrix', 'shared']


@harness('C14', [SQ + '__init__', SQ + 'solve', SQ + '_solve_ols', SQ + '_compute_cv_error', 'LinearModelLearning.__init__', 'Learning.__init__'],
         [{'y': y, 'error': e, 'solver': s} for y in YS for e in (None, 'residuals', 'leave_out', 'k_fold') for s in ('qr', 'solve')], symbolic=False, concrete=12, tol=1e-6)
def least_squares(c, **cfg):
    N, P, n, A, y = problem(c, cfg)
    S = tensap.LinearModelLearningSquareLoss()
    S.linear_solver = cfg['solver']
    w = None
    if c.rng.random() < .4:
        w = c.rng.integers(1, 9, size=N) / 4.0
        S.weights = w if c.rng.random() < .5 else list(w)
    S.basis_eval = A
    S.training_data = [None, y]
    opt = {'correction': bool(c.rng.random() < .5)}
    B, z = stacked(cfg, A, y)
    if w is not None:
        W = np.sqrt(np.tile(w, B.shape[0] // N))[:, None]
        B, z = W * B, (W * columns(z)).reshape(z.shape)
    if cfg['error'] == 'k_fold' and c.rng.random() < .7:
        opt['number_of_folds'] = int(c.rng.integers(2, B.shape[0] + 1))
    gram = None
    if c.rng.random() < .3:
        gram = c.rng.standard_normal((P, P))
        gram = gram @ gram.T
        opt['gram_matrix'] = gram
    S.error_estimation = cfg['error'] is not None
    if cfg['error']:
        S.error_estimation_type = cfg['error']
    S.error_estimation_options = opt
    opt0 = dict(opt)
    seed = int(c.rng.integers(0, 1000))
    np.random.seed(seed)
    with c.frame('solve', A, y):
        sol, out = S.solve()
    c.eq('stationarity of the (weighted) squared error', B.T @ (B @ sol.reshape(P, -1) - columns(z)), np.zeros((P, columns(z).shape[1])), tol=1e-7)
    c.true('state of the solver', S.basis_eval is A and S.training_data[1] is y and S.error_estimation_options == opt0 and S.error_estimation_type == (cfg['error'] or 'leave_out'))
    if cfg['error']:
        c.stage('errors')
        E = [expected_errors(B, x, cfg['error'], opt, seed, gram, opt['correction']) for x in columns(z).T]
        if any(not np.isfinite(e) for e, _ in E):
            c.true('infinite error', not np.any(np.isfinite(out['error'])))
            return
        c.eq('errors', np.ravel(out['error']), np.array([e for e, _ in E]), tol=1e-6)
        c.eq('residuals', np.reshape(out['delta'], (B.shape[0], -1)), np.stack([d for _, d in E], 1), tol=1e-6)


@harness('C14', [SQ + '_solve_ols'], [{'y': y} for y in YS], symbolic=False, concrete=15, tol=1e-6)
def wide(c, **cfg):
    """fewer samples than functions"""
    N, P, n, A, y = problem(c, dict(cfg, tall=False))
    S = tensap.LinearModelLearningSquareLoss()
    S.linear_solver = 'solve' if c.rng.random() < .5 else 'qr'
    S.basis_eval, S.training_data = A, [None, y]
    B, z = stacked(cfg, A, y)
    if np.linalg.matrix_rank(B) < min(B.shape):
        raise SkipCase
    if S.linear_solver == 'solve' and B.shape[1] > B.shape[0]:
        raise SkipCase
    sol, _ = S.solve()
    c.eq('stationarity of the squared error', B.T @ (B @ sol.reshape(P, -1) - columns(z)), np.zeros((P, columns(z).shape[1])), tol=1e-6)


def candidates(path, N):
    """distinct nonempty patterns with at most N functions, in order of first appearance"""
    out = []
    for j in range(path.shape[1]):
        p = path[:, j] != 0
        if p.any() and p.sum() <= N and not any(np.array_equal(p, q) for q in out):
            out.append(p)
    return out


@harness('C14', [SQ + '_solve_basis_adaptation', SQ + '_select_optimal_path', SQ + 'solve'], [{'y': y, 'error': e} for y in ('vector', 'column', 'matrix', 'shared') for e in ('leave_out', 'k_fold')], symbolic=False, concrete=20, tol=1e-6)
def basis_adaptation(c, **cfg):
    N, P, n, A, y = problem(c, cfg)
    if cfg['error'] == 'k_fold' and cfg['y'] == 'matrix':
        raise SkipCase
    S = tensap.LinearModelLearningSquareLoss()
    S.basis_adaptation = True
    S.linear_solver = 'solve' if c.rng.random() < .5 else 'qr'
    S.basis_eval, S.training_data = A, [None, y]
    path = None
    if c.rng.random() < .6:
        path = c.rng.random((P, int(c.rng.integers(1, 5)))) < .5
        S.basis_adaptation_path = path
        if not path.any():
            raise SkipCase
    S.error_estimation_type = cfg['error']
    opt = {'correction': bool(c.rng.random() < .5)}
    if c.rng.random() < .3:
        g = c.rng.standard_normal((P, P))
        opt['gram_matrix'] = g @ g.T
    if cfg['error'] == 'k_fold':
        opt['number_of_folds'] = int(c.rng.integers(2, 5))
    S.error_estimation_options = opt
    stop = bool(c.rng.random() < .4)
    S.model_selection_options = {'stop_if_error_increase': stop}
    opt0 = dict(opt)
    seed = int(c.rng.integers(0, 1000))
    np.random.seed(seed)
    with quiet(), c.frame('solve', A, y, path):
        sol, out = S.solve()
    c.true('state of the solver', S.basis_eval is A and S.training_data[1] is y and S.error_estimation_options == opt0)
    B, z = stacked(cfg, A, y)
    pats = candidates(np.triu(np.full((P, P), True)) if path is None else path, B.shape[0])
    outs = [out] if columns(z).shape[1] == 1 else list(out['outputs'])
    np.random.seed(seed)
    for k, (x, o) in enumerate(zip(columns(z).T, outs)):
        errs, sols = [], []
        for p in pats:
            G = opt.get('gram_matrix')
            st = np.random.get_state()
            # the folds are drawn again for each candidate
            e, d = refit(B[:, p], x, cfg['error'], opt, None if G is None else G[np.ix_(p, p)], opt['correction'])
            errs.append(e)
            s = np.zeros(P)
            s[p] = ls(B[:, p], x)
            sols.append(s)
            if stop and len(errs) > 1 and e > 2 * errs[-2]:
                break
        m = int(np.argmin(errs))
        c.eq('reported error', o['error'], errs[m], tol=1e-6)
        if not np.isfinite(errs[m]):
            continue
        if np.sum(np.isclose(errs, errs[m], rtol=1e-6)) > 1:
            continue
        c.eq('least-squares solution on the best candidate', np.reshape(sol, (P, -1))[:, k], sols[m], tol=1e-6)
        c.same('pattern', list(map(bool, o['pattern'])), list(map(bool, pats[m])))
        c.eq('errors along the path', np.asarray(o['error_path'])[:len(errs)], np.array(errs), tol=1e-6)


def refit(A, y, kind, options, gram, correction):
    """as expected_errors, drawing the folds from the current state of numpy.random"""
    if kind == 'k_fold' and options['number_of_folds'] < A.shape[0]:
        from sklearn.model_selection import KFold
        N, P = A.shape
        k = options['number_of_folds']
        if N * (1 - 1 / k) < P:
            return np.inf, None
        folds = [t for _, t in KFold(n_splits=k, shuffle=True).split(A)]
        if any(N - len(t) < P for t in folds):
            raise SkipCase
        d = np.zeros(N)
        for t in folds:
            keep = np.setdiff1d(np.arange(N), t)
            if np.linalg.cond(A[keep]) > 1e4:
                raise SkipCase
            d[t] = y[t] - A[t] @ ls(A[keep], y[keep])
        e = np.mean([np.mean(d[t] ** 2) for t in folds]) / np.mean(y ** 2)
        if correction and N != P:
            C = np.linalg.inv(A.T @ A)
            e = e * N / (N - P) * (1 + np.trace(C if gram is None else C @ gram))
        return np.sqrt(e), d
    return expected_errors(A, y, 'leave_out', options, None, gram, correction)


@harness('C14', [SQ + '_solve_regularized_ls', SQ + 'solve'], [{'y': y, 'type': t} for y in ('vector', 'column', 'matrix') for t in ('l0', 'l1', 'l2')], symbolic=False, concrete=20, tol=1e-5)
def regularised(c, **cfg):
    N, P, n, A, y = problem(c, cfg)
    if P < 2:
        raise SkipCase
    S = tensap.LinearModelLearningSquareLoss()
    S.regularization = True
    S.regularization_type = cfg['type']
    S.model_selection = bool(c.rng.random() < .6) and cfg['type'] != 'l2'
    alpha = float(c.rng.integers(1, 8)) / 20
    S.regularization_options = {'alpha': alpha}
    S.basis_eval, S.training_data = A, [None, y]
    with c.frame('solve', A, y), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        sol, out = S.solve()
    c.true('state of the solver', S.basis_eval is A and S.training_data[1] is y)
    sol = np.reshape(sol, (P, -1))
    outs = [out] if sol.shape[1] == 1 else list(out['outputs'])
    for s, x, o in zip(sol.T, columns(y).T, outs):
        r = A.T @ (x - A @ s)
        if S.model_selection and 'pattern' in o:
            p = o['pattern']
            t = np.zeros(P)
            t[p] = ls(A[:, p], x)
            c.eq('least-squares solution on the selected pattern', s, t, tol=1e-5)
            errs = [expected_errors(A[:, q], x, 'leave_out', {}, correction=True)[0] for q in o['pattern_path'].T]
            c.eq('errors along the path', o['error_path'], np.array(errs), tol=1e-5)
            c.eq('least error', o['error'], np.min(errs), tol=1e-5)
        elif S.model_selection:
            pass
        elif cfg['type'] == 'l2':
            c.eq('stationarity of the penalised error', r, alpha * s, tol=1e-6)
        elif cfg['type'] == 'l1':
            c.true('optimality for the l1-penalised error', bool(np.all(np.abs(r) <= N * alpha + 1e-6 * (1 + np.abs(r).max())) and np.allclose(r[s != 0], N * alpha * np.sign(s[s != 0]), atol=1e-5)))
        else:
            p = s != 0
            c.eq('stationarity on the support', r[p], np.zeros(p.sum()), tol=1e-6)


@harness('C14', [SQ + '_solve_regularized_ls', SQ + '_select_optimal_path'], [{}], symbolic=False, concrete=25, tol=1e-5)
def blocks(c):
    """model selection keeps candidates that are nonzero in every given block"""
    N, k, m = int(c.rng.integers(6, 12)), 2, int(c.rng.integers(1, 3))
    P = k * m
    A = design(c, N, P)
    y = c.rng.standard_normal(N) * 2
    S = tensap.LinearModelLearningSquareLoss()
    S.regularization = True
    S.regularization_type = 'l1'
    S.model_selection = True
    S.regularization_options = {'alpha': 0}
    S.basis_eval, S.training_data = A, [None, y]
    S.options = {'non_zero_blocks': [j * m + np.arange(m) for j in range(k)]}
    with quiet():
        sol, out = S.solve()
    if 'pattern_path' in out:
        for q in out['pattern_path'].T:
            c.true('every block is used', all(np.any(q[b]) for b in S.options['non_zero_blocks']))
    p = sol != 0
    t = np.zeros(P)
    t[p] = ls(A[:, p], y)
    c.eq('least-squares solution on its support', sol, t, tol=1e-5)


@harness('C14', [SQ + 'solve', 'LinearModelLearning.initialize', DL + 'solve', 'Learning.linear_model', 'Learning.risk_estimation'], [{'loss': l, 'y': y} for l, y in (('square', 'vector'), ('square', 'column'), ('square', 'matrix'), ('density', 'vector'))], symbolic=False, concrete=25, tol=1e-6)
def with_basis(c, loss, y):
    """basis functions evaluated by the solver; test errors; reuse of a solver"""
    P = int(c.rng.integers(1, 4))
    N, M = int(c.rng.integers(P + 1, 12)), int(c.rng.integers(1, 6))
    n = {'vector': None, 'column': 1, 'matrix': int(c.rng.integers(2, 4))}[y]
    B = tensap.PolynomialFunctionalBasis(tensap.LegendrePolynomials(), range(P))
    L = tensap.SquareLossFunction() if loss == 'square' else tensap.DensityL2LossFunction()
    S = tensap.Learning.linear_model(L)
    c.true('kind of solver', type(S) is (tensap.LinearModelLearningSquareLoss if loss == 'square' else tensap.LinearModelLearningDensityL2) and type(S.loss_function) is type(L))
    S.basis = B
    S.test_error = True
    if loss == 'square' and c.rng.random() < .5:
        S.loss_function.error_type = 'absolute'
    for trial in range(2):
        N = N + trial
        x, t = c.rng.uniform(-1, 1, N), c.rng.uniform(-1, 1, M)
        H, Ht = B.eval(x), B.eval(t)
        if np.linalg.cond(H) > 1e3:
            raise SkipCase
        if loss == 'square':
            v, vt = c.rng.standard_normal(N if n is None else (N, n)), c.rng.standard_normal(M if n is None else (M, n))
            S.training_data, S.test_data = [x, v], [t, vt]
        else:
            v, vt = None, None
            S.training_data, S.test_data = ([x, []] if c.rng.random() < .5 else [x]), [t]
        with c.frame('solve', x, v, t, vt):
            f, out = S.solve()
        c.stage('trial %d' % trial)
        c.true('function on the basis', isinstance(f, tensap.FunctionalBasisArray))
        s = np.reshape(f.get_coefficients(), (P, -1))
        if loss == 'square':
            c.eq('minimiser', s, ls(H, columns(v)), tol=1e-7)
            d = np.sum((Ht @ s - columns(vt)) ** 2, 0)
            e = np.sqrt(d / M) if S.loss_function.error_type == 'absolute' else np.sqrt(d / np.sum(columns(vt) ** 2, 0))
            c.eq('test error', np.ravel(out['test_error']), e, tol=1e-7)
        else:
            c.eq('minimiser', s[:, 0], H.mean(0), tol=1e-7)
            c.eq('test error', out['test_error'], np.sum(s ** 2) - 2 * np.mean(Ht @ s), tol=1e-7)
        S.basis_eval = S.basis_eval_test = None if S.basis_eval_test is None else S.basis_eval_test
        if S.basis_eval is not None or S.basis_eval_test is not None:
            c.true('evaluations of the basis are not kept', False)


def density_loo(A, b):
    """leave-one-out estimate of |v|^2 - 2 E v (+ 2 v.b) for the mean of the other samples minus b"""
    N = A.shape[0]
    r = 0
    for i in range(N):
        v = np.delete(A, i, 0).mean(0) - b
        r += v @ v - 2 * v @ A[i] + 2 * v @ b
    return r / N


@harness('C14', [DL + f for f in ('__init__', 'solve', '_solve_standard', '_solve_regularized', '_solve_basis_adaptation', '_select_optimal_path')], [{'mode': m} for m in ('standard', 'regularised', 'included', 'adapted')], symbolic=False, concrete=40, tol=1e-7)
def density(c, mode):
    N, P = int(c.rng.integers(5, 12)), int(c.rng.integers(1, 5))
    A = c.rng.standard_normal((N, P)) + .3
    b = c.rng.standard_normal(P) if c.rng.random() < .5 else np.zeros(P)
    S = tensap.LinearModelLearningDensityL2()
    S.basis_eval = A[:, :, None] if c.rng.random() < .3 else A
    S.training_data = [None, b] if b.any() else ([None, []] if c.rng.random() < .5 else [None])
    m = A.mean(0) - b
    S.error_estimation = True
    S.regularization = mode in ('regularised', 'included')
    S.basis_adaptation = mode == 'adapted'
    if mode == 'standard':
        with c.frame('solve', A, b):
            sol, out = S.solve()
        c.eq('minimiser', sol, m)
        c.eq('leave-one-out error', out['error'], density_loo(A, b))
        return
    order = np.argsort(-np.abs(m))
    stop = False
    if mode == 'adapted':
        path = None
        if c.rng.random() < .6:
            path = c.rng.random((P, int(c.rng.integers(1, 5)))) < .6
            if not path.any():
                raise SkipCase
            S.basis_adaptation_path = path
        stop = bool(c.rng.random() < .3)
        S.model_selection_options = {'stop_if_error_increase': stop}
        pats = candidates(np.triu(np.full((P, P), True)) if path is None else path, N)
    elif mode == 'included':
        inc = np.sort(c.rng.permutation(P)[:int(c.rng.integers(1, P + 1))])
        if len(inc) == P:
            raise SkipCase
        S.regularization_options = {'included_coefficients': inc}
        rest = [i for i in order if i not in inc]
        pats = [np.isin(np.arange(P), list(inc) + rest[:k]) for k in range(len(rest) + 1)]
    else:
        pats = [np.isin(np.arange(P), order[:k]) for k in range(1, P + 1)]
    with quiet(), c.frame('solve', A, b):
        sol, out = S.solve()
    errs = []
    for p in pats:
        errs.append(density_loo(A[:, p], b[p]))
        if stop and len(errs) > 1 and errs[-1] > 2 * errs[-2]:
            break
    k = int(np.argmin(errs))
    c.eq('errors along the path', np.asarray(out['error_path'])[:len(errs)], np.array(errs))
    c.eq('least error', out['error'], errs[k])
    c.eq('minimiser on the best candidate', sol, np.where(pats[k], m, 0))


LF = 'SquareLossFunction.'


@harness('C14', [LF + f for f in ('eval', 'relative_test_error', 'test_error', 'risk_estimation')] + ['DensityL2LossFunction.' + f for f in ('eval', 'test_error', 'risk_estimation')] + ['CustomLossFunction.' + f for f in ('eval', 'risk_estimation', 'test_error', 'relative_test_error')], [{}], symbolic=False, concrete=80)
def losses(c):
    N, n = int(c.rng.integers(1, 8)), int(c.rng.integers(1, 4))
    one = n == 1 and c.rng.random() < .7
    x = c.rng.standard_normal((N, 2))
    M = c.rng.standard_normal((2, n))
    v = x @ M
    y = c.rng.standard_normal((N, n)) + 1
    shape = lambda a: a[:, 0] if one and c.rng.random() < .5 else a
    k = int(c.rng.integers(0, 3))
    if k == 0:
        f = shape(v)
    elif k == 1:
        keep = one and c.rng.random() < .5
        f = lambda z: (z @ M)[:, 0] if keep else z @ M
    else:
        B = tensap.UserDefinedFunctionalBasis([lambda z: z[:, 0], lambda z: z[:, 1]], tensap.RandomVector(tensap.NormalRandomVariable(), 2), 2)
        f = tensap.FunctionalBasisArray(M, B, n)
    t = shape(y)
    L = tensap.SquareLossFunction()
    se, sr = np.sum((v - y) ** 2, 1), np.sum(y ** 2, 1)
    with c.frame('loss', x, t, M):
        c.eq('losses', L.eval(f, [x, t]), se)
        a, b = L.eval(f, [x, t], nargout=2)
        c.eq('reference losses', b, sr)
        c.eq('risk', L.risk_estimation(f, [x, t]), np.mean(se))
        c.eq('risk and reference', np.array(L.risk_estimation(f, [x, t], nargout=2)), np.array([np.mean(se), np.mean(sr)]))
        c.eq('relative error', L.relative_test_error(f, [x, t]), np.sqrt(np.sum(se) / np.sum(sr)))
        c.eq('relative test error', L.test_error(f, [x, t]), np.sqrt(np.sum(se) / np.sum(sr)))
        L.error_type = 'absolute'
        c.eq('absolute test error', L.test_error(f, [x, t]), np.sqrt(np.mean(se)))
    c.stage('density')
    D = tensap.DensityL2LossFunction()
    g = v[:, 0]
    nm = float(c.rng.integers(1, 5))
    c.eq('density losses', D.eval(g, [x], nm), nm ** 2 - 2 * g)
    c.eq('density test error', D.test_error(g, [x], nm), nm ** 2 - 2 * np.mean(g))
    if k == 2:
        nf = np.linalg.norm(M)
        c.eq('density risk of a function', D.risk_estimation(f, [x]), nf ** 2 - 2 * np.mean(v))
    c.stage('custom')
    C = tensap.CustomLossFunction(lambda a, b: np.abs(a - b))
    c.eq('custom losses', C.eval(v, [x, y]), np.abs(v - y))
    c.eq('custom risk', C.risk_estimation(v, [x, y]), np.mean(np.abs(v - y)))
    c.eq('custom test error', C.test_error(v, [x, y]), np.mean(np.abs(v - y)))
    C.error_function = lambda f, s: 7.0
    c.eq('given error function', C.test_error(v, [x, y]), 7.0)
    C.relative_error_function = lambda f, s: 3.0
    c.eq('given relative error function', C.relative_test_error(v, [x, y]), 3.0)


# ---------------------------------------------------------------- all real values, fixed numbers of samples and functions
def total(l):
    l = list(l)
    return sum(l[1:], l[0]) if l else 0


@harness('C14', [LF + f for f in ('eval', 'relative_test_error', 'test_error', 'risk_estimation')] + ['DensityL2LossFunction.' + f for f in ('eval', 'test_error', 'risk_estimation')] + ['CustomLossFunction.' + f for f in ('eval', 'risk_estimation', 'test_error', 'relative_test_error')],
         [{'N': N, 'n': n, 'f': k} for N, n in ((1, 0), (1, 1), (3, 0), (3, 1), (2, 2)) for k in ('values', 'function')], concrete=5, engine='scalar')
def losses_all_values(c, N, n, f):
    shape = (N, n) if n else (N,)
    x, y = c.scals('x', (N, 2)), c.scals('y', shape)
    if f == 'values':
        v = c.scals('v', shape)
        F = v
    else:
        hs = [c.fun('h%d' % k) for k in range(max(n, 1))]
        F = lambda z: c.arr([[h(r) for h in hs] for r in z]) if n else c.arr([hs[0](r) for r in z])
        v = F(x)
    V, Y = np.reshape(v, (N, -1)), np.reshape(y, (N, -1))
    se, sr = [total(r * r) for r in V - Y], [total(r * r) for r in Y]
    c.assume(bool(total(sr) > 1e-6))
    L = tensap.SquareLossFunction()
    a, b = L.eval(F, [x, y], nargout=2)
    c.eq('losses', L.eval(F, [x, y]), c.arr(se))
    c.eq('losses and reference losses', c.arr([np.ravel(a), np.ravel(b)]), c.arr([se, sr]))
    c.eq('risk', L.risk_estimation(F, [x, y]), total(se) / N)
    c.eq('risk and reference', c.arr(list(L.risk_estimation(F, [x, y], nargout=2))), c.arr([total(se) / N, total(sr) / N]))
    for e in (L.relative_test_error(F, [x, y]), L.test_error(F, [x, y])):
        c.eq('relative error', e * e * total(sr), total(se))
        c.le('errors are not negative', 0, e)
    L.error_type = 'absolute'
    e = L.test_error(F, [x, y])
    c.eq('absolute error', e * e * N, total(se))
    c.le('errors are not negative', 0, e)
    c.stage('density')
    D = tensap.DensityL2LossFunction()
    if n < 2:
        nm = c.scal('norm', lo=0)
        g = np.ravel(v)
        G = F if f == 'values' else (lambda z: np.ravel(F(z)))
        c.eq('density losses', np.ravel(D.eval(G, [x], nm)), c.arr([nm * nm - 2 * t for t in g]))
        c.eq('density test error', D.test_error(G, [x], nm), nm * nm - 2 * total(g) / N)
    c.stage('custom')
    l = c.fun('loss')
    C = tensap.CustomLossFunction(lambda a, b: c.arr([l([p, q]) for p, q in zip(np.ravel(a), np.ravel(b))]))
    w = [l([q, p]) for p, q in zip(np.ravel(v), np.ravel(y))]
    c.eq('custom losses', C.eval(F, [x, y]), c.arr(w))
    c.eq('custom risk', C.risk_estimation(F, [x, y]), total(w) / len(w))
    c.eq('custom test error', C.test_error(F, [x, y]), total(w) / len(w))


@harness('C14', [DL + f for f in ('__init__', 'solve', '_solve_standard', '_solve_regularized', '_solve_basis_adaptation', '_select_optimal_path')],
         [{'mode': m, 'N': N, 'P': P, 'b': b} for m in ('standard', 'regularised', 'included', 'adapted') for N, P in ((2, 1), (2, 2), (3, 2)) for b in (False, True) if not (m == 'included' and P == 1)], concrete=6, engine='scalar', paths=120)
def density_all_samples(c, mode, N, P, b):
    A = c.scals('a', (N, P))
    bv = c.scals('b', (P,)) if b else c.arr([0] * P)
    S = tensap.LinearModelLearningDensityL2()
    S.basis_eval = A
    S.training_data = [None, bv] if b else [None]
    m = c.arr([total(A[:, j]) / N - bv[j] for j in range(P)])
    S.error_estimation = True
    S.regularization = mode in ('regularised', 'included')
    S.basis_adaptation = mode == 'adapted'

    def loo(p):
        r = 0
        for i in range(N):
            for j in p:
                v = total(A[k, j] for k in range(N) if k != i) / (N - 1) - bv[j]
                r = r + v * v - 2 * v * A[i, j] + 2 * v * bv[j]
        return r / N
    if mode == 'standard':
        with c.frame('solve', A, bv):
            sol, out = S.solve()
        c.eq('minimiser', sol, m)
        c.eq('leave-one-out error', out['error'], loo(range(P)))
        return
    if mode == 'included':
        S.regularization_options = {'included_coefficients': np.array([P - 1])}
    with quiet(), c.frame('solve', A, bv):
        sol, out = S.solve()
    if mode == 'adapted':
        pats = [list(range(k)) for k in range(1, P + 1) if k <= N]
    else:
        first = [P - 1] if mode == 'included' else []
        rest = [j for j in range(P) if j not in first]
        # larger coefficients first; both orders are right for coefficients of the same size
        sq = lambda j: m[j] * m[j]
        if len(rest) > 1 and bool(sq(rest[1]) > sq(rest[0])):
            rest = rest[::-1]
        if len(rest) > 1 and bool(sq(rest[1]) >= sq(rest[0])):
            raise SkipCase
        pats = [first + rest[:k] for k in range(0 if first else 1, len(rest) + 1)]
    errs = [loo(p) for p in pats]
    c.eq('errors along the path', out['error_path'], c.arr(errs))
    best = int(out['ind'])
    c.le('the smallest error is chosen', c.arr([errs[best]] * len(errs)), c.arr(errs))
    c.eq('least error', out['error'], errs[best])
    c.eq('minimiser on the best candidate', sol, c.arr([m[j] if j in pats[best] else 0 * m[j] for j in range(P)]))


def any_design(c, kind):
    """evaluations of P functions at N points: every column, a line, a constant and a line"""
    if kind == 'one2':
        A = c.scals('a', (2, 1))
    elif kind == 'one3':
        A = c.arr([[c.const(1)], [c.scal('a')], [c.const(2)]])
    elif kind == 'two3':
        A = c.scals('a', (3, 2))
    elif kind == 'line3':
        A = c.arr([[c.const(1), v] for v in (c.const(0), c.const(1), c.scal('t'))])
    elif kind == 'grid4':
        A = c.arr([[c.const(1), c.const(k, 2)] for k in (-2, 0, 1, 5)])
    elif kind == 'grid3':
        A = c.arr([[c.const(p) for p in r] for r in ((1, 2), (-1, 1), (2, 0))])
    return A


def minors(A):
    """all ways of leaving one sample out keep full rank"""
    N, P = A.shape
    for i in range(N):
        B = [A[k] for k in range(N) if k != i]
        if P == 1:
            yield total(r[0] * r[0] for r in B)
        else:
            g = [[total(r[p] * r[q] for r in B) for q in range(2)] for p in range(2)]
            yield g[0][0] * g[1][1] - g[0][1] * g[1][0]


def exact_ls(c, A, y):
    """solution of the normal equations, one column"""
    G = np.array([[total(A[:, p] * A[:, q]) for q in range(A.shape[1])] for p in range(A.shape[1])])
    r = np.array([total(A[:, p] * y) for p in range(A.shape[1])])
    if A.shape[1] == 1:
        return c.arr([r[0] / G[0, 0]])
    d = G[0, 0] * G[1, 1] - G[0, 1] * G[1, 0]
    return c.arr([(G[1, 1] * r[0] - G[0, 1] * r[1]) / d, (G[0, 0] * r[1] - G[1, 0] * r[0]) / d])


def inverse_gram(A):
    G = np.array([[total(A[:, p] * A[:, q]) for q in range(A.shape[1])] for p in range(A.shape[1])])
    if A.shape[1] == 1:
        return np.array([[1 / G[0, 0]]])
    d = G[0, 0] * G[1, 1] - G[0, 1] * G[1, 0]
    return np.array([[G[1, 1] / d, -G[0, 1] / d], [-G[1, 0] / d, G[0, 0] / d]])


def squared_error(c, A, y, folds, gram, correction):
    """(square of the cross-validation error, residuals) of one column by refitting"""
    N, P = A.shape
    d = c.arr([0 * y[0]] * N)
    for t in folds:
        keep = [k for k in range(N) if k not in t]
        s = exact_ls(c, A[keep], y[keep])
        for k in t:
            d[k] = y[k] - total(A[k] * s)
    f = 1 / (len(folds) * total(y * y) / N)
    if correction and N != P:
        C = inverse_gram(A)
        tr = total(C[p, p] for p in range(P)) if gram is None else total(C[p, q] * gram[q, p] for p in range(P) for q in range(P))
        corr = c.const(N, N - P) * (1 + tr)
        c.assume(bool(corr > 0))
        f = f * corr
    c.assume(bool(f > 0))
    e = c.nonneg([(f / len(t), d[k]) for t in folds for k in t])
    return e, d


@harness('C14', [SQ + '__init__', SQ + 'solve', SQ + '_solve_ols', SQ + '_compute_cv_error', 'LinearModelLearning.__init__', 'Learning.__init__'],
         [{'A': a, 'y': y, 'error': e, 'solver': s, 'correction': k} for a in ('one2', 'one3', 'line3', 'grid3', 'grid4') for y in ('vector', 'column', 'matrix') for e in (None, 'residuals', 'leave_out', 'k_fold') for s in ('qr', 'solve') for k in ((True, False) if e in ('leave_out', 'k_fold') else (False,))
          if not (y == 'matrix' and (e and a not in ('one2', 'grid4'))) and not (e == 'k_fold' and a in ('one2', 'line3', 'grid3'))] + [{'A': 'two3', 'y': 'vector', 'error': None, 'solver': s, 'correction': False} for s in ('qr', 'solve')], concrete=2, engine='scalar', tol=1e-5)
def least_squares_all_values(c, A, y, error, solver, correction):
    kind = A
    A = any_design(c, A)
    N, P = A.shape
    n = {'vector': None, 'column': 1, 'matrix': 2}[y]
    Y = c.scals('y', (N,) if n is None else (N, n))
    cols = np.reshape(Y, (N, -1))
    for m in minors(A):
        c.assume(bool(m > 1e-3))
    for k in range(cols.shape[1]):
        c.assume(bool(total(cols[:, k] * cols[:, k]) > 1e-3))
    S = tensap.LinearModelLearningSquareLoss()
    S.linear_solver = solver
    S.basis_eval, S.training_data = A, [None, Y]
    S.error_estimation = error is not None
    opt = {'correction': correction}
    if error:
        S.error_estimation_type = error
    if error == 'k_fold':
        opt['number_of_folds'] = 2 if N == 3 else 3
    gram = None
    if correction and kind in ('grid3', 'grid4'):
        g = c.scals('g', (3,))
        gram = c.arr([[g[0], g[1]], [g[1], g[2]]])
        opt['gram_matrix'] = gram
    S.error_estimation_options = opt
    opt0 = dict(opt)
    expected = []
    if error in ('leave_out', 'k_fold'):
        if error == 'leave_out':
            folds = [[i] for i in range(N)]
        else:
            from sklearn.model_selection import KFold
            np.random.seed(3)
            folds = [list(map(int, t)) for _, t in KFold(n_splits=opt['number_of_folds'], shuffle=True).split(np.zeros((N, 1)))]
            if P == 1:
                for t in folds:
                    c.assume(bool(total(A[i, 0] * A[i, 0] for i in range(N) if i not in t) > 1e-3))
        expected = [squared_error(c, A, cols[:, k], folds, gram, correction) for k in range(cols.shape[1])]
    np.random.seed(3)
    with c.frame('solve', A, Y):
        sol, out = S.solve()
    c.true('state of the solver', S.basis_eval is A and S.training_data[1] is Y and S.error_estimation_options == opt0 and S.error_estimation_type == (error or 'leave_out'))
    s = np.reshape(sol, (P, -1))
    c.eq('stationarity of the squared error', c.arr([[total(A[i, p] * (total(A[i, q] * s[q, k] for q in range(P)) - cols[i, k]) for i in range(N)) for k in range(cols.shape[1])] for p in range(P)]), np.zeros((P, cols.shape[1])), tol=1e-6)
    if not error:
        return
    if error == 'residuals':
        for k in range(cols.shape[1]):
            r = c.arr([cols[i, k] - total(A[i] * s[:, k]) for i in range(N)])
            c.eq('residuals', np.reshape(out['delta'], (N, -1))[:, k], r)
            c.eq('error', np.ravel(out['error'])[k] * total(cols[:, k] * cols[:, k]), total(r * r))
        return
    for k, (e, d) in enumerate(expected):
        c.eq('residuals of the fits to the other samples', np.reshape(out['delta'], (N, -1))[:, k], d, tol=1e-5)
        f = np.ravel(out['error'])[k]
        c.eq('error', f * f, e, tol=1e-5)
        c.le('errors are not negative', 0, f)


@harness('C14', [SQ + 'solve', SQ + '_solve_ols'], [{'A': a, 'y': y, 'solver': s, 'weights': w} for a in ('one2', 'grid3', 'line3') for y in ('vector', 'matrix', 'shared') for s in ('qr', 'solve') for w in (True, False) if (w or y == 'shared') and not (a == 'line3' and (s == 'solve' or y == 'shared'))], concrete=4, engine='scalar', tol=1e-5)
def weighted_all_values(c, A, y, solver, weights):
    A = any_design(c, A)
    N, P = A.shape
    n = {'vector': None, 'shared': 2, 'matrix': 2}[y]
    Y = c.scals('y', (N,) if n is None else (N, n))
    S = tensap.LinearModelLearningSquareLoss()
    S.linear_solver = solver
    w = c.arr([c.const(1)] * N)
    if weights:
        w = c.scals('w', (N,), lo=0.1)
        S.weights = w
    for m in minors(A):
        c.assume(bool(m > 1e-3))
    B = c.arr([[[A[i, p] + (k and c.const(k * (i + 1) * (p + 2), 3)) for k in range(2)] for p in range(P)] for i in range(N)]) if y == 'shared' else A
    S.basis_eval, S.training_data = B, [None, Y]
    with c.frame('solve', B, Y, w):
        sol, out = S.solve()
    c.true('state of the solver', S.basis_eval is B and S.training_data[1] is Y)
    if y == 'shared':
        res = [[total(B[i, q, k] * np.ravel(sol)[q] for q in range(P)) - Y[i, k] for k in range(2)] for i in range(N)]
        c.eq('stationarity of the (weighted) squared error', c.arr([total(w[i] * B[i, p, k] * res[i][k] for i in range(N) for k in range(2)) for p in range(P)]), np.zeros(P), tol=1e-6)
        return
    s, cols = np.reshape(sol, (P, -1)), np.reshape(Y, (N, -1))
    c.eq('stationarity of the (weighted) squared error', c.arr([[total(w[i] * A[i, p] * (total(A[i, q] * s[q, k] for q in range(P)) - cols[i, k]) for i in range(N)) for k in range(cols.shape[1])] for p in range(P)]), np.zeros((P, cols.shape[1])), tol=1e-6)


@harness('C14', [SQ + '_solve_basis_adaptation', SQ + '_select_optimal_path', SQ + 'solve'], [{'A': a, 'y': y, 'solver': s, 'path': k, 'stop': t} for a in ('line3', 'grid4') for y in ('vector', 'matrix') for s in ('qr', 'solve') for k in ('default', 'repeated', 'swapped') for t in (False, True) if not (y == 'matrix' and (t or a == 'line3')) and not (t and (a == 'line3' or k == 'swapped')) and not (y == 'matrix' and k == 'swapped')], concrete=3, engine='scalar', tol=1e-5, paths=60)
def adaptation_all_values(c, A, y, solver, path, stop):
    kind = A
    A = any_design(c, A)
    N, P = A.shape
    Y = c.scals('y', (N,) if y == 'vector' else (N, 2))
    cols = np.reshape(Y, (N, -1))
    for m in minors(A):
        c.assume(bool(m > 1e-3))
    for p in range(P):
        c.assume(all(bool(total(A[k, p] * A[k, p] for k in range(N) if k != i) > 1e-3) for i in range(N)))
    S = tensap.LinearModelLearningSquareLoss()
    S.linear_solver = solver
    S.basis_adaptation = True
    S.basis_eval, S.training_data = A, [None, Y]
    pats = [[0], [0, 1]]
    if path == 'swapped':
        pats = [[1], [0, 1], [0]]
        S.basis_adaptation_path = np.array([[0, 0, 1, 1], [1, 0, 1, 0]])
    elif path == 'repeated':
        pats = [[0, 1], [1]]
        S.basis_adaptation_path = np.array([[1, 1, 0, 1], [1, 1, 1, 1]]) > 0
    S.error_estimation_options = {'correction': False}
    S.model_selection_options = {'stop_if_error_increase': stop}
    ex = []
    for k in range(cols.shape[1]):
        c.assume(bool(total(cols[:, k] * cols[:, k]) > 1e-3))
        ex.append([squared_error(c, c.arr([[A[i, q] for q in p] for i in range(N)]), cols[:, k], [[i] for i in range(N)], None, False)[0] for p in pats])
    with quiet(), c.frame('solve', A, Y):
        sol, out = S.solve()
    c.true('state of the solver', S.basis_eval is A and S.training_data[1] is Y)
    outs = [out] if y == 'vector' else list(out['outputs'])
    for k, o in enumerate(outs):
        e = ex[k]
        seen = len(e)
        if stop:
            for j in range(1, len(e)):
                if bool(c.sqrt(e[j]) > 2 * c.sqrt(e[j - 1])):
                    seen = j + 1
                    break
        best = [tuple(p) for p in pats].index(tuple(np.nonzero(np.asarray(o['pattern'], dtype=bool))[0]))
        c.true('a candidate that was visited', best < seen)
        c.eq('reported error', o['error'] * o['error'], e[best], tol=1e-5)
        path_ = np.ravel(o['error_path'])[:seen]
        c.eq('errors along the path', c.arr([t * t for t in path_]), c.arr(e[:seen]), tol=1e-5)
        c.le('the smallest error is chosen', o['error'], path_)
        B = c.arr([[A[i, q] for q in pats[best]] for i in range(N)])
        s = exact_ls(c, B, cols[:, k])
        full = [0 * cols[0, k]] * P
        for q, v in zip(pats[best], s):
            full[q] = v
        c.eq('least-squares solution on the best candidate', np.reshape(sol, (P, -1))[:, k], c.arr(full), tol=1e-5)
