"""C15: model selection."""
from fractions import Fraction as Fr
import copy
import numpy as np
import tensap
from vt.ctx import harness, SkipCase
from vt import trees as T

MS = 'ModelSelection.'
PEN = {'identity': None, 'square': lambda x: x ** 2, 'affine': lambda x: 3 * x + 2, 'cubic': lambda x: x ** 3 + x, 'steps': lambda x: x // 3 + 1, 'valley': lambda x: (x - 4) ** 2, 'reciprocal': lambda x: 12 * 11 * 10 - 3 * x}


def collection(c, kind):
    n = int(c.rng.integers(1, 9))
    if kind == 'integers':
        comp = c.rng.integers(1, 7, size=n)
        risk = c.rng.integers(0, 9, size=n)
    elif kind == 'collinear':
        # many models tied at the same value of the penalisation parameter
        comp = c.rng.permutation(np.arange(1, n + 1))
        s = int(c.rng.integers(1, 4))
        risk = s * (n - comp) + (c.rng.integers(0, 2, size=n) * c.rng.integers(0, 3))
    elif kind == 'decreasing':
        comp = np.sort(c.rng.integers(1, 40, size=n))
        risk = np.sort(c.rng.integers(0, 200, size=n))[::-1]
        if c.rng.random() < .5:
            p = c.rng.permutation(n)
            comp, risk = comp[p], risk[p]
    elif kind == 'minimal first':
        comp = np.arange(1, n + 1)
        risk = np.sort(c.rng.integers(0, 50, size=n))
        p = c.rng.permutation(n)
        comp, risk = comp[p], risk[p]
    else:
        comp = c.rng.integers(1, 400, size=n)
        risk = c.rng.random(n) * 10.0 ** c.rng.integers(-6, 4)
    comp = np.array(comp)
    risk = np.array(risk, dtype=float) if kind == 'reals' or c.rng.random() < .5 else np.array(risk)
    return comp, risk


def select(c, kind, pen):
    S = tensap.ModelSelection()
    comp, risk = collection(c, kind)
    aslist = c.rng.random() < .5
    S.data = {'complexity': comp.tolist() if aslist else comp, 'empirical_risk': risk.tolist() if aslist else risk}
    if PEN[pen] is not None:
        S.pen_shape = PEN[pen]
    f = PEN[pen] or (lambda x: x)
    P = [Fr(int(f(int(x)))) for x in comp]
    R = [Fr(float(x)) for x in risk]
    return S, comp, risk, P, R


def envelope(P, R):
    """exact breakpoints and, for each open interval between them, the minimisers"""
    n = len(P)
    bp = set()
    for i in range(n):
        for j in range(n):
            if P[i] > P[j] and R[j] > R[i]:
                bp.add((R[j] - R[i]) / (P[i] - P[j]))
    best = lambda l: {i for i in range(n) if R[i] + l * P[i] == min(R[k] + l * P[k] for k in range(n))}
    cand = sorted(bp)
    out, models = [], []
    pts = [Fr(0)] + cand
    mids = [(a + b) / 2 for a, b in zip(pts, pts[1:])] + [(cand[-1] if cand else Fr(0)) + 1]
    cur = best(mids[0])
    models.append(cur)
    for l, m in zip(cand, mids[1:]):
        nxt = best(m)
        if nxt != cur:
            out.append(l)
            models.append(nxt)
            cur = nxt
    return out, models


KINDS = ['integers', 'collinear', 'decreasing', 'minimal first', 'reals']


@harness('C15', [MS + '__init__', MS + 'm_lambda', MS + 'lambda_path'], [{'kind': k, 'pen': p} for k in KINDS for p in PEN], symbolic=False, concrete=60)
def path_of_models(c, kind, pen):
    S, comp, risk, P, R = select(c, kind, pen)
    data0 = copy.deepcopy(S.data)
    bp, models = envelope(P, R)
    lam, m = S.lambda_path()
    lam, m = np.atleast_1d(lam), np.atleast_1d(m)
    c.true('one model per value of the path', lam.shape == m.shape and lam.ndim == 1)
    c.true('indices of models', all(0 <= int(k) < len(P) for k in m))
    c.true('breakpoints in increasing order', bool(np.all(np.diff(lam) >= 0)))
    scale = lambda l: max(1e-300, max(abs(r) + l * abs(p) for r, p in zip(R, P)))
    exact = kind != 'reals'
    tol = 0 if exact else 1e-12

    def minimiser(i, l):
        return R[i] + l * P[i] - min(r + l * p for r, p in zip(R, P)) <= Fr(tol if not exact else 1e-13) * scale(l)
    if len(bp):
        c.true('the path starts before its first breakpoint', len(lam) >= 3 and 0 < lam[0] < lam[1])
        c.true('the path ends after its last breakpoint', lam[-1] > lam[-2])
        inner = lam[1:-1]
        c.true('least risk first', minimiser(int(m[0]), Fr(float(lam[0]))))
        # each model of the path is a minimiser from its breakpoint to the next one
        ends = [Fr(0)] + [Fr(float(x)) for x in inner]
        for k in range(len(ends)):
            a = ends[k]
            b = ends[k + 1] if k + 1 < len(ends) else a * 4 + 1
            for t in (Fr(1, 7), Fr(1, 2), Fr(6, 7)):
                c.true('the model of the path minimises the penalised risk', minimiser(int(m[k]), a + t * (b - a)))
        c.true('last model', minimiser(int(m[-1]), Fr(float(lam[-1]))) and minimiser(int(m[-1]), Fr(float(lam[-1])) * 1000 + 1000))
        for l in bp:
            c.true('every breakpoint is on the path', min(abs(Fr(float(x)) - l) for x in inner) <= Fr(1e-9) * l)
        if exact:
            c.same('number of breakpoints', len(inner), len(bp))
    else:
        c.true('a single model', all(int(k) in models[0] for k in m) or all(minimiser(int(k), Fr(1)) and minimiser(int(k), Fr(1, 1000)) for k in m))
    ls = [float(x) for x in c.rng.random(4) * 10] + [float((a + b) / 2) for a, b in zip(bp, bp[1:])]
    got = S.m_lambda(ls if c.rng.random() < .5 else np.array(ls))
    for l, i in zip(ls, got):
        c.true('m_lambda is a minimiser', minimiser(int(i), Fr(l)))
    c.same('one per parameter', np.shape(got), (len(ls),))
    c.true('m_lambda of a number', minimiser(int(np.squeeze(S.m_lambda(ls[0]))), Fr(ls[0])))
    c.true('data unchanged', all(np.array_equal(S.data[k], data0[k]) for k in data0))


ORD = ('lt', 'eq', 'gt')


def ordered(c, rel, a, b):
    """split the proof by the order of two unknowns"""
    if not c.symbolic or rel is None:
        return
    c.assume({'lt': a < b, 'eq': a == b, 'gt': a > b}[rel])


@harness('C15', [MS + 'm_lambda', MS + 'lambda_path'], [{'n': 1, 'r': None, 'p': None}, {'n': 2, 'r': None, 'p': None}] + [{'n': 3, 'r': r, 'p': p} for r in ORD for p in ORD], concrete=20, engine='scalar', paths=4000)
def path_all_reals(c, n, r, p):
    """for all real risks and all real penalties of n models (any complexities and penalty
    shape): each model of the path minimises the penalised risk at both ends of its interval,
    hence (the penalised risks being affine in the parameter) everywhere in it"""
    S = tensap.ModelSelection()
    comp = c.scals('comp', n)
    risk = c.scals('risk', n)
    P = c.scals('pen', n)
    if n == 3:
        ordered(c, r, risk[0], risk[1])
        ordered(c, p, P[0], P[1])
    S.data = {'complexity': comp, 'empirical_risk': risk}
    S.pen_shape = lambda x: P.copy()
    lam, m = S.lambda_path()
    lam, m = np.atleast_1d(lam), [int(k) for k in np.atleast_1d(m)]
    c.true('one model per value of the path', len(lam) == len(m) and all(0 <= k < n for k in m))

    def minimiser(label, k, l):
        for j in range(n):
            c.le(label, risk[k] + l * P[k], risk[j] + l * P[j])
    if len(m) == 1:
        # no breakpoint: the model minimises the risk and, among those, the penalty too
        minimiser('a single model: least risk', m[0], 0)
        for j in range(n):
            c.le('a single model: least penalty', P[m[0]], P[j])
        return
    c.true('the path starts before its first breakpoint and ends after its last one', len(lam) >= 3)
    c.le('parameters are not negative', 0, lam[0])
    for a, b in zip(lam, lam[1:]):
        c.le('breakpoints in increasing order', a, b)
    ends = [0] + [lam[k] for k in range(1, len(lam) - 1)]
    for k in range(len(ends)):
        minimiser('the model of the path minimises the penalised risk at the start of its interval', m[k], ends[k])
        if k + 1 < len(ends):
            minimiser('the model of the path minimises the penalised risk at the end of its interval', m[k], ends[k + 1])
    for j in range(n):
        c.le('the last model has the least penalty', P[m[-2]], P[j])
    c.true('last model', m[-1] == m[-2])
    l = c.scal('lambda', lo=0)
    for k, v in zip(S.m_lambda(np.array([l, lam[1]])), (l, lam[1])):
        minimiser('m_lambda is a minimiser', int(k), v)


@harness('C15', [MS + 'slope_heuristic', MS + 'lambda_path', MS + 'm_lambda'], [{'n': n, 'r': None, 'p': None} for n in (1, 2)] + [{'n': 3, 'r': r, 'p': p} for r in ORD for p in ORD], concrete=20, engine='scalar', paths=4000)
def slope_all_reals(c, n, r, p):
    """for all real risks and complexities of n models"""
    S = tensap.ModelSelection()
    C = c.scals('comp', n)
    R = c.scals('risk', n)
    if n == 3:
        ordered(c, r, R[0], R[1])
        ordered(c, p, C[0], C[1])
    S.data = {'complexity': C, 'empirical_risk': R}
    lam, m = S.lambda_path()
    lam, m = np.atleast_1d(lam), [int(k) for k in np.atleast_1d(m)]
    lh, mh, lp, mp = S.slope_heuristic()
    lh, mh = np.atleast_1d(lh)[0], int(np.atleast_1d(mh)[0])
    if all(C[j] == C[0] for j in range(n)):
        c.true('equal complexities: first model', mh == 0)
        c.eq('equal complexities: parameter zero', lh, 0)
        return
    c.eq('path returned', lp, lam)
    c.same('models of the path returned', [int(k) for k in mp], m)
    if len(m) > 1:
        eps = 0 if c.symbolic else 1e-9
        jumps = [C[m[k - 1]] - C[m[k]] for k in range(1, len(m) - 1)]
        best = [k for k in range(len(jumps)) if all(jumps[k] >= j - eps for j in jumps)]
        c.true('twice a breakpoint with the largest jump of complexity', any(lh == 2 * lam[k + 1] if c.symbolic else abs(lh - 2 * lam[k + 1]) <= 1e-9 * abs(lh) for k in best))
    else:
        c.eq('parameter zero', lh, 0)
    for j in range(n):
        c.le('the selected model minimises the penalised risk at that parameter', R[mh] + lh * C[mh], R[j] + lh * C[j])


@harness('C15', [MS + 'slope_heuristic'], [{'kind': k, 'pen': p, 'given': g} for k in KINDS for p in PEN for g in ('no', 'array', 'list')], symbolic=False, concrete=30)
def slope(c, kind, pen, given):
    S, comp, risk, P, R = select(c, kind, pen)
    gf = float(c.rng.choice([2, 2, 2, 1.5, 3]))
    if gf != 2:
        S.gap_factor = gf
    c.same('default factor', tensap.ModelSelection().gap_factor, 2)
    bp, models = envelope(P, R)
    if given == 'no':
        lh, mh, lp, mp = S.slope_heuristic()
    else:
        a, b = S.lambda_path()
        lh, mh, lp, mp = S.slope_heuristic(*((a, b) if given == 'array' else (a.tolist(), b.tolist())))
    m = int(np.squeeze(mh))
    lh = float(np.squeeze(lh))
    if len(set(comp.tolist())) == 1:
        c.true('equal complexities: first model', m == 0 and lh == 0)
        return
    if not bp:
        c.true('no breakpoint: the minimiser of the risk', m in models[0])
        return
    # complexity jump at each breakpoint
    cm = []
    for s in models:
        v = {int(comp[i]) for i in s}
        if len(v) > 1:
            raise SkipCase
        cm.append(v.pop())
    jumps = [a - b for a, b in zip(cm, cm[1:])]
    if kind == 'reals':
        gaps = np.diff([float(b) for b in bp])
        if len(gaps) and gaps.min() < 1e-9 * float(bp[-1]):
            raise SkipCase
    best = [l for l, j in zip(bp, jumps) if j == max(jumps)]
    c.true('parameter: factor times the breakpoint of the largest jump of complexity', any(abs(Fr(lh) - Fr(gf) * l) <= Fr(1e-9) * l for l in best))
    v = [r + Fr(lh) * p for r, p in zip(R, P)]
    c.true('the selected model minimises the penalised risk at that parameter', v[m] - min(v) <= Fr(1e-12) * max(abs(x) for x in v))
    a, b = S.lambda_path()
    c.true('path returned', np.array_equal(lp, a) and np.array_equal(mp, b))


@harness('C15', [MS + 'complexity', MS + 'complexity_tree_based_tensor', MS + 'complexity_functional_basis_array', 'TreeBasedTensor.storage', 'TreeBasedTensor.sparse_storage', 'TreeBasedTensor.sparse_leaves_storage'],
         [{'tree': t, 'active': a} for t in ('linear3', 'balanced4', 'trivial3', 'linear4') for a in ('all', 'some')], symbolic=False, concrete=10)
def complexities(c, tree, active):
    d = int(tree[-1])
    f = {'linear': tensap.DimensionTree.linear, 'balanced': tensap.DimensionTree.balanced, 'trivial': tensap.DimensionTree.trivial}[tree[:-1]]
    tr = f(d)
    sh = c.rng.integers(1, 5, size=d)
    act = np.full(tr.nb_nodes, True)
    if active == 'some':
        leaf = c.rng.permutation(tr.dim2ind)[:int(c.rng.integers(0, d + 1))]
        act[np.asarray(leaf, dtype=int) - 1] = False
    rk = c.rng.integers(1, 4, size=tr.nb_nodes)
    rk[tr.root - 1] = 1
    x = tensap.TreeBasedTensor.rand(tr, rk, sh, act)
    for k in range(tr.nb_nodes):
        if act[k] and c.rng.random() < .5:
            z = x.tensors[k].data
            z *= c.rng.random(z.shape) < .6
    sizes = [np.asarray(x.tensors[k].data) for k in range(tr.nb_nodes) if act[k]]
    st = sum(z.size for z in sizes)
    sp = sum(int(np.count_nonzero(z)) for z in sizes)
    sl = sum(int(np.count_nonzero(x.tensors[k].data)) if tr.is_leaf[k] else x.tensors[k].data.size for k in range(tr.nb_nodes) if act[k])
    M = tensap.ModelSelection
    c.same('storage', x.storage(), st)
    c.same('sparse storage', x.sparse_storage(), sp)
    c.same('storage with sparse leaves', x.sparse_leaves_storage(), sl)
    c.same('complexity', M.complexity(x), st)
    for n, v in (('storage', st), ('sparse_storage', sp), ('sparse_leaves_storage', sl)):
        c.same('complexity ' + n, M.complexity(x, fun=n), v)
        c.same('complexity of a tree-based tensor', M.complexity_tree_based_tensor(x, n), v)
    r = np.asarray(x.ranks)
    c.same('grassman', M.complexity(x, c_type='grassman'), st - int(np.sum(r ** 2)))
    c.same('stiefel', M.complexity(x, c_type='stiefel'), st - np.sum(r * (r + 1)) / 2)
    c.same('list', M.complexity([x, x]), [st, st])
    c.same('list, tree-based', M.complexity_tree_based_tensor([x, x], 'sparse_storage'), [sp, sp])
    B = tensap.FunctionalBases([tensap.PolynomialFunctionalBasis(tensap.LegendrePolynomials(), range(int(n))) for n in sh])
    g = tensap.FunctionalTensor(x, B)
    c.same('functional tensor', M.complexity(g), st)
    c.same('functional tensor, tree-based', M.complexity_tree_based_tensor(g, 'sparse_storage'), sp)
    a = c.rng.integers(-1, 2, size=(int(c.rng.integers(1, 6)), int(c.rng.integers(1, 3)))).astype(float)
    fb = tensap.FunctionalBasisArray(a, tensap.PolynomialFunctionalBasis(tensap.LegendrePolynomials(), range(a.shape[0])), a.shape[1])
    c.same('array of functions', M.complexity(fb), a.size)
    c.same('storage of an array of functions', M.complexity_functional_basis_array(fb), a.size)
    c.same('sparse storage of an array of functions', M.complexity_functional_basis_array(fb, 'sparse_storage'), int(np.count_nonzero(a)))
    try:
        M.complexity('tensor')
        raised = False
    except ValueError:
        raised = True
    c.true('complexity of something else is an error', raised)
    try:
        M.complexity(x, c_type='other')
        raised = False
    except ValueError:
        raised = True
    c.true('unknown type of complexity is an error', raised)
