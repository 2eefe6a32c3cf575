"""C05: truncation meets the requested tolerance or rank."""
import itertools
import string
import numpy as np
import tensap
from vt.ctx import harness, SkipCase
from vt.trees import Net, shape as tree_shape, active_sets, oracle_of, SHAPES
from vt.props.C02 import val, agree, tconf, ALL_TREES, BIG_TREES, net, rr, canon
from vt.dim import Dim, Unsupported

TB = 'TreeBasedTensor.'

TR = 'Truncator.'
L = string.ascii_lowercase
TREES = [('t2', None), ('t3', None), ('l3', None), ('m3', 'rev'), ('b4', 'shuf'), ('l4', None), ('p4', 'rev'), ('a4', None)]
EPS = 1 + 1e-6


def lowrank(c, n, decay=None):
    """a dense tensor with a decaying spectrum"""
    d = len(n)
    A = np.zeros(n)
    q = [1e-1, 1e-2, 1.0, 0.5][int(c.rng.integers(0, 4))] if decay is None else decay
    for k in range(int(c.rng.integers(1, 5))):
        T = np.ones([1] * d)
        for i in range(d):
            v = c.rng.standard_normal(n[i])
            T = T * v.reshape([-1 if j == i else 1 for j in range(d)])
        A = A + q ** k * T
    return A + float(c.rng.choice([0, 1e-4])) * c.rng.standard_normal(n)


def draw_tol(c):
    return float(c.rng.choice([0.0, 1e-6, 1e-3, 1e-2, 0.1, 0.3, 0.7]))


def spectra(A, dims):
    rest = [i for i in range(A.ndim) if i not in dims]
    M = np.reshape(np.transpose(A, list(dims) + rest), (int(np.prod([A.shape[i] for i in dims], dtype=int)), -1))
    return np.linalg.svd(M, compute_uv=False)


def rank_for(s, tol):
    """smallest rank whose relative tail is below tol; None if a boundary case"""
    tail = np.sqrt(np.append(np.cumsum(s[::-1] ** 2)[::-1], 0)) / np.linalg.norm(s)
    for k in range(1, len(s) + 1):
        if tail[k] <= tol:
            return k
    return len(s)


@harness('C05', [TR + 'trunc_svd', TR + 'svd', TR + 'truncate'], [{'kind': k, 'mr': m} for k in ('array', 'full', 'canonical', 'tree') for m in (None, 1, 2)], symbolic=False, concrete=60)
def matrix(c, kind, mr):
    n = [c.dim('n0', 1, 6), c.dim('n1', 1, 6)]
    A = lowrank(c, n)
    if kind == 'canonical':
        nn, r, sp, co, x = canon(c, 'A', 2, n=n)
        A = val(c, x)
        if np.linalg.norm(A) == 0:
            raise SkipCase()
    elif kind == 'tree':
        N = net(c, 'A', 't2', None, 'all', n=n, kind='real')
        x, A = N.tensor(), N.full()
        n = list(A.shape)
    else:
        x = A.copy() if kind == 'array' else tensap.FullTensor(A.copy())
    tol = draw_tol(c)
    tr = tensap.Truncator(tolerance=tol, max_rank=np.inf if mr is None else mr)
    with c.frame('truncate', x, tr):
        y = tr.truncate(x)
    B = val(c, y)
    c.same('shape', list(np.shape(B)), n)
    s = np.linalg.svd(A, compute_uv=False)
    err = np.linalg.norm(A - B)
    rk = y.representation_rank() if kind != 'tree' else int(np.max(np.append(y.ranks[[k for k in range(len(y.ranks)) if k != y.tree.root - 1]], 0)))
    if mr is None:
        c.true('error within tolerance', err <= (tol * EPS + 1e-7) * np.linalg.norm(A), 'error %g, tolerance %g' % (err / np.linalg.norm(A), tol))
    else:
        c.true('rank bound', rk <= mr, 'rank %d' % rk)
        k = min(mr, len(s))
    k = rk
    if kind != 'tree':
        c.true('best approximation of its rank', abs(err - np.linalg.norm(s[k:])) <= 1e-6 * np.linalg.norm(s), 'error %g, best %g' % (err, np.linalg.norm(s[k:])))
    tail = np.sqrt(np.append(np.cumsum(s[::-1] ** 2)[::-1], 0)) / np.linalg.norm(s)
    if kind != 'tree' and tol > 0 and k > 1 and (mr is None or k <= mr):
        c.true('smallest rank meeting the tolerance', tail[k - 1] >= tol * (1 - 1e-6), 'rank %d, tail at rank %d is %g, tolerance %g' % (k, k - 1, tail[k - 1], tol))
    # the same truncator again
    c.eq('same result again', val(c, tr.truncate(x)), B, tol=1e-7)


@harness('C05', [TR + 'trunc_svd'], [{'power': p, 'thr': t} for p in (1, 2, 'inf') for t in (None, 'hard', 'soft')], symbolic=False, concrete=40)
def trunc_svd(c, power, thr):
    n = [c.dim('n0', 1, 6), c.dim('n1', 1, 6)]
    A = lowrank(c, n)
    s = np.linalg.svd(A, compute_uv=False)
    tol = draw_tol(c)
    mr = float(c.rng.choice([np.inf, 1, 2, 3]))
    th = None
    if thr is not None:
        th = float(c.rng.random() * s[0] * 0.9)
    tr = tensap.Truncator(tolerance=0.77, max_rank=mr, thresholding_type=thr or 'hard', thresholding_parameter=th)
    with c.frame('trunc_svd', A, tr):
        y = tr.trunc_svd(A, tol, power)
    U, V, d = y.space[0], y.space[1], np.asarray(y.core.data)
    k = len(d)
    c.eq('orthonormal left', U.T @ U, np.eye(k))
    c.eq('orthonormal right', V.T @ V, np.eye(k))
    c.eq('singular values', d, s[:k] - (th if thr == 'soft' else 0))
    c.eq('left vectors', U @ U.T @ A @ V, U @ np.diag(s[:k]))
    p = 2 if power == 2 else 1
    if power == 'inf':
        tail = np.append(s, 0) / s[0]
    else:
        tail = (np.append(np.cumsum(s[::-1] ** p)[::-1], 0) / np.sum(s ** p)) ** (1 / p)
    if np.any(np.abs(tail - tol) < 1e-12 + 1e-9 * tol) and tol > 0:
        raise SkipCase()
    e = [j for j in range(1, len(s) + 1) if tail[j] < tol]
    e = min(e[0] if e else len(s), mr)
    if th is not None and th != 0:
        e = min(e, int(np.sum(s >= th)))
    c.same('rank', k, int(e))


@harness('C05', [TR + 'hosvd', TR + 'truncate'], [{'order': k, 'mr': m} for k in (3, 4) for m in ('none', 'scalar', 'each')], symbolic=False, concrete=30)
def hosvd(c, order, mr):
    n = c.dims('n', order, 1, 4)
    A = lowrank(c, n)
    x = tensap.FullTensor(A.copy())
    tol = draw_tol(c)
    m = {'none': np.inf, 'scalar': int(c.rng.integers(1, 4)), 'each': np.array(c.rng.integers(1, 4, size=order))}[mr]
    tr = tensap.Truncator(tolerance=tol, max_rank=m)
    with c.frame('hosvd', x, m, tr):
        y = tr.hosvd(x)
    check(c, x, A, y, tol, m, mr, [[i] for i in range(order)], order)
    B = val(c, y)
    c.eq('same result again', val(c, tr.hosvd(x)), B, tol=1e-7)


def check(c, x, A, y, tol, m, mr, groups, nproj, ranks=None):
    B = val(c, y)
    c.same('shape', list(B.shape), list(A.shape))
    err, nrm = np.linalg.norm(A - B), np.linalg.norm(A)
    c.eq('reported norm', y.norm(), np.linalg.norm(B), tol=1e-7)
    c.eq('full', y.full(), B)
    if mr == 'none':
        c.true('error within tolerance', err <= (tol * EPS + 2e-7) * nrm, 'error %g, tolerance %g' % (err / nrm, tol))
    else:
        for k in range(1, y.tree.nb_nodes + 1):
            if k == y.tree.root or not y.is_active_node[k - 1]:
                continue
            if mr == 'scalar':
                b = m
            elif ranks is not None:
                b = m[k - 1]
            else:
                b = m[int(np.nonzero(np.ravel(y.tree.dim2ind) == k)[0][0])]
            c.true('rank bound', y.ranks[k - 1] <= b, 'rank %d at node %d, bound %d' % (y.ranks[k - 1], k, b))
        # quasi-optimality: the squared error is at most the sum of the squared errors of
        # the best approximations at the bounds
        if tol == 0:
            s2 = 0.0
            for k in range(1, y.tree.nb_nodes + 1):
                if k == y.tree.root or not y.is_active_node[k - 1]:
                    continue
                s = spectra(A, [int(i) for i in y.tree.dims[k - 1]])
                s2 += np.sum(s[int(y.ranks[k - 1]):] ** 2)
            c.true('quasi-optimal', err ** 2 <= s2 * EPS + 1e-10 * nrm ** 2, 'squared error %g, bound %g' % (err ** 2, s2))


@harness('C05', [TR + 'hsvd', TR + 'truncate', TR + 'ttsvd', TR + 'hosvd'], [dict(x, mr=m, kind=k) for x in tconf(TREES, ['all', 'none', 'alt']) for m in ('none', 'scalar', 'each') for k in ('full', 'tree', 'tree1')], symbolic=False, concrete=8)
def hsvd(c, tree, num, act, mr, kind):
    sh = tree_shape(tree, num)
    n = c.dims('n', sh.order, 1, 4)
    tol = draw_tol(c)
    m = {'none': np.inf, 'scalar': int(c.rng.integers(1, 4)), 'each': np.array(c.rng.integers(1, 4, size=sh.n))}[mr]
    if mr == 'each':
        m[sh.root - 1] = 1
    tr = tensap.Truncator(tolerance=tol, max_rank=m)
    if kind == 'full':
        A = lowrank(c, n)
        x = tensap.FullTensor(A.copy())
        ina = active_sets(sh, act)
        a = np.array([k not in ina for k in range(1, sh.n + 1)])
        T = sh.tree()
        with c.frame('hsvd', x, T, a, m, tr):
            y = tr.hsvd(x, T, a)
        run = lambda: tr.hsvd(x, T, a)
        c.same('active nodes', list(y.is_active_node), list(a))
    else:
        N = Net(c, 'A', sh, active_sets(sh, act), n=n, kind='real')
        q = float(c.rng.choice([1.0, 0.1, 0.01]))
        for k in N.r:
            N.arr[k] = N.arr[k] * q ** np.arange(N.arr[k].shape[-1])
        x, A = N.tensor(), N.full()
        if kind == 'tree1':
            tr._hsvd_type = 1
        with c.frame('hsvd', x, m, tr):
            y = tr.hsvd(x)
        run = lambda: tr.hsvd(x)
        c.same('active nodes', list(y.is_active_node), list(x.is_active_node))
    check(c, x, A, y, tol, m, mr, None, sh.n, ranks=True)
    c.eq('same result again', val(c, run()), val(c, y), tol=1e-7)


@harness('C05', [TR + 'hsvd'], [dict(x, mr=m) for x in tconf(TREES[1:5], ['all', 'alt']) for m in ('none', 'scalar')], symbolic=False, concrete=6)
def hsvd_root_rank(c, tree, num, act, mr):
    """a dense tensor with one more mode than the tree: root rank greater than one"""
    sh = tree_shape(tree, num)
    n = c.dims('n', sh.order, 1, 3) + [c.dim('R', 2, 3)]
    A = lowrank(c, n)
    tol = draw_tol(c)
    m = {'none': np.inf, 'scalar': int(c.rng.integers(1, 4))}[mr]
    tr = tensap.Truncator(tolerance=tol, max_rank=m)
    ina = active_sets(sh, act)
    a = np.array([k not in ina for k in range(1, sh.n + 1)])
    x, T = tensap.FullTensor(A.copy()), sh.tree()
    with c.frame('hsvd', x, T, a, tr):
        y = tr.hsvd(x, T, a)
    check(c, x, A, y, tol, m, mr, None, sh.n, ranks=True)


@harness('C05', [TR + 'ttsvd'], [{'order': k, 'mr': m} for k in (2, 3, 4, 5) for m in ('none', 'scalar')], symbolic=False, concrete=15)
def ttsvd(c, order, mr):
    n = c.dims('n', order, 1, 4)
    A = lowrank(c, n)
    x = tensap.FullTensor(A.copy())
    tol = draw_tol(c)
    m = {'none': np.inf, 'scalar': int(c.rng.integers(1, 4))}[mr]
    tr = tensap.Truncator(tolerance=tol, max_rank=m)
    with c.frame('ttsvd', x, tr):
        y = tr.ttsvd(x)
    check(c, x, A, y, tol, m, mr, None, order, ranks=True)
    a = list(y.is_active_node)
    lv = [int(k) for k in np.ravel(y.tree.dim2ind)]
    c.same('tensor train: only the first leaf is active', [bool(a[k - 1]) for k in lv], [True] + [False] * (order - 1))
    # reuse on a tensor of another order
    B = lowrank(c, c.dims('p', 3, 1, 3))
    z = tr.hosvd(tensap.FullTensor(B.copy()))
    e = np.linalg.norm(val(c, z) - B) / np.linalg.norm(B)
    if mr == 'none':
        c.true('reused truncator', e <= tol * EPS + 2e-7, 'error %g, tolerance %g' % (e, tol))


@harness('C05', [TR + 'truncate'], [{'first': a, 'second': b} for a in ('hosvd', 'hsvd', 'tree') for b in ('hosvd', 'hsvd', 'tree', 'svd')], symbolic=False, concrete=8)
def reuse(c, first, second):
    """a truncator used on one tensor treats the next one as a fresh truncator does"""
    tol = float(c.rng.choice([1e-4, 1e-2, 0.2]))
    for m in (np.inf, 2):
        tr = tensap.Truncator(tolerance=tol, max_rank=m)
        fr = tensap.Truncator(tolerance=tol, max_rank=m)

        def go(t, kind, seed):
            r = np.random.default_rng(seed)
            if kind == 'svd':
                return val(c, t.svd(tensap.FullTensor(r.standard_normal((4, 3)))))
            if kind == 'hosvd':
                return val(c, t.hosvd(tensap.FullTensor(r.standard_normal((3, 2, 4)))))
            T = tree_shape('b4').tree()
            if kind == 'hsvd':
                return val(c, t.hsvd(tensap.FullTensor(r.standard_normal((3, 2, 2, 3))), T))
            np.random.seed(seed)
            return val(c, t.hsvd(tensap.TreeBasedTensor.randn(T, [1, 3, 2, 2, 2, 2, 2], [3, 2, 2, 3])))
        go(tr, first, 1)
        c.eq('second use', go(tr, second, 2), go(fr, second, 2), tol=1e-7)


def spiky(c, n, tol, nt):
    """a tensor whose unfoldings all carry nearly the same small tail, so that the errors of
    the successive truncations add up: sum of e_i x ... x e_i plus isolated entries"""
    d = len(n)
    A = np.zeros(n)
    for i in range(2):
        A[(i,) * d] = 1.0
    u = float(c.rng.uniform(0.4, 2.2))
    delta = np.sqrt(2.0) * tol * np.sqrt(u / nt)
    for k in range(d):
        ind = [int(b) for b in c.rng.integers(0, 2, size=d)]
        rest = [i for i in range(d) if i != k]
        ind[rest[0]], ind[rest[-1]] = 0, 1
        ind[k] = 2
        A[tuple(ind)] = delta * (1 + 1e-3 * float(c.rng.standard_normal()))
    return A


@harness('C05', [TR + 'hosvd', TR + 'hsvd', TR + 'ttsvd', TR + 'truncate'], [dict(x, kind=k) for x in tconf(TREES[1:] + [('f4', None)], ['all', 'none']) for k in ('hosvd', 'ttsvd', 'full', 'tree', 'tree1')], symbolic=False, concrete=20)
def tight(c, tree, num, act, kind):
    sh = tree_shape(tree, num)
    d = sh.order
    n = [3] * d
    ina = active_sets(sh, act)
    cnt = {'hosvd': d, 'ttsvd': d - 1}.get(kind, sh.n - 1 - len(ina))
    tol = float(c.rng.choice([0.01, 0.1, 0.3]))
    A = spiky(c, n, tol, max(1, cnt))
    x = tensap.FullTensor(A.copy())
    tr = tensap.Truncator(tolerance=tol)
    if kind == 'hosvd':
        y = tr.hosvd(x)
    elif kind == 'ttsvd':
        y = tr.ttsvd(x)
    else:
        T = sh.tree()
        a = np.array([k not in ina for k in range(1, sh.n + 1)])
        if kind == 'full':
            y = tr.hsvd(x, T, a)
        else:
            z = tensap.Truncator(tolerance=1e-14).hsvd(x, T, a)
            if kind == 'tree1':
                tr._hsvd_type = 1
            y = tr.hsvd(z)
    B = val(c, y)
    err, nrm = np.linalg.norm(A - B), np.linalg.norm(A)
    c.true('error within tolerance', err <= (tol * EPS + 2e-7) * nrm, 'error %g, tolerance %g' % (err / nrm, tol))


# ---------------------------------------------------------------- callers of trunc_svd
# Truncator.trunc_svd is replaced by its contract: from a matrix M, a tolerance t, a power
# p and a bound m it returns W, s, V with W^T W = I, V^T V = I, V diag(s) = M^T W, at most
# m columns, and if the bound does not intervene |M - W W^T M| <= t |M| (p = 2), or
# tr((I - W W^T) M) <= t tr(M) (p = 1, M a Gram matrix).  The obligations on the callers
# are the premises of one of two lemmas (lean/Projections.lean):
#   sequential: <A,y> = <y,y>, |M_1| = |A|, |M_{j+1}| = |W_j^T M_j|, |y| = |W_m^T M_m|
#       => |A - y|^2 = |A|^2 - |y|^2 <= sum_j t_j^2 |A|^2
#   parallel: y = P_1 ... P_m A with orthogonal projections P_j on the dimensions of a node
#       and |A - P_j A|^2 <= t_j^2 |A|^2   => |A - y|^2 <= sum_j t_j^2 |A|^2
TOLS = (0.9, 0.1, 1e-3, 1e-8)


def unfolding_gram(c, A, D):
    """M M^T for the unfolding of A with the dimensions D as rows, of shape D + D"""
    lab = L[:A.ndim]
    up = ''.join(x.upper() if i in D else x for i, x in enumerate(lab))
    return c.einsum('%s,%s->%s%s' % (lab, up, ''.join(lab[i] for i in D), ''.join(up[i] for i in D)), A, A)


def project(c, B, F, D):
    """F F^T applied to the dimensions D of B; F of shape D + (rank,)"""
    lab = L[:B.ndim]
    up = ''.join(x.upper() if i in D else x for i, x in enumerate(lab))
    d = ''.join(lab[i] for i in D)
    T = c.einsum('%s,%sz->z%s' % (lab, d, ''.join(x for i, x in enumerate(lab) if i not in D)), B, F)
    return c.einsum('z%s,%sz->%s' % (''.join(x for i, x in enumerate(lab) if i not in D), d.upper(), up), T, F)


def energy(c, X):
    X = c.data(X)
    lab = L[:X.ndim]
    return c.einsum('%s,%s->' % (lab, lab), X, X)


def budget(c, calls, tol, squared):
    s = sum(k.tol if squared else k.tol ** 2 for k in calls)
    c.true('tolerances of the truncations', s <= tol ** 2 * (1 + 1e-9), 'squares of the tolerances add up to %g, tolerance^2 = %g' % (s, tol ** 2))


def orthonormal_columns(c, label, X):
    m = X.ndim - 1
    c.eq(label, gram_last(c, X), c.eye(X.shape[m]))


def gram_last(c, X):
    a = L[:X.ndim - 1]
    return c.einsum('%sy,%sz->yz' % (a, a), X, X)


def real_bounds(c, A, y, tol, m, node_bound):
    """what the obligations entail, observed on a case"""
    B = val(c, y)
    e, nrm = np.linalg.norm(A - B), np.linalg.norm(A)
    if m is None:
        c.true('error within tolerance', e <= (tol * EPS + 2e-7) * nrm, 'error %g, tolerance %g' % (e / max(nrm, 1e-300), tol))
    else:
        for k in range(1, y.tree.nb_nodes + 1):
            if k != y.tree.root and y.is_active_node[k - 1]:
                c.true('rank bound', y.ranks[k - 1] <= node_bound(k), 'rank %d at node %d, bound %d' % (y.ranks[k - 1], k, node_bound(k)))


def bounds(c, mr, size, root=None):
    """(max_rank of the truncator, bound at position i)"""
    if mr == 'none':
        return None, np.inf, lambda i: np.inf
    v = [1000 + i for i in range(size)] if c.symbolic else [int(x) for x in c.rng.integers(1, 4, size=size)]
    if mr == 'scalar':
        return v[0], v[0], lambda i: v[0]
    if root is not None:
        v[root] = 1
    return v, np.array(v), lambda i: v[i]


@harness('C05', [TR + 'hosvd', 'FullTensor.matricize', 'FullTensor.tensor_matrix_product'], [{'order': k, 'mr': m} for k in (3, 4, 5) for m in ('none', 'scalar', 'each')], concrete=2)
def hosvd_contract(c, order, mr):
    n = c.dims('n', order, 1, 3)
    A = c.array('A', n, kind='real')
    x = tensap.FullTensor(A)
    for tol in TOLS if c.symbolic else (0.3,):
        m, M, bound = bounds(c, mr, order)
        tr = tensap.Truncator(tolerance=tol, max_rank=M)
        if not c.symbolic:
            y = tr.hosvd(x)
            leaf = {int(k): i for i, k in enumerate(np.ravel(y.tree.dim2ind))}
            return real_bounds(c, A, y, tol, m, lambda k: bound(leaf[k]))
        with c.truncations() as calls:
            y = tr.hosvd(x)
        d2i = [int(k) for k in np.ravel(y.tree.dim2ind)]
        B = A
        mine = []
        for i, k in enumerate(d2i):
            F = y.tensors[k - 1].data
            q = [q for q in calls if c.holds(q.W, F)]
            if len(q) != 1 or q[0].power != 2:
                raise Unsupported('leaf %d is not the result of one truncation' % k)
            mine.append(q[0])
            orthonormal_columns(c, 'frame of mode %d orthonormal' % i, F)
            c.eq('matrix truncated for mode %d' % i, c.einsum('ax,bx->ab', q[0].M, q[0].M), unfolding_gram(c, A, [i]))
            c.true('rank bound of mode %d' % i, q[0].max_rank <= bound(i), 'bound %g passed, expected %g' % (q[0].max_rank, bound(i)))
            B = project(c, B, F, [i])
        c.eq('the tensor with each mode projected', val(c, y), B)
        budget(c, mine, tol, False)


def chain(c, A, y, calls, tol):
    """premises of the sequential lemma"""
    V = val(c, y)
    lab = L[:V.ndim]
    e = energy(c, y.tensors[y.tree.root - 1])
    c.eq('the error is orthogonal to the result', c.einsum('%s,%s->' % (lab, lab), A, V), e)
    c.eq('energy of the result', energy(c, V), e)
    prev = energy(c, A)
    for j, q in enumerate(calls):
        if q.power != 2:
            raise Unsupported('truncation with another power')
        c.eq('energy of the matrix of truncation %d' % j, energy(c, q.M), prev)
        prev = energy(c, c.einsum('ax,ay->xy', q.W, q.M))
    c.eq('energy after the last truncation', e, prev)
    budget(c, calls, tol, False)


SEQ = [('t2', None), ('t3', None), ('l3', None), ('m3', 'rev'), ('b4', None), ('b4', 'shuf'), ('l4', None), ('p4', 'rev'), ('a4', None)]


@harness('C05', [TR + 'hsvd', 'FullTensor.matricize'], [dict(x, mr=m, rroot=r) for x in tconf(SEQ, ['all', 'none', 'alt']) for m in ('none', 'scalar', 'each') for r in (0, 1) if r == 0 or m == 'none'], concrete=2)
def hsvd_full_contract(c, tree, num, act, mr, rroot):
    sh = tree_shape(tree, num)
    n = c.dims('n', sh.order, 1, 3)
    A = c.array('A', n + ([c.dim('R', 2, 3)] if rroot else []), kind='real')
    x = tensap.FullTensor(A)
    ina = active_sets(sh, act)
    a = np.array([k not in ina for k in range(1, sh.n + 1)])
    for tol in TOLS[1:2] if c.symbolic else (0.3,):
        m, M, bound = bounds(c, mr, sh.n, sh.root - 1)
        tr = tensap.Truncator(tolerance=tol, max_rank=M)
        if not c.symbolic:
            y = tr.hsvd(x, sh.tree(), a)
            return real_bounds(c, A, y, tol, m, lambda k: bound(k - 1))
        with c.truncations() as calls:
            y = tr.hsvd(x, sh.tree(), a)
        sequential(c, A, y, calls, tol, bound, sh, a)


def sequential(c, A, y, calls, tol, bound, sh, a):
    c.same('active nodes', [bool(v) for v in y.is_active_node], [bool(v) for v in a])
    for k in range(1, sh.n + 1):
        if k == sh.root or not a[k - 1]:
            continue
        F = y.tensors[k - 1].data
        orthonormal_columns(c, 'core of node %d orthonormal' % k, F)
        q = [q for q in calls if c.holds(q.rank, F.shape[-1]) and c.holds(energy(c, c.einsum('ax,ay->xy', q.W, q.W)), energy(c, gram_last(c, F)))]
        if len(q) == 1 and isinstance(q[0].rank, Dim) and q[0].rank.const() is None:
            c.true('rank bound of node %d' % k, q[0].max_rank <= bound(k - 1), 'bound %g passed, expected %g' % (q[0].max_rank, bound(k - 1)))
    chain(c, A, y, calls, tol)


@harness('C05', [TR + 'ttsvd', TR + 'hsvd'], [{'order': k, 'mr': m} for k in (3, 4, 5) for m in ('none', 'scalar')], concrete=2)
def ttsvd_contract(c, order, mr):
    n = c.dims('n', order, 1, 3)
    A = c.array('A', n, kind='real')
    x = tensap.FullTensor(A)
    T = tensap.DimensionTree.linear(order)
    a = np.full(T.nb_nodes, True)
    a[T.dim2ind[1:] - 1] = False
    sh = Sh(T)
    for tol in TOLS[1:2] if c.symbolic else (0.3,):
        m, M, bound = bounds(c, mr, T.nb_nodes)
        tr = tensap.Truncator(tolerance=tol, max_rank=M)
        if not c.symbolic:
            return real_bounds(c, A, tr.ttsvd(x), tol, m, lambda k: bound(k - 1))
        with c.truncations() as calls:
            y = tr.ttsvd(x)
        sequential(c, A, y, calls, tol, bound, sh, a)


class Sh:
    def __init__(self, T):
        self.n, self.root = int(T.nb_nodes), int(T.root)


@harness('C05', [TR + 'hsvd', TB + 'gramians', TB + 'orth'], [dict(x, mr=m, kind=k) for x in tconf(SEQ, ['all', 'none', 'alt']) for m in ('none', 'scalar', 'each') for k in (1, 2)], concrete=2)
def hsvd_tree_contract(c, tree, num, act, mr, kind):
    sh = tree_shape(tree, num)
    N = net(c, 'A', tree, num, act, kind='real')
    t = N.tensor()
    A = N.full()
    for tol in TOLS if c.symbolic else (0.3,):
        m, M, bound = bounds(c, mr, sh.n, sh.root - 1)
        tr = tensap.Truncator(tolerance=tol, max_rank=M)
        tr._hsvd_type = kind
        if not c.symbolic:
            return real_bounds(c, A, tr.hsvd(t), tol, m, lambda k: bound(k - 1))
        with c.truncations() as calls:
            y = tr.hsvd(t)
        # contract of gramians, proved in C04: r represents the tensor, with orthonormal
        # frames U_k, and U_k g_k U_k^T = M_k M_k^T
        g, r = t.gramians()
        T = [v.data if hasattr(v, 'data') else v for v in r.tensors]
        mine = []
        left = list(calls)
        for k in range(1, sh.n + 1):
            if k == sh.root or k in N.inactive:
                continue
            X = y.tensors[k - 1].data
            q = [q for q in left if c.holds(q.rank, X.shape[-1]) and c.holds(q.M, c.data(g[k - 1]))]
            if not q:
                raise Unsupported('node %d is not truncated from its Gram matrix' % k)
            q = q[0]
            left.remove(q)
            mine.append(q)
            c.true('power', q.power == 1, 'truncation of a Gram matrix with power %r' % (q.power,))
            c.true('rank bound of node %d' % k, q.max_rank <= bound(k - 1), 'bound %g passed, expected %g' % (q.max_rank, bound(k - 1)))
            lab = L[:T[k - 1].ndim - 1]
            T[k - 1] = c.einsum('%sy,yw,zw->%sz' % (lab, lab), T[k - 1], q.W, q.W)
        E = tensap.TreeBasedTensor([tensap.FullTensor(v) for v in T], r.tree)
        c.eq('each frame projected', val(c, y), val(c, E))
        budget(c, mine, tol, True)


@harness('C05', [TR + 'svd', TR + 'truncate', 'CanonicalTensor.orth'], [{'kind': k, 'mr': m} for k in ('array', 'full', 'canonical') for m in ('none', 'scalar')], concrete=4)
def matrix_contract(c, kind, mr):
    n = c.dims('n', 2, 1, 4)
    if kind == 'canonical':
        _, r, sp, co, x = canon(c, 'A', 2, n=n)
        A = val(c, x)
    else:
        A = c.array('A', n, kind='real')
        x = A if kind == 'array' else tensap.FullTensor(A)
    if not c.symbolic and np.linalg.norm(A) == 0:
        raise SkipCase()
    for tol in TOLS if c.symbolic else (0.3,):
        m, M, bound = bounds(c, mr, 1)
        tr = tensap.Truncator(tolerance=tol, max_rank=M)
        if not c.symbolic:
            y = tr.truncate(x)
            e = np.linalg.norm(val(c, y) - A)
            c.true('error within tolerance', m is not None or e <= (tol * EPS + 2e-7) * np.linalg.norm(A))
            c.true('rank bound', m is None or y.space[0].shape[1] <= m)
            return
        with c.truncations() as calls:
            y = tr.truncate(x)
        if len(calls) != 1 or calls[0].power != 2:
            raise Unsupported('not one truncation')
        if kind == 'canonical':
            z = x.orth()
            for i in range(2):
                orthonormal_columns(c, 'orthogonalised factor %d' % i, z.space[i])
            c.eq('the orthogonalised tensor', c.einsum('ax,xy,by->ab', z.space[0], c.data(z.core), z.space[1]), A)
        q = calls[0]
        c.true('tolerance', q.tol <= tol * (1 + 1e-9))
        c.true('rank bound', q.max_rank <= bound(0))
        B = val(c, y)
        if kind == 'canonical':
            I = c.einsum('xy,xy->', c.data(z.core), c.einsum('ax,ab,by->xy', z.space[0], B, z.space[1]))
        else:
            I = c.einsum('ab,ab->', A, B)
        c.eq('the error is orthogonal to the result', I, energy(c, B))
        c.eq('energy of the truncated matrix', energy(c, q.M), energy(c, A))
        c.eq('energy of the result', energy(c, B), energy(c, c.einsum('ax,ay->xy', q.W, q.M)))
        for i in range(2):
            orthonormal_columns(c, 'singular vectors %d' % i, y.space[i])


@harness('C05', [TR + 'trunc_svd', TR + 'svd'], [{'n': n, 'power': p, 'mr': m, 'thr': t, 'give': g} for n in ([1, 1], [1, 3], [2, 2], [3, 2], [3, 3], [3, 4]) for p in (2, 1, 'inf') for m in (None, 1, 2) for t in (None, 'hard', 'soft') for g in (0, 1) if (g == 0 or t is None) and (min(n) < 3 or t is None or p == 2)], concrete=4, engine='scalar', paths=400)
def trunc_svd_all_spectra(c, n, power, mr, thr, give):
    """the singular values are arbitrary: ties and zeros included"""
    A = c.scals('A', n)
    U, s, V = np.linalg.svd(A, full_matrices=False) if not c.symbolic else tensap.tensor_algebra.tools.truncator.np.linalg.svd(A, full_matrices=False)
    r = min(n)
    c.assume(bool(s[0] > 1e-3))
    tol = c.scal('tol', 0, 1)
    th = None
    if thr is not None:
        th = c.scal('th', 0, 2)
        c.assume(bool(th <= s[0]))
    inf = np.inf
    if give:
        tr = tensap.Truncator(tolerance=0.3, max_rank=1)
        a = (tol, power, inf if mr is None else mr)
    else:
        tr = tensap.Truncator(tolerance=tol, max_rank=inf if mr is None else mr, thresholding_type=thr or 'hard', thresholding_parameter=th)
        a = (None, power)
    with c.frame('trunc_svd', A, tr):
        y = tr.trunc_svd(A, *a)
    d = y.core.data
    k = len(d)
    c.same('shape', [np.shape(y.space[0]), np.shape(y.space[1])], [(n[0], k), (n[1], k)])
    c.eq('left vectors', y.space[0], U[:, :k])
    c.eq('right vectors', y.space[1], np.transpose(V[:k]))
    shift = th if thr == 'soft' and bool(th * th > 0) else 0
    c.eq('singular values', d, s[:k] - shift)
    c.true('rank', 1 <= k <= r)
    if mr is not None:
        c.true('maximal rank', k <= mr)
    if power == 'inf':
        tail = [s[j] for j in range(r)] + [0]
        full, t = s[0], tol
    elif power == 1:
        tail = [sum(s[j:]) for j in range(r)] + [0]
        full, t = sum(s), tol
    else:
        tail = [sum(v * v for v in s[j:]) for j in range(r)] + [0]
        full, t = sum(v * v for v in s), tol * tol
    cut = thr is not None and bool(th * th > 0) and k < r and bool(s[k] < th)
    if not cut and (mr is None or k < mr):
        c.le('error within the tolerance', tail[k], t * full)
    if k > 1:
        c.le('no smaller rank meets the tolerance', t * full, tail[k - 1])
        if thr is not None:
            c.le('threshold', th, s[k - 1])


# ---------------------------------------------------------------- matrices of any size (relational engine)
@harness('C05', [TR + 'trunc_svd'], [{'power': p, 'mr': m, 'thr': t, 'give': g} for p in (2, 1, 3, 'inf') for m in (False, True) for t in (None, 'hard', 'soft') for g in (0, 1) if (g == 0 or t is None) and (p == 2 or t is None)], concrete=0, engine='relational')
def trunc_svd_any_size(c, power, mr, thr, give):
    """m x n matrix, any singular values s(0) >= ... >= s(p-1) >= 0, s(0) > 0.  T(k): sum of the
    powers of s(k), ..., s(p-1); e(k) = (T(k)/T(0))^(1/power) the relative error at rank k"""
    from vt.rel import z, R, I, Opaque, fun, forall, assume, ivar, power_symbol, fresh
    Z = z()
    S, RS = Z.Function, Z.RealSort()
    m, n, p = ivar('m'), ivar('n'), ivar('p')
    assume(Z.And(m >= 1, n >= 1, p == Z.If(m <= n, m, n)))
    s, U, V = fun('s', 1, RS), fun('U', 2, RS), fun('V', 2, RS)
    inr = lambda k: Z.And(0 <= k, k < p)
    assume(forall(lambda k: Z.Implies(inr(k), s(k) >= 0), 1, lambda k: [s(k)]))
    assume(forall(lambda j, k: Z.Implies(Z.And(0 <= j, j <= k, k < p), s(j) >= s(k)), 2, lambda j, k: [(s(j), s(k))]))
    assume(s(Z.IntVal(0)) > 0)

    def svd(a, full_matrices=True):
        c.prove('thin decomposition of the matrix', a is M and not full_matrices)
        return (R((m, p), U), R((p,), s), R((p, n), V))
    M = Opaque(m, n)
    c.linalg['svd'] = svd
    real = lambda name: I(Z.Real(fresh(name)))
    tol, th = real('tolerance'), real('threshold')
    assume(Z.And(0 < tol.t, tol.t < 1))
    q = I(ivar('max_rank'))
    assume(q.t >= 1)
    if power != 'inf':
        P, Q = power_symbol(power), power_symbol(1 / power)
        T = fun('tail', 1, RS)
        assume(T(p) == 0)
        assume(forall(lambda k: Z.Implies(inr(k), T(k) == T(k + 1) + P(s(k))), 1, lambda k: [T(k)]))
        j = ivar('k')
        # lemma, by induction from the end: T(k) >= 0
        lab = 'lemma: sums of the last powers are not negative'
        c.prove(lab + ' (base)', T(p) >= 0)
        c.prove(lab + ' (step)', Z.Implies(Z.And(inr(j), T(j + 1) >= 0), T(j) >= 0))
        assume(forall(lambda k: Z.Implies(Z.And(0 <= k, k <= p), T(k) >= 0), 1, lambda k: [T(k)]))
        c.prove('lemma: the norm is not zero', T(Z.IntVal(0)) > 0)
        assume(T(Z.IntVal(0)) > 0)
        c.sums += [lambda x: lambda k: T(Z.IntVal(0)) - T(k), lambda x: lambda k: T(p - k)]
        e = lambda k: Q(T(k) / T(Z.IntVal(0)))
    else:
        e = lambda k: Z.If(k < p, s(k) / s(Z.IntVal(0)), Z.RealVal(0))
    tr = tensap.Truncator()
    inf = np.inf
    tr.tolerance, tr.max_rank = (I(Z.RealVal('3/10')), I(Z.IntVal(1))) if give else (tol, q if mr else inf)
    if thr:
        assume(Z.And(0 < th.t, th.t <= s(Z.IntVal(0))))
        tr.thresholding_type, tr.thresholding_parameter = thr, th

    class T_:
        class CanonicalTensor:
            def __init__(self, space, core):
                self.space, self.core = space, core
    f = c.real(tensap.Truncator.trunc_svd, names={'tensap': T_})
    y = f(tr, M, tol, power, q if mr else inf) if give else f(tr, M, None, power)
    d, (A, B) = y.core, y.space
    k = d.sh[0]
    K = ivar('rank')
    assume(K == k)
    c.prove('rank between 1 and the size', Z.And(1 <= K, K <= p))
    c.equal('left singular vectors', A, R((m, K), lambda i, j: U(i, j)))
    c.equal('right singular vectors', B, R((n, K), lambda i, j: V(j, i)))
    shift = th.t if thr == 'soft' else 0
    c.equal('singular values', d, R((K,), lambda i: s(i) - shift))
    if mr:
        c.prove('maximal rank', K <= q.t)
    cut = Z.And(K < p, s(K) < th.t) if thr else Z.BoolVal(False)
    if mr:
        cut = Z.Or(cut, K >= q.t)
    c.prove('error within the tolerance', Z.Or(cut, K == p, e(K) <= tol.t))
    c.prove('no smaller rank meets the tolerance', Z.Implies(K > 1, e(K - 1) >= tol.t))
    if thr:
        c.prove('threshold', Z.Implies(K > 1, s(K - 1) >= th.t))
