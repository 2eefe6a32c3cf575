"""C02: the formats represent the same algebra.  `val` reads the dense tensor a value
represents from its public attributes, independently of the library's own full()."""
import itertools
import string
import numpy as np
import tensap
from vt.ctx import harness, SkipCase
from vt.dim import Dim, Unsupported
from vt.sym import SymArray
from vt.trees import Net, shape as tree_shape, active_sets, oracle_of, SHAPES

TB, CT, DT, ST = 'TreeBasedTensor.', 'CanonicalTensor.', 'DiagonalTensor.', 'SparseTensor.'
L = string.ascii_lowercase


def val(c, x):
    if isinstance(x, tensap.TreeBasedTensor):
        return oracle_of(c, x)
    if isinstance(x, tensap.CanonicalTensor):
        d = len(x.space)
        return c.einsum(','.join(L[i] + 'Z' for i in range(d)) + ',Z->' + L[:d], *(list(x.space) + [x.core.data]))
    if isinstance(x, tensap.DiagonalTensor):
        if c.symbolic:
            return SymArray.diag_tensor(x.data, x.order)
        E = np.zeros((np.size(x.data),) * x.order)
        for i, v in enumerate(np.ravel(x.data)):
            E[(i,) * x.order] = v
        return E
    if isinstance(x, tensap.SparseTensor):
        E = np.zeros([int(s) for s in np.atleast_1d(x.shape)])
        A = np.asarray(x.indices.array).reshape(-1, E.ndim)
        for k, v in zip(A, np.atleast_1d(x.data)):
            E[tuple(int(i) for i in k)] += v
        return E
    if isinstance(x, tensap.FullTensor):
        return x.data
    if hasattr(x, 'toarray'):
        return x.toarray()
    return x


def agree(c, label, x, expected):
    """x represents `expected`; and x.full() (if any) says the same"""
    c.eq(label, val(c, x), expected)
    if hasattr(x, 'full') and not isinstance(x, SymArray):
        c.eq(label + ' (full())', x.full(), expected)


ALL_TREES = [('t2', None), ('t3', None), ('t3', 'rev'), ('l3', None), ('m3', 'rev'), ('m3', 'shuf'), ('b4', None), ('b4', 'shuf'), ('l4', None), ('l4', 'rev'), ('p4', 'shuf'), ('a4', None), ('c4', 'rev')]
BIG_TREES = [('x5', None), ('y5', 'shuf'), ('z6', 'rev')]
ACT = ['all', 'none', 'first', 'last', 'alt', 'odd']


def tconf(trees=ALL_TREES, act=ACT, **kw):
    out = []
    for n, num in trees:
        seen = []
        for a in act:
            s = active_sets(tree_shape(n, num), a)
            if s in seen:
                continue
            seen.append(s)
            out.append(dict(tree=n, num=num, act=a, **kw))
    return out


SMALL = tconf(ALL_TREES[:2] + [('l3', None), ('m3', 'rev'), ('b4', 'shuf'), ('p4', 'shuf')])
FULLC = tconf() + tconf(BIG_TREES, ['all', 'none', 'alt'])
ONE = tconf([('t3', None), ('m3', 'rev'), ('b4', 'shuf')], ['all', 'none', 'alt'])


def net(c, name, tree, num, act, **kw):
    sh = tree_shape(tree, num)
    return Net(c, name, sh, active_sets(sh, act), **kw)


def rr(c, rroot):
    return c.dim('R', 2, 3) if rroot else 1


# ---------------------------------------------------------------- tree-based
@harness('C02', [TB + '__init__', TB + 'full', TB + 'numpy', TB + 'update_attributes', TB + 'storage', TB + 'active_nodes', TB + 'non_active_nodes', TB + 'active_dims', TB + 'ndim', 'FullTensor.tensordot', 'FullTensor.itranspose'], [dict(x, rroot=r) for x in FULLC for r in (0, 1)], concrete=2)
def tbt_full(c, tree, num, act, rroot):
    N = net(c, 'A', tree, num, act, root_rank=rr(c, rroot))
    t = N.tensor()
    F = N.full()
    with c.frame('full', t):
        c.eq('full', t.full(), F)
    c.eq('numpy', t.numpy(), F)
    c.size_eq('shape', list(t.shape), N.n)
    c.same('order', int(t.order), N.sh.order)
    c.same('ndim', int(t.ndim), N.sh.order)
    c.size_eq('ranks', list(t.ranks), [0 if k in N.inactive else (N.root_rank if k == N.sh.root else N.r[k]) for k in range(1, N.sh.n + 1)])
    c.same('active nodes', list(t.active_nodes), [k for k in range(1, N.sh.n + 1) if k not in N.inactive])
    c.same('non active nodes', list(t.non_active_nodes), sorted(N.inactive))
    c.same('active dims', list(t.active_dims), [d for d in range(N.sh.order) if N.sh.node_of_dim(d) not in N.inactive])
    u = tensap.TreeBasedTensor(t)
    agree(c, 'copy constructor', u, F)
    st = 0
    for k, a in N.arr.items():
        p = 1
        for s in a.shape:
            p = p * s
        st = st + p
    c.size_eq('storage', t.storage(), st)


@harness('C02', [TB + '__add__', TB + '__sub__', TB + '__neg__', TB + '__radd__', TB + '__rsub__', TB + 'cat', 'FullTensor.cat'], [dict(x, rroot=0) for x in FULLC] + [dict(x, rroot=1) for x in ONE], concrete=2)
def tbt_linear(c, tree, num, act, rroot):
    R = rr(c, rroot)
    N = net(c, 'A', tree, num, act, root_rank=R)
    M = net(c, 'B', tree, num, act, n=N.n, root_rank=R)
    t, u = N.tensor(), M.tensor()
    A, B = N.full(), M.full()
    with c.frame('linear', t, u):
        agree(c, 'add', t + u, A + B)
        agree(c, 'sub', t - u, A - B)
        agree(c, 'neg', -t, -1 * A)


@harness('C02', [TB + '__add__', TB + 'activate_nodes'], tconf([('t2', None), ('t3', None), ('l3', None), ('m3', 'rev'), ('b4', 'shuf')], ['none', 'first', 'alt', 'odd']), concrete=2)
def tbt_add_mixed(c, tree, num, act):
    N = net(c, 'A', tree, num, act)
    M = net(c, 'B', tree, num, 'last', n=N.n)
    t, u = N.tensor(), M.tensor()
    A, B = N.full(), M.full()
    with c.frame('add', t, u):
        agree(c, 'add with different active nodes', t + u, A + B)
        agree(c, 'sub with different active nodes', u - t, B - A)


@harness('C02', [TB + '__mul__', TB + '__rmul__', TB + '__truediv__', TB + 'hadamard_product'], [dict(x, rroot=r) for x in SMALL for r in (0, 1)], concrete=2)
def tbt_scale(c, tree, num, act, rroot):
    N = net(c, 'A', tree, num, act, root_rank=rr(c, rroot))
    t = N.tensor()
    A = N.full()
    with c.frame('scale', t):
        agree(c, 'right scaling', t * 3, 3 * A)
        agree(c, 'left scaling', 3 * t, 3 * A)
        agree(c, 'left scaling by an array of one entry', np.array([[3.]]) * t if not c.symbolic else t.__rmul__(np.array([[3.]])), 3 * A)
        agree(c, 'division', t / 4, A * 0.25)
    if rroot:
        m = c.dim('m', 2, 4)
        W = c.array('W', [m, N.root_rank])
        o = L[:N.sh.order]
        with c.frame('rmul', t):
            r = t.__rmul__(W)
        agree(c, 'matrix times root mode', r, c.einsum('yz,%sz->%sy' % (o, o), W, A))
        c.size_eq('root rank', r.ranks[N.sh.root - 1], m)


@harness('C02', [TB + '__mul__', TB + 'hadamard_product', TB + 'kron', TB + 'sub_tensor'], [dict(x, rroot=0) for x in FULLC] + [dict(x, rroot=1) for x in ONE], concrete=2)
def tbt_hadamard(c, tree, num, act, rroot):
    R = rr(c, rroot)
    N = net(c, 'A', tree, num, act, root_rank=R)
    M = net(c, 'B', tree, num, act, n=N.n, root_rank=R)
    t, u = N.tensor(), M.tensor()
    A, B = N.full(), M.full()
    with c.frame('hadamard', t, u):
        agree(c, 'product', t * u, A * B)
        agree(c, 'hadamard_product', t.hadamard_product(u), A * B)


@harness('C02', [TB + 'kron', 'FullTensor.kron'], [dict(x) for x in FULLC], concrete=2)
def tbt_kron(c, tree, num, act):
    N = net(c, 'A', tree, num, act)
    m = c.dims('m', N.sh.order, 1, 3)
    M = net(c, 'B', tree, num, act, n=m)
    t, u = N.tensor(), M.tensor()
    d = N.sh.order
    # entry (i, j) at position i * m + j of every mode
    E = c.einsum('%s,%s->%s' % (L[:d], L[d:2 * d], L[:2 * d]), N.full(), M.full())
    E = c.join(E, [[d + i, i] for i in range(d)])
    with c.frame('kron', t, u):
        r = t.kron(u)
    agree(c, 'kron', r, E)


@harness('C02', [TB + 'cat'], tconf([('t2', None), ('t3', None), ('l3', None), ('m3', 'rev'), ('b4', 'shuf'), ('l4', None)]), concrete=2)
def tbt_cat(c, tree, num, act):
    N = net(c, 'A', tree, num, act)
    m = c.dims('m', N.sh.order, 1, 3)
    M = net(c, 'B', tree, num, act, n=m)
    t, u = N.tensor(), M.tensor()
    # block diagonal: self in the leading block, tensor2 in the trailing block
    E = block_diag(c, N.full(), M.full(), N.n, m)
    with c.frame('cat', t, u):
        r = t.cat(u)
    agree(c, 'cat', r, E)


def block_diag(c, A, B, n, m):
    d = len(n)
    X, Y = A, B
    for i in range(d):
        sx = [n[k] + m[k] if k < i else n[k] for k in range(d)]
        sy = [n[k] + m[k] if k < i else m[k] for k in range(d)]
        sx[i], sy[i] = m[i], n[i]
        X = c.cat([X, c.zeros(sx)], i)
        Y = c.cat([c.zeros(sy), Y], i)
    return X + Y


@harness('C02', [TB + 'dot', TB + 'dot_with_rank_one_metric'], [dict(x) for x in FULLC], concrete=2)
def tbt_dot(c, tree, num, act):
    N = net(c, 'A', tree, num, act)
    M = net(c, 'B', tree, num, act, n=N.n)
    t, u = N.tensor(), M.tensor()
    A, B = N.full(), M.full()
    l = L[:N.sh.order]
    with c.frame('dot', t, u):
        c.eq('dot', np.reshape(t.dot(u), ()) if not c.symbolic else t.dot(u), c.einsum('%s,%s->' % (l, l), A, B))


@harness('C02', [TB + 'dot_with_rank_one_metric'], [dict(x) for x in SMALL], concrete=2)
def tbt_dot_metric(c, tree, num, act):
    N = net(c, 'A', tree, num, act)
    d = N.sh.order
    m = c.dims('m', d, 1, 3)
    M = net(c, 'B', tree, num, act, n=m)
    t, u = N.tensor(), M.tensor()
    W = [c.array('W%d' % i, [N.n[i], m[i]]) for i in range(d)]
    with c.frame('dot', t, u, W):
        r = t.dot_with_rank_one_metric(u, list(W))
    e = ','.join([L[:d], L[d:2 * d]] + [L[i] + L[d + i] for i in range(d)]) + '->'
    c.eq('dot with rank-one metric', np.reshape(r, ()) if not c.symbolic else r, c.einsum(e, N.full(), M.full(), *W))


@harness('C02', [TB + 'norm', TB + 'orth'], [dict(x) for x in FULLC], concrete=2)
def tbt_norm(c, tree, num, act):
    N = net(c, 'A', tree, num, act)
    t = N.tensor()
    A = N.full()
    l = L[:N.sh.order]
    with c.frame('norm', t):
        v = t.norm()
    E = c.einsum('%s,%s->' % (l, l), A, A)
    c.eq('squared norm', v * v, E)
    if not c.symbolic:
        c.true('norm is nonnegative', v >= 0)


def dim_subsets(d):
    out = [None]
    for k in range(1, d + 1):
        for s in itertools.combinations(range(d), k):
            out.append(list(s))
            if k > 1:
                out.append(list(s[::-1]))
    return out


def pick_subsets(tree, extra=4):
    d = len(flat(SHAPES[tree]))
    s = dim_subsets(d)
    if len(s) <= 10:
        return s
    r = np.random.RandomState(d)
    return [None] + [s[i] for i in sorted(1 + r.permutation(len(s) - 1)[:extra + 3])]


def flat(x):
    return [x] if isinstance(x, int) else [d for y in x for d in flat(y)]


DIMC = [dict(x, dims=s) for x in SMALL for s in pick_subsets(x['tree'])]


@harness('C02', [TB + 'tensor_matrix_product', TB + 'tensor_diagonal_matrix_product', TB + 'tensor_vector_product', TB + 'squeeze', TB + 'remove_unique_children', TB + 'reduce_sum'], DIMC, concrete=2)
def tbt_products(c, tree, num, act, dims):
    N = net(c, 'A', tree, num, act)
    t = N.tensor()
    A = N.full()
    d = N.sh.order
    D = list(range(d)) if dims is None else dims
    m = [c.dim('m%d' % i, 1, 3) for i in D]
    W = [c.array('W%d' % i, [k, N.n[i]]) for i, k in zip(D, m)]
    o = list(L[:d])
    for j, i in enumerate(D):
        o[i] = L[d + j]
    args = () if dims is None else (dims,)
    with c.frame('matrix product', t, W, list(args)):
        r = t.tensor_matrix_product(list(W), *args)
    agree(c, 'matrix product', r, c.einsum(','.join([L[:d]] + [L[d + j] + L[i] for j, i in enumerate(D)]) + '->' + ''.join(o), A, *W))
    v = [c.array('v%d' % i, [N.n[i]]) for i in D]
    e = ','.join([L[:d]] + [L[i] for i in D])
    with c.frame('diagonal matrix product', t, v):
        r = t.tensor_diagonal_matrix_product(list(v), *args)
    agree(c, 'diagonal matrix product', r, c.einsum(e + '->' + L[:d], A, *v))
    rem = ''.join(L[i] for i in range(d) if i not in D)
    with c.frame('vector product', t, v):
        r = t.tensor_vector_product(list(v), *args)
    agree(c, 'vector product', r, c.einsum(e + '->' + rem, A, *v))
    with c.frame('sum', t):
        r = t.reduce_sum(*args)
    agree(c, 'reduce_sum', r, c.einsum(L[:d] + '->' + rem, A))


@harness('C02', [TB + 'squeeze', TB + 'remove_unique_children'], [dict(x, dims=s) for x in SMALL + tconf([('x5', None), ('y5', 'shuf')], ['all', 'alt']) for s in pick_subsets(x['tree']) if s is None or s == sorted(s)], concrete=2)
def tbt_squeeze(c, tree, num, act, dims):
    sh = tree_shape(tree, num)
    d = sh.order
    if dims is None:
        ones = [d - 1] if d > 2 else [0]
    else:
        ones = dims
    n = [1 if i in ones else c.dim('n%d' % i, 2, 4) for i in range(d)]
    N = net(c, 'A', tree, num, act, n=n)
    t = N.tensor()
    A = N.full()
    with c.frame('squeeze', t):
        r = t.squeeze() if dims is None else t.squeeze(dims)
    E = c.einsum(L[:d] + '->' + ''.join(L[i] for i in range(d) if i not in ones), A)
    agree(c, 'squeeze', r, E)


@harness('C02', [TB + 'sub_tensor', TB + 'eval_at_indices', TB + 'eval_diag'], FULLC, concrete=3)
def tbt_index(c, tree, num, act):
    """index arrays of any length with any entries"""
    N = net(c, 'A', tree, num, act)
    t = N.tensor()
    A = N.full()
    d = N.sh.order
    o = L[:d]
    for sel in (list(range(d)), list(range(0, d, 2)), list(range(1, d, 2))):
        arg, ops, lab = [':'] * d, [], []
        for i in sel:
            I, S = c.indices('J%d' % i, c.dim('K%d' % i, 2 if c.symbolic and d > 3 else 1, 3), [N.n[i]])
            arg[i] = I[:, 0]
            ops.append(S[0])
            lab.append(L[i].upper() + L[i])
        with c.frame('sub_tensor', t, arg):
            r = t.sub_tensor(*arg)
        agree(c, 'sub_tensor', r, c.einsum(','.join(lab + [o]) + '->' + ''.join(x.upper() if i in sel else x for i, x in enumerate(o)), *(ops + [A])))
    K = c.dim('K', 1, 4)
    I, S = c.indices('I', K, N.n)
    with c.frame('eval_at_indices', t, I):
        r = t.eval_at_indices(I)
    E = c.einsum(','.join('Z' + x for x in o) + ',%s->Z' % o, *(S + [A]))
    v = val(c, r)
    if not c.symbolic:
        v = np.reshape(v, -1)
    c.eq('eval_at_indices', v, E)
    for i in range(d):
        with c.frame('eval_at_indices at one dimension', t, I):
            r = t.eval_at_indices(I[:, [i]], [i])
        agree(c, 'eval_at_indices at one dimension', r, c.einsum('Z%s,%s->%s' % (L[i], o, o.replace(L[i], 'Z')), S[i], A))


def proper_nodes(x):
    sh = tree_shape(x['tree'], x['num'])
    return [k for k in sh.internal() if k != sh.root]


@harness('C02', [TB + 'eval_at_indices'], [dict(x, node=k) for x in FULLC for k in proper_nodes(x)], concrete=2)
def tbt_index_node(c, tree, num, act, node):
    """partial evaluation on the dimensions of a node of the tree"""
    N = net(c, 'A', tree, num, act)
    sh = N.sh
    D = sorted(sh.dims(node))
    t = N.tensor()
    A = N.full()
    d = sh.order
    o = L[:d]
    K = c.dim('K', 1, 3)
    I, S = c.indices('I', K, [N.n[i] for i in D])
    with c.frame('eval_at_indices', t, I, D):
        r = t.eval_at_indices(I, D)
    rem = ''.join(L[i] for i in range(d) if i not in D)
    # sample mode first, remaining modes in increasing order
    B = c.einsum(','.join('Z' + L[i] for i in D) + ',%s->Z%s' % (o, rem), *(S + [A]))
    if K == 1 and not c.symbolic:
        c.eq('values', np.squeeze(val(c, r)), np.squeeze(B))
    elif K == 1:
        c.assume(False)
    else:
        agree(c, 'values', r, B)


@harness('C02', [TB + 'eval_diag', 'FullTensor.outer_product_eval_diag', 'FullTensor.tensordot_eval_diag'], [dict(x, rroot=r) for x in FULLC for r in (0, 1)], concrete=2)
def tbt_eval_diag(c, tree, num, act, rroot):
    n = c.dim('n', 2, 4)
    d = len(flat(SHAPES[tree]))
    N = net(c, 'A', tree, num, act, n=[n] * d, root_rank=rr(c, rroot))
    t = N.tensor()
    A = N.full()
    with c.frame('eval_diag', t):
        r = t.eval_diag()
    z = 'z' if rroot else ''
    c.eq('eval_diag', r, c.einsum('a' * d + z + '->a' + z, A))


@harness('C02', [TB + 'eval_diag'], [dict(x, node=k) for x in tconf([('l3', None), ('m3', 'rev'), ('b4', 'shuf'), ('l4', None), ('a4', None), ('c4', 'rev')], ['all', 'none', 'alt']) for k in tree_shape(x['tree'], x['num']).internal() if k != tree_shape(x['tree'], x['num']).root], concrete=2)
def tbt_eval_diag_node(c, tree, num, act, node):
    sh = tree_shape(tree, num)
    D = sorted(sh.dims(node))
    d = sh.order
    q = c.dim('q', 2, 4)
    n = [q if i in D else c.dim('n%d' % i, 1, 3) for i in range(d)]
    N = net(c, 'A', tree, num, act, n=n)
    t = N.tensor()
    A = N.full()
    with c.frame('eval_diag', t):
        r = t.eval_diag(D)
    rem = [i for i in range(d) if i not in D]
    agree(c, 'diagonal at the dimensions of a node', r, c.einsum(''.join('Z' if i in D else L[i] for i in range(d)) + '->Z' + ''.join(L[i] for i in rem), A))


@harness('C02', [TB + 'tensor_matrix_product_eval_diag'], [dict(x, rroot=r) for x in FULLC for r in (0, 1)], concrete=2)
def tbt_tmped(c, tree, num, act, rroot):
    N = net(c, 'A', tree, num, act, root_rank=rr(c, rroot))
    t = N.tensor()
    A = N.full()
    d = N.sh.order
    K = c.dim('K', 2, 4)
    W = [c.array('W%d' % i, [K, N.n[i]]) for i in range(d)]
    with c.frame('tensor_matrix_product_eval_diag', t, W):
        r = t.tensor_matrix_product_eval_diag(list(W))
    z = 'z' if rroot else ''
    c.eq('values', r, c.einsum(','.join([L[:d] + z] + ['Z' + L[i] for i in range(d)]) + '->Z' + z, A, *W))


@harness('C02', [TB + 'parameter_gradient_eval_diag', TB + 'eval_diag_below', TB + 'eval_diag_above'], [dict(x, node=k) for x in tconf([('t2', None), ('t3', None), ('l3', None), ('m3', 'rev'), ('b4', 'shuf'), ('p4', 'shuf'), ('c4', 'rev')]) + tconf([('x5', None), ('y5', 'shuf')], ['all', 'alt']) for k in range(1, tree_shape(x['tree'], x['num']).n + 1) if k not in active_sets(tree_shape(x['tree'], x['num']), x['act'])], concrete=1)
def tbt_gradient(c, tree, num, act, node):
    """contracting the gradient with the node's own tensor gives the values on the
    diagonal (sample mode), and the gradient does not involve the node's tensor"""
    sh = tree_shape(tree, num)
    d = sh.order
    N = net(c, 'A', tree, num, act)
    K = c.dim('K', 2, 4)
    W = [c.array('W%d' % i, [K, N.n[i]]) for i in range(d)]
    t = N.tensor()
    active = [i for i in range(d) if sh.node_of_dim(i) not in N.inactive]
    # leaves carry the evaluations, as in the learning algorithms
    te = t.tensor_matrix_product([W[i] for i in active], active) if active else t
    inact = [i for i in range(d) if i not in active]
    if inact:
        te2 = t.tensor_matrix_product(list(W))
    else:
        te2 = te
    with c.frame('gradient', te2, W):
        g = te2.parameter_gradient_eval_diag(node, list(W))
    lab, up = N.labels()
    ks = [k for k in sorted(N.arr) if k != node]
    if node in sh.dim:
        out = lab[node]
    else:
        # order of the modes used by the library: active children, inactive ones, own rank
        out = ''.join(up[x] for x in sh.ch[node] if x not in N.inactive) + ''.join(L[sh.dim[x]] for x in sh.ch[node] if x in N.inactive) + (up[node] if node != sh.root else '')
    E = c.einsum(','.join([lab[k] for k in ks] + ['Z' + L[i] for i in range(d)]) + '->Z' + out, *([N.arr[k] for k in ks] + W))
    c.eq('gradient', g, E)


@harness('C02', [TB + 'parameter_gradient_eval_diag_dmrg'], [dict(x, node=k) for x in tconf([('t2', None), ('t3', None), ('l3', None), ('m3', 'rev'), ('b4', 'shuf'), ('p4', 'shuf'), ('x5', None), ('y5', 'shuf')], ['all', 'none', 'alt']) for k in range(1, tree_shape(x['tree'], x['num']).n + 1) if k not in active_sets(tree_shape(x['tree'], x['num']), x['act']) and k != tree_shape(x['tree'], x['num']).root], concrete=1)
def tbt_gradient_dmrg(c, tree, num, act, node):
    """gradient with respect to the tensor of a node merged with its parent"""
    sh = tree_shape(tree, num)
    d = sh.order
    N = net(c, 'A', tree, num, act)
    K = c.dim('K', 2, 4)
    W = [c.array('W%d' % i, [K, N.n[i]]) for i in range(d)]
    te = N.tensor().tensor_matrix_product(list(W))
    with c.frame('gradient', te, W):
        g, ga, gg = te.parameter_gradient_eval_diag_dmrg(node, list(W))
    lab, up = N.labels()
    gamma = sh.par[node]
    ks = [k for k in sorted(N.arr) if k not in (node, gamma)]
    # the two parts: what multiplies the node's tensor, and what multiplies the parent's
    E_alpha = lab[node][:-1]
    rest = [x for x in lab[gamma] if x != lab[node][-1]]
    # order of the modes used by the library: active children first, then inactive ones
    act_ch = [x for x in sh.ch[node] if x not in N.inactive]
    ina_ch = [x for x in sh.ch[node] if x in N.inactive]
    if node in sh.dim:
        oa = L[sh.dim[node]]
    else:
        oa = ''.join(up[x] for x in act_ch) + ''.join(L[sh.dim[x]] for x in ina_ch)
    act_g = [x for x in sh.ch[gamma] if x not in N.inactive and x != node]
    ina_g = [x for x in sh.ch[gamma] if x in N.inactive]
    og = ''.join(up[x] for x in act_g) + ''.join(L[sh.dim[x]] for x in ina_g) + (up[gamma] if gamma != sh.root else '')
    E = c.einsum(','.join([lab[k] for k in ks] + ['Z' + L[i] for i in range(d)]) + '->Z' + oa + og, *([N.arr[k] for k in ks] + W))
    c.eq('gradient', g, E)
    la, lg = 'Z' + oa, 'Z' + og
    c.eq('gradient is the product of its two parts', g, c.einsum('%s,%s->Z%s' % (la, lg, oa + og), c.data(ga), c.data(gg)))


@harness('C02', [TB + 'tensor_train', 'DimensionTree.linear'], [{'order': o, 'dims': q} for o in (2, 3, 4, 5) for q in (None, 'rev', 'cyc')], concrete=3)
def tensor_train(c, order, dims):
    n = c.dims('n', order)
    r = [c.dim('r%d' % i, 2 if c.symbolic else 1, 3) for i in range(order - 1)]
    G = []
    for i in range(order):
        s = ([] if i == 0 else [r[i - 1]]) + [n[i]] + ([] if i == order - 1 else [r[i]])
        G.append(c.array('G%d' % i, s))
    lab = [('' if i == 0 else L[order + i - 1]) + L[i] + ('' if i == order - 1 else L[order + i]) for i in range(order)]
    E = c.einsum(','.join(lab) + '->' + L[:order], *G)
    p = {None: list(range(order)), 'rev': list(range(order))[::-1], 'cyc': list(range(1, order)) + [0]}[dims]
    cores = [tensap.FullTensor(G[i]) for i in p]
    with c.frame('tensor_train', cores, p):
        t = tensap.TreeBasedTensor.tensor_train(cores) if dims is None else tensap.TreeBasedTensor.tensor_train(cores, p)
    agree(c, 'tensor train', t, E)


@harness('C02', [TB + 'create', TB + 'zeros', TB + 'ones', TB + 'rand', TB + 'randn', TB + 'is_admissible_rank', TB + 'sparse_storage', TB + 'sparse_leaves_storage', TB + 'rank'], tconf(ALL_TREES, ['all', 'none', 'alt']), symbolic=False, concrete=2)
def tbt_create(c, tree, num, act):
    N = net(c, 'A', tree, num, act)
    sh = N.sh
    ranks = [1 if k == sh.root else N.r.get(k, 0) for k in range(1, sh.n + 1)]
    a = np.array([k not in N.inactive for k in range(1, sh.n + 1)])
    for nm, chk in [('ones', lambda x: x == 1), ('zeros', lambda x: x == 0), ('rand', lambda x: (x >= 0) & (x < 1)), ('randn', lambda x: np.isfinite(x))]:
        with c.frame(nm, ranks, N.n, a, N.tree):
            t = getattr(tensap.TreeBasedTensor, nm)(N.tree, ranks, N.n, a)
        c.same(nm + ' shape', list(t.shape), N.n)
        c.same(nm + ' ranks', list(t.ranks), ranks)
        c.same(nm + ' active', list(t.is_active_node), list(a))
        for k in N.arr:
            c.same(nm + ' node shape', list(t.tensors[k - 1].shape), list(N.arr[k].shape))
            c.true(nm + ' entries', np.all(chk(t.tensors[k - 1].data)))
    t = N.tensor()
    c.same('sparse storage', t.sparse_storage(), sum(np.count_nonzero(x) for x in N.arr.values()))
    c.same('sparse leaves storage', t.sparse_leaves_storage(), sum(np.count_nonzero(x) if k in sh.dim else x.size for k, x in N.arr.items()))
    # admissible ranks: every rank is at most what both sides of its edge allow
    ok = True
    rk = {k: (1 if k == sh.root else (N.n[sh.dim[k]] if k in N.inactive else N.r[k])) for k in range(1, sh.n + 1)}
    for k in sh.internal():
        ch = sh.ch[k]
        ok &= rk[k] <= np.prod([rk[x] for x in ch])
        for x in ch:
            if x not in N.inactive:
                ok &= rk[x] <= rk[k] * np.prod([rk[y] for y in ch if y != x])
    for k in sh.dim:
        if k not in N.inactive:
            ok &= rk[k] <= N.n[sh.dim[k]]
    with c.frame('is_admissible_rank', t):
        got = t.is_admissible_rank()
    c.same('is_admissible_rank', bool(got), bool(ok))


# ---------------------------------------------------------------- canonical
def canon(c, name, d, n=None, r=None):
    n = n or c.dims('n', d)
    r = r if r is not None else c.dim(name + 'r', 1, 3)
    sp = [c.array('%s%d' % (name, i), [n[i], r]) for i in range(d)]
    co = c.array(name + 'c', [r])
    return n, r, sp, co, tensap.CanonicalTensor(list(sp), co)


def cfull(c, sp, co):
    d = len(sp)
    return c.einsum(','.join(L[i] + 'Z' for i in range(d)) + ',Z->' + L[:d], *(list(sp) + [co]))


@harness('C02', [CT + x for x in ('__init__', 'full', 'numpy', '__add__', '__sub__', '__neg__', '__radd__', '__rsub__', 'dot', 'norm', 'storage', 'representation_rank', 'ndim')] + [DT + 'dot_with_rank_one_metric'], [{'order': k} for k in (1, 2, 3, 4)], concrete=12)
def canonical_linear(c, order):
    n, r, sp, co, t = canon(c, 'A', order)
    _, q, sq, cq, u = canon(c, 'B', order, n)
    A, B = cfull(c, sp, co), cfull(c, sq, cq)
    l = L[:order]
    with c.frame('linear', t, u):
        agree(c, 'full', t, A)
        c.eq('numpy', t.numpy(), A)
        agree(c, 'add', t + u, A + B)
        agree(c, 'sub', t - u, A - B)
        agree(c, 'neg', -t, -1 * A)
        c.eq('dot', t.dot(u), c.einsum('%s,%s->' % (l, l), A, B))
        v = t.norm()
    c.size_eq('shape', list(t.shape), n)
    c.size_eq('representation rank', t.representation_rank(), r)
    s = r
    for k in n:
        s = s + k * r
    c.size_eq('storage', t.storage(), s)
    if not c.symbolic:
        c.eq('norm', v, np.sqrt(np.sum(A * A)))


@harness('C02', [CT + x for x in ('tensor_matrix_product', 'tensor_vector_product', 'squeeze', 'reduce_sum')], [{'order': k, 'dims': s} for k in (2, 3, 4) for s in dim_subsets(k)], concrete=3)
def canonical_products(c, order, dims):
    n, r, sp, co, t = canon(c, 'A', order)
    A = cfull(c, sp, co)
    D = list(range(order)) if dims is None else dims
    args = () if dims is None else (dims,)
    W = [c.array('W%d' % i, [c.dim('m%d' % i, 1, 3), n[i]]) for i in D]
    o = list(L[:order])
    for j, i in enumerate(D):
        o[i] = L[order + j]
    with c.frame('matrix product', t, W, list(args)):
        x = t.tensor_matrix_product(list(W), *args)
    agree(c, 'matrix product', x, c.einsum(','.join([L[:order]] + [L[order + j] + L[i] for j, i in enumerate(D)]) + '->' + ''.join(o), A, *W))
    v = [c.array('v%d' % i, [n[i]]) for i in D]
    rem = ''.join(L[i] for i in range(order) if i not in D)
    with c.frame('vector product', t, v, list(args)):
        x = t.tensor_vector_product(list(v), *args)
    agree(c, 'vector product', x, c.einsum(','.join([L[:order]] + [L[i] for i in D]) + '->' + rem, A, *v))
    with c.frame('sum', t):
        x = t.reduce_sum(*args)
    agree(c, 'reduce_sum', x, c.einsum(L[:order] + '->' + rem, A))


@harness('C02', [CT + 'squeeze'], [{'order': k, 'ones': s, 'given': g} for k in (2, 3, 4) for s in dim_subsets(k)[1:] for g in (True, False) if s == sorted(s)], concrete=3)
def canonical_squeeze(c, order, ones, given):
    n = [1 if i in ones else c.dim('n%d' % i, 2, 4) for i in range(order)]
    n, r, sp, co, t = canon(c, 'A', order, n)
    with c.frame('squeeze', t):
        x = t.squeeze(ones) if given else t.squeeze()
    agree(c, 'squeeze', x, c.einsum(L[:order] + '->' + ''.join(L[i] for i in range(order) if i not in ones), cfull(c, sp, co)))


@harness('C02', [CT + 'eval_diag', CT + 'tensor_matrix_product_eval_diag'], [{'order': k, 'dims': s} for k in (2, 3, 4) for s in dim_subsets(k)], concrete=3)
def canonical_eval_diag(c, order, dims):
    D = list(range(order)) if dims is None else dims
    q = c.dim('q', 1, 4)
    n = [q if i in D else c.dim('n%d' % i, 1, 3) for i in range(order)]
    n, r, sp, co, t = canon(c, 'A', order, n)
    A = cfull(c, sp, co)
    args = () if dims is None else (dims,)
    first = min(D)
    src = ''.join('y' if i in D else L[i] for i in range(order))
    dst = ''.join('y' if i == first else L[i] for i in range(order) if i == first or i not in D)
    with c.frame('eval_diag', t, list(args)):
        x = t.eval_diag(*args)
    agree(c, 'eval_diag', x, c.einsum(src + '->' + dst, A))
    K = c.dim('K', 1, 4)
    W = [c.array('W%d' % i, [K, n[i]]) for i in D]
    with c.frame('tensor_matrix_product_eval_diag', t, W, list(args)):
        x = t.tensor_matrix_product_eval_diag(list(W), *args)
    agree(c, 'tensor_matrix_product_eval_diag', x, c.einsum(','.join([L[:order]] + ['y' + L[i] for i in D]) + '->' + dst, A, *W))


@harness('C02', [CT + 'parameter_gradient_eval_diag'], [{'order': k, 'mu': m} for k in (2, 3, 4) for m in range(1, k + 2)], concrete=4)
def canonical_gradient(c, order, mu):
    n, r, sp, co, t = canon(c, 'A', order)
    K = c.dim('K', 1, 4)
    W = [c.array('W%d' % i, [K, n[i]]) for i in range(order)]
    te = t.tensor_matrix_product(list(W))
    with c.frame('gradient', te, W):
        g = te.parameter_gradient_eval_diag(mu, list(W))
    if mu == order + 1:
        E = c.einsum(','.join('y' + L[i] + ',' + L[i] + 'z' for i in range(order)) + '->yz', *[z for i in range(order) for z in (W[i], sp[i])])
    else:
        k = mu - 1
        rest = [i for i in range(order) if i != k]
        E = c.einsum(','.join(['y' + L[k]] + ['y' + L[i] + ',' + L[i] + 'z' for i in rest]) + '->yz' + L[k], *([W[k]] + [z for i in rest for z in (W[i], sp[i])]))
    c.eq('gradient', g, E)
    if mu <= order:
        # the mode of the parameter is not evaluated: identity matrix instead of evaluations
        te = t.tensor_matrix_product([W[i] for i in rest], rest)
        with c.frame('gradient', te):
            g = te.parameter_gradient_eval_diag(mu)
        v = c.array('v', [n[k], r])
        E = c.einsum(','.join(['y' + L[i] + ',' + L[i] + 'z' for i in rest] + [L[k] + 'z']) + '->y' + L[k], *([z for i in rest for z in (W[i], sp[i])] + [v]))
        c.eq('derivative in the direction of a factor, at each index', c.einsum('yzij,jz->yi', c.data(g), v), E)


@harness('C02', [CT + 'tree_based_tensor', 'FullTensor.diag', TB + 'inactivate_nodes'], tconf(ALL_TREES + BIG_TREES, ['all', 'none', 'alt']), concrete=3)
def canonical_to_tree(c, tree, num, act):
    sh = tree_shape(tree, num)
    n, r, sp, co, t = canon(c, 'A', sh.order)
    ina = active_sets(sh, act)
    T = sh.tree()
    a = np.array([k not in ina for k in range(1, sh.n + 1)])
    with c.frame('tree_based_tensor', t, T, a):
        x = t.tree_based_tensor(T, a) if ina else t.tree_based_tensor(T)
    agree(c, 'tree-based form', x, cfull(c, sp, co))
    c.same('active nodes', list(x.is_active_node), list(a))


@harness('C02', [CT + 'create', CT + 'zeros', CT + 'ones', CT + 'rand', CT + 'randn', CT + 'orth', CT + 'sparse_storage', CT + 'norm'], [{'order': k} for k in (1, 2, 3)], symbolic=False, concrete=10)
def canonical_misc(c, order):
    n, r, sp, co, t = canon(c, 'A', order)
    A = cfull(c, sp, co)
    c.same('sparse storage', t.sparse_storage(), np.count_nonzero(co) + sum(np.count_nonzero(x) for x in sp))
    for nm in ('zeros', 'ones', 'rand', 'randn'):
        x = getattr(tensap.CanonicalTensor, nm)(r, n)
        c.same('shape', list(x.shape), n)
        c.same('rank', x.representation_rank(), r)
        if nm == 'zeros':
            c.eq('zeros', x.full(), np.zeros(n))
        if nm == 'ones':
            c.eq('ones', x.full(), np.full(n, float(r)))
    if order >= 2:
        with c.frame('orth', t):
            o = t.orth()
        # an orthogonalised canonical tensor has a full core
        E = np.asarray(o.core.data)
        for i, Q in enumerate(o.space):
            c.eq('orthonormal factors', Q.T @ Q, np.eye(Q.shape[1]))
            E = np.moveaxis(np.tensordot(Q, E, (1, i)), 0, i)
        c.eq('orth represents the tensor', E, A)


# ---------------------------------------------------------------- diagonal
def diagonal(c, name, d, r=None):
    r = r if r is not None else c.dim(name + 'r', 1, 4)
    v = c.array(name, [r])
    return r, v, tensap.DiagonalTensor(v, d)


def dfull(c, v, d):
    if c.symbolic:
        return SymArray.diag_tensor(v, d)
    E = np.zeros((v.size,) * d)
    for i in range(v.size):
        E[(i,) * d] = v[i]
    return E


@harness('C02', [DT + x for x in ('__init__', 'full', 'numpy', '__add__', '__sub__', '__neg__', '__mul__', 'dot', 'norm', 'cat', 'kron', 'storage', 'ndim', 'orth', 'update_attributes')], [{'order': k} for k in (1, 2, 3, 4)], concrete=8)
def diagonal_linear(c, order):
    r, v, t = diagonal(c, 'A', order)
    _, w, u = diagonal(c, 'B', order, r)
    s, z, y = diagonal(c, 'C', order)
    A, B = dfull(c, v, order), dfull(c, w, order)
    with c.frame('linear', t, u, y):
        agree(c, 'full', t, A)
        agree(c, 'add', t + u, A + B)
        agree(c, 'sub', t - u, A - B)
        agree(c, 'neg', -t, -1 * A)
        agree(c, 'product', t * u, A * B)
        c.eq('dot', t.dot(u), c.einsum('a,a->', v, w))
        nn = t.norm()
        agree(c, 'cat', t.cat(y), dfull(c, c.cat([v, z], 0), order))
        agree(c, 'kron', t.kron(y), dfull(c, c.join(c.einsum('a,b->ab', v, z), [[1, 0]]), order))
        agree(c, 'orth', t.orth(), A)
        agree(c, 'copy constructor', tensap.DiagonalTensor(t), A)
    c.eq('norm', nn * nn, c.einsum('a,a->', v, v))
    c.size_eq('shape', list(t.shape), [r] * order)
    c.size_eq('storage', t.storage(), r)


@harness('C02', [DT + x for x in ('tensor_matrix_product', 'tensor_vector_product', 'tensor_diagonal_matrix_product', 'tensor_matrix_product_eval_diag', 'tensordot', 'sub_tensor', 'transpose', 'itranspose')], [{'order': k, 'dims': s} for k in (1, 2, 3) for s in dim_subsets(k)], concrete=4)
def diagonal_products(c, order, dims):
    r, v, t = diagonal(c, 'A', order)
    A = dfull(c, v, order)
    D = list(range(order)) if dims is None else dims
    args = () if dims is None else (dims,)
    W = [c.array('W%d' % i, [c.dim('m%d' % i, 1, 3), r]) for i in D]
    o = list(L[:order])
    for j, i in enumerate(D):
        o[i] = L[order + j]
    with c.frame('matrix product', t, W, list(args)):
        x = t.tensor_matrix_product(list(W), *args)
    agree(c, 'matrix product', x, c.einsum(','.join([L[:order]] + [L[order + j] + L[i] for j, i in enumerate(D)]) + '->' + ''.join(o), A, *W))
    if dims is None or len(D) == order:
        K = c.dim('K', 2, 4)
        W = [c.array('V%d' % i, [K, r]) for i in range(order)]
        if dims is None and order > 1 and not c.symbolic:
            x = t.tensor_matrix_product_eval_diag(list(W))
            c.eq('tensor_matrix_product_eval_diag', x, c.einsum(','.join([L[:order]] + ['y' + L[i] for i in range(order)]) + '->y', A, *W))
    # products with vectors on the first len(D) modes: any choice of modes gives the same
    q = [c.array('q%d' % i, [r]) for i in range(len(D))]
    with c.frame('vector product', t, q):
        x = t.tensor_vector_product(list(q))
    agree(c, 'vector product', x, c.einsum(','.join([L[:order]] + [L[i] for i in range(len(D))]) + '->' + L[len(D):order], A, *q))
    with c.frame('diagonal matrix product', t, q):
        x = t.tensor_diagonal_matrix_product(list(q))
    agree(c, 'diagonal matrix product', x, c.einsum(','.join([L[:order]] + [L[i] for i in range(len(D))]) + '->' + L[:order], A, *q))
    agree(c, 'transpose', t.transpose(list(range(order))[::-1]), A)
    agree(c, 'itranspose', t.itranspose(list(range(order))[::-1]), A)


@harness('C02', DT + 'dot_with_rank_one_metric', [{'order': k, 'form': f} for k in (1, 2, 3) for f in ('list', 'array')], concrete=6)
def diagonal_metric(c, order, form):
    r, v, t = diagonal(c, 'A', order)
    s, w, u = diagonal(c, 'B', order)
    M = [c.array('M%d' % i, [r, s]) for i in range(order)]
    E = c.einsum(','.join([L[:order], L[order:2 * order]] + [L[i] + L[order + i] for i in range(order)]) + '->', dfull(c, v, order), dfull(c, w, order), *M)
    arg = list(M) if form == 'list' else c.cat(M, 1)
    with c.frame('dot', t, u, arg):
        x = t.dot_with_rank_one_metric(u, arg)
    c.eq('dot with rank-one metric', x, E)
    if order > 1:
        for k in range(order):
            with c.frame('contraction', t, u, M):
                x = t.tensordot_matrix_product_except_dim(u, list(M), k)
            o = [i for i in range(order) if i != k]
            E = c.einsum(','.join([L[:order], L[order:2 * order]] + [L[i] + L[order + i] for i in o]) + '->' + L[k] + L[order + k], dfull(c, v, order), dfull(c, w, order), *[M[i] for i in o])
            c.eq('tensordot_matrix_product_except_dim', x, E)


@harness('C02', [DT + 'eval_diag'], [{'order': k, 'dims': s} for k in (1, 2, 3, 4) for s in dim_subsets(k)], concrete=3)
def diagonal_eval_diag(c, order, dims):
    r, v, t = diagonal(c, 'A', order)
    D = list(range(order)) if dims is None else dims
    with c.frame('eval_diag', t):
        x = t.eval_diag() if dims is None else t.eval_diag(dims)
    agree(c, 'eval_diag', x, dfull(c, v, order - len(D) + 1))
    if isinstance(x, tensap.DiagonalTensor):
        c.size_eq('shape', list(x.shape), [r] * (order - len(D) + 1))


@harness('C02', [DT + 'tree_based_tensor'], tconf(ALL_TREES + BIG_TREES, ['all', 'none', 'alt']), concrete=3)
def diagonal_to_tree(c, tree, num, act):
    sh = tree_shape(tree, num)
    r, v, t = diagonal(c, 'A', sh.order)
    ina = active_sets(sh, act)
    T = sh.tree()
    a = np.array([k not in ina for k in range(1, sh.n + 1)])
    with c.frame('tree_based_tensor', t, T, a):
        x = t.tree_based_tensor(T, a)
    agree(c, 'tree-based form', x, dfull(c, v, sh.order))
    if act == 'none' and sh.order > 1:
        with c.frame('tree_based_tensor', t, T):
            x = t.tree_based_tensor(T)
            y = t.tree_based_tensor()
        agree(c, 'tree-based form, default activity', x, dfull(c, v, sh.order))
        agree(c, 'tree-based form, default tree', y, dfull(c, v, sh.order))


@harness('C02', [DT + 'eval_at_indices', DT + 'sub_tensor', DT + 'tensordot'], [{'order': k} for k in (1, 2, 3, 4)], concrete=8)
def diagonal_indices(c, order):
    r, v, t = diagonal(c, 'A', order)
    A = dfull(c, v, order)
    o = L[:order]
    I, S = c.indices('I', c.dim('K', 1, 5), [r] * order)
    if not c.symbolic:
        I[0] = I[0, 0]
        S = [np.eye(r)[I[:, j]] for j in range(order)]
    with c.frame('indices', t, I):
        c.eq('eval_at_indices', t.eval_at_indices(I), c.einsum(','.join('Z' + x for x in o) + ',%s->Z' % o, *(S + [A])))
    sel, ops = [], []
    for j in range(order):
        J, S = c.indices('J%d' % j, c.dim('k%d' % j, 1, 3), [r])
        sel.append(J[:, 0])
        ops.append(S[0])
    with c.frame('sub_tensor', t, sel):
        c.eq('sub_tensor', t.sub_tensor(*sel), c.einsum(','.join([x.upper() + x for x in o] + [o]) + '->' + o.upper(), *(ops + [A])))
    _, w, u = diagonal(c, 'B', order, r)
    c.eq('tensordot', t.tensordot(u, [0], [0]), c.einsum('Z%s,Z%s->%s%s' % (o[1:], o[1:].upper(), o[1:], o[1:].upper()), A, dfull(c, w, order)))


@harness('C02', [DT + 'sparse', DT + 'sparse_storage', DT + 'create', DT + 'rand', DT + 'randn', DT + 'zeros', DT + 'ones'], [{'order': k} for k in (1, 2, 3, 4)], symbolic=False, concrete=12)
def diagonal_misc(c, order):
    r, v, t = diagonal(c, 'A', order)
    A = dfull(c, v, order)
    with c.frame('sparse', t):
        agree(c, 'sparse', t.sparse(), A)
    c.same('sparse storage', t.sparse_storage(), np.count_nonzero(v))
    for nm in ('zeros', 'ones', 'rand', 'randn'):
        x = getattr(tensap.DiagonalTensor, nm)(r, order)
        c.same('shape', list(x.shape), [r] * order)


# ---------------------------------------------------------------- sparse
def sparse(c, name, n, density=None):
    n = [int(k) for k in n]
    if density is None:
        density = [0.0, 0.1, 0.4, 0.8][int(c.rng.integers(0, 4))]
    A = c.array(name, n) * (c.rng.random(n) < density)
    if np.count_nonzero(A) == 0:
        A[tuple(int(c.rng.integers(0, k)) for k in n)] = 3.0
    k = np.stack(np.nonzero(A), axis=1)
    k = k[c.rng.permutation(len(k))]
    return A, tensap.SparseTensor(A[tuple(k.T)], tensap.MultiIndices(k), np.array(n))


@harness('C02', [ST + x for x in ('__init__', 'full', 'numpy', '__add__', '__mul__', 'dot', 'norm', 'transpose', 'itranspose', 'reshape', 'storage', 'sparse_storage', 'count_non_zero', 'ndim', 'size', 'eval_at_indices', 'eval_diag', 'tensor_matrix_product_eval_diag', 'dot_with_rank_one_metric')], [{'order': k} for k in (1, 2, 3, 4)], symbolic=False, concrete=25)
def sparse_ops(c, order):
    n = c.dims('n', order)
    A, t = sparse(c, 'A', n)
    B, u = sparse(c, 'B', n)
    agree(c, 'full', t, A)
    agree(c, 'from a dense array', tensap.SparseTensor(A), A)
    agree(c, 'copy constructor', tensap.SparseTensor(t), A)
    c.same('order', t.order, order)
    c.same('ndim', t.ndim, order)
    c.same('size', int(t.size), int(np.prod(n)))
    c.same('storage', t.storage(), np.count_nonzero(A))
    with c.frame('linear', t, u):
        agree(c, 'add', t + u, A + B)
        c.eq('dot', t.dot(u), np.sum(A * B))
        c.eq('norm', t.norm(), np.sqrt(np.sum(A * A)))
        agree(c, 'product', t * u, A * B)
        agree(c, 'product with a dense tensor', t * tensap.FullTensor(B), A * B)
    if order <= 2 and order > 1:
        c.eq('numpy', t.numpy().toarray(), A)
    p = [int(i) for i in c.rng.permutation(order)]
    with c.frame('transpose', t, p):
        agree(c, 'transpose', t.transpose(p), np.transpose(A, p))
        agree(c, 'itranspose', t.itranspose(p), np.transpose(A, np.argsort(p)))
    s = [n[0] * n[1]] + n[2:] if order > 1 else [n[0], 1]
    with c.frame('reshape', t, s):
        agree(c, 'reshape', t.reshape(s), np.reshape(A, s, order='F'))
    I = np.stack([c.rng.integers(0, k, size=5) for k in n], axis=1)
    I = np.concatenate([I, np.stack(np.nonzero(A), axis=1)[:3]])
    with c.frame('eval_at_indices', t, I):
        r = t.eval_at_indices(I)
    c.eq('eval_at_indices', np.ravel(r.toarray() if hasattr(r, 'toarray') else r), A[tuple(I.T)])
    W = [c.array('W%d' % i, [3, n[i]]) for i in range(order)]
    with c.frame('tensor_matrix_product_eval_diag', t, W):
        r = t.tensor_matrix_product_eval_diag(list(W))
    c.eq('tensor_matrix_product_eval_diag', r, c.einsum(','.join([L[:order]] + ['y' + L[i] for i in range(order)]) + '->y', A, *W))
    m = [c.dim('k%d' % i, 1, 3) for i in range(order)]
    D, w = sparse(c, 'D', m)
    M = [c.array('M%d' % i, [n[i], m[i]]) for i in range(order)]
    with c.frame('metric', t, w, M):
        r = t.dot_with_rank_one_metric(w, list(M))
    c.eq('dot_with_rank_one_metric', r, c.einsum(','.join([L[:order], L[order:2 * order]] + [L[i] + L[order + i] for i in range(order)]) + '->', A, D, *M))
    q, d2 = n[0], [n[0]] * order
    F, x = sparse(c, 'F', d2)
    with c.frame('eval_diag', x):
        r = x.eval_diag()
    if order > 1:
        c.eq('eval_diag', np.ravel(r.toarray() if hasattr(r, 'toarray') else r), np.einsum('a' * order + '->a', F))


@harness('C02', [ST + 'tensor_matrix_product', ST + 'tensor_vector_product', ST + 'tensor_diagonal_matrix_product'], [{'order': k, 'dims': s} for k in (1, 2, 3, 4) for s in dim_subsets(k)], symbolic=False, concrete=6)
def sparse_products(c, order, dims):
    n = c.dims('n', order)
    A, t = sparse(c, 'A', n)
    D = list(range(order)) if dims is None else dims
    args = () if dims is None else (dims,)
    W = [c.array('W%d' % i, [c.dim('m%d' % i, 1, 3), n[i]]) for i in D]
    o = list(L[:order])
    for j, i in enumerate(D):
        o[i] = L[order + j]
    with c.frame('matrix product', t, W, list(args)):
        x = t.tensor_matrix_product(list(W), *args)
    agree(c, 'matrix product', x, c.einsum(','.join([L[:order]] + [L[order + j] + L[i] for j, i in enumerate(D)]) + '->' + ''.join(o), A, *W))
    v = [c.array('v%d' % i, [n[i]]) for i in D]
    e = ','.join([L[:order]] + [L[i] for i in D])
    with c.frame('diagonal matrix product', t, v, list(args)):
        x = t.tensor_diagonal_matrix_product(list(v), *args)
    agree(c, 'diagonal matrix product', x, c.einsum(e + '->' + L[:order], A, *v))
    rem = ''.join(L[i] for i in range(order) if i not in D)
    with c.frame('vector product', t, v, list(args)):
        x = t.tensor_vector_product(list(v), *args)
    E = c.einsum(e + '->' + rem, A, *v)
    c.eq('vector product', np.reshape(val(c, x), np.shape(E)) if not rem else val(c, x), E)


# ---------------------------------------------------------------- across formats
@harness('C02', ['FullTensor.tree_based_tensor'], [{'order': k} for k in (2, 3, 4)], concrete=4)
def full_to_tree(c, order):
    n = c.dims('n', order)
    A = c.array('A', n)
    t = tensap.FullTensor(A)
    with c.frame('tree_based_tensor', t):
        x = t.tree_based_tensor()
    agree(c, 'tree-based form', x, A)
