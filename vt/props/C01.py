"""C01: every operation of FullTensor satisfies its index equation."""
import itertools
import numpy as np
import tensap
from vt.ctx import harness, SkipCase
from vt.dim import Dim, Unsupported
from vt.sym import SymArray

FT = 'FullTensor.'
L = 'abcdefgh'


def subsets(order, kmin=1, kmax=None):
    out = []
    for k in range(kmin, (kmax or order) + 1):
        out += [list(s) for s in itertools.combinations(range(order), k)]
    return out


def some_perms(s):
    s = list(s)
    out = [s]
    if len(s) > 1:
        out.append(s[::-1])
    if len(s) > 2:
        out.append(s[1:] + s[:1])
    return out


def T(c, name, shape, kind=None):
    A = c.array(name, shape, kind)
    return A, tensap.FullTensor(A)


@harness('C01', [FT + '__init__', FT + 'shape', FT + 'order', FT + 'size', FT + 'numpy', FT + 'full', FT + 'storage'], [{'order': k} for k in range(0, 6)])
def construct(c, order):
    n = c.dims('n', order)
    A, t = T(c, 'A', n)
    c.eq('entries', t.data, A)
    c.eq('numpy()', t.numpy(), A)
    c.eq('full()', t.full(), A)
    c.same('order', t.order, order)
    c.same('ndim', t.ndim, order)
    c.size_eq('shape', list(t.shape), n)
    c.size_eq('size', list(t.size), n)
    c.eq('copy constructor', tensap.FullTensor(t), A)
    p = 1
    for x in n:
        p = p * x
    c.size_eq('storage', t.storage(), p)


@harness('C01', [FT + '__init__'], [{'order': k, 'extra': e} for k in (1, 2, 3) for e in (1, 2)])
def construct_order(c, order, extra):
    n = c.dims('n', order)
    A = c.array('A', n)
    t = tensap.FullTensor(A, order + extra)
    c.same('order', t.order, order + extra)
    c.size_eq('shape', list(t.shape), n + [1] * extra)
    c.eq('entries', t.squeeze(list(range(order, order + extra))), A)


@harness('C01', [FT + '__init__', FT + 'reshape'], [{'groups': g} for g in ([[0, 1]], [[0], [1, 2]], [[0, 1], [2]], [[0, 1, 2]], [[0, 1], [2, 3]], [[0, 1, 2], [3]], [[0], [1], [2, 3]])])
def reshape_f(c, groups):
    k = sum(map(len, groups))
    n = c.dims('n', k)
    A, t = T(c, 'A', n)
    shp = []
    for g in groups:
        p = 1
        for i in g:
            p = p * n[i]
        shp.append(p)
    E = c.join(A, groups)
    with c.frame('reshape', t):
        r = t.reshape(shp)
    c.eq('reshape to merged modes', r, E)
    c.eq('reshape back', r.reshape(n), A)
    c.eq('constructor with shape', tensap.FullTensor(A, shape=shp), E)
    c.eq('constructor with order and shape', tensap.FullTensor(E, order=k, shape=n), A)
    if len(groups) == 1:
        c.eq('reshape -1', t.reshape(-1), E)
    if len(groups) == 2:
        c.eq('reshape with an inferred size', t.reshape([shp[0], -1]), E)


@harness('C01', [FT + '__add__', FT + '__sub__', FT + '__neg__', FT + '__mul__', FT + 'hadamard_product', FT + '__truediv__', FT + '__pow__', FT + '__rmul__', FT + '__radd__', FT + '__rsub__'], [{'order': k} for k in (1, 2, 3, 4)])
def arithmetic(c, order):
    n = c.dims('n', order)
    A, t = T(c, 'A', n)
    B, u = T(c, 'B', n)
    s = c.real('s')
    l = L[:order]
    with c.frame('arithmetic', t, u):
        c.eq('add', t + u, A + B)
        c.eq('sub', t - u, A - B)
        c.eq('neg', -t, -1 * A)
        c.eq('mul', t * u, c.einsum('%s,%s->%s' % (l, l, l), A, B))
        c.eq('hadamard', t.hadamard_product(u), c.einsum('%s,%s->%s' % (l, l, l), A, B))
        c.eq('scale right', t * s, c.einsum('%s,->%s' % (l, l), A, s))
        c.eq('scale by 3', 3 * t, 3 * A)
        c.eq('divide by 4', t / 4, A * 0.25)
        c.eq('pow 2', t ** 2, c.einsum('%s,%s->%s' % (l, l, l), A, A))
        c.eq('pow 3', t ** 3, c.einsum('%s,%s,%s->%s' % (l, l, l, l), A, A, A))
        c.eq('add array', t + B, A + B)
        c.eq('sub array', t - B, A - B)
        c.eq('radd', 2 + t, A + 2)
        c.eq('rsub', 2 - t, -A + 2)
        c.eq('rsub tensor', tensap.FullTensor.__rsub__(t, u), B - A)


@harness('C01', [FT + '__eq__', FT + '__truediv__', FT + 'sparse_storage', FT + '__getitem__'], [{'order': k} for k in (1, 2, 3)], symbolic=False, concrete=20)
def eq_div(c, order):
    n = c.dims('n', order)
    A, t = T(c, 'A', n)
    B = c.array('B', n, 'pos')
    c.eq('div', t / tensap.FullTensor(B), A / B)
    c.true('equal to its copy', t == tensap.FullTensor(A.copy()))
    A2 = A.copy()
    i = tuple(int(c.rng.integers(0, k)) for k in A.shape)
    A2[i] += 1
    c.true('different entry means different', not (t == tensap.FullTensor(A2)))
    c.same('sparse_storage', t.sparse_storage(), int(np.sum(A != 0)))
    c.same('getitem', t[i], A[i])


@harness('C01', [FT + 'transpose', FT + 'itranspose'], [{'perm': list(p)} for k in (1, 2, 3, 4) for p in itertools.permutations(range(k))] + [{'perm': [4, 1, 0, 3, 2]}, {'perm': [2, 4, 5, 0, 1, 3]}], concrete=3)
def transpose(c, perm):
    k = len(perm)
    n = c.dims('n', k)
    A, t = T(c, 'A', n)
    with c.frame('transpose', t):
        r = t.transpose(perm)
        q = t.itranspose(perm)
    c.eq('transpose', r, c.einsum('%s->%s' % (L[:k], ''.join(L[p] for p in perm)), A))
    c.eq('itranspose', q, c.einsum('%s->%s' % (''.join(L[p] for p in perm), L[:k]), A))
    c.eq('inverse', r.itranspose(perm), A)


@harness('C01', [FT + 'matricize', FT + 'transpose', FT + 'reshape'], [{'order': o, 'dims': d} for o in (1, 2, 3, 4) for s in subsets(o) for d in some_perms(s)] + [{'order': 3, 'dims': [1], 'dims2': [2, 0]}, {'order': 4, 'dims': [3, 1], 'dims2': [2, 0]}, {'order': 3, 'dims': -1}, {'order': 2, 'dims': 0}, {'order': 4, 'dims': 2}], concrete=4)
def matricize(c, order, dims, dims2=None):
    n = c.dims('n', order)
    A, t = T(c, 'A', n)
    d1 = [order - 1] if dims == -1 else ([dims] if isinstance(dims, int) else list(dims))
    d2 = list(dims2) if dims2 is not None else [i for i in range(order) if i not in d1]
    with c.frame('matricize', t):
        r = t.matricize(dims) if dims2 is None else t.matricize(dims, dims2)
    c.eq('matricisation', r, c.join(A, [d1, d2]))


@harness('C01', FT + 'tensordot', [{'o1': a, 'o2': b, 'd1': list(d1), 'd2': list(d2)} for a in (1, 2, 3) for b in (1, 2, 3) for k in (1, 2) if k <= min(a, b) for d1 in itertools.permutations(range(a), k) for d2 in itertools.combinations(range(b), k)] + [{'o1': 2, 'o2': 3, 'd1': None, 'd2': None}, {'o1': 1, 'o2': 1, 'd1': None, 'd2': None}, {'o1': 4, 'o2': 3, 'd1': [3, 0], 'd2': [1, 2]}, {'o1': 3, 'o2': 3, 'd1': [2, 0, 1], 'd2': [0, 1, 2]}], concrete=3)
def tensordot(c, o1, o2, d1, d2):
    n1 = c.dims('n', o1)
    n2 = c.dims('m', o2)
    l1, l2 = list(L[:o1]), list('ABCDEF'[:o2])
    if d1 is not None:
        for x, y in zip(d1, d2):
            n2[y] = n1[x]
            l2[y] = l1[x]
    A, t = T(c, 'A', n1)
    B, u = T(c, 'B', n2)
    with c.frame('tensordot', t, u):
        if d1 is None:
            r = t.tensordot(u, 0)
            d1, d2 = [], []
        else:
            r = t.tensordot(u, d1, d2)
            if len(d1) == 1:
                c.eq('tensordot with integer dims', t.tensordot(u, d1[0], d2[0]), r)
    out = [x for i, x in enumerate(l1) if i not in d1] + [x for i, x in enumerate(l2) if i not in d2]
    c.eq('contraction', r, c.einsum('%s,%s->%s' % (''.join(l1), ''.join(l2), ''.join(out)), A, B))


def ted_configs():
    import random
    rnd = random.Random(7)
    out = []
    while len(out) < 260:
        o1, o2 = rnd.randint(1, 4), rnd.randint(1, 4)
        p1, p2 = rnd.sample(range(o1), o1), rnd.sample(range(o2), o2)
        k = rnd.randint(0, min(o1, o2, 2))
        c1, c2, r1, r2 = p1[:k], p2[:k], p1[k:], p2[k:]
        diag = rnd.random() < 0.4
        m1, m2 = rnd.randint(1, 3), rnd.randint(1, 3)
        if diag:
            m2 = m1
        if len(r1) < m1 or len(r2) < m2:
            continue
        cf = {'o1': o1, 'o2': o2, 'c1': c1 or None, 'c2': c2 or None, 'g1': r1[:m1], 'g2': r2[:m2], 'diag': diag}
        if cf not in out:
            out.append(cf)
    return out


@harness('C01', [FT + 'tensordot_eval_diag', FT + 'outer_product_eval_diag'],
         [{'o1': 3, 'o2': 3, 'c1': [0], 'c2': [1], 'g1': [1], 'g2': [2], 'diag': False},
          {'o1': 3, 'o2': 3, 'c1': [2], 'c2': [0], 'g1': [0], 'g2': [1], 'diag': False},
          {'o1': 3, 'o2': 4, 'c1': [0, 1], 'c2': [3, 1], 'g1': [2], 'g2': [0], 'diag': False},
          {'o1': 4, 'o2': 3, 'c1': [3], 'c2': [0], 'g1': [0, 2], 'g2': [1, 2], 'diag': False},
          {'o1': 3, 'o2': 3, 'c1': [0], 'c2': [1], 'g1': [1, 2], 'g2': [0, 2], 'diag': True},
          {'o1': 3, 'o2': 3, 'c1': [1], 'c2': [1], 'g1': [2], 'g2': [0], 'diag': True},
          {'o1': 3, 'o2': 2, 'c1': None, 'c2': None, 'g1': [1], 'g2': [0], 'diag': False},
          {'o1': 2, 'o2': 3, 'c1': None, 'c2': None, 'g1': [0, 1], 'g2': [2], 'diag': False},
          {'o1': 3, 'o2': 3, 'c1': None, 'c2': None, 'g1': [0, 2], 'g2': [2, 1], 'diag': True},
          {'o1': 2, 'o2': 2, 'c1': None, 'c2': None, 'g1': [0, 1], 'g2': [0, 1], 'diag': True},
          {'o1': 2, 'o2': 2, 'c1': None, 'c2': None, 'g1': 1, 'g2': 1, 'diag': False}] + ted_configs(), concrete=3)
def tensordot_eval_diag(c, o1, o2, c1, c2, g1, g2, diag):
    n1, n2 = c.dims('n', o1), c.dims('m', o2)
    l1, l2 = list(L[:o1]), list('ABCDEF'[:o2])
    G1, G2 = list(np.atleast_1d(g1)), list(np.atleast_1d(g2))
    C1, C2 = c1 or [], c2 or []
    if diag:
        for x, y in zip(G1, G2):
            n2[y], l2[y] = n1[x], l1[x]
    else:
        x0 = G1[0]
        for x in G1[1:]:
            n1[x], l1[x] = n1[x0], l1[x0]
        for y in G2:
            n2[y], l2[y] = n1[x0], l1[x0]
    for x, y in zip(C1, C2):
        n2[y], l2[y] = n1[x], l1[x]
    A, t = T(c, 'A', n1)
    B, u = T(c, 'B', n2)
    with c.frame('tensordot_eval_diag', t, u):
        if c1 is None:
            r = t.outer_product_eval_diag(u, g1, g2, diag)
        else:
            r = t.tensordot_eval_diag(u, c1, c2, g1, g2, diag)
    summed = [l1[x] for x in C1]
    out = []
    for x in l1 + l2:
        if x not in summed and x not in out:
            out.append(x)
    c.eq('contraction with diagonal', r, c.einsum('%s,%s->%s' % (''.join(l1), ''.join(l2), ''.join(out)), A, B))


@harness('C01', [FT + 'tensor_matrix_product', FT + 'tensordot', FT + 'itranspose'],
         [{'order': o, 'dims': d} for o in (1, 2, 3) for s in subsets(o) for d in some_perms(s)] + [{'order': o, 'dims': None} for o in (1, 2, 3, 4)] + [{'order': 4, 'dims': [3, 0]}, {'order': 4, 'dims': [1, 2, 0]}], concrete=4)
def tensor_matrix_product(c, order, dims):
    n = c.dims('n', order)
    A, t = T(c, 'A', n)
    d = list(range(order)) if dims is None else dims
    Ms = [c.array('M%d' % i, [c.dim('k%d' % i), n[i]]) for i in d]
    li, lo = list(L[:order]), list(L[:order])
    ops = []
    for i in d:
        lo[i] = L[i].upper()
        ops.append(L[i].upper() + L[i])
    E = c.einsum('%s->%s' % (','.join([''.join(li)] + ops), ''.join(lo)), A, *Ms)
    with c.frame('tensor_matrix_product', t, Ms, dims):
        r = t.tensor_matrix_product(Ms) if dims is None else t.tensor_matrix_product(Ms, dims)
    c.eq('mode products', r, E)
    c.eq('with FullTensor matrices', t.tensor_matrix_product([tensap.FullTensor(m) for m in Ms], d), E)
    if dims is not None and len(d) == 1:
        c.eq('single matrix', t.tensor_matrix_product(Ms[0], d[0]), E)


@harness('C01', [FT + 'tensor_vector_product', FT + 'squeeze'],
         [{'order': o, 'dims': d} for o in (1, 2, 3) for s in subsets(o) for d in some_perms(s)] + [{'order': o, 'dims': None} for o in (1, 2, 3)] + [{'order': 4, 'dims': [3, 1]}], concrete=4)
def tensor_vector_product(c, order, dims):
    n = c.dims('n', order)
    A, t = T(c, 'A', n)
    d = list(range(order)) if dims is None else dims
    vs = [c.array('v%d' % i, [n[i]]) for i in d]
    out = ''.join(L[i] for i in range(order) if i not in d)
    E = c.einsum('%s->%s' % (','.join([L[:order]] + [L[i] for i in d]), out), A, *vs)
    with c.frame('tensor_vector_product', t, vs):
        r = t.tensor_vector_product(vs) if dims is None else t.tensor_vector_product(vs, dims)
    c.eq('contraction with vectors', r, E)


@harness('C01', [FT + 'tensor_diagonal_matrix_product'], [{'order': o, 'dims': d} for o in (1, 2, 3) for d in subsets(o)] + [{'order': 3, 'dims': None}, {'order': 3, 'dims': [2, 0]}], concrete=4)
def tensor_diagonal_matrix_product(c, order, dims):
    n = c.dims('n', order)
    A, t = T(c, 'A', n)
    d = list(range(order)) if dims is None else dims
    vs = [c.array('v%d' % i, [n[i]]) for i in d]
    E = c.einsum('%s->%s' % (','.join([L[:order]] + [L[i] for i in d]), L[:order]), A, *vs)
    with c.frame('tensor_diagonal_matrix_product', t, vs):
        r = t.tensor_diagonal_matrix_product(vs) if dims is None else t.tensor_diagonal_matrix_product(vs, dims)
    c.eq('scaled entries', r, E)


@harness('C01', [FT + 'tensor_matrix_product_eval_diag', FT + 'tensordot_eval_diag'], [{'order': o, 'dims': d} for o in (1, 2, 3) for s in subsets(o) for d in some_perms(s)] + [{'order': 3, 'dims': None}, {'order': 4, 'dims': None}, {'order': 4, 'dims': [1, 2]}, {'order': 4, 'dims': [3, 0]}], concrete=4)
def tensor_matrix_product_eval_diag(c, order, dims):
    n = c.dims('n', order)
    A, t = T(c, 'A', n)
    d = list(range(order)) if dims is None else dims
    N = c.dim('N')
    Ms = [c.array('M%d' % i, [N, n[i]]) for i in d]
    # evaluation at the diagonal: sample index first, then the remaining modes in order
    E = c.einsum('%s->%s' % (','.join([L[:order]] + ['Z' + L[i] for i in d]), 'Z' + ''.join(L[i] for i in range(order) if i not in d)), A, *Ms)
    with c.frame('tensor_matrix_product_eval_diag', t, Ms):
        r = t.tensor_matrix_product_eval_diag(Ms) if dims is None else t.tensor_matrix_product_eval_diag(Ms, dims)
    c.eq('diagonal of the mode products', r, E)


@harness('C01', FT + 'kron', [{'o1': a, 'o2': b} for a in (1, 2, 3) for b in (1, 2, 3)], concrete=5)
def kron(c, o1, o2):
    n, m = c.dims('n', o1), c.dims('m', o2)
    A, t = T(c, 'A', n)
    B, u = T(c, 'B', m)
    with c.frame('kron', t, u):
        r = t.kron(u)
    o = max(o1, o2)
    la, lb = L[:o1], L[:o2].upper()
    X = c.einsum('%s,%s->%s%s' % (la, lb, la, lb), A, B)
    # K[..., i_k * m_k + j_k, ...] = A[i] B[j]: the second index is the fastest
    groups = []
    for k in range(o):
        groups.append(([o1 + k] if k < o2 else []) + ([k] if k < o1 else []))
    c.eq('Kronecker product', r, c.join(X, groups))


@harness('C01', FT + 'cat', [{'order': o, 'dims': d} for o in (1, 2, 3) for d in subsets(o)] + [{'order': o, 'dims': None} for o in (1, 2, 3)] + [{'order': 3, 'dims': [2, 0]}], concrete=5)
def cat(c, order, dims):
    d = list(range(order)) if dims is None else dims
    n = c.dims('n', order)
    m = [c.dim('m%d' % i) if i in d else n[i] for i in range(order)]
    A, t = T(c, 'A', n)
    B, u = T(c, 'B', m)
    with c.frame('cat', t, u):
        r = t.cat(u) if dims is None else t.cat(u, dims if len(dims) > 1 else dims[0])
    # block diagonal in the modes d
    a, b = A, B
    if len(d) == 1:
        E = c.cat([A, B], d[0])
    else:
        for i in d:
            a = c.cat([a, c.zeros([(n[j] + m[j] if (j in d and d.index(j) < d.index(i)) else n[j]) if j != i else m[i] for j in range(order)])], i)
        for i in d:
            b = c.cat([c.zeros([(n[j] + m[j] if (j in d and d.index(j) < d.index(i)) else m[j]) if j != i else n[i] for j in range(order)]), b], i)
        E = a + b
    c.eq('concatenation', r, E)


@harness('C01', [FT + 'dot', FT + 'norm', FT + 'dot_with_rank_one_metric', FT + 'reduce_sum', FT + 'reduce_mean'], [{'order': o} for o in (1, 2, 3, 4)])
def inner(c, order):
    n = c.dims('n', order)
    A, t = T(c, 'A', n)
    B, u = T(c, 'B', n)
    l = L[:order]
    with c.frame('inner products', t, u):
        c.eq('dot', t.dot(u), c.einsum('%s,%s->' % (l, l), A, B))
        c.eq('norm', t.norm(), c.sqrt(c.einsum('%s,%s->' % (l, l), A, A)))
        Ms = [c.array('M%d' % i, [n[i], n[i]]) for i in range(order)]
        c.eq('dot with rank-one metric', t.dot_with_rank_one_metric(u, Ms), c.einsum('%s,%s,%s->' % (l, l.upper(), ','.join(x + x.upper() for x in l)), A, B, *Ms))
        c.eq('reduce_sum all', t.reduce_sum().squeeze(list(range(order))), c.einsum('%s->' % l, A))
        for d in range(order):
            r = t.reduce_sum(d)
            c.same('order kept', r.order, order)
            c.eq('reduce_sum', r.squeeze(d), c.einsum('%s->%s' % (l, l.replace(l[d], '')), A))
            r = t.reduce_mean(d)
            c.eq('reduce_mean', r.squeeze(d) * n[d], c.einsum('%s->%s' % (l, l.replace(l[d], '')), A))


@harness('C01', FT + 'tensordot_matrix_product_except_dim', [{'order': o, 'dim': d} for o in (2, 3, 4) for d in range(o)], concrete=4)
def tensordot_matrix_product_except_dim(c, order, dim):
    n = c.dims('n', order)
    m = c.dims('m', order)
    A, t = T(c, 'A', n)
    B, u = T(c, 'B', m)
    Ms = [c.array('M%d' % i, [n[i], m[i]]) for i in range(order)]
    with c.frame('tensordot_matrix_product_except_dim', t, u, Ms):
        r = t.tensordot_matrix_product_except_dim(u, Ms, dim)
    l = L[:order]
    o = [i for i in range(order) if i != dim]
    c.eq('contraction', r, c.einsum('%s,%s,%s->%s%s' % (l, l.upper(), ','.join(l[i] + l[i].upper() for i in o), l[dim], l[dim].upper()), A, B, *[Ms[i] for i in o]))


@harness('C01', FT + 'orth', [{'order': o, 'dim': d} for o in (2, 3, 4) for d in range(-1, o)] + [{'order': 3, 'dim': None}, {'order': 1, 'dim': 0}], concrete=5)
def orth(c, order, dim):
    n = c.dims('n', order)
    A, t = T(c, 'A', n, 'real')
    with c.frame('orth', t):
        q, r = t.orth(dim)
    if dim is None:
        c.eq('unchanged', q, A)
        return
    d = order - 1 if dim == -1 else dim
    l = list(L[:order])
    lq = list(l)
    lq[d] = 'Z'
    c.eq('Q x R = tensor', c.einsum('%s,Z%s->%s' % (''.join(lq), l[d], ''.join(l)), q.data, r), A)
    lq2 = list(lq)
    lq2[d] = 'Y'
    c.eq('orthonormal slices', c.einsum('%s,%s->ZY' % (''.join(lq), ''.join(lq2)), q.data, q.data), c.eye(q.shape[d]))
    c.true('flagged orthogonal', bool(q.is_orth))
    c.same('orthogonality dimension', q.orth_dim, d)
    for k in range(order):
        if k != d:
            c.size_eq('size kept', q.shape[k], n[k])


@harness('C01', [FT + 'squeeze'], [{'order': 3, 'ones': [1]}, {'order': 3, 'ones': [0, 2]}, {'order': 4, 'ones': [0, 3]}, {'order': 2, 'ones': [0, 1]}])
def squeeze(c, order, ones):
    n = [1 if i in ones else c.dim('n%d' % i, 2) for i in range(order)]
    A, t = T(c, 'A', n)
    E = c.einsum('%s->%s' % (L[:order], ''.join(L[i] for i in range(order) if i not in ones)), A)
    with c.frame('squeeze', t):
        c.eq('squeeze all', t.squeeze(), E)
        c.eq('squeeze dims', t.squeeze(ones), E)
        if len(ones) > 1:
            c.eq('squeeze one', t.squeeze(ones[0]), c.einsum('%s->%s' % (L[:order], ''.join(L[i] for i in range(order) if i != ones[0])), A))


@harness('C01', FT + 'eval_at_indices', [{'order': o, 'dims': d} for o in (1, 2, 3, 4) for d in [None] + [q for s in subsets(o) for q in some_perms(s)]] + [{'order': 5, 'dims': [3, 1]}, {'order': 5, 'dims': [0, 2, 4]}], concrete=4)
def eval_at_indices(c, order, dims):
    """for an index array of any length with any entries"""
    n = c.dims('n', order)
    A, t = T(c, 'A', n)
    d = list(range(order)) if dims is None else dims
    K = c.dim('K', 1, 5)
    c.assume(K != len(d))
    I, S = c.indices('I', K, [n[i] for i in d])
    with c.frame('eval_at_indices', t, I, dims):
        r = t.eval_at_indices(I) if dims is None else t.eval_at_indices(I, dims)
    # mode min(d) is replaced by the sample mode, the other selected modes disappear
    first = min(d)
    out = ''.join(L[i] for i in range(first)) + 'Z' + ''.join(L[i] for i in range(first, order) if i not in d)
    E = c.einsum(','.join('Z' + L[i] for i in d) + ',%s->%s' % (L[:order], out), *(S + [A]))
    c.eq('values at indices', r, E)


@harness('C01', FT + 'eval_diag', [{'order': o, 'dims': d} for o in (1, 2, 3, 4) for d in [None] + [q for s in subsets(o) for q in some_perms(s)]], concrete=4)
def eval_diag(c, order, dims):
    n = c.dims('n', order)
    d = list(range(order)) if dims is None else dims
    for i in d:
        n[i] = n[d[0]]
    A, t = T(c, 'A', n)
    with c.frame('eval_diag', t):
        r = t.eval_diag() if dims is None else t.eval_diag(dims)
    li = list(L[:order])
    for i in d:
        li[i] = 'Z'
    first = min(d)
    out = [L[i] for i in range(order) if i not in d and i < first] + ['Z'] + [L[i] for i in range(order) if i not in d and i > first]
    c.eq('diagonal', r, c.einsum('%s->%s' % (''.join(li), ''.join(out)), A))


@harness('C01', FT + 'sub_tensor', [{'order': o, 'what': list(w)} for o in (1, 2, 3, 4) for w in itertools.product('ali', repeat=o) if o < 4 or len(set(w)) == 3], concrete=3)
def sub_tensor(c, order, what):
    """each mode is kept (a), restricted to a list of indices of any length (l) or to one
    index (i)"""
    n = c.dims('n', order)
    A, t = T(c, 'A', n)
    ind, ops, lab = [], [], []
    for j, w in enumerate(what):
        if w == 'a':
            ind.append(':')
            continue
        if w == 'l':
            I, S = c.indices('I%d' % j, c.dim('K%d' % j, 1, 4), [n[j]])
            I = I[:, 0]
            if not c.symbolic:
                I = I.tolist()
        elif c.symbolic:
            I, S = c.indices('I%d' % j, 1, [n[j]])
            I = I[:, 0]
        else:
            I, S = c.indices('I%d' % j, 1, [n[j]])
            I = int(I[0, 0])
        ind.append(I)
        ops.append(S[0])
        lab.append('ZYXW'[j] + L[j])
    with c.frame('sub_tensor', t, ind):
        r = t.sub_tensor(*ind)
    E = c.einsum(','.join(lab + [L[:order]]) + '->' + ''.join(L[j] if what[j] == 'a' else 'ZYXW'[j] for j in range(order)), *(ops + [A]))
    c.eq('sub tensor', r, E)


@harness('C01', [FT + 'principal_components', FT + 'alpha_principal_components', FT + 'singular_values'], [{'order': 2}, {'order': 3}, {'order': 4}], symbolic=False, concrete=15, tol=1e-8)
def principal_components(c, order):
    n = c.dims('n', order)
    A, t = T(c, 'A', n, 'real')
    sv = t.singular_values()
    for i in range(order):
        M = np.reshape(np.moveaxis(A, i, 0), (n[i], -1))
        s = np.linalg.svd(M, compute_uv=False)
        got = np.asarray(sv if order == 2 else sv[i])
        k = min(len(got), len(s))
        c.eq('singular values', got[:k], s[:k])
        c.true('no extra singular values', np.all(got[k:] < 1e-9) and np.all(s[k:] < 1e-9))
    al = [int(i) for i in c.rng.permutation(order)[:int(c.rng.integers(1, order))]]
    M = np.reshape(np.transpose(A, al + [i for i in range(order) if i not in al]), (int(np.prod([n[i] for i in al])), -1), order='F')
    s = np.linalg.svd(M, compute_uv=False)
    with c.frame('alpha_principal_components', t):
        for p in [None, 1, min(2, len(s)), 0.3]:
            U, d = t.alpha_principal_components(al, p)
            U, d = np.asarray(c.data(U)), np.asarray(d)
            c.eq('diagonal matrix of singular values', d, np.diag(np.diag(d)))
            d = np.diag(d)
            c.eq('orthonormal components', U.T @ U, np.eye(U.shape[1]))
            k = U.shape[1]
            c.same('as many singular values as components', len(d), k)
            c.eq('leading singular values', d, s[:k])
            # U spans the dominant left space: || U^T M ||^2 = sum of leading squares
            c.eq('captured energy', np.linalg.norm(U.T @ M) ** 2, np.sum(s[:k] ** 2))
            if p == 0.3:
                c.true('tolerance met', np.sqrt(np.sum(s[k:] ** 2)) <= 0.3 * np.linalg.norm(s) * (1 + 1e-9))
            elif p is not None:
                c.true('rank bound', k <= p)


@harness('C01', [FT + 'zeros', FT + 'ones', FT + 'create', FT + 'randn', FT + 'rand', FT + 'sparse', FT + 'tree_based_tensor'], [{'order': o} for o in (1, 2, 3)], symbolic=False, concrete=10)
def creators(c, order):
    n = c.dims('n', order)
    c.eq('zeros', tensap.FullTensor.zeros(n), np.zeros(n))
    c.eq('ones', tensap.FullTensor.ones(n), np.ones(n))
    c.same('randn shape', list(tensap.FullTensor.randn(n).shape), n)
    r = tensap.FullTensor.rand(n)
    c.same('rand shape', list(r.shape), n)
    c.true('rand range', np.all((r.data >= 0) & (r.data < 1)))
    v = c.array('v', [c.dim('m')])
    E = np.zeros([v.size] * order)
    for i, x in enumerate(v):
        E[(i,) * order] = x
    c.eq('diag', tensap.FullTensor.diag(v, order), E)
    A, t = T(c, 'A', n)
    c.eq('sparse and back', t.sparse().full(), A)
    if order > 1:
        c.eq('tree based and back', t.tree_based_tensor().full(), A)


@harness('C01', FT + 'diag', [{'order': o} for o in (1, 2, 3, 4)], concrete=8)
def diag_loop(c, order):
    """loop contract: after j iterations the entries (i,...,i), i < j, are set and all
    others are zero; checked for a vector of any length"""
    l = L[:order]
    if not c.symbolic:
        v = c.array('v', [c.dim('n', 1, 5)])
        E = np.zeros((v.size,) * order)
        for i in range(v.size):
            E[(i,) * order] = v[i]
        c.eq('diagonal tensor', tensap.FullTensor.diag(v, order), E)
        return
    from vt.loops import LoopParts
    k, m = c.dim('k', 0), c.dim('m', 0)
    n = k + m + 1
    v = c.array('v', [n])

    def inv(j):
        if Dim.of(j) == 0:
            return c.zeros([n] * order)
        w = v[:j]
        x = SymArray.diag_tensor(w, order)
        for ax in range(order):
            if n - j != 0:
                shp = list(x.shape)
                shp[ax] = n - j
                x = c.cat([x, c.zeros(shp)], ax)
        return x
    parts = LoopParts(tensap.FullTensor.diag)
    kind, env = parts.run(parts.pre, dict(zip(parts.params, [v, order])))
    state = [a for a, x in env.items() if isinstance(x, SymArray) and x.ndim == order and a not in parts.params]
    if kind != 'locals' or len(state) != 1:
        raise Unsupported('loop state not identified')
    cnt, target = parts.iteration(env, k)
    c.size_eq('number of iterations', cnt, n)
    c.eq('initiation', env[state[0]], inv(0))
    _, env2 = parts.run(parts.body, dict(env, **{state[0]: inv(k)}), target)
    c.eq('preservation', env2[state[0]], inv(k + 1))
    for a in env:
        if a != state[0] and isinstance(env[a], SymArray):
            c.eq('frame of the loop body: %s' % a, env2[a], env[a])
    kind, r = parts.run(parts.post, dict(env, **{state[0]: inv(n)}))
    c.true('returns', kind == 'return')
    E = SymArray.diag_tensor(v, order)
    c.eq('result', r, E)
