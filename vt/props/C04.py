"""C04: re-representations of a tree-based tensor keep the tensor they represent."""
import itertools
import string
import numpy as np
import tensap
from vt.ctx import harness, SkipCase
from vt.trees import Net, Shape, shape as tree_shape, active_sets, oracle_of, SHAPES
from vt.props.C02 import val, agree, tconf, ALL_TREES, BIG_TREES, net, rr, flat

TB = 'TreeBasedTensor.'
L = string.ascii_lowercase
SM = [('t2', None), ('t3', 'rev'), ('l3', None), ('m3', 'shuf'), ('b4', 'shuf'), ('l4', 'rev'), ('p4', None), ('a4', None)]
CONF = tconf(SM, ['all', 'none', 'alt', 'odd'])
BIG = tconf(BIG_TREES, ['all', 'alt'])


def children(t):
    A = np.asarray(t.tree.adjacency_matrix)
    return {i + 1: [int(j) + 1 for j in np.nonzero(A[i])[0]] for i in range(len(A))}


def parents(t):
    return {c: k for k, v in children(t).items() for c in v}


def is_active(t, k):
    x = t.tensors[k - 1]
    return x is not None and not (isinstance(x.data, np.ndarray) and np.size(x.data) == 0)


def gram_mode(c, X, m):
    """contraction of X with itself over all modes but m"""
    nd = X.ndim
    a = L[:nd]
    b = a[:m] + 'Z' + a[m + 1:]
    return c.einsum('%s,%s->%sZ' % (a, b, a[m]), X, X)


def orthonormal_towards(c, label, t, node, sh, outer=True):
    """the frames the rest of the network attaches to the modes of `node` are orthonormal:
    for each of its active children the contraction of the nodes below, and the
    contraction of all the nodes outside"""
    ch, par = children(t), parents(t)
    for k in ch[node]:
        if is_active(t, k):
            U = below(c, t, k, sh)
            c.eq('%s: frame of child %d orthonormal' % (label, k), gram_mode(c, U, U.ndim - 1), c.eye(U.shape[-1]))
    if node in par and outer:
        W = outside(c, t, node, sh)
        c.eq('%s: outer frame orthonormal' % label, gram_mode(c, W, W.ndim - 1), c.eye(W.shape[-1]))


def nodes_orthonormal(c, label, t):
    """every active node below the root has orthonormal matricisation towards the root"""
    for k in parents(t):
        if is_active(t, k):
            X = t.tensors[k - 1].data
            c.eq('%s: node %d orthonormal' % (label, k), gram_mode(c, X, X.ndim - 1), c.eye(X.shape[-1]))


def outside(c, t, k, sh):
    """contraction of the nodes that are not below or equal to k; rank of k last"""
    ch, par = children(t), parents(t)
    inner, todo = set(), [k]
    while todo:
        q = todo.pop()
        inner.add(q)
        todo += ch[q]
    return network(c, t, [q for q in ch if q not in inner], ''.join(L[i] for i in range(sh.order) if i not in sh.dims(k)), k)


def network(c, t, nodes, dims, k):
    ch, par = children(t), parents(t)
    up = {q: string.ascii_uppercase[i] for i, q in enumerate(ch)}
    d2i = [int(x) for x in np.ravel(t.tree.dim2ind)]
    ops, labs, extra = [], [], ''
    for q in nodes:
        if not is_active(t, q):
            continue
        if q in d2i:
            lab = L[d2i.index(q)]
        else:
            lab = ''.join(up[x] if is_active(t, x) else L[d2i.index(x)] for x in ch[q])
        X = t.tensors[q - 1].data
        if q in par:
            lab += up[q]
        elif X.ndim == len(lab) + 1:
            lab += 'z'
            extra = 'z'
        ops.append(X)
        labs.append(lab)
    return c.einsum(','.join(labs) + '->' + dims + extra + up[k], *ops)


@harness('C04', [TB + 'orth', 'FullTensor.orth', TB + 'norm'], [dict(x, rroot=0) for x in CONF] + [dict(x, rroot=1) for x in tconf([('t3', None), ('m3', 'rev'), ('p4', 'shuf')], ['all', 'none', 'alt'])], concrete=4)
def orth(c, tree, num, act, rroot):
    N = net(c, 'A', tree, num, act, root_rank=rr(c, rroot))
    t = N.tensor()
    A = N.full()
    with c.frame('orth', t):
        r = t.orth()
    agree(c, 'tensor unchanged', r, A)
    orthonormal_towards(c, 'orth', r, N.sh.root, N.sh)
    nodes_orthonormal(c, 'orth', r)
    c.true('flag', bool(r.is_orth) and int(r.orth_node) == N.sh.root)
    # orthogonalising again changes nothing
    with c.frame('orth twice', r):
        agree(c, 'orth twice', r.orth(), A)
    if not c.symbolic:
        c.eq('norm', t.norm(), np.linalg.norm(A))
        c.eq('norm of the orthogonalised tensor', r.norm(), np.linalg.norm(A))


@harness('C04', [TB + 'orth'], BIG, symbolic=False, concrete=4)
def orth_big(c, tree, num, act):
    orth(c, tree, num, act, 0)


@harness('C04', [TB + 'norm', TB + '__mul__', TB + '__rmul__', TB + '__neg__', TB + '__truediv__', TB + 'tensor_matrix_product', TB + 'change_root', TB + 'inactivate_nodes', TB + 'activate_nodes', TB + 'sub_tensor'], [dict(x, rroot=r) for r in (0, 1) for x in CONF], symbolic=False, concrete=4)
def norm_after(c, tree, num, act, rroot):
    """the norm of a tensor derived from an orthogonalised one is that of the tensor it
    represents (no stale orthogonality mark)"""
    N = net(c, 'A', tree, num, act, root_rank=rr(c, rroot))
    t = N.tensor().orth()
    sh = N.sh
    d = sh.order
    nodes = [k for k in range(1, sh.n + 1) if k not in N.inactive]
    dim = int(c.rng.integers(0, d))
    k = nodes[int(c.rng.integers(0, len(nodes)))]
    W = c.array('W', [3, N.n[dim]])
    ops = {
        'scaled': lambda x: x * 3, 'left scaled': lambda x: -2 * x, 'negated': lambda x: -x, 'divided': lambda x: x / 4,
        'sum': lambda x: x + x, 'difference': lambda x: x - 3 * x, 'matrix product': lambda x: x.tensor_matrix_product(W, [dim]),
        'root changed': lambda x: x.change_root(k), 'copied': tensap.TreeBasedTensor,
        'inactivated': lambda x: x.inactivate_nodes([sh.node_of_dim(dim)]), 'activated': lambda x: x.activate_nodes(sh.leaves()),
        'at node': lambda x: x.orth_at_node(k) if k != sh.root else x.orth(),
        'product': lambda x: x * x,
    }
    for a in ops:
        x = ops[a](t)
        c.eq('norm of ' + a, x.norm(), np.linalg.norm(val(c, x)))
        for b in ('scaled', 'negated', 'left scaled', 'divided', 'copied', 'orth'):
            y = ops[b](x) if b != 'orth' else x.orth()
            c.eq('norm of %s then %s' % (a, b), y.norm(), np.linalg.norm(val(c, y)))


@harness('C04', [TB + 'gramians', TB + 'singular_values', TB + 'rank'], [dict(x, rroot=0) for x in CONF] + [dict(x, rroot=1) for x in tconf([('t3', None), ('m3', 'rev'), ('p4', 'shuf')], ['all', 'alt'])], concrete=4, tol=1e-8)
def gramians(c, tree, num, act, rroot):
    N = net(c, 'A', tree, num, act, root_rank=rr(c, rroot))
    sh = N.sh
    t = N.tensor()
    A = N.full()
    with c.frame('gramians', t):
        g, r = t.gramians()
    agree(c, 'tensor unchanged', r, A)
    ch, par = children(r), parents(r)
    lab = L[:A.ndim]
    for k in range(1, sh.n + 1):
        if k in N.inactive or k == sh.root:
            continue
        # frame of node k: the partial contraction below k, orthonormal columns U_k;
        # gram[k] is the Gram matrix of the coefficients: U_k gram U_k^T = M M^T
        U = below(c, r, k, sh)
        D = sh.dims(k)
        Dl = ''.join(lab[i] for i in sorted(D))
        Du = Dl.upper()
        other = ''.join(Du[Dl.index(x)] if x in Dl else x for x in lab)
        E = c.einsum('%s,%s->%s' % (lab, other, Dl + Du), A, A)
        G = c.einsum('%sy,yz,%sz->%s' % (Dl, Du, Dl + Du), U, c.data(g[k - 1]), U)
        c.eq('gramian of node %d' % k, G, E)
    if c.symbolic:
        return
    with c.frame('singular values', t):
        sv = t.singular_values()
    for k in range(1, sh.n + 1):
        if k in N.inactive:
            continue
        D = sorted(sh.dims(k))
        rest = [i for i in range(A.ndim) if i not in D]
        M = np.reshape(np.transpose(A, D + rest), (int(np.prod([N.n[i] for i in D])), -1))
        s = np.linalg.svd(M, compute_uv=False)
        got = np.sort(np.ravel(sv[k - 1]).astype(float))[::-1]
        m = min(len(s), len(got))
        if k == sh.root:
            c.eq('singular value of the root', t.orth().tensors[k - 1].norm(), np.linalg.norm(A))
            continue
        sc = max(1.0, s[0])
        c.eq('singular values', (got[:m] / sc) ** 2, (s[:m] / sc) ** 2)
        c.true('no other singular value', np.all(got[m:] < 1e-4 * sc) and np.all(s[m:] < 1e-4 * sc))
    k = [x for x in range(1, sh.n + 1) if x != sh.root and x not in N.inactive]
    if k:
        k = k[int(c.rng.integers(0, len(k)))]
        with c.frame('gramian at a node', t):
            gk, _ = t.gramians(k)
        c.eq('gramian asked at one node', gk, g[k - 1])


def below(c, t, k, sh):
    """contraction of the nodes below k: modes = dims of k increasing, then the rank of k"""
    ch = children(t)
    inner, todo = [], [k]
    while todo:
        q = todo.pop()
        inner.append(q)
        todo += ch[q]
    return network(c, t, inner, ''.join(L[i] for i in sorted(sh.dims(k))), k)


def active_nodes(x):
    sh = tree_shape(x['tree'], x['num'])
    ina = active_sets(sh, x['act'])
    return [k for k in range(1, sh.n + 1) if k not in ina]


@harness('C04', [TB + 'orth_at_node'], [dict(x, node=k, rroot=0) for x in CONF for k in active_nodes(x)] + [dict(x, node=k, rroot=1) for x in tconf([('t3', None), ('b4', 'shuf')], ['all', 'alt']) for k in active_nodes(x)], concrete=4, tol=1e-7)
def orth_at_node(c, tree, num, act, node, rroot):
    N = net(c, 'A', tree, num, act, root_rank=rr(c, rroot), kind='real')
    t = N.tensor()
    A = N.full()
    with c.frame('orth_at_node', t):
        r = t.orth_at_node(node)
    agree(c, 'tensor unchanged', r, A)
    # (the outer frame, made by the singular value decomposition of the Gram matrix: bounded)
    orthonormal_towards(c, 'orth at node', r, node, N.sh, outer=not c.symbolic)
    if not c.symbolic:
        c.eq('norm carried by the node', r.tensors[node - 1].norm(), np.linalg.norm(A))
    c.same('orth_node', int(r.orth_node), node)


@harness('C04', [TB + 'change_root', 'DimensionTree.change_root'], [dict(x, node=k, rroot=0) for x in CONF + tconf(BIG_TREES, ['all', 'alt']) for k in active_nodes(x)] + [dict(x, node=k, rroot=1) for x in tconf([('t2', None), ('t3', None), ('m3', 'rev'), ('p4', 'shuf'), ('b4', None)], ['all', 'none', 'alt']) for k in active_nodes(x)], concrete=2)
def change_root(c, tree, num, act, node, rroot):
    # the rank of the root, if there is one, becomes a new last dimension
    N = net(c, 'A', tree, num, act, root_rank=rr(c, rroot))
    t = N.tensor()
    A = N.full()
    with c.frame('change_root', t):
        r = t.change_root(node)
    v = val(c, r)
    c.same('root', int(r.tree.root), node)
    if not c.symbolic:
        v = np.reshape(v, A.shape)
    c.eq('tensor unchanged', v, A)
    f = r.full().data
    c.eq('full()', f if c.symbolic else np.reshape(f, A.shape), A)


@harness('C04', [TB + 'inactivate_nodes', TB + 'activate_nodes'], [dict(x, rroot=r, which=w) for x in CONF + BIG for r in (0, 1) for w in ('all', 'one', 'last') if r == 0 or x['tree'] in ('t3', 'm3', 'b4')], concrete=2)
def activity(c, tree, num, act, rroot, which):
    N = net(c, 'A', tree, num, act, root_rank=rr(c, rroot))
    t = N.tensor()
    A = N.full()
    sh = N.sh
    lv = sh.leaves()
    nodes = {'all': lv, 'one': lv[:1], 'last': lv[-2:]}[which]
    with c.frame('activity', t, nodes):
        x = t.inactivate_nodes(nodes)
        y = t.activate_nodes(nodes)
    agree(c, 'inactivated', x, A)
    agree(c, 'activated', y, A)
    ina = set(N.inactive)
    c.same('active nodes after inactivation', list(x.is_active_node), [k not in ina | set(nodes) for k in range(1, sh.n + 1)])
    c.same('active nodes after activation', list(y.is_active_node), [k not in ina - set(nodes) for k in range(1, sh.n + 1)])
    agree(c, 'activated again', x.activate_nodes(nodes), A)


# nested shapes with nodes of a single child; [x] is a node whose only child is x
UNARY = {
    'u1': ((0, 1), [2]), 'u2': ([0], [1], 2), 'u3': ([(0, 1)], 2), 'u4': (([0], 1), ([2], 3)), 'u5': ([[0]], 1), 'u6': ([([1], 0)], (2, [3])),
}


@harness('C04', [TB + 'remove_unique_children'], [{'tree': u, 'num': m, 'act': a} for u in UNARY for m in (None, 'rev') for a in ('all', 'none', 'alt', 'odd')], concrete=4)
def unary(c, tree, num, act):
    sh = Shape(UNARY[tree], num)
    N = Net(c, 'A', sh, active_sets(sh, act))
    t = N.tensor()
    A = N.full()
    with c.frame('remove_unique_children', t):
        r = t.remove_unique_children()
    agree(c, 'tensor unchanged', r, A)
    c.true('no node has a single child', all(len(v) != 1 for v in children(r).values()))


def leaf_pairs(x):
    sh = tree_shape(x['tree'], x['num'])
    nodes = range(1, sh.n + 1)
    out = []
    for a, b in itertools.combinations(nodes, 2):
        if a == sh.root or b == sh.root:
            continue
        if set(sh.dims(a)) & set(sh.dims(b)):
            continue
        out.append([a, b])
    return out


@harness('C04', [TB + 'permute_nodes', TB + 'permute_leaves', 'DimensionTree.update_dims_from_leaves'], [dict(x, rroot=r) for r in (0, 1) for x in tconf(SM[2:] + BIG_TREES, ['all', 'alt', 'none'])], symbolic=False, concrete=6, tol=1e-6)
def permute_nodes(c, tree, num, act, rroot):
    N = net(c, 'A', tree, num, act, kind='real', root_rank=rr(c, rroot))
    sh = N.sh
    t = N.tensor()
    A = N.full()
    P = leaf_pairs(dict(tree=tree, num=num, act=act))
    a, b = P[int(c.rng.integers(0, len(P)))]
    if any(k in N.inactive for k in (a, b)) or any(sh.par[k] in sh.par and not is_active(t, sh.par[k]) for k in (a, b)):
        raise SkipCase()
    nodes = np.array([a, b])
    with c.frame('permute_nodes', t, nodes):
        r = t.permute_nodes(nodes)
    agree(c, 'tensor unchanged', r, A)
    if sh.par[a] != sh.par[b]:
        ch = children(r)
        par = parents(r)
        c.same('parents exchanged', [par[a], par[b]], [sh.par[b], sh.par[a]])


def pairs(x, far):
    sh = tree_shape(x['tree'], x['num'])
    ina = active_sets(sh, x['act'])
    out = []
    for a, b in leaf_pairs(x):
        if a in ina or b in ina or (sh.par[a] == sh.par[b]) != (not far):
            continue
        out.append((a, b))
    return out


PERM = [('l3', None), ('m3', 'rev'), ('b4', None), ('l4', 'shuf'), ('a4', None)]


@harness('C04', [TB + 'permute_nodes', TB + 'orth_at_node', 'DimensionTree.update_dims_from_leaves'], [dict(x, a=a, b=b, rroot=r) for x in tconf(PERM, ['all', 'alt']) for a, b in pairs(x, True) for r in (0, 1) if r == 0 or x['tree'] == 'b4'], concrete=1, tol=1e-6)
def permute_two(c, tree, num, act, a, b, rroot):
    """with exact truncations the tensor is unchanged and the parents are exchanged"""
    N = net(c, 'A', tree, num, act, kind='real', root_rank=rr(c, rroot))
    sh = N.sh
    t = N.tensor()
    A = N.full()
    with c.truncations(exact=True):
        r = t.permute_nodes(np.array([a, b]))
    agree(c, 'tensor unchanged', r, A)
    par = parents(r)
    c.same('parents exchanged', [par[a], par[b]], [sh.par[b], sh.par[a]])


@harness('C04', [TB + 'permute_leaves'], [dict(x, rroot=r) for r in (0, 1) for x in tconf(SM[2:] + BIG_TREES[:2], ['all'])], symbolic=False, concrete=6, tol=1e-6)
def permute_leaves(c, tree, num, act, rroot):
    N = net(c, 'A', tree, num, act, kind='real', root_rank=rr(c, rroot))
    t = N.tensor()
    A = N.full()
    perm = c.rng.permutation(N.sh.order)
    with c.frame('permute_leaves', t, perm):
        r = t.permute_leaves(perm)
    agree(c, 'tensor unchanged', r, A)


@harness('C04', [TB + 'nodes_permutation_cost', TB + 'optimize_dimension_tree', TB + 'optimize_leaves_permutations'], [dict(x, rroot=r) for r in (0, 1) for x in tconf(SM, ['all', 'alt']) + tconf(BIG_TREES[:2], ['all'])], symbolic=False, concrete=4, tol=1e-6)
def optimize(c, tree, num, act, rroot):
    N = net(c, 'A', tree, num, act, kind='real', root_rank=rr(c, rroot))
    t = N.tensor()
    A = N.full()
    with c.frame('nodes_permutation_cost', t):
        for k in range(1, N.sh.n + 1):
            if k != N.sh.root:
                t.nodes_permutation_cost(k)
    with c.frame('optimize', t):
        r = t.optimize_leaves_permutations(1e-10, 5)
        q = t.optimize_dimension_tree(1e-10, 5)
    for x in (r, q):
        agree(c, 'tensor unchanged', x, A)
        c.true('storage does not grow', x.storage() <= t.storage())
