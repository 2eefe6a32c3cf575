"""C06: dimension trees stay well formed under every operation.

The contracts below (well_formed = the data-structure invariant) are checked on every tree
with up to four leaves and on random larger ones; integer-array code with data-dependent
sizes, so bounded."""
import itertools
import numpy as np
import tensap
from vt.ctx import harness, SkipCase
from vt.trees import Shape

DT = 'DimensionTree.'


def set_partitions(s, kmin=2):
    """partitions of the list s into at least kmin blocks"""
    if not s:
        yield []
        return
    def rec(i, blocks):
        if i == len(s):
            if len(blocks) >= kmin:
                yield [tuple(b) for b in blocks]
            return
        for b in range(len(blocks)):
            blocks[b].append(s[i])
            yield from rec(i + 1, blocks)
            blocks[b].pop()
        blocks.append([s[i]])
        yield from rec(i + 1, blocks)
        blocks.pop()
    yield from rec(0, [])


def all_trees(dims):
    dims = list(dims)
    if len(dims) == 1:
        yield dims[0]
        return
    for p in set_partitions(dims):
        for kids in itertools.product(*[list(all_trees(b)) for b in p]):
            yield tuple(kids)


ALL = {k: list(all_trees(range(k))) for k in (2, 3, 4)}


def rand_nested(rng, dims, single=0.0):
    dims = list(dims)
    if len(dims) == 1:
        x = int(dims[0])
        return (x,) if rng.random() < single else x
    k = int(rng.integers(2, min(4, len(dims)) + 1))
    cut = np.sort(rng.permutation(len(dims) - 1)[:k - 1]) + 1
    x = tuple(rand_nested(rng, p, single) for p in np.split(np.array(dims), cut))
    return (x,) if rng.random() < single else x


class S(Shape):
    """Shape with an arbitrary renumbering"""

    def __init__(self, nested, perm=None):
        super().__init__(nested)
        if perm is None:
            return
        p = {k: int(perm[k - 1]) for k in range(1, self.n + 1)}
        self.ch = {p[k]: sorted(p[x] for x in v) for k, v in self.ch.items()}
        self.dim = {p[k]: d for k, d in self.dim.items()}
        self.root = p[self.root]
        self.par = {x: k for k, v in self.ch.items() for x in v}


def draw(c, case, single=0.0, big=True):
    """an S shape: cases enumerate all small trees, then random ones"""
    if isinstance(case, (tuple, list)):
        k, i = case
        nested = ALL[k][i]
    else:
        d = int(c.rng.integers(2, 9))
        nested = rand_nested(c.rng, [int(v) for v in c.rng.permutation(d)], single)
        if isinstance(nested, int):
            raise SkipCase()
    s = S(nested)
    return S(nested, c.rng.permutation(s.n) + 1)


CASES = [{'case': [k, i]} for k in (2, 3, 4) for i in range(len(ALL[k]))] + [{'case': 'random%d' % i} for i in range(6)]


def describe(c, T):
    """the tree as read from adjacency matrix and dim2ind alone"""
    A = np.asarray(T.adjacency_matrix)
    n = A.shape[0]
    c.same('adjacency is square and 0/1', [A.shape[1], bool(np.all((A == 0) | (A == 1)))], [n, True])
    ch = {k: [int(j) + 1 for j in np.nonzero(A[k - 1])[0]] for k in range(1, n + 1)}
    par = {}
    for k in ch:
        for x in ch[k]:
            c.true('one parent per node', x not in par, 'node %d has two parents' % x)
            par[x] = k
    roots = [k for k in ch if k not in par]
    c.same('one root', len(roots), 1)
    d2i = [int(k) for k in np.ravel(T.dim2ind)]
    leaves = [k for k in ch if not ch[k]]
    c.same('dim2ind enumerates the leaves', sorted(d2i), sorted(leaves))
    seen, q = [], [roots[0]]
    while q:
        k = q.pop()
        seen.append(k)
        q += ch[k]
        c.true('no cycle', len(seen) <= n, 'cycle')
    c.same('connected', sorted(seen), list(range(1, n + 1)))
    return ch, par, roots[0], d2i


def below(ch, d2i, k):
    if not ch[k]:
        return [d2i.index(k)]
    return [d for x in ch[k] for d in below(ch, d2i, x)]


def well_formed(c, T):
    ch, par, root, d2i = describe(c, T)
    n = len(ch)
    c.same('nb_nodes', int(T.nb_nodes), n)
    c.same('nodes_indices', list(T.nodes_indices), list(range(1, n + 1)))
    c.same('root', int(T.root), root)
    c.same('arity', int(T.arity), max(len(v) for v in ch.values()))
    lev = {root: 0}
    q = [root]
    while q:
        k = q.pop()
        for x in ch[k]:
            lev[x] = lev[k] + 1
            q.append(x)
    for k in ch:
        c.same('is_leaf', bool(T.is_leaf[k - 1]), not ch[k])
        c.same('level', int(T.level[k - 1]), lev[k])
        c.same('parent', int(T.parent(k)), par.get(k, 0))
        c.same('children', [int(x) for x in T.children(k)], ch[k])
        c.same('child number', int(T.child_number(k)), ch[par[k]].index(k) + 1 if k in par else 0)
        c.same('dims are the union of the dims of the children', sorted(int(x) for x in np.ravel(T.dims[k - 1])), sorted(below(ch, d2i, k)))
        sib = [int(x) for x in T.sibling[:, k - 1] if x]
        c.same('siblings', sorted(sib), sorted(ch[par[k]]) if k in par else [])
        a, x = [], k
        while x in par:
            x = par[x]
            a.append(x)
        c.same('ascendants', [int(v) for v in T.ascendants(k)], a)
        de, q = [], list(ch[k])
        while q:
            x = q.pop()
            de.append(x)
            q += ch[x]
        got = [int(v) for v in T.descendants(k)]
        c.same('descendants', sorted(got), sorted(de))
        c.true('descendants after their parent', all(par[v] == k or got.index(par[v]) < got.index(v) for v in got))
        c.true('node_with_dims', k in [int(v) for v in T.node_with_dims(c.rng.permutation(below(ch, d2i, k)))])
    for l in range(max(lev.values()) + 2):
        c.same('nodes_with_level', sorted(int(x) for x in T.nodes_with_level(l)), sorted(k for k in lev if lev[k] == l))
    c.same('internal nodes', sorted(int(x) for x in T.internal_nodes), sorted(k for k in ch if ch[k]))
    c.same('parents of leaves', sorted(int(x) for x in T.nodes_parent_of_leaves), sorted({par.get(k, 0) for k in ch if not ch[k]}))
    return ch, par, root, d2i


def clades(ch, d2i, root):
    """the hierarchy: multiset of (sorted dims, level)"""
    out, q = [], [(root, 0)]
    while q:
        k, l = q.pop()
        out.append((tuple(sorted(below(ch, d2i, k))), l))
        q += [(x, l + 1) for x in ch[k]]
    return sorted(out)


def hier(T):
    A = np.asarray(T.adjacency_matrix)
    ch = {k: [int(j) + 1 for j in np.nonzero(A[k - 1])[0]] for k in range(1, len(A) + 1)}
    par = {x for v in ch.values() for x in v}
    root = [k for k in ch if k not in par][0]
    return clades(ch, [int(k) for k in np.ravel(T.dim2ind)], root)


@harness('C06', [DT + f for f in ('__init__', '_precompute_attributes', 'update_dims_from_leaves', 'children', 'parent', 'child_number', 'ascendants', 'descendants', 'nodes_with_level', 'node_with_dims')], CASES, symbolic=False, concrete=4)
def invariant(c, case):
    s = draw(c, case, 0.2)
    T = s.tree()
    c.same('root is the one given', int(T.root), s.root)
    well_formed(c, T)
    for k in s.ch:
        c.same('dims', sorted(int(x) for x in T.dims[k - 1]), sorted(s.dims(k)))


@harness('C06', [DT + 'permute', DT + 'ipermute'], CASES, symbolic=False, concrete=3)
def permute(c, case):
    s = draw(c, case, 0.2)
    T = s.tree()
    p = c.rng.permutation(s.order)
    if c.rng.random() < 0.5:
        p = [int(x) for x in p]
    with c.frame('permute', T, p):
        P = T.permute(p)
    with c.frame('ipermute', T, p):
        Q = T.ipermute(p)
    well_formed(c, P)
    well_formed(c, Q)
    for k in s.ch:
        c.same('permute', sorted(int(x) for x in P.dims[k - 1]), sorted(int(p[d]) for d in s.dims(k)))
        c.same('ipermute', sorted(int(p[int(x)]) for x in Q.dims[k - 1]), sorted(s.dims(k)))
    c.true('inverse', P.ipermute(p) == T and Q.permute(p) == T)


@harness('C06', [DT + '__eq__', DT + '__ne__'], CASES, symbolic=False, concrete=6)
def equality(c, case):
    s = draw(c, case, 0.15)
    T = s.tree()
    U = S_renum(c, s).tree()
    with c.frame('==', T, U):
        r = T == U
    c.same('equal to a renumbering', bool(r), True)
    c.same('not different from a renumbering', bool(T != U), False)
    # another tree on the same dimensions
    if isinstance(case, (list, tuple)):
        nested = ALL[case[0]][int(c.rng.integers(0, len(ALL[case[0]])))]
    else:
        nested = rand_nested(c.rng, [int(v) for v in c.rng.permutation(s.order)], 0.15)
        if isinstance(nested, int):
            raise SkipCase()
    w = S(nested)
    V = S(nested, c.rng.permutation(w.n) + 1).tree()
    want = hier(T) == hier(V)
    c.same('equal iff the same hierarchy', bool(T == V), want)
    c.same('symmetric', bool(V == T), want)
    P = T.permute(c.rng.permutation(s.order))
    c.same('equal iff the same hierarchy after a permutation', bool(T == P), hier(T) == hier(P))


def S_renum(c, s):
    r = c.rng.permutation(s.n) + 1
    t = S.__new__(S)
    p = {k: int(r[k - 1]) for k in range(1, s.n + 1)}
    t.ch = {p[k]: sorted(p[x] for x in v) for k, v in s.ch.items()}
    t.dim = {p[k]: d for k, d in s.dim.items()}
    t.n, t.order, t.root = s.n, s.order, p[s.root]
    t.par = {x: k for k, v in t.ch.items() for x in v}
    return t


PAIRS = [(((0, 1), (2, 3)), ((0, 1), (2, 3))), (((0, 1, 2), 3), ((0, (1, 2)), 3)), ((0, (1, (2, 3))), (0, (1, 2, 3))),
         (((0, 1, 2), (3, (4, 5))), ((0, (1, 2)), (3, 4, 5))), (((0, 1, 2), (3, (4, 5)), 6), ((0, (1, 2)), (3, 4, 5), 6)),
         ((((0, 1), 2, 3), 4, 5), ((0, (1, 2), 3), 4, 5)), (((0, (1, 2)), (3, 4), 5), ((0, (1, 2)), (3, 4), 5)),
         (((0, (1, 2), 6), (3, 4, 5)), ((0, 1, 2, 6), (3, (4, 5)))), ((((0, 1), (2, 3)), 4, 5), (((0, 1), 2, 3), (4, 5)))]


@harness('C06', [DT + '__eq__'], [{'i': i} for i in range(len(PAIRS))], symbolic=False, concrete=4)
def equality_pairs(c, i):
    """trees with the same numbers of nodes, dimensions and levels"""
    a, b = PAIRS[i]
    A = S(a, c.rng.permutation(S(a).n) + 1).tree()
    B = S(b, c.rng.permutation(S(b).n) + 1).tree()
    c.same('equal iff the same hierarchy', [bool(A == B), bool(B == A)], [hier(A) == hier(B)] * 2)


@harness('C06', [DT + 'change_root'], CASES, symbolic=False, concrete=3)
def change_root(c, case):
    s = draw(c, case, 0.1)
    T = s.tree()
    if len(s.ch[s.root]) < 2:
        raise SkipCase()
    und = {frozenset((k, x)) for k, v in s.ch.items() for x in v}
    for nod in range(1, s.n + 1):
        with c.frame('change_root', T):
            U, mod = T.change_root(nod)
        ch, par, root, d2i = well_formed(c, U)
        c.same('root', root, nod)
        und2 = {frozenset((k, x)) for k, v in ch.items() for x in v}
        if nod in s.dim and nod != s.root:
            c.same('edges', und2, und | {frozenset((nod, s.n + 1))})
            c.same('the new node carries the dimension', below(ch, d2i, s.n + 1), [s.dim[nod]])
        else:
            c.same('edges', und2, und)
        for k in s.dim:
            if k != nod:
                c.same('leaves keep their dimensions', [int(x) for x in U.dims[k - 1]], [s.dim[k]])
        mod = {int(x) for x in mod}
        for k in s.ch:
            if ch[k] != s.ch[k] and nod != s.root:
                c.true('modified nodes', k in mod, 'node %d has new children and is not listed' % k)
    # a round trip gives the tree back
    nod = int(c.rng.integers(1, s.n + 1))
    if nod not in s.dim and nod != s.root:
        U = T.change_root(nod)[0].change_root(s.root)[0]
        c.true('round trip', U == T and np.array_equal(U.adjacency_matrix, T.adjacency_matrix))


@harness('C06', [DT + 'add_child'], CASES, symbolic=False, concrete=3)
def add_child(c, case):
    s = draw(c, case, 0.1)
    T = s.tree()
    for nod in range(1, s.n + 1):
        with c.frame('add_child', T):
            U = T.add_child(nod)
        ch, par, root, d2i = well_formed(c, U)
        want = {k: list(v) for k, v in s.ch.items()}
        want[nod] = want[nod] + [s.n + 1]
        want[s.n + 1] = []
        c.same('edges', ch, want)
        d = [s.node_of_dim(i) for i in range(s.order)]
        d = [s.n + 1 if k == nod else k for k in d] if nod in s.dim else d + [s.n + 1]
        c.same('dim2ind', d2i, d)


@harness('C06', [DT + 'sub_dimension_tree'], CASES, symbolic=False, concrete=3)
def subtree(c, case):
    s = draw(c, case, 0.1)
    T = s.tree()
    for r in range(1, s.n + 1):
        with c.frame('sub_dimension_tree', T):
            U, nod = T.sub_dimension_tree(r)
        ch, par, root, d2i = well_formed(c, U)
        nod = [int(x) for x in nod]
        c.same('root of the subtree', nod[root - 1], r)
        de, q = [], [r]
        while q:
            x = q.pop()
            de.append(x)
            q += s.ch[x]
        c.same('extracted nodes', sorted(nod), sorted(de))
        for k in ch:
            c.same('edges', sorted(nod[x - 1] for x in ch[k]), sorted(s.ch[nod[k - 1]]))
        dims = [int(x) for x in T.dims[r - 1]]
        c.same('dimensions in the order of dims', [nod[k - 1] for k in d2i], [s.node_of_dim(d) for d in dims])


@harness('C06', [DT + 'update_dims_from_leaves'], CASES, symbolic=False, concrete=3)
def update_dims(c, case):
    s = draw(c, case, 0.1)
    T = s.tree()
    T.dim2ind = np.array(T.dim2ind)[c.rng.permutation(s.order)]
    T = T.update_dims_from_leaves()
    well_formed(c, T)


@harness('C06', [DT + f for f in ('trivial', 'linear', 'balanced')], [{'order': k} for k in range(1, 14)], symbolic=False, concrete=1)
def constructors(c, order):
    d = order
    T = tensap.DimensionTree.trivial(d)
    ch, par, root, d2i = well_formed(c, T)
    c.true('trivial', hier(T) == sorted([(tuple(range(d)), 0)] + [((i,), 1) for i in range(d)]))
    if d < 2:
        return
    T = tensap.DimensionTree.linear(d)
    well_formed(c, T)
    c.true('linear', hier(T) == sorted([(tuple(range(i + 1)), d - 1 - i) for i in range(d)] + [((i,), d - i) for i in range(1, d)]))
    T = tensap.DimensionTree.balanced(d)
    ch, par, root, d2i = well_formed(c, T)
    c.true('balanced: binary', all(len(v) in (0, 2) for v in ch.values()))
    lv = [int(T.level[k - 1]) for k in d2i]
    c.true('balanced: levels of the leaves differ by at most one', max(lv) - min(lv) <= 1, 'levels %r' % lv)
    c.true('balanced: depth', max(lv) == int(np.ceil(np.log2(d))))
    for f in (tensap.DimensionTree.linear, tensap.DimensionTree.balanced):
        p = np.random.permutation(d)
        with c.frame('constructor', p):
            P = f(p)
        well_formed(c, P)
        c.same('same shape with the dimensions permuted', sorted((len(a), l) for a, l in hier(P)), sorted((len(a), l) for a, l in hier(f(d))))


@harness('C06', [DT + 'random'], [{'order': k, 'arity': a} for k in range(1, 11) for a in (2, 3, 5, [2, 3], [2, 4], [3, 3])], symbolic=False, concrete=8)
def random(c, order, arity):
    a = arity if isinstance(arity, int) else np.array(arity)
    with c.frame('random', a):
        T = tensap.DimensionTree.random(order, a)
    ch, par, root, d2i = well_formed(c, T)
    c.same('number of dimensions', len(d2i), order)
    lo, hi = (arity, arity) if isinstance(arity, int) else arity
    for k in ch:
        m = len(below(ch, d2i, k))
        if ch[k]:
            c.true('arity in the interval', min(lo, m) <= len(ch[k]) <= hi, 'node with %d dimensions has %d children' % (m, len(ch[k])))


# ------------------------------------------------------------- trees of any size (relational engine)
D_ = tensap.DimensionTree


def any_tree(c, **k):
    from vt.reltree import AnyTree
    T = AnyTree(c, **k)
    from vt.rel import ivar, assume
    x = ivar('node')
    assume(T.node(x))
    from vt.rel import wrap
    return T, wrap(x)


@harness('C06', [DT + f for f in ('children', 'parent', 'child_number', 'nodes_with_level', 'node_with_dims')], [{'f': f} for f in ('children', 'parent', 'child_number', 'nodes_with_level', 'node_with_dims')], concrete=0, engine='relational')
def accessors_any_tree(c, f):
    from vt.reltree import stub
    from vt.rel import zi, Q, seq, fun, ivar, seq_sort, z
    T, nod = any_tree(c)
    S = stub(T, f)
    if f == 'children':
        r = c.real(D_.children)(S, nod)
        c.equal('the children in increasing order', r, stub(T).children(nod))
    if f == 'parent':
        c.equal('parent', c.real(D_.parent)(S, nod), c.X.wrap(T.p(zi(nod))))
    if f == 'child_number':
        c.equal('child number', c.real(D_.child_number)(S, nod), stub(T).child_number(nod))
    if f == 'nodes_with_level':
        l = ivar('level')
        r = c.real(D_.nodes_with_level)(S, c.X.wrap(l))
        c.lists('nodes with the level', r, lambda x: z().And(T.node(x), T.lev(x) == l))
    if f == 'node_with_dims':
        q = z().Const(c.X.fresh('dims'), seq_sort())
        r = c.real(D_.node_with_dims)(S, Q(q))
        so = c.X.tab()['sort']
        c.lists('nodes with the dimensions', r, lambda x: z().And(T.node(x), so(T.D(x)) == so(q)))


@harness('C06', [DT + 'ascendants'], [{}], concrete=0, engine='relational')
def ascendants_any_tree(c):
    from vt.reltree import stub
    from vt.rel import zi, z, wrap, L, R
    Z = z()
    T, nod = any_tree(c)
    a, x = T.chain(), zi(nod)
    at = lambda k: Z.If(k == 0, x, a(x, k - 1))
    facts = lambda c, k, env: [('on the chain', Z.And(k >= 0, k <= T.lev(x), Z.If(k < T.lev(x), Z.And(T.node(a(x, k)), T.lev(a(x, k)) == T.lev(x) - 1 - k), a(x, k) == 0))),
                               ('nodes so far', c.X.forall(lambda j: Z.Implies(Z.And(0 <= j, j < k), T.node(a(x, j))), 1, lambda j: [a(x, j)]))]
    state = lambda c, k, env: {'anod': L(R((k,), lambda j: a(x, j))), 'pnod': wrap(a(x, k))}
    r = c.real(D_.ascendants, {0: c.loop(state, facts)})(stub(T, 'ascendants'), nod)
    r = c.X.vec(r)
    c.prove('as many as the level', r.sh[0] == T.lev(x))
    k = c.X.ivar('k')
    c.prove('the first is the parent', Z.Implies(T.lev(x) > 0, r.f(Z.IntVal(0)) == T.p(x)))
    c.prove('each is followed by its parent', Z.ForAll([k], Z.Implies(Z.And(0 <= k, k + 1 < r.sh[0]), r.f(k + 1) == T.p(r.f(k)))))


@harness('C06', [DT + 'descendants'], [{}], concrete=0, engine='relational')
def descendants_any_tree(c):
    """induction on the height: the recursive calls enter by the contract"""
    from vt.reltree import stub
    from vt.rel import zi, Q
    T, nod = any_tree(c)
    x = zi(nod)
    c.enumerations.append(lambda m: (T.nch(x), lambda k: k, lambda y: y))
    S = stub(T)
    r = c.real(D_.descendants, {0: c.loop(lambda c, k, env: {'dnod': Q(T.pre_de(x, k))})})(S, nod)
    c.equal('the children in order, each followed by its descendants', r, Q(T.DE(x)))


@harness('C06', [DT + '_precompute_attributes'], [{}], concrete=0, engine='relational')
def attributes_any_tree(c):
    """parents, children, numbers, siblings, levels of the tree of any adjacency matrix that is one"""
    from vt.reltree import Stub
    from vt.rel import z, R, zi, fun, assume, forall, enumeration_of, num, wrap
    Z = z()
    T, nod = any_tree(c)
    c.row_ones = lambda axis, i: (T.nch(i + 1), lambda k: T.ch(i + 1, k) - 1, lambda j: T.cn(j + 1))
    c.column_entry = lambda j: T.p(j + 1) - 1
    S = Stub(adjacency_matrix=T.adjacency(), dim2ind=T.leaves())
    want_ch = T.table()

    def children(c, k, env):
        f = want_ch.f
        ar = env['_children'].sh[0]
        return {'_children': R((ar, T.n), lambda a, i: Z.If(i < k, f(a, i), Z.IntVal(0)))}

    def number(c, k, env):
        f = T.numbers().f
        c.instances.append(T.cn(k + 1))
        return {'_child_number': R((T.n,), lambda i: Z.If(i < k, f(i), Z.IntVal(0)))}

    def sibling(c, k, env):
        f = T.siblings().f
        return {'_sibling': R((env['_sibling'].sh[0], T.n), lambda a, i: Z.If(i < k, f(a, i), Z.IntVal(0)))}

    def level(c, k, env):
        c.mention(c.X.least(lambda x: Z.And(T.node(x), T.lev(x) > k), T.lev))
        now = enumeration_of(lambda x: Z.And(T.node(x), T.lev(x) == k + 1), 'ind', False)
        return {'_level': R((T.n,), lambda i: Z.If(T.lev(i + 1) <= k, T.lev(i + 1), Z.IntVal(0))), 'level': wrap(k + 1), 'ind': now}
    # the children of the nodes of a list
    c.sets.append(lambda m: (lambda y: Z.And(T.node(y), y != T.r, m.meta[2].mem(T.p(y) - 1)), lambda y: (T.cn(y), m.meta[2].at(T.p(y) - 1))) if m.meta and m.meta[0] == 'gather' and m.meta[2].mem is not None else None)
    c.real(D_._precompute_attributes, {0: c.loop(children), 1: c.loop(number), 2: c.loop(sibling), 3: c.loop(level, sets=('ind',))})(S)
    c.equal('nb_nodes', S.nb_nodes, wrap(T.n))
    c.equal('nodes_indices', S.nodes_indices, T.nodes())
    x, a, i = c.X.ivar('x'), zi(S.arity), c.X.ivar('i')
    c.prove('arity: at least the number of children of every node', Z.ForAll([x], Z.Implies(T.node(x), T.nch(x) <= a)))
    c.equal('root', S.root, wrap(T.r))
    c.equal('parent', S._parent, T.vector(T.p))
    c.equal('is_leaf', S.is_leaf, T.vector(lambda x: T.dimof(x) >= 0))
    for n, w in (('_children', want_ch), ('sibling', T.siblings())):
        r = getattr(S, n)
        c.prove(n + ': one column per node', Z.And(r.sh[0] == a, r.sh[1] == T.n))
        c.prove(n, Z.ForAll([i, x], Z.Implies(Z.And(0 <= i, i < a, 0 <= x, x < T.n), r.f(i, x) == w.f(i, x))))
    c.equal('child number', S._child_number, T.numbers())
    c.equal('level', S.level, T.vector(T.lev))
    c.same_set('parents of leaves', S.nodes_parent_of_leaves, R((T.d,), lambda k: T.p(T.d2i(k))))
    c.lists('internal nodes', S.internal_nodes, lambda x: Z.And(T.node(x), T.dimof(x) < 0))


@harness('C06', [DT + 'update_dims_from_leaves'], [{}], concrete=0, engine='relational')
def dims_any_tree(c):
    """the dimensions of an internal node are those of its children, one child after the other"""
    from vt.reltree import stub
    from vt.rel import z, R, zi, unit
    Z = z()
    T, nod = any_tree(c)
    S = stub(T, 'dims')
    leaf = lambda x: unit(Z.If(T.dimof(x) >= 0, T.dimof(x), Z.IntVal(0)))

    def outer(c, k, env):
        top = levels.it.f(Z.IntVal(0))
        return {'_dims': R((T.n,), lambda i: Z.If(T.lev(i + 1) > top - k, T.D(i + 1), leaf(i + 1)))}

    def inner(c, k, env):
        l, rank = zi(env['level']), env['nod_level'].rank
        return {'_dims': R((T.n,), lambda i: Z.If(Z.Or(T.lev(i + 1) > l, Z.And(T.lev(i + 1) == l, rank(i + 1) < k)), T.D(i + 1), leaf(i + 1)))}

    def family(m):
        try:
            x = m.over.meta[1].meta[2] + 1
        except (AttributeError, TypeError, IndexError):
            return None
        return T.nch(x), lambda k: T.D(T.ch(x, k)), T.pre_d(x, T.nch(x))
    c.families.append(family)
    levels = c.loop(outer)
    r = c.real(D_.update_dims_from_leaves, {0: levels, 1: c.loop(inner)})(S)
    c.equal('dims', S.dims, T.vector(T.D))
    c.true('the tree itself is returned', r is S)


def same_matrix(c, label, A, want, n, split=lambda x: []):
    from vt.rel import z
    Z = z()
    i, j = c.X.ivar('i'), c.X.ivar('j')
    c.prove(label + ': size', Z.And(A.sh[0] == n, A.sh[1] == n))
    c.prove(label, Z.Implies(Z.And(0 <= i, i < n, 0 <= j, j < n), A.f(i, j) == want(i, j)), [i + 1, j + 1], split(i + 1) + split(j + 1))


def is_tree(c, d2i, A, n, d, root, p, lev, child, dimof, split=lambda x: []):
    """the precondition of the constructor, with explicit witnesses: parent, level, some child of
    an internal node, dimension of a leaf (-1 elsewhere)"""
    from vt.rel import z, vec
    Z = z()
    one = lambda b: Z.If(b, Z.IntVal(1), Z.IntVal(0))
    node = lambda x: Z.And(1 <= x, x <= n)
    same_matrix(c, 'adjacency matrix', A, lambda i, j: one(p(j + 1) == i + 1), n, split)
    x, k, y = c.X.ivar('x'), c.X.ivar('k'), c.X.ivar('y')
    c.prove('the root', Z.And(node(root), p(root) == 0))
    c.prove('one parent per node, no cycle', Z.Implies(Z.And(node(x), x != root), Z.And(node(p(x)), lev(x) == lev(p(x)) + 1)), [x])
    c.prove('levels', Z.Implies(node(x), lev(x) >= 0), [x])
    d2i = vec(d2i)
    c.prove('number of dimensions', d2i.sh[0] == d)
    c.prove('dim2ind: leaves', Z.Implies(Z.And(0 <= k, k < d), Z.And(node(d2i.f(k)), dimof(d2i.f(k)) == k)), [k, d2i.f(k)])
    c.prove('dim2ind: no child', Z.Implies(Z.And(0 <= k, k < d, node(y)), p(y) != d2i.f(k)), [y, d2i.f(k)])
    c.prove('every node without a child has a dimension', Z.Implies(Z.And(node(x), dimof(x) < 0), Z.And(node(child(x)), p(child(x)) == x)), [x, child(x)])
    c.prove('dimensions of the leaves', Z.Implies(Z.And(node(x), dimof(x) >= 0), Z.And(dimof(x) < d, d2i.f(dimof(x)) == x)), [x])


class Made:
    """contract of the constructor: keeps its arguments"""
    def __init__(self, dim2ind, adjacency_matrix):
        self.dim2ind, self.adjacency_matrix = dim2ind, adjacency_matrix


def unchanged(c, S, T):
    """frame: the object the method ran on"""
    from vt.reltree import stub
    W = stub(T)
    c.equal('frame: dim2ind', S.dim2ind, W.dim2ind)
    c.equal('frame: adjacency matrix', S.adjacency_matrix, W.adjacency_matrix)


def permutation(c, d):
    from vt.rel import z, R, fun, forall, assume
    Z = z()
    s, t = fun('sigma', 1), fun('sigma_inverse', 1)
    assume(forall(lambda k: Z.Implies(Z.And(0 <= k, k < d), Z.And(0 <= s(k), s(k) < d, t(s(k)) == k)), 1, lambda k: [s(k)]))
    assume(forall(lambda k: Z.Implies(Z.And(0 <= k, k < d), Z.And(0 <= t(k), t(k) < d, s(t(k)) == k)), 1, lambda k: [t(k)]))
    c.terms += [t]
    return R((d,), s, mem=lambda x: Z.And(0 <= x, x < d)), s, t


@harness('C06', [DT + 'permute', DT + 'ipermute'], [{'f': f} for f in ('permute', 'ipermute')], concrete=0, engine='relational')
def permute_any_tree(c, f):
    from vt.reltree import stub
    from vt.rel import z
    Z = z()
    T, nod = any_tree(c)
    S = stub(T)
    P, s, t = permutation(c, T.d)
    U = c.real(getattr(D_, f), names={'DimensionTree': Made})(S, P)
    g = (lambda d: Z.If(d < 0, d, s(d))) if f == 'permute' else (lambda d: Z.If(d < 0, d, t(d)))
    is_tree(c, U.dim2ind, U.adjacency_matrix, T.n, T.d, T.r, T.p, T.lev, lambda x: T.ch(x, 0), lambda x: g(T.dimof(x)))
    unchanged(c, S, T)


@harness('C06', [DT + 'add_child'], [{}], concrete=0, engine='relational')
def add_child_any_tree(c):
    from vt.reltree import stub
    from vt.rel import z, zi, cond
    Z = z()
    T, nod = any_tree(c)
    S = stub(T)
    U = c.real(D_.add_child, names={'DimensionTree': Made})(S, nod)
    x, n, new = zi(nod), T.n, T.n + 1
    leaf = T.dimof(x) >= 0
    d = T.d + Z.If(leaf, Z.IntVal(0), Z.IntVal(1))
    dim = lambda y: Z.If(y == new, Z.If(leaf, T.dimof(x), T.d), Z.If(y == x, Z.IntVal(-1), T.dimof(y)))
    is_tree(c, U.dim2ind, U.adjacency_matrix, n + 1, d, T.r, lambda y: Z.If(y == new, x, T.p(y)), lambda y: Z.If(y == new, T.lev(x) + 1, T.lev(y)),
            lambda y: Z.If(y == x, new, T.ch(y, 0)), dim)
    unchanged(c, S, T)


@harness('C06', [DT + 'change_root'], [{}], concrete=0, engine='relational')
def change_root_any_tree(c):
    """the edges of the chain from the node to the root are reversed, nothing else"""
    from vt.reltree import stub, Stub
    from vt.rel import z, zi, R, fun, forall, assume, enumeration_of, cond, wrap, assume_all, ivar
    Z = z()
    T, nod = any_tree(c, min_root_children=2)
    x, n, H = zi(nod), T.n, T.lev(zi(nod))
    # what the contract of ascendants says about the chain
    at, pos = fun('chain', 1), fun('pos', 1)
    assume(forall(lambda t: Z.Implies(Z.And(0 <= t, t <= H), Z.And(T.node(at(t)), T.lev(at(t)) == H - t, pos(at(t)) == t)), 1, lambda t: [at(t)]))
    assume(forall(lambda t: Z.Implies(Z.And(0 <= t, t < H), Z.And(at(t) != T.r, at(t + 1) == T.p(at(t)))), 1, lambda t: [T.p(at(t))]))
    assume(Z.And(at(0) == x, at(H) == T.r))
    assume(forall(lambda y: Z.And(pos(y) >= -1, pos(y) <= H, Z.Implies(pos(y) >= 0, at(pos(y)) == y)), 1, lambda y: [pos(y)]))
    c.terms += [pos, lambda y: T.p(y), lambda y: T.p(at(pos(y))), lambda y: T.p(at(pos(y) - 2)), lambda y: T.p(at(pos(y) - 1)), lambda y: pos(T.p(y))]
    on = lambda y: pos(y) >= 0
    c.singletons.append(T.dimof(x))
    S = stub(T)
    S.ascendants = lambda v: R((H,), lambda k: at(k + 1), mem=lambda y: pos(y) >= 1)
    # the new level: the position on the chain, and one more than the parent elsewhere
    lv = fun('new_level', 1)
    assume(forall(lambda y: Z.Implies(T.node(y), Z.And(lv(y) >= 0, lv(y) == Z.If(on(y), pos(y), lv(T.p(y)) + 1))), 1, lambda y: [lv(y)]))
    one = lambda b: Z.If(b, Z.IntVal(1), Z.IntVal(0))
    # the parent of y once the first k edges of the chain are reversed
    def par(k):
        return lambda y: Z.If(Z.And(on(y), pos(y) == 0), Z.If(k == 0, T.p(y), Z.IntVal(0)), Z.If(Z.And(on(y), pos(y) <= k), at(pos(y) - 1), T.p(y)))

    def state(c, k, env):
        c.mention(at(k))
        # after k reversals at(k) has two parents until the next one: entry by entry
        def f(i, j):
            u, v = i + 1, j + 1
            up = Z.And(on(v), pos(v) < k, u == at(pos(v) + 1))       # removed
            down = Z.And(on(u), pos(u) < k, v == at(pos(u) + 1))     # added
            return Z.If(up, Z.IntVal(0), Z.If(down, Z.IntVal(1), one(T.p(v) == u)))
        mod = enumeration_of(lambda y: Z.Or(Z.And(on(y), pos(y) <= k), Z.And(T.node(y), y != T.r, on(T.p(y)), pos(T.p(y)) <= k)), 'modified', False)
        return {'A': R((n, n), f), 'modifiedNodes': mod}
    U, mod = c.real(D_.change_root, {0: c.loop(state, sets=('modifiedNodes',))}, names={'DimensionTree': Made})(S, nod)
    if U is S:
        c.prove('the tree itself when the node is the root', x == T.r)
        return
    leaf = T.dimof(x) >= 0
    new = n + 1
    p = lambda y: Z.If(y == new, x, Z.If(on(y), Z.If(pos(y) == 0, Z.IntVal(0), at(pos(y) - 1)), T.p(y)))
    N = n + one(leaf)
    other = Z.If(on(T.ch(T.r, 0)), T.ch(T.r, 1), T.ch(T.r, 0))
    child = lambda y: Z.If(y == x, Z.If(leaf, new, at(1)), Z.If(y == T.r, other, Z.If(on(y), at(pos(y) + 1), T.ch(y, 0))))
    dim = lambda y: Z.If(y == new, T.dimof(x), Z.If(y == x, Z.IntVal(-1), T.dimof(y)))
    c.mention(T.ch(T.r, 0))
    c.mention(T.ch(T.r, 1))
    is_tree(c, U.dim2ind, U.adjacency_matrix, N, T.d, x, p, lambda y: Z.If(y == new, Z.IntVal(1), lv(y)), child, dim, lambda y: [on(y), y == new])
    y = ivar('y')
    c.prove('nodes with other children are listed', Z.Implies(on(y), c.X.members(mod)(y)), [y])
    unchanged(c, S, T)


def constructor(c, f, order):
    return c.real(getattr(D_, f), LOOPS[f](c, order) if f in LOOPS else {}, names={'DimensionTree': Made})(order)


def half(x):
    return x / 2


def linear_loop(c, order):
    from vt.rel import z, zi, R
    Z = z()
    d = zi(order)
    one = lambda b: Z.If(b, Z.IntVal(1), Z.IntVal(0))
    row = lambda i, k: Z.Or(i == 0, Z.And(i % 2 == 1, i < 2 * k + 1))
    entry = lambda k: lambda i, j: Z.If(i == 0, one(Z.And(1 <= j, j <= 2)), one(Z.And(row(i, k), i + 2 <= j, j <= i + 3)))
    return {0: c.loop(lambda c, k, env: {'adj_mat': R((2 * d - 1, 2 * d - 1), entry(k))})}


def balanced_loop(c, order):
    from vt.rel import z, zi, R
    Z = z()
    d = zi(order)
    one = lambda b: Z.If(b, Z.IntVal(1), Z.IntVal(0))
    entry = lambda k: lambda i, j: one(Z.And(i <= k, 2 * i + 1 <= j, j <= 2 * i + 2))
    return {0: c.loop(lambda c, k, env: {'adj_mat': R((2 * d - 1, 2 * d - 1), entry(k))})}


LOOPS = {'linear': linear_loop, 'balanced': balanced_loop}


@harness('C06', [DT + f for f in ('trivial', 'linear', 'balanced')], [{'f': f} for f in ('trivial', 'linear', 'balanced')], concrete=0, engine='relational')
def constructors_any_order(c, f):
    from vt.rel import z, zi, R, fun, forall, assume, ivar, PyInt
    Z = z()
    d = ivar('order')
    assume(d >= (1 if f == 'trivial' else 2))
    U = constructor(c, f, PyInt(d))
    if f == 'trivial':
        is_tree(c, U.dim2ind, U.adjacency_matrix, d + 1, d, Z.IntVal(1), lambda x: Z.If(x == 1, Z.IntVal(0), Z.IntVal(1)), lambda x: Z.If(x == 1, Z.IntVal(0), Z.IntVal(1)),
                lambda x: Z.IntVal(2), lambda x: x - 2)
        return
    n = 2 * d - 1
    if f == 'linear':
        # node 2m (and 1): dimensions 0..d-1-m, its children are 2m + 2 and the leaf 2m + 3 of dimension d-1-m
        p = lambda x: Z.If(x == 1, Z.IntVal(0), Z.If(x <= 3, Z.IntVal(1), Z.If(x % 2 == 0, x - 2, x - 3)))
        dim = lambda x: Z.If(x == 2 * d - 2, Z.IntVal(0), Z.If(Z.And(x >= 3, x % 2 == 1), d - half(x - 1), Z.IntVal(-1)))
        is_tree(c, U.dim2ind, U.adjacency_matrix, n, d, Z.IntVal(1), p, lambda x: half(x), lambda x: Z.If(x == 1, Z.IntVal(2), x + 2), dim)
        return
    # balanced: the binary tree numbered by levels
    lv, pw = fun('level', 1), fun('power_of_two', 1)
    assume(lv(Z.IntVal(1)) == 0)
    assume(forall(lambda x: Z.Implies(x >= 2, lv(x) == lv(half(x)) + 1), 1, lambda x: [lv(x)]))
    assume(Z.And(pw(Z.IntVal(0)) == 1))
    assume(forall(lambda k: Z.Implies(k >= 0, pw(k + 1) == 2 * pw(k)), 1, lambda k: [pw(k + 1)]))
    y = ivar('y')

    def induction(label, P):
        mark = len(c.X.tab()['ax'])
        assume(y >= 1)
        assume(forall(lambda x: Z.Implies(Z.And(1 <= x, x < y), P(x)), 1, lambda x: [lv(x)]))
        c.mention(half(y))
        g = c.X.z().Function('mention_', Z.IntSort(), Z.BoolSort())
        assume(g(lv(half(y))))
        c.prove(label + ' (induction)', P(y))
        del c.X.tab()['ax'][mark:]
        assume(forall(lambda x: Z.Implies(1 <= x, P(x)), 1, lambda x: [lv(x)]))
    induction('levels are not negative', lambda x: lv(x) >= 0)
    induction('level: integer part of the logarithm', lambda x: Z.And(pw(lv(x)) <= x, x < pw(lv(x) + 1)))
    is_tree(c, U.dim2ind, U.adjacency_matrix, n, d, Z.IntVal(1), half, lv, lambda x: 2 * x, lambda x: Z.If(x >= d, x - d, Z.IntVal(-1)))
    k, l, x = ivar('k'), ivar('l'), ivar('x')
    mark = len(c.X.tab()['ax'])
    assume(Z.And(0 <= k, k <= l, pw(k) <= pw(l), pw(l) >= 1))
    c.prove('powers of two increase (induction)', Z.And(pw(k) <= pw(l + 1), pw(l + 1) >= 1))
    del c.X.tab()['ax'][mark:]
    assume(forall(lambda k, l: Z.Implies(Z.And(0 <= k, k <= l), Z.And(pw(k) <= pw(l), pw(k) >= 1)), 2, lambda k, l: [(pw(k), pw(l))]))
    c.terms += [lv, lambda x: pw(lv(x)), lambda x: pw(lv(x) + 1), lambda x: pw(lv(x) + 2), lambda x: pw(lv(x) - 1)]
    leaf = lambda x: Z.And(d <= x, x <= n)
    c.prove('the levels of the leaves differ by at most one', Z.Implies(Z.And(leaf(x), leaf(y)), lv(x) <= lv(y) + 1), [x, y])
    c.prove('the last leaf is on the last level', Z.Implies(leaf(x), lv(x) <= lv(n)), [x, n])
    c.prove('depth: logarithm of the order, rounded up', Z.And(lv(n) >= 1, pw(lv(n) - 1) < d, d <= pw(lv(n))), [n, d])


@harness('C06', [DT + 'sub_dimension_tree'], [{}], concrete=0, engine='relational')
def subtree_any_tree(c):
    """the node and its descendants, renumbered in the order of the list; dimensions in the order of dims"""
    from vt.reltree import stub, Listing
    T, nod = any_tree(c)
    from vt.rel import z, zi, vec, tab
    Z = z()
    start = len(tab()['ax'])
    L = Listing(c, T)
    S, x = stub(T), zi(nod)
    N, M = L.N(x), L.M(x)
    c.prove('positions of the node itself', Z.And(L.posn(x, x) == 0, N >= 0, M >= 0))
    nd, P, member, lp, w = L.at_node(x, start)
    c.enumerations.append(lambda m: (M, lambda k: lp(k), lambda k: w(nd(k))))
    U, nodes = c.real(D_.sub_dimension_tree, names={'DimensionTree': Made})(S, nod)
    nodes = vec(nodes)
    k = c.X.ivar('k')
    c.prove('as many nodes', nodes.sh[0] == N + 1)
    c.prove('the node, its descendants in order', Z.Implies(Z.And(0 <= k, k <= N), nodes.f(k) == nd(k)))
    old = lambda v: nd(v - 1)
    p = lambda v: Z.If(v == 1, Z.IntVal(0), P(T.p(old(v))))
    dim = lambda v: Z.If(T.dimof(old(v)) >= 0, w(old(v)), Z.IntVal(-1))
    c.terms += [old, lambda v: T.p(old(v)), lambda v: P(T.p(old(v))), lambda v: P(T.ch(old(v), 0)), lambda v: w(old(v)), lp]
    is_tree(c, U.dim2ind, U.adjacency_matrix, N + 1, M, Z.IntVal(1), p, lambda v: T.lev(old(v)) - T.lev(x), lambda v: P(T.ch(old(v), 0)), dim)
    c.prove('dimensions in the order of dims', Z.Implies(Z.And(0 <= k, k < M), T.dimof(nodes.f(vec(U.dim2ind).f(k) - 1)) == L.dd(x, k)), [k])
    unchanged(c, S, T)
