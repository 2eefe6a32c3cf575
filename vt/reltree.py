"""An arbitrary well-formed dimension tree, for the relational engine.

Nodes are 1..n.  Functions of a node x: p (parent, 0 at the root), lev (level), nch and ch(x, k)
(children in increasing order), cn (position among the children of the parent), dimof (dimension
of a leaf, -1 otherwise); d2i(k) is the leaf of dimension k.  The axioms are the data-structure
invariant; the functions exist in every finite rooted tree whose leaves carry the dimensions."""
from . import rel
from .rel import z, R, Q, fun, ivar, assume, forall, wrap, zi


class AnyTree:
    def __init__(self, c, min_root_children=0):
        Z = z()
        self.c = c
        n, r, d, H, ar = [ivar(x) for x in ('n', 'root', 'd', 'height', 'arity')]
        p, lev, nch, cn, dimof, d2i, w = [fun(x, 1) for x in ('p', 'lev', 'nch', 'cn', 'dimof', 'd2i', 'with_level')]
        ch = fun('ch', 2)
        self.n, self.r, self.d, self.H, self.ar = n, r, d, H, ar
        self.p, self.lev, self.nch, self.cn, self.dimof, self.d2i, self.ch = p, lev, nch, cn, dimof, d2i, ch
        node = self.node = lambda x: Z.And(1 <= x, x <= n)
        assume(Z.And(n >= 1, d >= 1, node(r), p(r) == 0, lev(r) == 0, H >= 0, ar >= 0))
        assume(forall(lambda x: Z.Implies(Z.And(node(x), x != r), Z.And(node(p(x)), p(x) != x, lev(x) == lev(p(x)) + 1)), 1, lambda x: [p(x)]))
        assume(forall(lambda x: Z.Implies(node(x), Z.And(lev(x) >= 0, lev(x) <= H, Z.Implies(lev(x) == 0, x == r))), 1, lambda x: [lev(x)]))
        # children
        assume(forall(lambda x: Z.Implies(node(x), Z.And(nch(x) >= 0, nch(x) <= ar, (nch(x) == 0) == (dimof(x) >= 0))), 1, lambda x: [nch(x)]))
        assume(forall(lambda x, k: Z.Implies(Z.And(node(x), 0 <= k, k < nch(x)), Z.And(node(ch(x, k)), p(ch(x, k)) == x, ch(x, k) != r, cn(ch(x, k)) == k)), 2, lambda x, k: [ch(x, k)]))
        assume(forall(lambda x, k, l: Z.Implies(Z.And(node(x), 0 <= k, k < l, l < nch(x)), ch(x, k) < ch(x, l)), 3, lambda x, k, l: [(ch(x, k), ch(x, l))]))
        assume(forall(lambda x: Z.Implies(Z.And(node(x), x != r), Z.And(0 <= cn(x), cn(x) < nch(p(x)), ch(p(x), cn(x)) == x)), 1, lambda x: [cn(x)]))
        assume(forall(lambda x: Z.Implies(Z.And(node(x), x != r), Z.And(0 <= cn(x), cn(x) < nch(p(x)), ch(p(x), cn(x)) == x)), 1, lambda x: [p(x)]))
        # leaves
        assume(forall(lambda x: Z.And(dimof(x) >= -1, dimof(x) < d, Z.Implies(Z.And(node(x), dimof(x) >= 0), d2i(dimof(x)) == x)), 1, lambda x: [dimof(x)]))
        assume(forall(lambda k: Z.Implies(Z.And(0 <= k, k < d), Z.And(node(d2i(k)), dimof(d2i(k)) == k)), 1, lambda k: [d2i(k)]))
        assume(nch(r) >= min_root_children)
        # instances
        assume(Z.And(lev(r) >= 0, nch(r) >= 0, Z.Or(nch(r) == 0, ch(r, 0) != r), dimof(r) >= -1, node(d2i(0))))
        # the word of the dimensions below a node, and of its descendants
        S = rel.seq_sort()
        self.D, self.DE = fun('dims', 1, S), fun('descendants', 1, S)
        self.pre_d, self.pre_de = fun('dims_of_first_children', 2, S), fun('descendants_by_first_children', 2, S)
        e = rel.empty()
        assume(forall(lambda x: Z.Implies(node(x), Z.And(self.DE(x) == self.pre_de(x, nch(x)), self.D(x) == Z.If(dimof(x) >= 0, rel.unit(dimof(x)), self.pre_d(x, nch(x))))), 1, lambda x: [self.D(x)]))
        assume(forall(lambda x: Z.Implies(node(x), self.DE(x) == self.pre_de(x, nch(x))), 1, lambda x: [self.DE(x)]))
        assume(forall(lambda x: Z.And(self.pre_de(x, 0) == e, self.pre_d(x, 0) == e), 1, lambda x: [self.pre_de(x, 0)]))
        assume(forall(lambda x, k: Z.Implies(k >= 0, self.pre_de(x, k + 1) == rel.cat(self.pre_de(x, k), rel.unit(ch(x, k)), self.DE(ch(x, k)))), 2, lambda x, k: [self.pre_de(x, k)]))
        c.enumerations.append(self.child_rows)
        c.enumerations.append(self.child_column)
        c.instances.append(r - 1)
        c.terms.append(p)

    # ---- hints (every use is proved before it is taken)
    def child_rows(self, m):
        """nonzero of row i of the adjacency matrix: the children of i + 1"""
        if m.meta and m.meta[0] == 'row':
            i = m.meta[2]
            return self.nch(i + 1), lambda k: self.ch(i + 1, k) - 1, lambda x: self.cn(x + 1)

    def child_column(self, m):
        """entries that are not zero in a column of the table of children: the first ones"""
        if m.meta and m.meta[0] in ('col', 'children'):
            i = m.meta[2]
            return self.nch(i + 1), lambda k: k, lambda x: x

    # ---- the attributes
    def adjacency(self):
        Z = z()
        return R((self.n, self.n), lambda i, j: Z.If(self.p(j + 1) == i + 1, Z.IntVal(1), Z.IntVal(0)), meta='A')

    def leaves(self):
        Z = z()
        return R((self.d,), lambda k: self.d2i(k), mem=lambda x: Z.And(self.node(x), self.dimof(x) >= 0))

    def table(self):
        Z = z()
        return R((self.ar, self.n), lambda a, i: Z.If(a < self.nch(i + 1), self.ch(i + 1, a), Z.IntVal(0)), meta='table')

    def nodes(self):
        return R((self.n,), lambda i: i + 1, mem=self.node, rank=lambda x: x - 1)

    def vector(self, f):
        return R((self.n,), lambda i: f(i + 1))

    def numbers(self):
        Z = z()
        return self.vector(lambda x: Z.If(x == self.r, Z.IntVal(0), self.cn(x) + 1))

    def siblings(self):
        Z = z()
        return R((self.ar, self.n), lambda a, i: Z.If(i + 1 == self.r, Z.IntVal(0), Z.If(a < self.nch(self.p(i + 1)), self.ch(self.p(i + 1), a), Z.IntVal(0))))

    def chain(self):
        """asc(x, k): the ancestor k + 1 levels above x, 0 above the root; its axioms are its definition"""
        Z = z()
        if not hasattr(self, 'asc'):
            asc = self.asc = fun('asc', 2)
            assume(forall(lambda x: asc(x, 0) == self.p(x), 1, lambda x: [asc(x, 0)]))
            assume(forall(lambda x, k: Z.Implies(z3_and(k >= 0, self.node(asc(x, k))), asc(x, k + 1) == self.p(asc(x, k))), 2, lambda x, k: [asc(x, k)]))
        return self.asc


def z3_and(*a):
    return z().And(*a)


class Stub:
    """the object the real method runs on: attributes from the tree, methods by their contracts"""
    def __init__(self, **k):
        self.__dict__.update(k)


def stub(T, *names):
    """attributes of a well-formed tree object"""
    Z = z()
    make = {
        'adjacency_matrix': T.adjacency, 'dim2ind': T.leaves, 'nb_nodes': lambda: wrap(T.n), 'nodes_indices': T.nodes,
        'arity': lambda: wrap(T.ar), '_parent': lambda: T.vector(T.p), 'root': lambda: wrap(T.r),
        'is_leaf': lambda: T.vector(lambda x: T.dimof(x) >= 0), '_children': T.table, '_child_number': T.numbers,
        'sibling': T.siblings, 'level': lambda: T.vector(T.lev), 'dims': lambda: T.vector(T.D),
    }
    s = Stub(**{n: f() for n, f in make.items()})
    s.tree = T

    def need(x):
        T.c.prove('precondition: a node', T.node(zi(x)))
        return zi(x)

    def children(x):
        x = need(x)
        return R((T.nch(x),), lambda k: T.ch(x, k), mem=lambda y: Z.And(T.node(y), y != T.r, T.p(y) == x), rank=T.cn, meta=('children', None, x - 1))

    def parent(x):
        return wrap(T.p(need(x)))

    def child_number(x):
        x = need(x)
        return wrap(Z.If(x == T.r, Z.IntVal(0), T.cn(x) + 1))

    def descendants(x):
        return Q(T.DE(need(x)))

    def nodes_with_level(l):
        l = zi(l)
        return rel.nonzero(R((T.n,), lambda i: T.lev(i + 1) == l)) + 1

    def ascendants(x):
        x = need(x)
        a = T.chain()
        return R((T.lev(x),), lambda k: a(x, k))
    s.children, s.parent, s.child_number, s.descendants, s.nodes_with_level, s.ascendants = children, parent, child_number, descendants, nodes_with_level, ascendants
    for n in names:
        s.__dict__.pop(n, None)
    return s


class Listing:
    """the descendants and the dimensions of a node as arrays: which entries the words hold, where.
    Everything is defined by recursion on the tree; what is not a definition is proved by
    induction: on the level of a node, on the height, or on the number of children."""
    def __init__(self, c, T):
        Z = z()
        self.c, self.T = c, T
        mark = len(rel.tab()['ax'])
        get, size = self.get, self.size = rel.entries_of_words(), rel.tab()['size']
        self.keep = rel.tab()['ax'][mark:]
        p, lev, ch, cn, nch, node, D, DE, pd, pe = T.p, T.lev, T.ch, T.cn, T.nch, T.node, T.D, T.DE, T.pre_d, T.pre_de
        # below(y, x): y is a strict descendant of x; tow(x, y): the child of x on the way to y
        below, tow = self.below, self.tow = fun('below', 2, Z.BoolSort()), fun('towards', 2)
        dbelow = lambda y, x: below(y, x) == Z.And(node(y), node(x), y != T.r, Z.Or(p(y) == x, below(p(y), x)))
        dtow = lambda x, y: tow(x, y) == Z.If(p(y) == x, y, tow(x, p(y)))
        x, y, k, l, i, j, b = [ivar(n) for n in ('x', 'y', 'k', 'l', 'i', 'j', 'b')]
        sub = lambda y, x: Z.Or(y == x, below(y, x))
        lem, I = self.lemma, Z.Implies
        self.dbelow = dbelow
        lem('a descendant has a higher level', [y, x], lambda y, x: I(below(y, x), Z.And(node(y), node(x), lev(y) > lev(x))), [dbelow(y, x)], lambda P: I(node(p(y)), P(p(y), x)), pat=lambda y, x: [below(y, x)])
        lem('through a child', [y, x], lambda y, x: I(Z.And(node(y), node(x), x != T.r, sub(y, x)), Z.And(below(y, p(x)), tow(p(x), y) == x)),
            [dbelow(y, x), dbelow(y, p(x)), dtow(p(x), y), dbelow(p(y), x), below(p(y), x) == below(p(y), x)], lambda P: I(y != T.r, P(p(y), x)), pat=lambda y, x: [(below(y, x), p(x))])
        lem('a child is a descendant', [y], lambda y: I(Z.And(node(y), y != T.r), Z.And(below(y, p(y)), tow(p(y), y) == y)), [dbelow(y, p(y)), dtow(p(y), y)], None, pat=lambda y: [below(y, p(y))])
        lem('towards a descendant', [x, y], lambda x, y: I(below(y, x), Z.And(node(tow(x, y)), tow(x, y) != T.r, p(tow(x, y)) == x, sub(y, tow(x, y)))),
            [dbelow(y, x), dtow(x, y), dbelow(y, tow(x, p(y)))], lambda P: I(y != T.r, P(x, p(y))), pat=lambda x, y: [tow(x, y)])
        # words by blocks, one per child
        def blocks(name, pre, block):
            step = lambda x, k: I(k >= 0, pre(x, k + 1) == rel.cat(pre(x, k), block(x, k)))
            lem(name + ' of the first children: prefixes', [x, k, l, i], lambda x, k, l, i: I(Z.And(0 <= k, k <= l), Z.And(size(pre(x, k)) <= size(pre(x, l)), I(Z.And(0 <= i, i < size(pre(x, k))), get(pre(x, l), i) == get(pre(x, k), i)))),
                [I(l > k, Z.substitute(step(x, l), (l, l - 1))), pre(x, l - 1 + 1) == pre(x, l)], lambda P: I(l > k, P(x, k, l - 1, i)), pat=None)
            pref = self.last
            blk = fun('block', 2)
            inside = lambda b, x, k, i: Z.And(0 <= b, b < k, size(pre(x, b)) <= i, i < size(pre(x, b + 1)))
            self.c.prove('lemma: %s of the first children: blocks' % name, I(Z.And(k >= 0, I(Z.And(0 <= i, i < size(pre(x, k))), inside(b, x, k, i)), 0 <= i, i < size(pre(x, k + 1))), Z.Or(inside(b, x, k + 1, i), inside(k, x, k + 1, i))))
            dblk = lambda x, i: I(Z.And(0 <= i, i < size(pre(x, nch(x)))), inside(blk(x, i), x, nch(x), i))
            return step, pref, blk, dblk
        estep, epref, eblk, deblk = blocks('descendants', pe, lambda x, k: rel.cat(rel.unit(ch(x, k)), DE(ch(x, k))))
        dstep, dpref, dblk, ddblk = blocks('dimensions', pd, lambda x, k: D(ch(x, k)))
        N, at = lambda x: size(DE(x)), lambda x, i: get(DE(x), i)
        self.N, self.at = N, at
        # positions of the descendants
        pos = self.pos = fun('position', 2)
        dpos = lambda x, y: I(below(y, x), pos(x, y) == size(pe(x, cn(tow(x, y)))) + Z.If(tow(x, y) == y, 0, 1 + pos(tow(x, y), y)))
        w = ch(x, eblk(x, i))
        u = at(w, i - size(pe(x, eblk(x, i))) - 1)
        lem('entries of the list of descendants', [x, i], lambda x, i: I(Z.And(node(x), 0 <= i, i < N(x)), Z.And(below(at(x, i), x), pos(x, at(x, i)) == i)),
            [deblk(x, i), estep(x, eblk(x, i)), epref(x, eblk(x, i) + 1, nch(x), i), dpos(x, w), dpos(x, u), below(w, p(w)) == below(w, x), below(u, w) == below(u, w), u == u],
            lambda P: I(lev(w) > lev(x), P(w, i - size(pe(x, eblk(x, i))) - 1)), pat=lambda x, i: [at(x, i)])
        t = tow(x, y)
        lem('descendants are in the list', [x, y], lambda x, y: I(below(y, x), Z.And(0 <= pos(x, y), pos(x, y) < N(x), at(x, pos(x, y)) == y)),
            [dpos(x, y), estep(x, cn(t)), epref(x, cn(t) + 1, nch(x), pos(x, y)), epref(x, z().IntVal(0), cn(t), i)], lambda P: I(lev(t) > lev(x), P(t, y)), pat=lambda x, y: [pos(x, y)])
        # the list with the node itself in front, and the positions of the leaves in it
        self.nod = lambda x, k: Z.If(k == 0, x, at(x, k - 1))
        self.posn = lambda x, y: Z.If(y == x, Z.IntVal(0), 1 + pos(x, y))
        M, dd = lambda x: size(D(x)), lambda x, i: get(D(x), i)
        self.M, self.dd = M, dd
        lp, li = self.lp, self.li = fun('position_of_dimension', 2), fun('which_dimension', 2)
        leaf = lambda x: T.dimof(x) >= 0
        dlp = lambda x, i: I(Z.And(node(x), 0 <= i, i < M(x)), lp(x, i) == Z.If(leaf(x), Z.IntVal(0), 1 + size(pe(x, dblk(x, i))) + lp(ch(x, dblk(x, i)), i - size(pd(x, dblk(x, i))))))
        dli = lambda x, y: I(Z.And(node(x), sub(y, x)), li(x, y) == Z.If(y == x, Z.IntVal(0), size(pd(x, cn(tow(x, y)))) + li(tow(x, y), y)))
        w, v = ch(x, dblk(x, i)), i - size(pd(x, dblk(x, i)))
        bb = dblk(x, i)
        lem('positions of the dimensions', [x, i], lambda x, i: I(Z.And(node(x), 0 <= i, i < M(x)), Z.And(0 <= lp(x, i), lp(x, i) <= N(x), node(self.nod(x, lp(x, i))), T.dimof(self.nod(x, lp(x, i))) == dd(x, i), leaf(self.nod(x, lp(x, i))))),
            [dlp(x, i), ddblk(x, i), dstep(x, bb), dpref(x, bb + 1, nch(x), i), estep(x, bb), epref(x, bb + 1, nch(x), lp(x, i) - 1), D(x) == D(x), at(w, lp(w, v) - 1) == at(w, lp(w, v) - 1)],
            lambda P: I(lev(w) > lev(x), P(w, v)), pat=lambda x, i: [lp(x, i)])
        a, e = dblk(x, i), dblk(x, j)
        lem('leaves in the same order in both lists', [x, i, j], lambda x, i, j: I(Z.And(node(x), 0 <= i, i < j, j < M(x)), lp(x, i) < lp(x, j)),
            [dlp(x, i), dlp(x, j), ddblk(x, i), ddblk(x, j), dstep(x, a), dstep(x, e), dpref(x, e + 1, a, i), dpref(x, a + 1, e, i), epref(x, a + 1, e, i), estep(x, a), estep(x, e)],
            lambda P: I(lev(ch(x, a)) > lev(x), P(ch(x, a), i - size(pd(x, a)), j - size(pd(x, a)))), pat=lambda x, i, j: [(lp(x, i), lp(x, j))])
        bt = cn(t)
        q = li(x, y)
        lem('leaves below a node are listed', [x, y], lambda x, y: I(Z.And(node(y), leaf(y), node(x), sub(y, x)), Z.And(0 <= li(x, y), li(x, y) < M(x), lp(x, li(x, y)) == self.posn(x, y), dd(x, li(x, y)) == T.dimof(y))),
            [dli(x, y), dlp(x, q), ddblk(x, q), dstep(x, bt), dstep(x, dblk(x, q)), dpref(x, bt + 1, nch(x), q), dpref(x, dblk(x, q) + 1, bt, i), dpref(x, bt + 1, dblk(x, q), i), dpref(x, z().IntVal(0), bt, i), dpos(x, y), D(x) == D(x)],
            lambda P: I(lev(t) > lev(x), P(t, y)), pat=lambda x, y: [li(x, y)])

    def at_node(self, x, start):
        """what the method needs at one node, in functions of one variable: nd(k) the entry k of the list
        with the node in front, P(y) - 1 the position of y, S(y): y is in it, lp(k) the position of the dimension k,
        w(y) the number of the leaf y.  The lemmas before `start` in the assumptions are dropped."""
        Z, T, c, I = z(), self.T, self.c, z().Implies
        node, p, lev, N, M = T.node, T.p, T.lev, self.N(x), self.M(x)
        nd, P, S, lp, w = fun('nd', 1), fun('P', 1), fun('in_list', 1, Z.BoolSort()), fun('lp', 1), fun('w', 1)
        y, k, l = ivar('y'), ivar('k'), ivar('l')
        word = rel.cat(rel.unit(x), T.DE(x))
        get = self.get
        defs = lambda y, k: [nd(k) == self.nod(x, k), P(y) == 1 + self.posn(x, y), S(y) == Z.Or(y == x, self.below(y, x)), lp(k) == self.lp(x, k), w(y) == self.li(x, y)]
        facts = []

        def fact(label, vs, f, pat, inst=()):
            ax = rel.tab()['ax']
            mark = len(ax)
            for d in inst:
                assume(d)
            c.prove('lemma: ' + label, f)
            del ax[mark:]
            facts.append(Z.ForAll(list(vs), f, patterns=[Z.MultiPattern(*q) if isinstance(q, tuple) else q for q in pat]))
        D = lambda y=y, k=k: defs(y, k)
        leaf = lambda y: T.dimof(y) >= 0
        fact('entries of the list', [k], I(Z.And(0 <= k, k <= N), Z.And(get(word, k) == nd(k), node(nd(k)), S(nd(k)), P(nd(k)) == k + 1)), [nd(k), get(word, k)], D() + D(nd(k), k) + D(self.nod(x, k), k))
        fact('positions in the list', [y], I(S(y), Z.And(node(y), 1 <= P(y), P(y) <= N + 1, nd(P(y) - 1) == y)), [P(y), S(y)], D() + D(y, P(y) - 1))
        fact('the parent is in the list', [y], I(Z.And(S(y), y != x), Z.And(S(p(y)), y != T.r, lev(y) > lev(x))), [(S(y), p(y))], D() + D(p(y)) + [self.dbelow(y, x)])
        fact('the children are in the list', [y, k], I(Z.And(S(y), 0 <= k, k < T.nch(y)), Z.And(S(T.ch(y, k)), T.ch(y, k) != x)), [(S(y), T.ch(y, k))], D() + D(T.ch(y, k)) + [self.dbelow(T.ch(y, k), x)])
        fact('dimensions', [k], I(Z.And(0 <= k, k < M), Z.And(0 <= lp(k), lp(k) <= N, T.dimof(nd(lp(k))) == self.dd(x, k), node(nd(lp(k))), leaf(nd(lp(k))))), [lp(k), self.dd(x, k)], D() + D(y, lp(k)))
        fact('order of the dimensions', [k, l], I(Z.And(0 <= k, k < l, l < M), lp(k) < lp(l)), [(lp(k), lp(l))], D() + D(y, l))
        fact('leaves', [y], I(Z.And(S(y), leaf(y)), Z.And(0 <= w(y), w(y) < M, lp(w(y)) == P(y) - 1, self.dd(x, w(y)) == T.dimof(y))), [w(y), (S(y), T.dimof(y))], D() + D(y, w(y)))
        ax = rel.tab()['ax']
        keep = [f for f in ax[start:] if f in self.keep]
        del ax[start:]
        for f in keep + facts:
            assume(f)
        assume(Z.And(S(x), P(x) == 1, nd(Z.IntVal(0)) == x, N >= 0, M >= 0))
        return nd, P, S, lp, w

    def lemma(self, label, vs, P, instances, ih, pat):
        """P(*vs) from instances of the definitions and of earlier lemmas and from the hypothesis of
        induction (at a node of smaller level, at a child, or at one child less); then for all"""
        Z = z()
        ax = rel.tab()['ax']
        mark = len(ax)
        goal = P(*vs)
        for f in instances:
            assume(f)
            self.say(f)
        if ih is not None:
            assume(ih(P))
        self.c.prove('lemma: ' + label, goal)
        del ax[mark:]
        self.last = P
        if pat is not None:
            assume(Z.ForAll(list(vs), goal, patterns=[Z.MultiPattern(*q) if isinstance(q, tuple) else q for q in pat(*vs)]))

    def say(self, f):
        """the subterms of an instance are ground terms for the solver even if it simplifies f"""
        Z = z()
        if Z.is_eq(f) and f.arg(0).eq(f.arg(1)):
            g = Z.Function('say_%s' % f.arg(0).sort(), f.arg(0).sort(), Z.BoolSort())
            assume(g(f.arg(0)))
