"""Dimension trees for the harnesses and an independent description of the tensor a
tree-based tensor represents."""
import itertools
import string
import numpy as np
import tensap

# nested tuples of dimensions; an int is a leaf
SHAPES = {
    't2': (0, 1),
    't3': (0, 1, 2),
    'l3': (0, (1, 2)),
    'm3': ((0, 1), 2),
    'b4': ((0, 1), (2, 3)),
    'l4': (0, (1, (2, 3))),
    'p4': ((3, 1), (0, 2)),
    'a4': (0, (1, 2, 3)),
    'c4': ((0, 1, 2), 3),
    'x5': ((0, (1, 2)), (3, 4)),
    'y5': ((4, 0), (2, (3, 1))),
    'f4': (0, 1, 2, 3),
    'z6': ((0, 1, 2), (3, (4, 5))),
}


class Shape:
    """nodes numbered 1.. in breadth-first order, then renumbered by `num`"""

    def __init__(self, nested, num=None):
        self.ch, self.dim = {}, {}
        q = [(nested, 1)]
        nxt = 2
        while q:
            x, k = q.pop(0)
            if isinstance(x, int):
                self.dim[k] = x
                self.ch[k] = []
            else:
                self.ch[k] = []
                for y in x:
                    self.ch[k].append(nxt)
                    q.append((y, nxt))
                    nxt += 1
        n = nxt - 1
        if num == 'rev':
            p = {k: n + 1 - k for k in range(1, n + 1)}
        elif num == 'shuf':
            r = np.random.RandomState(3 + n).permutation(n) + 1
            p = {k: int(r[k - 1]) for k in range(1, n + 1)}
        else:
            p = {k: k for k in range(1, n + 1)}
        # children are listed by increasing node number
        self.ch = {p[k]: sorted(p[c] for c in v) for k, v in self.ch.items()}
        self.dim = {p[k]: d for k, d in self.dim.items()}
        self.n, self.root = n, p[1]
        self.order = len(self.dim)
        self.par = {c: k for k, v in self.ch.items() for c in v}

    def dims(self, k):
        if k in self.dim:
            return [self.dim[k]]
        return [d for c in self.ch[k] for d in self.dims(c)]

    def level(self, k):
        return 0 if k == self.root else 1 + self.level(self.par[k])

    def leaves(self):
        return sorted(self.dim)

    def internal(self):
        return sorted(k for k in self.ch if k not in self.dim)

    def node_of_dim(self, d):
        return [k for k, v in self.dim.items() if v == d][0]

    def tree(self):
        A = np.zeros((self.n, self.n), dtype=int)
        for k, v in self.ch.items():
            for c in v:
                A[k - 1, c - 1] = 1
        d2i = np.zeros(self.order, dtype=int)
        for k, d in self.dim.items():
            d2i[d] = k
        return tensap.DimensionTree(d2i, A)


def shape(name, num=None):
    return Shape(SHAPES[name], num)


def active_sets(sh, which):
    """sets of inactive leaves"""
    lv = sh.leaves()
    return {'all': [], 'none': lv, 'first': lv[:1], 'last': lv[-1:], 'alt': lv[::2], 'odd': lv[1::2]}[which]


class Net:
    """A tree-based tensor together with the arrays that define it."""

    def __init__(self, c, name, sh, inactive=(), n=None, r=None, root_rank=1, lo=2, kind=None):
        self.sh, self.inactive, self.root_rank = sh, list(inactive), root_rank
        self.n = n if n is not None else c.dims('n', sh.order)
        if r is None:
            r = {k: c.dim('%s_r%d' % (name, k), lo if c.symbolic else 1, 3) for k in range(1, sh.n + 1) if k != sh.root and k not in self.inactive}
        self.r = r
        self.arr = {}
        for k in range(1, sh.n + 1):
            shp = self.node_shape(k)
            if shp is not None:
                self.arr[k] = c.array('%s%d' % (name, k), shp, kind)
        self.tree = sh.tree()
        self.c = c

    def node_shape(self, k):
        sh = self.sh
        if k in sh.dim:
            return None if k in self.inactive else [self.n[sh.dim[k]], self.r[k]]
        s = [self.n[sh.dim[x]] if x in self.inactive else self.r[x] for x in sh.ch[k]]
        if k != sh.root:
            s.append(self.r[k])
        elif not (isinstance(self.root_rank, int) and self.root_rank == 1):
            s.append(self.root_rank)
        return s

    def tensor(self):
        t = np.empty(self.sh.n, dtype=object)
        for k in range(1, self.sh.n + 1):
            t[k - 1] = tensap.FullTensor(self.arr[k]) if k in self.arr else tensap.FullTensor([])
        return tensap.TreeBasedTensor(t, self.tree)

    def labels(self):
        """einsum labels of every node array"""
        sh = self.sh
        up = {k: string.ascii_uppercase[i] for i, k in enumerate(sorted(self.ch_nodes()))}
        lab = {}
        for k in self.arr:
            if k in sh.dim:
                lab[k] = string.ascii_lowercase[sh.dim[k]] + up[k]
            else:
                s = ''.join(string.ascii_lowercase[sh.dim[x]] if x in self.inactive else up[x] for x in sh.ch[k])
                if k != sh.root:
                    s += up[k]
                elif not (isinstance(self.root_rank, int) and self.root_rank == 1):
                    s += 'z'
                lab[k] = s
        return lab, up

    def ch_nodes(self):
        return [k for k in range(1, self.sh.n + 1) if k != self.sh.root and k not in self.inactive]

    def out(self):
        return string.ascii_lowercase[:self.sh.order] + ('' if isinstance(self.root_rank, int) and self.root_rank == 1 else 'z')

    def full(self, arr=None):
        """the represented tensor, from the definition"""
        lab, _ = self.labels()
        arr = arr or self.arr
        ks = sorted(arr)
        return self.c.einsum(','.join(lab[k] for k in ks) + '->' + self.out(), *[arr[k] for k in ks])


def oracle_of(c, t, sh=None):
    """dense tensor represented by a TreeBasedTensor, read from its public attributes
    (tensors, tree adjacency, dim2ind), independent of TreeBasedTensor.full"""
    A = np.asarray(t.tree.adjacency_matrix)
    n = A.shape[0]
    d2i = [int(x) for x in np.ravel(t.tree.dim2ind)]
    par = {int(j) + 1: int(i) + 1 for i in range(n) for j in np.nonzero(A[i])[0]}
    ch = {i + 1: [int(j) + 1 for j in np.nonzero(A[i])[0]] for i in range(n)}
    root = [k for k in ch if k not in par][0]
    up = {k: string.ascii_uppercase[i] for i, k in enumerate(ch)}
    ops, labs = [], []
    extra = ''
    act = {k: x is not None and not (np.size(x.data) == 0 if isinstance(x.data, np.ndarray) else False) for k, x in zip(ch, list(t.tensors))}
    for k in ch:
        x = t.tensors[k - 1]
        if not act[k]:
            continue
        if k in d2i:
            lab = string.ascii_lowercase[d2i.index(k)]
        else:
            lab = ''.join(up[q] if act[q] else string.ascii_lowercase[d2i.index(q)] for q in ch[k])
        nd = np.ndim(x.data) if isinstance(x.data, np.ndarray) else x.data.ndim
        if k != root:
            lab += up[k]
        elif nd == len(lab) + 1:
            lab += 'z'
            extra = 'z'
        ops.append(x.data)
        labs.append(lab)
    return c.einsum(','.join(labs) + '->' + string.ascii_lowercase[:len(d2i)] + extra, *ops)
