"""Symbolic arrays: real numpy-style arrays whose sizes are polynomials in size
symbols and whose entries are formal sums of products of atom entries.

An axis is a product (first factor fastest) of factors; a factor is a direct sum
of pieces.  The contents are blocks (one per choice of pieces); a block holds its
index variables and an expression.  Expressions are in einsum form: a list of
(coefficient polynomial, set of bound indices, list of factors name[idx...])."""
import itertools
from fractions import Fraction
import numpy as _np
from .dim import Dim, Unsupported, path, size_min, decide_dim, assume_dim

ONE = Dim({(): Fraction(1)})
ZERO = Dim({})


class Ix:
    __slots__ = ('dim', 'n')
    _c = itertools.count()

    def __init__(self, dim):
        self.dim = Dim.of(dim)
        self.n = next(Ix._c)

    def __repr__(self):
        return 'i%d' % self.n


class Atom:
    """kind: 'in' (free symbol), 'Q'/'R' (QR factors), 'U'/'S'/'V' (SVD),
    'fn' (opaque scalar function applied entrywise)"""

    def __init__(self, name, kind, dims, info=None):
        self.name, self.kind, self.dims, self.info = name, kind, dims, info


def atom(name, kind, dims, info=None):
    t = path().tables
    if name not in t:
        t[name] = Atom(name, kind, dims, info)
    return t[name]


# ---------------------------------------------------------------- expressions
# term = (coef: Dim, bound: tuple[Ix], factors: tuple[(name, idx...)])

def subst_term(t, m):
    c, b, f = t
    return (c, tuple(m.get(x, x) for x in b), tuple((g[0],) + tuple(m.get(x, x) if isinstance(x, Ix) else x for x in g[1:]) for g in f))


def rename_bound(t):
    m = {x: Ix(x.dim) for x in t[1]}
    return subst_term(t, m) if m else t


def subst_expr(e, m):
    return [subst_term(rename_bound(t), m) for t in e]


def mul_expr(e1, e2):
    out = []
    for a in e1:
        for b in e2:
            b2 = rename_bound(b)
            a2 = rename_bound(a)
            out.append((a2[0]._mul(b2[0]), a2[1] + b2[1], a2[2] + b2[2]))
    if len(out) > 20000:
        raise Unsupported('expression too large')
    return out


def scale_expr(e, c):
    c = Dim.of(c)
    return [(t[0]._mul(c), t[1], t[2]) for t in e]


def bind(e, ixs):
    """sum over the variables ixs"""
    out = []
    for c, b, f in e:
        out.append(rename_bound((c, b + tuple(ixs), f)))
    return out


def norm_term(t):
    """-> list of terms in (not yet canonical) normal form"""
    c, b, f = t
    b = list(b)
    f = list(f)
    changed = True
    while changed:
        changed = False
        c = c.norm()
        if not c.t:
            return []
        # indices of dimension one
        for x in {x for g in f for x in g[1:] if isinstance(x, Ix)} | set(b):
            if x.dim.const() == 1:
                f = [(g[0],) + tuple(0 if y is x else y for y in g[1:]) for g in f]
                if x in b:
                    b.remove(x)
        # deltas
        for k, g in enumerate(f):
            if g[0] == 'δ':
                x, y = g[1], g[2]
                if x is y or (isinstance(x, int) and isinstance(y, int)):
                    del f[k]
                    if x is not y and x != y:
                        return []
                    changed = True
                    break
                if isinstance(x, Ix) and x in b:
                    z, w = x, y
                elif isinstance(y, Ix) and y in b:
                    z, w = y, x
                else:
                    continue
                del f[k]
                b.remove(z)
                f = [(h[0],) + tuple(w if v is z else v for v in h[1:]) for h in f]
                changed = True
                break
        if changed:
            continue
        used = {x for g in f for x in g[1:] if isinstance(x, Ix)}
        for x in list(b):
            if x not in used:
                b.remove(x)
                c = c._mul(x.dim)
                changed = True
        if changed:
            continue
        if any(g[0] == 'δ' for g in f):
            f = link_deltas(f, lambda x: x.n)
            if f is None:
                return []
        r = rewrite(c, b, f)
        if r is not None:
            out = []
            for s in r:
                out.extend(norm_term(s))
            return out
    return [(c, tuple(b), tuple(f))]


def link_deltas(f, rank):
    """indices linked by deltas: one representative per class (the smallest rank, or a
    constant) in every other factor, and one delta per other member of the class"""
    par = {}

    def find(x):
        while x in par:
            x = par[x]
        return x
    members = []
    for g in f:
        if g[0] == 'δ':
            for x in g[1:]:
                if isinstance(x, Ix) and x not in members:
                    members.append(x)
            x, y = find(g[1]), find(g[2])
            if x is y or (isinstance(x, int) and isinstance(y, int) and x == y):
                continue
            if isinstance(x, int) and isinstance(y, int):
                return None
            if isinstance(y, int) or (isinstance(x, Ix) and rank(y) < rank(x)):
                x, y = y, x
            par[y] = x
    out = [(g[0],) + tuple(find(x) if isinstance(x, Ix) else x for x in g[1:]) for g in f if g[0] != 'δ']
    for x in members:
        r = find(x)
        if r is not x:
            out.append(('δ', r, x))
    return out


def rewrite(c, b, f):
    tab = path().tables
    occ = {}
    for k, g in enumerate(f):
        for x in g[1:]:
            if isinstance(x, Ix):
                occ.setdefault(x, []).append(k)
    # scalar inverse pairs: inv(e) * e handled through 'fn' atoms
    names = {}
    for k, g in enumerate(f):
        names.setdefault(g[0], []).append(k)
    for k, g in enumerate(f):
        a = tab.get(g[0])
        if a is None:
            continue
        if a.kind == 'sqrt':
            # sqrt(e)^2 = e  (same arguments)
            for k2 in names[g[0]]:
                if k2 > k and f[k2] == g:
                    e, fv = a.info
                    rest = [h for i, h in enumerate(f) if i not in (k, k2)]
                    return [(c._mul(t[0]), tuple(b) + t[1], tuple(rest) + t[2]) for t in subst_expr(e, dict(zip(fv, g[1:])))]
        if a.kind == 'inv':
            # inv(e) * e = 1 when e is a single monomial of factors present in the term
            e, fv = a.info
            e = subst_expr(e, dict(zip(fv, g[1:])))
            if len(e) == 1 and not e[0][1] and not e[0][2]:
                q = c.norm()._div(e[0][0])      # coefficient divisible by a size polynomial
                if q is not None:
                    return [(q, tuple(b), tuple(h for i, h in enumerate(f) if i != k))]
            if len(e) == 1 and not e[0][1]:
                need = list(e[0][2])
                rest = [h for i, h in enumerate(f) if i != k]
                ok = True
                for h in need:
                    if h in rest:
                        rest.remove(h)
                    else:
                        ok = False
                        break
                if ok:
                    cc = e[0][0].const()
                    if cc:
                        return [(c._mul(Dim.of(Fraction(1) / Fraction(cc))), tuple(b), tuple(rest))]
        if a.kind == 'Q':
            nr = a.info['nr']          # number of row indices; then one index k
            rows, kk = g[1:1 + nr], g[1 + nr]
            base = a.info['base']
            # rule 1: sum_k Q[r,k] R[k,c] = A[r,c]
            if isinstance(kk, Ix) and kk in b and len(occ[kk]) == 2:
                k2 = [i for i in occ[kk] if i != k]
                if k2:
                    h = f[k2[0]]
                    ah = tab.get(h[0])
                    if ah is not None and ah.kind == 'R' and ah.info['base'] == base and h[1] is kk:
                        rv, cv, e = a.info['def']
                        m = dict(zip(list(rv) + list(cv), list(rows) + list(h[2:])))
                        rest = [x for i, x in enumerate(f) if i not in (k, k2[0])]
                        bb = [x for x in b if x is not kk]
                        return [(c._mul(t[0]), tuple(bb) + t[1], tuple(rest) + t[2]) for t in subst_expr(e, m)]
            if kk == 0 and isinstance(kk, int) and a.info.get('one'):
                k2 = [i for i, h in enumerate(f) if h[0] == 'R' + base and h[1] == 0]
                if k2:
                    h = f[k2[0]]
                    rv, cv, e = a.info['def']
                    m = dict(zip(list(rv) + list(cv), list(rows) + list(h[2:])))
                    rest = [x for i, x in enumerate(f) if i not in (k, k2[0])]
                    return [(c._mul(t[0]), tuple(b) + t[1], tuple(rest) + t[2]) for t in subst_expr(e, m)]
            # rule 2: sum_r Q[r,k] Q[r,l] = delta(k,l)
            if a.info.get('one') and all(x == 0 for x in rows if isinstance(x, int)) and all(isinstance(x, Ix) and x in b and len(occ[x]) == 2 for x in rows if isinstance(x, Ix)) and all(v.dim.const() == 1 for v, x in zip(a.info['def'][0], rows) if isinstance(x, int)):
                for k2 in names[g[0]]:
                    if k2 != k and f[k2] == g:
                        rest = [x for i, x in enumerate(f) if i not in (k, k2)]
                        return [(c, tuple(x for x in b if x not in rows), tuple(rest))]
            if rows and all(isinstance(x, Ix) and x in b and len(occ[x]) == 2 for x in rows):
                for k2 in names[g[0]]:
                    if k2 != k and f[k2][1:1 + nr] == rows:
                        rest = [x for i, x in enumerate(f) if i not in (k, k2)]
                        bb = [x for x in b if x not in rows]
                        return [(c, tuple(bb), tuple(rest) + (('δ', kk, f[k2][1 + nr]),))]
        if a.kind == 'sel' and a.info['cols']:
            # a row of a selector has exactly one entry equal to one
            i = g[-1]
            if isinstance(i, Ix) and i in b and len(occ[i]) == 1:
                return [(c, tuple(x for x in b if x is not i), tuple(h for q, h in enumerate(f) if q != k))]
            for k2 in names[g[0]]:
                if k2 > k and f[k2][1:-1] == g[1:-1]:
                    return [(c, tuple(b), tuple(h for q, h in enumerate(f) if q != k2) + (('δ', i, f[k2][-1]),))]
        if a.kind == 'R':
            # rule 3: sum_k R[k,c] R[k,d] = sum_r A[r,c] A[r,d]
            kk = g[1]
            if isinstance(kk, Ix) and kk in b and len(occ[kk]) == 2:
                k2 = [i for i in occ[kk] if i != k]
                if k2 and f[k2[0]][0] == g[0] and f[k2[0]][1] is kk:
                    h = f[k2[0]]
                    rv, cv, e = a.info['def']
                    r2 = {x: Ix(x.dim) for x in rv}
                    m1 = dict(r2)
                    m1.update(zip(cv, g[2:]))
                    m2 = dict(r2)
                    m2.update(zip(cv, h[2:]))
                    rest = [x for i, x in enumerate(f) if i not in (k, k2[0])]
                    bb = [x for x in b if x is not kk]
                    pr = mul_expr(subst_expr(e, m1), subst_expr(e, m2))
                    return [(c._mul(t[0]), tuple(bb) + tuple(r2.values()) + t[1], tuple(rest) + t[2]) for t in pr]
        if a.kind == 'U':
            nr = a.info['nr']
            rows, kk = g[1:1 + nr], g[1 + nr]
            base = a.info['base']
            if isinstance(kk, Ix) and kk in b and len(occ[kk]) == 3:
                ks = occ[kk]
                hs = [tab[f[i][0]] if f[i][0] in tab else None for i in ks]
                kinds = {h.kind: i for h, i in zip(hs, ks) if h is not None and h.info and isinstance(h.info, dict) and h.info.get('base') == base}
                if set(kinds) == {'U', 'S', 'V'}:
                    hv = f[kinds['V']]
                    rv, cv, e = a.info['def']
                    m = dict(zip(list(rv) + list(cv), list(rows) + list(hv[2:])))
                    rest = [x for i, x in enumerate(f) if i not in ks]
                    bb = [x for x in b if x is not kk]
                    return [(c._mul(t[0]), tuple(bb) + t[1], tuple(rest) + t[2]) for t in subst_expr(e, m)]
            if rows and all(isinstance(x, Ix) and x in b and len(occ[x]) == 2 for x in rows):
                for k2 in names[g[0]]:
                    if k2 != k and f[k2][1:1 + nr] == rows:
                        rest = [x for i, x in enumerate(f) if i not in (k, k2)]
                        bb = [x for x in b if x not in rows]
                        return [(c, tuple(bb), tuple(rest) + (('δ', kk, f[k2][1 + nr]),))]
        if a.kind == 'minv':
            # sum_z L[y,z] inv(L)[z,c] = delta(y,c) and sum_c inv(L)[z,c] L[c,w] = delta(z,w)
            rv, cv, e = a.info['def']
            if len(e) == 1 and not e[0][1] and e[0][0].const() == 1:
                zz, cc = g[1:1 + len(cv)], g[1 + len(cv):]
                for mine, fix, free in ((zz, cv, rv), (cc, rv, cv)):
                    other = cc if mine is zz else zz
                    if not all(isinstance(z, Ix) and z in b for z in mine):
                        continue
                    for m in match_factors(e[0][2], dict(zip(fix, mine)), free, f, k):
                        ids, mm = m
                        if any(set(occ[z]) != set([q for q in ids if z in f[q]] + [k]) for z in mine):
                            continue
                        rest = [x for i, x in enumerate(f) if i != k and i not in ids]
                        return [(c, tuple(x for x in b if x not in mine), tuple(rest) + tuple(('δ', mm[x], y) for x, y in zip(free, other)))]
        if a.kind == 'TS':
            # truncation: s[k] V[c,k] = sum_r M[r,c] W[r,k]
            for k2, h in enumerate(f):
                if h[0] == 'TV' + a.info['base'] and h[1] == g[1]:
                    rv, cv, e = a.info['def']
                    r2 = {x: Ix(x.dim) for x in rv}
                    m = dict(r2)
                    m.update(zip(cv, h[2:]))
                    w = [(ONE, (), (('TW' + a.info['base'],) + tuple(r2[x] for x in rv) + (g[1],),))]
                    rest = [x for i, x in enumerate(f) if i not in (k, k2)]
                    pr = mul_expr(subst_expr(e, m), w)
                    return [(c._mul(t[0]), tuple(b) + tuple(r2.values()) + t[1], tuple(rest) + t[2]) for t in pr]
        if a.kind in ('V', 'TV'):
            cols = g[2:]
            if cols and all(isinstance(x, Ix) and x in b and len(occ[x]) == 2 for x in cols):
                for k2 in names[g[0]]:
                    if k2 != k and f[k2][2:] == cols:
                        rest = [x for i, x in enumerate(f) if i not in (k, k2)]
                        bb = [x for x in b if x not in cols]
                        return [(c, tuple(bb), tuple(rest) + (('δ', g[1], f[k2][1]),))]
    return None


def match_factors(pat, m, free, f, skip):
    """ways to find the factors pat among f, the variables `free` still to be bound"""
    def go(i, m, ids):
        if i == len(pat):
            if all(x in m for x in free):
                yield ids, m
            return
        p = pat[i]
        for q, h in enumerate(f):
            if q == skip or q in ids or h[0] != p[0] or len(h) != len(p):
                continue
            m2 = dict(m)
            ok = True
            for x, y in zip(p[1:], h[1:]):
                if isinstance(x, Ix):
                    if x in m2:
                        ok = m2[x] is y or (isinstance(y, int) and m2[x] == y)
                    else:
                        m2[x] = y
                else:
                    ok = x == y
                if not ok:
                    break
            if ok:
                yield from go(i + 1, m2, ids + [q])
    yield from go(0, dict(m), [])


def canon_term(t, free):
    """canonical hashable key of a normal-form term; free: Ix -> label"""
    c, b, f = t
    fs = list(f)
    bset = set(b)
    if any(g[0] == 'δ' for g in fs):
        fs = link_deltas(fs, lambda x: (x in bset, free.get(x, 'free%012d' % x.n)))
    lab = {}
    for x in {x for g in fs for x in g[1:] if isinstance(x, Ix)}:
        if x in bset:
            lab[x] = (1, repr(x.dim.norm()))
        else:
            lab[x] = (0, free.get(x, 'free%d' % x.n))

    def key_with(L):
        out = []
        for g in fs:
            a = [L[x] if isinstance(x, Ix) else ('c', x) for x in g[1:]]
            if g[0] == 'δ':
                a.sort(key=repr)
            out.append((g[0],) + tuple(a))
        out.sort(key=repr)
        return tuple(out)

    if not bset:
        return key_with(lab)

    def compress(L):
        vals = sorted(set(map(repr, L.values())))
        r = {v: i for i, v in enumerate(vals)}
        return {x: r[repr(v)] for x, v in L.items()}

    L0 = compress(lab)

    def refine(L):
        n = len(set(L.values()))
        while True:
            sig = {x: [] for x in L}
            for g in fs:
                a = [L[x] if isinstance(x, Ix) else ('c', x) for x in g[1:]]
                a2 = sorted(a, key=repr) if g[0] == 'δ' else a
                for pos, x in enumerate(g[1:]):
                    if isinstance(x, Ix):
                        sig[x].append((g[0], pos if g[0] != 'δ' else -1, tuple(a2)))
            L = compress({x: (L[x], tuple(sorted(map(repr, sig[x])))) for x in L})
            # keep the order compatible: zero-pad for repr ordering
            m = len(set(L.values()))
            if m == n:
                return L
            n = m

    best = [None]
    count = [0]

    def rec(L):
        L = refine(L)
        count[0] += 1
        if count[0] > 3000:
            raise Unsupported('canonicalisation too large')
        classes = {}
        for x in L:
            if x in bset:
                classes.setdefault(L[x], []).append(x)
        amb = sorted((k, v) for k, v in ((k, v) for k, v in classes.items() if len(v) > 1)) if False else [(k, v) for k, v in sorted(classes.items(), key=lambda kv: kv[0]) if len(v) > 1]
        if not amb:
            order = sorted((x for x in L if x in bset), key=lambda x: L[x])
            full = {x: ('b', i, repr(x.dim.norm())) for i, x in enumerate(order)}
            for x in L:
                if x not in bset:
                    full[x] = lab[x]
            k = key_with(full)
            if best[0] is None or repr(k) < repr(best[0]):
                best[0] = k
            return
        _, xs = amb[0]
        for x in xs:
            L2 = {y: (v, 1) for y, v in L.items()}
            L2[x] = (L[x], 0)
            rec(compress({y: v for y, v in L2.items()}))
    rec(L0)
    return best[0]


def canon_expr(e, free):
    """{key: coefficient Dim}"""
    out = {}
    for t in e:
        for s in norm_term(t):
            k = canon_term(s, free)
            v = out.get(k)
            v = s[0] if v is None else v._add(s[0])
            v = v.norm()
            if v.t:
                out[k] = v
            else:
                out.pop(k, None)
    return out


def simplify(e, fv):
    """merge equal terms; keeps an actual term representative"""
    if len(e) <= 1 and not any(g[0] == 'δ' for t in e for g in t[2]) and not any(t[1] for t in e):
        return [t for t in e if t[0].norm().t]
    free = {x: 'v%d' % i for i, x in enumerate(fv)}
    rep = {}
    for t in e:
        for s in norm_term(t):
            k = canon_term(s, free)
            if k in rep:
                c = rep[k][0]._add(s[0]).norm()
                if c.t:
                    rep[k] = (c,) + rep[k][1:]
                else:
                    del rep[k]
            else:
                rep[k] = s
    return list(rep.values())


def freeze(d):
    return tuple(sorted(((k, v.key()) for k, v in d.items()), key=repr))


def slice_atom(g, apos, off, y):
    """the factor g with the index at position apos replaced by off + y, y < y.dim"""
    tab = path().tables
    base, sl = tab.get(('slice', g[0]), (g[0], {}))
    if apos in sl:
        off = sl[apos]._add(off).norm()
    sl = dict(sl)
    idx = list(g[1:])
    idx[apos] = y
    if y.dim.const() == 1 and off.const() is not None:
        sl.pop(apos, None)
        idx[apos] = int(off.const())
    else:
        sl[apos] = off
    if not sl:
        return (base,) + tuple(idx)
    nm = base + ''.join('⟨%d:%r⟩' % (a, sl[a]) for a in sorted(sl))
    # the length of a range is the dimension of its index variable; offset 0 with a range
    # is kept in the name so that it never meets an index running over the whole axis
    nm += ''.join('[%d:%r]' % (a, i.dim.norm()) for a, i in enumerate(idx) if a in sl and isinstance(i, Ix))
    if nm not in tab:
        atom(nm, 'in', None)
        tab[('slice', nm)] = (base, sl)
    return (nm,) + tuple(idx)


# ---------------------------------------------------------------- arrays

def _isint(x):
    return isinstance(x, (int, _np.integer)) and not isinstance(x, (bool, _np.bool_))


def fac_size(fac):
    s = ZERO
    for d in fac:
        s = s._add(d)
    return s.norm()


def is_one(fac):
    return len(fac) == 1 and fac[0].const() == 1


class SymArray:
    __array_priority__ = 2000
    __hash__ = None

    def __init__(self, axes, blocks):
        self.axes = tuple(tuple(a) for a in axes)
        self.blocks = blocks      # dict block key -> (vars, expr)

    # -- construction
    @staticmethod
    def input(name, shape):
        axes, vs = [], []
        for d in shape:
            d = Dim.of(d)
            if d.const() == 1:
                axes.append(())
            else:
                axes.append(((d,),))
                vs.append(Ix(d))
        dims = tuple(v.dim for v in vs)
        atom(name, 'in', dims)
        return SymArray(axes, {(0,) * len(vs): (tuple(vs), [(ONE, (), ((name,) + tuple(vs),))])})

    @staticmethod
    def full(shape, value):
        axes, vs = [], []
        for d in shape:
            d = Dim.of(d)
            if d.const() == 1:
                axes.append(())
            else:
                axes.append(((d,),))
                vs.append(Ix(d))
        v = Dim.of(value)
        return SymArray(axes, {(0,) * len(vs): (tuple(vs), [(v, (), ())])} if v.t else {})

    @staticmethod
    def eye(n):
        n = Dim.of(n)
        if n.const() == 1:
            return SymArray.full((1, 1), 1)
        i, j = Ix(n), Ix(n)
        return SymArray((((n,),), ((n,),)), {(0, 0): ((i, j), [(ONE, (), (('δ', i, j),))])})

    @staticmethod
    def diag_tensor(v, order):
        """entries v[i] at (i, ..., i), zero elsewhere"""
        v = SymArray.lift(v)
        if order == 1:
            return v.copy()
        e = [diag(SymArray.full(v.shape, 1)) for _ in range(order - 1)]
        return contract([v] + e, [[0]] + [[0, i] for i in range(1, order)], list(range(order)))

    @staticmethod
    def const(a):
        """a concrete ndarray of numbers"""
        a = _np.asarray(a)
        if a.dtype == object:
            if a.ndim == 0:
                x = a.item()
                if isinstance(x, SymArray):
                    return x
                return SymArray((), {(): ((), [(Dim.of(x), (), ())])})
            raise Unsupported('object array as data')
        if a.dtype.kind not in 'ifub':
            raise Unsupported('constant array of dtype %s' % a.dtype)
        if a.size and a.ndim and _np.all(a == a.flat[0]):
            return SymArray.full(a.shape, Fraction(a.flat[0].item()) if a.dtype.kind == 'f' else int(a.flat[0]))
        if a.ndim == 2 and a.shape[0] == a.shape[1] and _np.array_equal(a, _np.eye(a.shape[0])):
            return SymArray.eye(a.shape[0])
        if a.size > 64:
            raise Unsupported('large constant array')
        axes = []
        for n in a.shape:
            axes.append(() if n == 1 else ((ONE,) * n,))
        blocks = {}
        for idx in _np.ndindex(*a.shape):
            v = a[idx].item()
            if v:
                key = tuple(i for i, n in zip(idx, a.shape) if n != 1)
                vs = tuple(Ix(1) for _ in key)
                blocks[key] = (vs, [(Dim.of(Fraction(v) if isinstance(v, float) else int(v)), (), ())])
        return SymArray(axes, blocks)

    @staticmethod
    def lift(x):
        if isinstance(x, SymArray):
            return x
        if isinstance(x, (Dim, Fraction)) or _isint(x) or isinstance(x, (float, bool, _np.bool_)):
            x = x if isinstance(x, (Dim, Fraction)) else (x.item() if hasattr(x, 'item') else x)
            if isinstance(x, float) and not _np.isfinite(x):
                raise Unsupported('non finite constant')
            return SymArray((), {(): ((), [(Dim.of(x) if not isinstance(x, bool) else Dim.of(int(x)), (), ())])})
        if isinstance(x, (list, tuple)):
            from .npx import np_array
            r = np_array(x)
            return r if isinstance(r, SymArray) else SymArray.const(r)
        if isinstance(x, _np.ndarray):
            return SymArray.const(x)
        raise Unsupported('cannot lift %r' % type(x))

    # -- basics
    @property
    def shape(self):
        out = []
        for a in self.axes:
            s = ONE
            for f in a:
                s = s._mul(fac_size(f))
            out.append(Dim.wrap(s))
        return tuple(out)

    @property
    def ndim(self):
        return len(self.axes)

    @property
    def size(self):
        s = ONE
        for d in self.shape:
            s = s._mul(Dim.of(d))
        return Dim.wrap(s)

    @property
    def data(self):
        return self

    @property
    def dtype(self):
        return _np.dtype(float)

    @property
    def T(self):
        return self.transpose()

    @property
    def flat_facs(self):
        return [f for a in self.axes for f in a]

    def copy(self, order=None):
        return SymArray(self.axes, dict(self.blocks))

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def numpy(self):
        return self.copy()

    def astype(self, *a, **k):
        return self.copy()

    def tolist(self):
        if self.ndim == 0:
            return self.copy()
        return [self[i].tolist() for i in range(Dim.of(self.shape[0]).__index__())]

    def __len__(self):
        if self.ndim == 0:
            raise TypeError('len() of unsized object')
        return Dim.of(self.shape[0]).__index__()

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def item(self, *a):
        if self.size == 1:
            return self.reshape(())
        raise ValueError('can only convert an array of size 1 to a Python scalar')

    def canon(self):
        """canonical hashable value"""
        self2 = self._drop_ones()
        out = []
        for k, (vs, e) in self2.blocks.items():
            c = canon_expr(e, {v: 'v%03d' % i for i, v in enumerate(vs)})
            if c:
                out.append((k, freeze(c)))
        out.sort(key=repr)
        return (tuple(tuple(tuple(d.key() for d in f) for f in a) for a in self2.axes), tuple(out))

    def _drop_ones(self):
        if not any(is_one(f) for f in self.flat_facs):
            return self
        keep = []
        axes = []
        p = 0
        for a in self.axes:
            na = []
            for f in a:
                if not is_one(f):
                    na.append(f)
                    keep.append(p)
                p += 1
            axes.append(tuple(na))
        blocks = {}
        for k, (vs, e) in self.blocks.items():
            m = {vs[i]: 0 for i in range(len(vs)) if i not in keep}
            blocks[tuple(k[i] for i in keep)] = (tuple(vs[i] for i in keep), subst_expr(e, m))
        return SymArray(axes, blocks)

    # -- refinement of factor structure
    def split_pieces(self, pos, pieces):
        """refine factor number pos (flattened) to the given pieces"""
        facs = self.flat_facs
        old = facs[pos]
        if tuple(d.key() for d in old) == tuple(d.key() for d in pieces):
            return self
        # map: each old piece -> consecutive new pieces
        groups = _group_pieces(old, pieces)
        if groups is None:
            raise Unsupported('incompatible block structure %r / %r' % (old, pieces))
        partner = set()
        for k, (vs, e) in self.blocks.items():
            v = vs[pos]
            if len(groups[k[pos]]) == 1:
                continue
            for t in e:
                for g in t[2]:
                    if v in g[1:]:
                        if g[0] == 'δ':
                            w = g[2] if g[1] is v else g[1]
                            if w in vs:
                                partner.add(vs.index(w))
        poss = [pos] + [q for q in partner if tuple(d.key() for d in facs[q]) == tuple(d.key() for d in old)]
        start = []
        s = 0
        for g in groups:
            start.append(s)
            s += len(g)
        blocks = {}
        for k, (vs, e) in self.blocks.items():
            opts = []
            for q in range(len(vs)):
                if q in poss:
                    opts.append([(start[k[q]] + j, groups[k[q]][j], j) for j in range(len(groups[k[q]]))])
                else:
                    opts.append([(k[q], None, 0)])
            for ch in itertools.product(*opts):
                m, nv = {}, []
                zero = False
                for q, (np_, d, j) in enumerate(ch):
                    if d is None or len(groups[k[q]]) == 1:
                        nv.append(vs[q])
                    else:
                        x = Ix(d)
                        nv.append(x)
                        m[vs[q]] = (x, j, k[q], q)
                ne = []
                for t in e:
                    nf = []
                    ok = True
                    for g in t[2]:
                        if not any(isinstance(x, Ix) and x in m for x in g[1:]):
                            nf.append(g)
                            continue
                        if g[0] == 'δ':
                            a_, b_ = g[1], g[2]
                            ia, ib = m.get(a_) if isinstance(a_, Ix) else None, m.get(b_) if isinstance(b_, Ix) else None
                            if ia and ib:
                                if ia[1] != ib[1]:
                                    ok = False
                                    break
                                nf.append(('δ', ia[0], ib[0]))
                                continue
                            if ia is None and isinstance(a_, int):
                                ia, ib, a_, b_ = ib, ia, b_, a_
                            if ia and isinstance(b_, int):
                                off = sum((x.const() if x.const() is not None else _uns() for x in groups[ia[2]][:ia[1]]), 0)
                                ln = groups[ia[2]][ia[1]].const()
                                if ln is None:
                                    _uns()
                                if off <= b_ < off + ln:
                                    nf.append(('δ', ia[0], b_ - off))
                                    continue
                                ok = False
                                break
                            raise Unsupported('splitting a delta')
                        # atom: sub-atom on a range of the axis
                        ng = g
                        for apos, x in enumerate(g[1:]):
                            if isinstance(x, Ix) and x in m:
                                y, j, ok_, q = m[x]
                                off = ZERO
                                for d in groups[ok_][:j]:
                                    off = off._add(d)
                                ng = slice_atom(ng, apos, off.norm(), y)
                        nf.append(tuple(ng))
                    if ok:
                        ne.append((t[0], t[1], tuple(nf)))
                if ne:
                    blocks[tuple(c[0] for c in ch)] = (tuple(nv), ne)
        axes = []
        p = 0
        for a in self.axes:
            na = []
            for f in a:
                na.append(tuple(pieces) if p in poss else f)
                p += 1
            axes.append(tuple(na))
        return SymArray(axes, blocks)

    def split_factor(self, pos, parts):
        """replace a single-piece factor of size prod(parts) by several factors; only
        when no entry depends on it (or through deltas with a partner of equal size)"""
        facs = self.flat_facs
        old = facs[pos]
        if len(old) != 1:
            if len(parts) == 2 and all(d._add(Dim.of(parts[0]), -1).norm().const() == 0 for d in old) and Dim.of(parts[1]).const() == len(old):
                axes, p = [], 0
                for a in self.axes:
                    na = []
                    for f in a:
                        if p == pos:
                            na.extend([(Dim.of(parts[0]),), (ONE,) * len(old)])
                        else:
                            na.append(f)
                        p += 1
                    axes.append(tuple(na))
                return SymArray(axes, {k[:pos] + (0, k[pos]) + k[pos + 1:]: (vs[:pos + 1] + (Ix(1),) + vs[pos + 1:], e) for k, (vs, e) in self.blocks.items()})
            raise Unsupported('splitting a block factor')
        partner = set()
        for k, (vs, e) in self.blocks.items():
            for t in e:
                for g in t[2]:
                    if vs[pos] in g[1:]:
                        if g[0] != 'δ':
                            raise Unsupported('splitting an opaque axis')
                        w = g[2] if g[1] is vs[pos] else g[1]
                        if w not in vs:
                            raise Unsupported('splitting an opaque axis')
                        partner.add(vs.index(w))
        poss = sorted({pos} | partner)
        axes = []
        p = 0
        for a in self.axes:
            na = []
            for f in a:
                if p in poss:
                    na.extend((Dim.of(d),) for d in parts)
                else:
                    na.append(f)
                p += 1
            axes.append(tuple(na))
        blocks = {}
        for k, (vs, e) in self.blocks.items():
            nk, nv, m = [], [], {}
            for q, v in enumerate(vs):
                if q in poss:
                    xs = [Ix(d) for d in parts]
                    m[v] = xs
                    nv.extend(xs)
                    nk.extend([0] * len(parts))
                else:
                    nv.append(v)
                    nk.append(k[q])
            ne = []
            for t in e:
                nf = []
                for g in t[2]:
                    if g[0] == 'δ' and g[1] in m and g[2] in m:
                        nf.extend(('δ', x, y) for x, y in zip(m[g[1]], m[g[2]]))
                    else:
                        nf.append(g)
                ne.append((t[0], t[1], tuple(nf)))
            blocks[tuple(nk)] = (tuple(nv), ne)
        return SymArray(axes, blocks)

    # -- reshape / transpose
    def reshape(self, *shape, order='C'):
        if len(shape) == 1 and not (_isint(shape[0]) or isinstance(shape[0], Dim)):
            shape = shape[0]
        shape = [_shape_item(x) for x in (shape.tolist() if isinstance(shape, _np.ndarray) else list(shape))]
        if any(isinstance(x, int) and x == -1 for x in shape):
            k = [i for i, x in enumerate(shape) if isinstance(x, int) and x == -1]
            if len(k) > 1:
                raise ValueError('can only specify one unknown dimension')
            rest = ONE
            for i, x in enumerate(shape):
                if i != k[0]:
                    rest = rest._mul(Dim.of(x))
            tot = Dim.of(self.size)
            q = tot.norm().idiv(rest)
            if q is None:
                raise Unsupported('reshape(-1) with an inexact division')
            shape[k[0]] = Dim.wrap(q)
        tot = ONE
        for x in shape:
            tot = tot._mul(Dim.of(x))
        if not decide_dim(tot._add(Dim.of(self.size), -1), 'eq'):
            raise ValueError('cannot reshape array of size %r into shape %r' % (self.size, shape))
        order = order or 'C'
        arr = self._drop_ones()
        if order == 'F':
            return arr._reshape_f(shape)
        if order != 'C':
            raise Unsupported('reshape order %r' % order)
        r = arr._rev()._reshape_f(shape[::-1])
        return r._rev()

    def _rev(self):
        """reverse the order of the axes (not of the factors inside them)"""
        return self.transpose(*range(self.ndim - 1, -1, -1))

    def _reshape_f(self, shape):
        arr = self
        for _ in range(50):
            facs = arr.flat_facs
            groups = []
            p = 0
            again = False
            for target in shape:
                t = Dim.of(target).norm()
                g = []
                acc = ONE
                while not (acc._add(t, -1)).norm().const() == 0:
                    if p >= len(facs):
                        raise Unsupported('reshape: sizes do not factor')
                    s = fac_size(facs[p])
                    nxt = acc._mul(s)
                    if t.idiv(nxt.norm()) is None and (t._add(nxt, -1)).norm().const() != 0:
                        # factor p must be split: remaining part of the target
                        need = t.idiv(acc.norm())
                        rest = None if need is None else s.idiv(need.norm())
                        if rest is None:
                            # try matching the next factor structure with a gcd-like split
                            raise Unsupported('reshape: sizes do not factor (%r into %r)' % (s, t))
                        arr = arr.split_factor(p, [need, rest])
                        again = True
                        break
                    g.append(p)
                    acc = nxt.norm()
                    p += 1
                if again:
                    break
                groups.append(g)
            if again:
                continue
            if p < len(facs):
                # trailing factors of size one only
                raise Unsupported('reshape: leftover factors')
            axes = [tuple(facs[q] for q in g) for g in groups]
            return SymArray(axes, arr.blocks)
        raise Unsupported('reshape')

    def transpose(self, *perm):
        if len(perm) == 1 and (perm[0] is None or not (_isint(perm[0]))):
            perm = perm[0]
        if perm is None or (not _isint(perm) and len(perm) == 0):
            perm = range(self.ndim - 1, -1, -1)
        perm = [int(p) for p in perm]
        perm = [p + self.ndim if p < 0 else p for p in perm]
        if sorted(perm) != list(range(self.ndim)):
            raise ValueError("axes don't match array")
        starts = []
        p = 0
        for a in self.axes:
            starts.append(list(range(p, p + len(a))))
            p += len(a)
        order = [q for x in perm for q in starts[x]]
        blocks = {}
        for k, (vs, e) in self.blocks.items():
            blocks[tuple(k[q] for q in order)] = (tuple(vs[q] for q in order), e)
        return SymArray([self.axes[x] for x in perm], blocks)

    def ravel(self, order='C'):
        return self.reshape(-1, order=order)

    flatten = ravel

    def squeeze(self, axis=None):
        if axis is None:
            axis = [i for i, s in enumerate(self.shape) if s == 1]
        else:
            axis = [axis] if _isint(axis) else [int(a) for a in axis]
            axis = [a + self.ndim if a < 0 else a for a in axis]
            for a in axis:
                if a >= self.ndim or a < 0:
                    raise _np.AxisError(a, self.ndim)
                if not (self.shape[a] == 1):
                    raise ValueError('cannot select an axis to squeeze out which has size not equal to one')
        arr = self._drop_ones()
        return SymArray([a for i, a in enumerate(arr.axes) if i not in axis], arr.blocks)

    def expand_dims(self, axis):
        axis = int(axis)
        if axis < 0:
            axis += self.ndim + 1
        axes = list(self.axes)
        if not 0 <= axis <= len(axes):
            raise _np.AxisError(axis, len(axes) + 1)
        axes.insert(axis, ())
        return SymArray(axes, self.blocks)

    # -- arithmetic
    def _bcast(self, o, f):
        o = SymArray.lift(o)
        a = self
        n = max(a.ndim, o.ndim)
        while a.ndim < n:
            a = a.expand_dims(0)
        while o.ndim < n:
            o = o.expand_dims(0)
        return f(a, o)

    @staticmethod
    def _align(a, o, broadcast=True):
        """same factor structure on both, except axes of size one when broadcasting"""
        a, o = a._drop_ones(), o._drop_ones()
        for ax in range(a.ndim):
            a, o = _match_axis(a, ax, o, ax, broadcast)
        return a, o

    def __add__(self, o):
        try:
            return self._bcast(o, _add)
        except NotImplementedError:
            return NotImplemented
    __radd__ = __add__

    def __neg__(self):
        return SymArray(self.axes, {k: (v, scale_expr(e, -1)) for k, (v, e) in self.blocks.items()})

    def __pos__(self):
        return self.copy()

    def __sub__(self, o):
        return self + (-SymArray.lift(o))

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        return self._bcast(o, _mul)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, (int, float, _np.integer, _np.floating)) and not isinstance(o, bool):
            return self * Dim.of(Fraction(1) / Fraction(float(o) if isinstance(o, _np.floating) else o))
        return self * fn_apply('inv', SymArray.lift(o))

    def __rtruediv__(self, o):
        return SymArray.lift(o) * fn_apply('inv', self)

    def __pow__(self, k):
        if isinstance(k, float) and k.is_integer():
            k = int(k)
        if isinstance(k, (float, _np.floating)) and float(k) == 0.5:
            return fn_apply('sqrt', self)
        if not _isint(k):
            raise Unsupported('power')
        k = int(k)
        if k < 0:
            return fn_apply('inv', self) ** (-k)
        r = SymArray.full(self.shape, 1) if k == 0 else self
        for _ in range(k - 1):
            r = r * self
        return r

    def __matmul__(self, o):
        return matmul(self, SymArray.lift(o))

    def __rmatmul__(self, o):
        return matmul(SymArray.lift(o), self)

    def dot(self, o):
        o = SymArray.lift(o)
        if self.ndim == 0 or o.ndim == 0:
            return self * o
        return tensordot(self, o, ([self.ndim - 1], [max(o.ndim - 2, 0)]))

    def sum(self, axis=None, keepdims=False, dtype=None):
        if axis is None:
            ax = list(range(self.ndim))
        else:
            ax = [axis] if _isint(axis) else [int(x) for x in axis]
            ax = [x + self.ndim if x < 0 else int(x) for x in ax]
        lab = list(range(self.ndim))
        r = contract([self], [lab], [x for x in lab if x not in ax])
        if keepdims:
            for x in sorted(ax):
                r = r.expand_dims(x)
        return r

    def mean(self, axis=None, keepdims=False, dtype=None):
        n = ONE
        ax = range(self.ndim) if axis is None else ([axis] if _isint(axis) else axis)
        for x in ax:
            n = n._mul(Dim.of(self.shape[int(x)]))
        s = self.sum(axis, keepdims)
        c = n.const()
        return s * Dim.of(Fraction(1) / Fraction(c)) if c else s * fn_apply('inv', SymArray.lift(Dim.wrap(n)))

    # -- comparisons: entry-dependent truth values fork the path
    def _cmp(self, o, rel):
        try:
            o = SymArray.lift(o)
        except Unsupported:
            if rel == 'eq' and isinstance(o, str):
                return False
            raise
        d = self - o
        return SymCond(d, rel)

    def __eq__(self, o):
        return self._cmp(o, 'eq')

    def __ne__(self, o):
        return self._cmp(o, 'ne')

    def __lt__(self, o):
        return self._cmp(o, 'lt')

    def __le__(self, o):
        return self._cmp(o, 'le')

    def __gt__(self, o):
        return self._cmp(o, 'gt')

    def __ge__(self, o):
        return self._cmp(o, 'ge')

    def __bool__(self):
        if self.size == 1:
            return bool(self != 0)
        raise ValueError('The truth value of an array with more than one element is ambiguous')

    def __abs__(self):
        return fn_apply('abs', self)

    def __float__(self):
        raise Unsupported('float() of a symbolic entry')

    def __int__(self):
        raise Unsupported('int() of a symbolic entry')

    def __index__(self):
        raise Unsupported('symbolic entry used as an index')

    def __array__(self, *a, **k):
        raise Unsupported('symbolic array passed to an unmodelled numpy function')

    def __array_ufunc__(self, uf, method, *inputs, **kw):
        from . import npx
        return npx.ufunc(uf, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import npx
        return npx.array_function(func, args, kwargs)

    # -- indexing
    def _norm_key(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        key = list(key)
        nn = sum(1 for k in key if k is not None and k is not Ellipsis)
        if any(k is Ellipsis for k in key):
            i = [j for j, k in enumerate(key) if k is Ellipsis][0]
            key[i:i + 1] = [slice(None)] * (self.ndim - nn)
        else:
            key += [slice(None)] * (self.ndim - nn)
        return key

    def __getitem__(self, key):
        key = self._norm_key(key)
        from .idx import IntArr, Entry, SymRows, Mask, MaskedIdx, masked_get
        if len(key) == 1 and isinstance(key[0], MaskedIdx):
            return masked_get(self, key[0])
        if any(isinstance(k, (Mask, MaskedIdx)) for k in key):
            raise Unsupported('mask')
        if any(isinstance(k, (IntArr, Entry, SymRows)) for k in key):
            return self._get_int(key)
        lists = [k for k in key if isinstance(k, (list, _np.ndarray)) and not (isinstance(k, _np.ndarray) and k.ndim == 0)]
        if any(isinstance(k, SymArray) or isinstance(k, SymCond) for k in key):
            raise Unsupported('symbolic index array')
        if len(lists) > 1:
            raise Unsupported('several index arrays')
        arr = self
        ax = 0
        for k in key:
            if k is None:
                arr = arr.expand_dims(ax)
                ax += 1
            elif isinstance(k, slice):
                if k == slice(None):
                    ax += 1
                    continue
                arr = arr._slice(ax, k)
                ax += 1
            elif isinstance(k, (list, _np.ndarray)) and not (isinstance(k, _np.ndarray) and k.ndim == 0):
                k = _np.asarray(k)
                if k.dtype == bool:
                    k = _np.nonzero(k)[0]
                if k.ndim != 1:
                    raise Unsupported('index array of dimension %d' % k.ndim)
                arr = arr.take(k, ax)
                ax += 1
            else:
                arr = arr._pick(ax, k)
        return arr.copy() if arr is self else arr

    def _get_int(self, key):
        from . import idx
        arr = self
        ax = 0
        arrs = 0
        for k in key:
            if isinstance(k, idx.Entry):
                arr = idx.pick_entry(arr, ax, k)
            elif idx.is_int(k):
                arrs += 1
                if arrs > 1:
                    raise Unsupported('several symbolic index arrays')
                arr = idx.take(arr, k, ax)
                ax += 1
            elif isinstance(k, slice) and k == slice(None):
                ax += 1
            elif k is None:
                arr = arr.expand_dims(ax)
                ax += 1
            elif isinstance(k, slice):
                arr = arr._slice(ax, k)
                ax += 1
            elif _np.ndim(k) == 0:
                arr = arr._pick(ax, k)
            else:
                raise Unsupported('mixed index arrays')
        return arr

    def _axis_facpos(self, ax):
        return sum(len(a) for a in self.axes[:ax])

    def _single_axis(self, ax):
        arr = self
        if len(arr.axes[ax]) > 1:
            raise Unsupported('indexing a composite axis')
        return arr

    def _pick(self, ax, i):
        n = self.shape[ax]
        i = _shape_item(i)
        if isinstance(i, int) and i < 0:
            i = Dim.wrap(Dim.of(n)._add(Dim.of(i)))
        if not (Dim.of(i)._rel(n, 'lt')):
            raise IndexError('index %r is out of bounds for axis %d with size %r' % (i, ax, n))
        if len(self.axes[ax]) == 0:
            return SymArray(self.axes[:ax] + self.axes[ax + 1:], self.blocks)
        if len(self.axes[ax]) > 1 and i != 0:
            # decode the first-index-fastest position when all factor sizes are concrete
            raise Unsupported('indexing a composite axis')
        if len(self.axes[ax]) > 1:
            arr = self
            # entry zero of every factor
            pos = arr._axis_facpos(ax)
            nf = len(arr.axes[ax])
            blocks = {}
            for k, (vs, e) in arr.blocks.items():
                if all(k[pos + q] == 0 for q in range(nf)):
                    m = {vs[pos + q]: 0 for q in range(nf)}
                    blocks[k[:pos] + k[pos + nf:]] = (vs[:pos] + vs[pos + nf:], subst_expr(e, m))
            return SymArray(arr.axes[:ax] + arr.axes[ax + 1:], blocks)
        pos = self._axis_facpos(ax)
        fac = self.axes[ax][0]
        off = ZERO
        for p, d in enumerate(fac):
            rel = Dim.of(i)._add(off, -1)
            if decide_dim(rel._add(d, -1), 'lt'):
                c = rel.norm().const()
                if c is None or (len(fac) == 1 and Dim.of(i).const() is None):
                    arr = SymArray._cut(self, ax, [Dim.of(i), Dim.of(i)._add(ONE)])
                    if arr.axes[ax] == self.axes[ax] and d.norm().const() != 1:
                        raise Unsupported('symbolic position %r' % rel)
                    o2 = ZERO
                    for p2, d2 in enumerate(arr.axes[ax][0]):
                        if o2._add(Dim.of(i), -1).norm().const() == 0 and d2.norm().const() == 1:
                            blocks = {}
                            for k, (vs, e) in arr.blocks.items():
                                if k[pos] == p2:
                                    blocks[k[:pos] + k[pos + 1:]] = (vs[:pos] + vs[pos + 1:], subst_expr(e, {vs[pos]: 0}))
                            return SymArray(arr.axes[:ax] + arr.axes[ax + 1:], blocks)
                        o2 = o2._add(d2)
                    raise Unsupported('symbolic position %r' % rel)
                blocks = {}
                for k, (vs, e) in self.blocks.items():
                    if k[pos] == p:
                        blocks[k[:pos] + k[pos + 1:]] = (vs[:pos] + vs[pos + 1:], subst_expr(e, {vs[pos]: int(c)}))
                return SymArray(self.axes[:ax] + self.axes[ax + 1:], blocks)
            off = off._add(d)
        raise IndexError

    def _slice(self, ax, s):
        n = Dim.of(self.shape[ax])
        if s.step is not None and s.step != 1:
            if s.step == -1 and s.start is None and s.stop is None and n.const() is not None:
                return self.take(list(range(int(n.const()) - 1, -1, -1)), ax)
            raise Unsupported('slice step')
        a = Dim.of(0) if s.start is None else Dim.of(_shape_item(s.start))
        b = n if s.stop is None else Dim.of(_shape_item(s.stop))
        if decide_dim(a, 'lt'):
            a = a._add(n)
        if decide_dim(b, 'lt'):
            b = b._add(n)
        if decide_dim(b._add(n, -1), 'gt'):
            b = n
        if decide_dim(a._add(n, -1), 'gt'):
            a = n
        if a.norm().key() == Dim.of(0).key() and b.norm().key() == n.norm().key():
            return self
        if decide_dim(b._add(a, -1), 'le'):
            raise Unsupported('empty slice')
        if len(self.axes[ax]) == 0:
            return self
        arr = self._cut(self._single_axis(ax), ax, [a, b])
        fac = arr.axes[ax][0]
        pos = arr._axis_facpos(ax)
        off = ZERO
        keep = []
        for p, d in enumerate(fac):
            if decide_dim(off._add(a, -1), 'ge') and decide_dim(off._add(b, -1), 'lt'):
                keep.append(p)
            off = off._add(d)
        blocks = {}
        for k, v in arr.blocks.items():
            if k[pos] in keep:
                blocks[k[:pos] + (keep.index(k[pos]),) + k[pos + 1:]] = v
        axes = list(arr.axes)
        axes[ax] = (tuple(fac[p] for p in keep),)
        return SymArray(axes, blocks)._drop_ones()

    @staticmethod
    def _cut(arr, ax, cuts):
        """refine axis ax so that every cut position is a piece boundary"""
        pos = arr._axis_facpos(ax)
        fac = arr.axes[ax][0]
        bounds = [ZERO]
        for d in fac:
            bounds.append(bounds[-1]._add(d).norm())
        for c in cuts:
            c = c.norm()
            if any(b._add(c, -1).norm().const() == 0 for b in bounds):
                continue
            for q in range(len(bounds) - 1):
                if decide_dim(c._add(bounds[q], -1), 'gt') and decide_dim(c._add(bounds[q + 1], -1), 'lt'):
                    bounds.insert(q + 1, c)
                    break
            else:
                continue
        pieces = tuple(bounds[q + 1]._add(bounds[q], -1).norm() for q in range(len(bounds) - 1))
        return arr.split_pieces(pos, pieces)

    def take(self, idx, axis):
        idx = [_shape_item(x) for x in (idx.tolist() if isinstance(idx, _np.ndarray) else idx)]
        parts = [self._pick(axis, i) for i in idx]
        if not parts:
            raise Unsupported('empty take')
        return concatenate([p.expand_dims(axis) for p in parts], axis)

    def __setitem__(self, key, val):
        key = self._norm_key(key)
        if any(k is None for k in key):
            raise Unsupported('newaxis in assignment')
        from .idx import Mask, masked_set
        if len(key) == 1 and isinstance(key[0], Mask):
            r = masked_set(self, key[0], val)
            self.axes, self.blocks = r.axes, r.blocks
            return
        if any(isinstance(k, Mask) for k in key):
            raise Unsupported('mask')
        arr = self
        sel = []
        outshape_axes = []
        ax = 0
        if any(isinstance(k, (list, _np.ndarray)) and _np.ndim(k) > 0 for k in key):
            raise Unsupported('index array in assignment')
        for ax, k in enumerate(key):
            n = Dim.of(arr.shape[ax])
            if isinstance(k, slice):
                if k.step not in (None, 1):
                    raise Unsupported('slice step')
                a = Dim.of(0) if k.start is None else Dim.of(_shape_item(k.start))
                b = n if k.stop is None else Dim.of(_shape_item(k.stop))
                if decide_dim(a, 'lt'):
                    a = a._add(n)
                if decide_dim(b, 'lt'):
                    b = b._add(n)
                if decide_dim(b._add(n, -1), 'gt'):
                    b = n
                full = a.norm().key() == Dim.of(0).key() and b.norm().key() == n.norm().key()
                sel.append((a, b, full, True))
            else:
                i = _shape_item(k)
                if isinstance(i, int) and i < 0:
                    i = Dim.wrap(n._add(Dim.of(i)))
                if not Dim.of(i)._rel(n, 'lt'):
                    raise IndexError('index out of bounds')
                full = n.const() == 1
                sel.append((Dim.of(i), Dim.of(i)._add(ONE), full, False))
        val = SymArray.lift(val)
        # value: expand picked axes, broadcast
        nkeep = sum(1 for s in sel if s[3])
        v = val
        while v.ndim < nkeep:
            v = v.expand_dims(0)
        while v.ndim > nkeep and v.shape[0] == 1:
            v = SymArray(v.axes[1:], v._drop_ones().blocks)
        if v.ndim != nkeep:
            raise ValueError('could not broadcast input array')
        for ax, s in enumerate(sel):
            if not s[3]:
                v = v.expand_dims(ax)
        # cut
        for ax, (a, b, full, _) in enumerate(sel):
            if not full:
                if len(arr.axes[ax]) == 0:
                    continue
                arr = SymArray._cut(arr._single_axis(ax), ax, [a, b])
        region = []
        for ax, (a, b, full, _) in enumerate(sel):
            if full or len(arr.axes[ax]) == 0:
                region.append(None)
                continue
            off = ZERO
            keep = []
            for p, d in enumerate(arr.axes[ax][0]):
                if decide_dim(off._add(a, -1), 'ge') and decide_dim(off._add(b, -1), 'lt'):
                    keep.append(p)
                off = off._add(d)
            region.append(keep)
        # target region as an array of zeros with the right structure, then add the value
        tgt_axes = []
        for ax in range(arr.ndim):
            if region[ax] is None:
                tgt_axes.append(arr.axes[ax])
            else:
                tgt_axes.append((tuple(arr.axes[ax][0][p] for p in region[ax]),))
        tgt = SymArray(tgt_axes, {})
        for ax in range(arr.ndim):
            if not (v.shape[ax] == 1) and not (Dim.of(v.shape[ax]) == tgt.shape[ax]):
                raise ValueError('could not broadcast input array from shape %r into shape %r' % (v.shape, tgt.shape))
        filled = _add(tgt, v)
        # filled may be finer than tgt; require the same structure
        f2 = filled
        t2 = SymArray(tgt_axes, {})
        # refine arr to filled's structure
        for ax in range(arr.ndim):
            fa, ta = f2.axes[ax], SymArray(tgt_axes, {})._drop_ones().axes[ax]
            if [tuple(d.key() for d in f) for f in fa] != [tuple(d.key() for d in f) for f in ta]:
                if region[ax] is None:
                    arr, f2 = _match_axis(arr._drop_ones(), ax, f2, ax, False)
                else:
                    if len(fa) != 1:
                        raise Unsupported('assigning a composite axis into a slice')
                    pieces = []
                    first = True
                    for p, d in enumerate(arr.axes[ax][0]):
                        if p in region[ax]:
                            if first:
                                pieces.extend(fa[0])
                                first = False
                        else:
                            pieces.append(d)
                    pos = arr._axis_facpos(ax)
                    arr = arr.split_pieces(pos, tuple(pieces))
                    region[ax] = list(range(region[ax][0], region[ax][0] + len(fa[0])))
        # expanded key for axes where _drop_ones removed a piece of size one
        blocks = dict(arr.blocks)
        fpos = [arr._axis_facpos(ax) for ax in range(arr.ndim)]

        def in_region(k):
            return all(region[ax] is None or k[fpos[ax]] in region[ax] for ax in range(arr.ndim))
        for k in list(blocks):
            if in_region(k):
                del blocks[k]
        for k, (vs, e) in f2.blocks.items():
            nk, nv = [], []
            p = 0
            for ax in range(arr.ndim):
                na = len(f2.axes[ax])
                if region[ax] is None:
                    if na != len(arr.axes[ax]):
                        if na == 0:
                            for f in arr.axes[ax]:
                                nk.append(0)
                                nv.append(Ix(f[0]))
                        else:
                            raise Unsupported('assignment structure')
                    else:
                        nk.extend(k[p:p + na])
                        nv.extend(vs[p:p + na])
                elif na == 0:
                    nk.append(region[ax][0])
                    nv.append(Ix(1))
                else:
                    nk.append(region[ax][k[p]])
                    nv.append(vs[p])
                p += na
            blocks[tuple(nk)] = (tuple(nv), e)
        self.axes = arr.axes
        self.blocks = blocks

    def fill(self, v):
        r = SymArray.full(self.shape, v)
        self.axes, self.blocks = r.axes, r.blocks

    def __repr__(self):
        return 'SymArray%r' % (self.shape,)

    def __format__(self, s):
        return repr(self)


def _uns():
    raise Unsupported('splitting')


def _shape_item(x):
    if isinstance(x, SymArray):
        raise Unsupported('entry used as a size')
    if isinstance(x, Dim):
        return Dim.wrap(x)
    if isinstance(x, _np.ndarray):
        x = x.item()
        return _shape_item(x)
    if isinstance(x, (float, _np.floating)):
        raise TypeError("'float' object cannot be interpreted as an integer")
    return int(x)


def _group_pieces(old, new):
    groups = []
    q = 0
    for d in old:
        acc = ZERO
        g = []
        while acc._add(d, -1).norm().const() != 0:
            if q >= len(new):
                return None
            acc = acc._add(new[q])
            g.append(Dim.of(new[q]))
            q += 1
            if len(g) > 200:
                return None
        groups.append(g)
    if q != len(new):
        return None
    return groups


def _common_pieces(p1, p2):
    """common refinement of two piece lists of equal total, when boundaries are comparable"""
    b1, b2 = [ZERO], [ZERO]
    for d in p1:
        b1.append(b1[-1]._add(d).norm())
    for d in p2:
        b2.append(b2[-1]._add(d).norm())
    allb = list(b1)
    for b in b2:
        if not any(x._add(b, -1).norm().const() == 0 for x in allb):
            for q in range(len(allb) - 1):
                if decide_dim(b._add(allb[q], -1), 'gt') and decide_dim(b._add(allb[q + 1], -1), 'lt'):
                    allb.insert(q + 1, b)
                    break
            else:
                raise Unsupported('block boundaries not comparable')
    return tuple(allb[q + 1]._add(allb[q], -1).norm() for q in range(len(allb) - 1))


def _match_axis(a, ax, o, ox, broadcast, names=None):
    """make axis ax of a and axis ox of o have the same structure"""
    sa, so = Dim.of(a.shape[ax]), Dim.of(o.shape[ox])
    if broadcast and ((sa.const() == 1) != (so.const() == 1)):
        return a, o
    if not decide_dim(sa._add(so, -1), 'eq'):
        if broadcast and decide_dim(sa._add(ONE, -1), 'eq'):
            return a._drop_ones(), o._drop_ones()
        if broadcast and decide_dim(so._add(ONE, -1), 'eq'):
            return a._drop_ones(), o._drop_ones()
        raise ValueError('operands could not be broadcast together: sizes %r and %r' % (sa, so))
    a, o = a._drop_ones(), o._drop_ones()
    for _ in range(60):
        fa, fo = a.axes[ax], o.axes[ox]
        if len(fa) == len(fo) and all(tuple(d.key() for d in x) == tuple(d.key() for d in y) for x, y in zip(fa, fo)):
            return a, o
        # first differing factor
        q = 0
        while q < len(fa) and q < len(fo) and tuple(d.key() for d in fa[q]) == tuple(d.key() for d in fo[q]):
            q += 1
        if q >= len(fa) or q >= len(fo):
            raise Unsupported('axis structure')
        s1, s2 = fac_size(fa[q]), fac_size(fo[q])
        if s1._add(s2, -1).norm().const() == 0:
            pc = _common_pieces(fa[q], fo[q])
            a = a.split_pieces(a._axis_facpos(ax) + q, pc)
            o = o.split_pieces(o._axis_facpos(ox) + q, pc)
            continue
        r = s1._div(s2)
        if r is not None and r.norm().const() != 0:
            a = a.split_factor(a._axis_facpos(ax) + q, [s2, r])
            continue
        r = s2._div(s1)
        if r is not None:
            o = o.split_factor(o._axis_facpos(ox) + q, [s1, r])
            continue
        raise Unsupported('axis structure %r / %r' % (fa, fo))
    raise Unsupported('axis structure')


def _add(a, o):
    a, o = SymArray._align(a, o)
    axes = []
    for x, y in zip(a.axes, o.axes):
        axes.append(x if len(x) >= len(y) else y)

    def expand(arr):
        # insert missing factors (broadcast axes)
        blocks = {}
        plan = []
        for ax, full in enumerate(axes):
            if len(arr.axes[ax]) == len(full):
                plan.append((len(full), None))
            else:
                plan.append((0, full))
        for k, (vs, e) in arr.blocks.items():
            opts = []
            p = 0
            for n, full in plan:
                if full is None:
                    for _ in range(n):
                        opts.append([(k[p], vs[p])])
                        p += 1
                else:
                    for f in full:
                        opts.append([(i, Ix(d)) for i, d in enumerate(f)])
            for ch in itertools.product(*opts):
                blocks[tuple(c[0] for c in ch)] = (tuple(c[1] for c in ch), e)
        return blocks
    b1, b2 = expand(a), expand(o)
    blocks = {}
    for k in set(b1) | set(b2):
        if k in b1 and k in b2:
            v1, e1 = b1[k]
            v2, e2 = b2[k]
            blocks[k] = (v1, simplify(list(e1) + subst_expr(e2, dict(zip(v2, v1))), v1))
        else:
            blocks[k] = b1.get(k) or b2.get(k)
    return SymArray(axes, blocks)


def _mul(a, o):
    a, o = SymArray._align(a, o)
    n = a.ndim
    la, lo, out = [], [], []
    nxt = 100
    for ax in range(n):
        la.append(ax)
        lo.append(ax)
    return contract([a, o], [la, lo], list(range(n)), bcast=True)


def contract(ops, labels, out, bcast=False):
    """general einsum over whole axes"""
    ops = [x._drop_ones() for x in ops]
    # unify structures of axes with equal labels (repeat until stable)
    for _ in range(10):
        first = {}
        changed = False
        for oi in range(len(ops)):
            for ax, l in enumerate(labels[oi]):
                if bcast and len(ops[oi].axes[ax]) == 0 and Dim.of(ops[oi].shape[ax]).const() == 1:
                    continue
                if l in first:
                    pi, pax = first[l]
                    if pi == oi:
                        # diagonal inside one operand
                        A = ops[oi]
                        before = A.axes
                        if not decide_dim(Dim.of(A.shape[pax])._add(Dim.of(A.shape[ax]), -1), 'eq'):
                            raise ValueError('sizes of repeated label differ')
                        fa, fo = A.axes[pax], A.axes[ax]
                        if [tuple(d.key() for d in f) for f in fa] != [tuple(d.key() for d in f) for f in fo]:
                            raise Unsupported('diagonal of differently structured axes')
                        continue
                    A, B = _match_axis(ops[pi], pax, ops[oi], ax, False)
                    if A.axes != ops[pi].axes or B.axes != ops[oi].axes:
                        changed = True
                    ops[pi], ops[oi] = A, B
                else:
                    first[l] = (oi, ax)
        if not changed:
            break
    struct = {}
    for oi, x in enumerate(ops):
        for ax, l in enumerate(labels[oi]):
            if l not in struct or len(struct[l]) == 0:
                struct[l] = x.axes[ax]
    for l in out:
        if l not in struct:
            raise ValueError('output label %r not present' % l)
    axes = [struct[l] for l in out]
    cur = [({}, {}, [(ONE, (), ())])]   # (label->piece tuple, label->vars tuple, expr)
    for oi, x in enumerate(ops):
        new = []
        for pk, pv, e in cur:
            for k, (vs, e2) in x.blocks.items():
                p = 0
                ok = True
                npk, npv = dict(pk), dict(pv)
                m = {}
                for ax, l in enumerate(labels[oi]):
                    nf = len(x.axes[ax])
                    kk, vv = k[p:p + nf], vs[p:p + nf]
                    p += nf
                    if nf == 0 and len(struct[l]) > 0:
                        continue     # broadcast axis
                    if l in npk:
                        if npk[l] != kk:
                            ok = False
                            break
                        m.update(zip(vv, npv[l]))
                    else:
                        fresh = tuple(Ix(v.dim) for v in vv)
                        npk[l] = kk
                        npv[l] = fresh
                        m.update(zip(vv, fresh))
                if ok:
                    new.append((npk, npv, mul_expr(e, subst_expr(e2, m))))
        cur = new
    blocks = {}
    for pk, pv, e in cur:
        missing = [l for l in out if l not in pk]
        opts = []
        for l in missing:
            opts.append([tuple(c) for c in itertools.product(*[range(len(f)) for f in struct[l]])])
        for ch in itertools.product(*opts):
            k2, v2 = dict(pk), dict(pv)
            for l, c in zip(missing, ch):
                k2[l] = c
                v2[l] = tuple(Ix(f[i]) for f, i in zip(struct[l], c))
            key = tuple(i for l in out for i in k2[l])
            ov = tuple(v for l in out for v in v2[l])
            bound = [v for l in v2 if l not in out for v in v2[l]]
            ee = bind(e, bound) if bound else e
            if key in blocks:
                v0, e0 = blocks[key]
                blocks[key] = (v0, e0 + subst_expr(ee, dict(zip(ov, v0))))
            else:
                blocks[key] = (ov, ee)
    # repeated labels in out are not allowed by einsum
    blocks = {k: (v, simplify(e, v)) for k, (v, e) in blocks.items()}
    return SymArray(axes, blocks)


def tensordot(a, b, axes=2):
    a, b = SymArray.lift(a), SymArray.lift(b)
    if _isint(axes):
        axes = int(axes)
        a1 = list(range(a.ndim - axes, a.ndim))
        b1 = list(range(axes))
    else:
        a1, b1 = axes
        a1 = [int(a1)] if _np.ndim(a1) == 0 else [int(x) for x in a1]
        b1 = [int(b1)] if _np.ndim(b1) == 0 else [int(x) for x in b1]
    if len(a1) != len(b1):
        raise ValueError('shape-mismatch for sum')
    a1 = [x + a.ndim if x < 0 else x for x in a1]
    b1 = [x + b.ndim if x < 0 else x for x in b1]
    for x, y in zip(a1, b1):
        if not (Dim.of(a.shape[x]) == b.shape[y]):
            raise ValueError('shape-mismatch for sum')
    la = list(range(a.ndim))
    lb = [1000 + i for i in range(b.ndim)]
    for x, y in zip(a1, b1):
        lb[y] = la[x]
    out = [l for i, l in enumerate(la) if i not in a1] + [l for i, l in enumerate(lb) if i not in b1]
    return contract([a, b], [la, lb], out)


def matmul(a, b):
    a, b = SymArray.lift(a), SymArray.lift(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError('matmul: scalar operand')
    if a.ndim > 2 or b.ndim > 2:
        raise Unsupported('batched matmul')
    la = [0, 1] if a.ndim == 2 else [1]
    lb = [1, 2] if b.ndim == 2 else [1]
    if not (Dim.of(a.shape[-1]) == b.shape[0]):
        raise ValueError('matmul: dimension mismatch %r %r' % (a.shape, b.shape))
    return contract([a, b], [la, lb], [l for l in la + lb if l != 1])


def concatenate(arrs, axis=0):
    arrs = [SymArray.lift(x) for x in arrs]
    n = arrs[0].ndim
    if axis is None:
        arrs = [x.ravel() for x in arrs]
        axis, n = 0, 1
    axis = int(axis)
    if axis < 0:
        axis += n
    if any(x.ndim != n for x in arrs):
        raise ValueError('all the input array dimensions must match')
    if len(arrs) == 1:
        return arrs[0].copy()
    for ax in range(n):
        if ax == axis:
            continue
        for x in arrs[1:]:
            if not (Dim.of(x.shape[ax]) == arrs[0].shape[ax]):
                raise ValueError('all the input array dimensions except for the concatenation axis must match exactly')
    arrs = [x._drop_ones() for x in arrs]
    for ax in range(n):
        if ax == axis:
            continue
        for _ in range(2):
            for i in range(1, len(arrs)):
                arrs[0], arrs[i] = _match_axis(arrs[0], ax, arrs[i], ax, False)
    pieces = []
    blocks = {}
    pos = arrs[0]._axis_facpos(axis)
    for x in arrs:
        fa = x.axes[axis]
        if len(fa) > 1:
            raise Unsupported('concatenation along a composite axis')
        base = len(pieces)
        if len(fa) == 0:
            pieces.append(ONE)
            for k, (vs, e) in x.blocks.items():
                blocks[k[:pos] + (base,) + k[pos:]] = (vs[:pos] + (Ix(1),) + vs[pos:], e)
        else:
            pieces.extend(fa[0])
            for k, (vs, e) in x.blocks.items():
                blocks[k[:pos] + (base + k[pos],) + k[pos + 1:]] = (vs, e)
    axes = list(arrs[0].axes)
    axes[axis] = (tuple(pieces),)
    return SymArray(axes, blocks)


def diag(v):
    v = SymArray.lift(v)
    if v.ndim == 1:
        v = v._drop_ones()
        axes = (v.axes[0], v.axes[0])
        blocks = {}
        for k, (vs, e) in v.blocks.items():
            ws = tuple(Ix(x.dim) for x in vs)
            blocks[k + k] = (vs + ws, [(t[0], t[1], t[2] + tuple(('δ', x, y) for x, y in zip(vs, ws))) for t in e])
        return SymArray(axes, blocks)
    if v.ndim == 2:
        n, m = v.shape
        if not (Dim.of(n) == m):
            raise Unsupported('diagonal of a rectangular matrix')
        return contract([v], [[0, 0]], [0])
    raise ValueError('Input must be 1- or 2-d.')


def fn_apply(name, x):
    """opaque entrywise function; exact on rational constants where possible"""
    blocks = {}
    facs = x.flat_facs
    allk = list(itertools.product(*[range(len(f)) for f in facs]))
    zero_ok = name in ('abs', 'sqrt')
    for k in allk:
        if k in x.blocks:
            vs, e = x.blocks[k]
            e = simplify(e, vs)
        else:
            vs, e = tuple(Ix(f[i]) for f, i in zip(facs, k)), []
        if not e and zero_ok:
            continue
        if len(e) == 1 and not e[0][1] and not e[0][2]:
            c = e[0][0].const()
            if c is not None:
                c = Fraction(c)
                if name == 'inv' and c != 0:
                    blocks[k] = (vs, [(Dim.of(1 / c), (), ())])
                    continue
                if name == 'abs':
                    blocks[k] = (vs, [(Dim.of(abs(c)), (), ())])
                    continue
                if name == 'sqrt' and c >= 0:
                    import math
                    p, q = math.isqrt(c.numerator), math.isqrt(c.denominator)
                    if p * p == c.numerator and q * q == c.denominator:
                        blocks[k] = (vs, [(Dim.of(Fraction(p, q)), (), ())])
                        continue
        if name == 'abs' and len(e) == 1 and not e[0][1] and (e[0][0].const() or -1) > 0 and all(getattr(path().tables.get(g[0]), 'kind', '') in ('S', 'TS', 'sqrt') for g in e[0][2]):
            blocks[k] = (vs, e)         # singular values are nonnegative
            continue
        used = [v for v in vs if any(v in g[1:] for t in e for g in t[2])]
        ck = freeze(canon_expr(e, {v: 'a%03d' % i for i, v in enumerate(used)}))
        memo = path().memo
        mk = ('fn', name, ck)
        if mk not in memo:
            nm = path().new_id(name)
            memo[mk] = nm
            kind = {'sqrt': 'sqrt', 'inv': 'inv'}.get(name, 'fn')
            atom(nm, kind, tuple(v.dim for v in used), (e, tuple(used)))
        blocks[k] = (vs, [(ONE, (), ((memo[mk],) + tuple(used),))])
    return SymArray(x.axes, blocks)


class SymCond:
    """an (array of) undecided entry comparison(s); only its truth value may be used"""

    def __init__(self, d, rel, quant='all'):
        self.d, self.rel, self.quant = d, rel, quant
        self.shape = d.shape
        self.size = d.size

    def all(self, *a, **k):
        return bool(self)

    def any(self, *a, **k):
        c = SymCond(self.d, self.rel, 'any')
        return c.truth()

    def __bool__(self):
        return self.truth()

    def __invert__(self):
        neg = {'eq': 'ne', 'ne': 'eq', 'lt': 'ge', 'ge': 'lt', 'gt': 'le', 'le': 'gt'}
        return SymCond(self.d, neg[self.rel], self.quant)

    def truth(self):
        c = self.d.canon()
        if not c[1]:     # identically zero
            return self.rel in ('eq', 'le', 'ge')
        # constant?
        d = self.d._drop_ones()
        if d.ndim == 0 or not d.flat_facs:
            e = d.blocks.get((), ((), []))[1]
            e = simplify(e, ())
            if len(e) == 1 and not e[0][1] and not e[0][2]:
                return decide_dim(e[0][0], self.rel)
        key = ('cond', self.rel, self.quant, c)
        memo = path().memo
        if key in memo:
            return memo[key]
        v = path().decide('entry condition %s' % self.rel)
        memo[key] = v
        return v


def equal(a, b):
    """provable equality of two symbolic arrays (shape and all entries)"""
    a, b = SymArray.lift(a), SymArray.lift(b)
    if a.ndim != b.ndim:
        return False, 'number of axes %d != %d' % (a.ndim, b.ndim)
    for x, y in zip(a.shape, b.shape):
        if Dim.of(x)._add(Dim.of(y), -1).norm().const() != 0:
            return False, 'shape %r != %r' % (a.shape, b.shape)
    a, b = SymArray._align(a, b, broadcast=False)
    d = _add(a, -b)
    for k, (vs, e) in d.blocks.items():
        c = canon_expr(e, {v: 'v%03d' % i for i, v in enumerate(vs)})
        if c:
            return False, 'entries differ in block %r: residual %s' % (k, ' + '.join('%r*%r' % (v, kk) for kk, v in list(c.items())[:3])[:400])
    return True, ''


_QR = itertools.count()


def _mat(a):
    if a.ndim != 2:
        raise Unsupported('QR/SVD of a %d-dimensional array' % a.ndim)
    a = a._drop_ones()
    if any(len(f) != 1 for f in a.flat_facs):
        raise Unsupported('QR/SVD of a block matrix')
    key = (0,) * len(a.flat_facs)
    nr = len(a.axes[0])
    if key in a.blocks:
        vs, e = a.blocks[key]
    else:
        vs, e = tuple(Ix(f[0]) for f in a.flat_facs), []
    return a, vs[:nr], vs[nr:], simplify(e, vs)


def qr(a):
    """assumed contract of reduced QR: Q R = A, Q^T Q = I, k = min(m, n)"""
    a, rv, cv, e = _mat(a)
    ck = ('qr', a.canon())
    memo = path().memo
    if ck not in memo:
        k = size_min(*a.shape)
        base = path().new_id('qr')
        info = {'base': base, 'nr': len(rv), 'def': (rv, cv, e)}
        memo[ck] = (k, base, info)
    k, base, info = memo[ck]
    kd = Dim.of(k)
    one = kd.const() == 1
    info['one'] = one
    atom('Q' + base, 'Q', None, info)
    atom('R' + base, 'R', None, info)
    r2 = tuple(Ix(v.dim) for v in rv)
    c2 = tuple(Ix(v.dim) for v in cv)
    kx, ky = Ix(kd), Ix(kd)
    if one:
        q = SymArray((a.axes[0], ()), {(0,) * len(r2): (r2, [(ONE, (kx,), (('Q' + base,) + r2 + (kx,),))])})
        r = SymArray(((), a.axes[1]), {(0,) * len(c2): (c2, [(ONE, (ky,), (('R' + base, ky) + c2,))])})
        # with k = 1 the index is dropped by normalisation
    else:
        q = SymArray((a.axes[0], ((kd,),)), {(0,) * (len(r2) + 1): (r2 + (kx,), [(ONE, (), (('Q' + base,) + r2 + (kx,),))])})
        r = SymArray((((kd,),), a.axes[1]), {(0,) * (len(c2) + 1): ((ky,) + c2, [(ONE, (), (('R' + base, ky) + c2,))])})
    return q, r


def svd(a, full_matrices=False, compute_uv=True):
    """assumed contract of reduced SVD: U diag(s) V = A, U^T U = I, V V^T = I"""
    if full_matrices and compute_uv and not Dim.of(a.shape[0]) == a.shape[1]:
        raise Unsupported('full SVD')
    a, rv, cv, e = _mat(a)
    ck = ('svd', a.canon())
    memo = path().memo
    if ck not in memo:
        k = size_min(*a.shape)
        base = path().new_id('svd')
        memo[ck] = (k, base, {'base': base, 'nr': len(rv), 'def': (rv, cv, e)})
    k, base, info = memo[ck]
    kd = Dim.of(k)
    for t in 'USV':
        atom(t + base, t, None, info)
    r2 = tuple(Ix(v.dim) for v in rv)
    c2 = tuple(Ix(v.dim) for v in cv)
    kx, ky, kz = Ix(kd), Ix(kd), Ix(kd)
    ka = () if kd.const() == 1 else ((kd,),)
    if kd.const() == 1:
        raise Unsupported('SVD of a vector')
    s = SymArray((ka,), {(0,): ((kz,), [(ONE, (), (('S' + base, kz),))])})
    if not compute_uv:
        return s
    u = SymArray((a.axes[0], ka), {(0,) * (len(r2) + 1): (r2 + (kx,), [(ONE, (), (('U' + base,) + r2 + (kx,),))])})
    v = SymArray((ka, a.axes[1]), {(0,) * (len(c2) + 1): ((ky,) + c2, [(ONE, (), (('V' + base, ky) + c2,))])})
    return u, s, v


def trunc(a, bound=None):
    """contract of a truncated SVD of a (C05.trunc_svd): W^T W = I, V^T V = I and
    V diag(s) = a^T W, with any rank between one and the bound"""
    a, rv, cv, e = _mat(a)
    base = path().new_id('tr')
    one = any(size_const(x) == 1 for x in a.shape) or size_const(bound) == 1
    kd = Dim.of(1) if one else Dim.sym('rank' + base, 1)
    info = {'base': base, 'nr': len(rv), 'def': (rv, cv, e), 'one': one}
    atom('TW' + base, 'Q', None, info)
    atom('TS' + base, 'TS', None, info)
    atom('TV' + base, 'TV', None, info)
    r2 = tuple(Ix(v.dim) for v in rv)
    c2 = tuple(Ix(v.dim) for v in cv)
    kx, ky, kz = Ix(kd), Ix(kd), Ix(kd)
    if one:
        ka, kk = (), 0
        W = SymArray((a.axes[0], ka), {(0,) * len(r2): (r2, [(ONE, (), (('TW' + base,) + r2 + (0,),))])})
        s = SymArray((ka,), {(): ((), [(ONE, (), (('TS' + base, 0),))])})
        V = SymArray((a.axes[1], ka), {(0,) * len(c2): (c2, [(ONE, (), (('TV' + base, 0) + c2,))])})
    else:
        ka = ((kd,),)
        W = SymArray((a.axes[0], ka), {(0,) * (len(r2) + 1): (r2 + (kx,), [(ONE, (), (('TW' + base,) + r2 + (kx,),))])})
        s = SymArray((ka,), {(0,): ((kz,), [(ONE, (), (('TS' + base, kz),))])})
        V = SymArray((a.axes[1], ka), {(0,) * (len(c2) + 1): (c2 + (ky,), [(ONE, (), (('TV' + base, ky) + c2,))])})
    return W, s, V, kd


def size_const(x):
    return x.const() if isinstance(x, Dim) else x


def svd_any(a):
    """exact singular value decomposition with some number of terms: W diag(s) V^T = a,
    W^T W = I, V^T V = I"""
    a, rv, cv, e = _mat(a)
    base = path().new_id('sv')
    one = any(size_const(x) == 1 for x in a.shape)
    if one:
        raise Unsupported('SVD of a vector')
    kd = Dim.sym('rank' + base, 1)
    info = {'base': base, 'nr': len(rv), 'def': (rv, cv, e)}
    for t in 'USV':
        atom(t + base, t, None, info)
    r2 = tuple(Ix(v.dim) for v in rv)
    c2 = tuple(Ix(v.dim) for v in cv)
    kx, ky, kz = Ix(kd), Ix(kd), Ix(kd)
    ka = ((kd,),)
    W = SymArray((a.axes[0], ka), {(0,) * (len(r2) + 1): (r2 + (kx,), [(ONE, (), (('U' + base,) + r2 + (kx,),))])})
    s = SymArray((ka,), {(0,): ((kz,), [(ONE, (), (('S' + base, kz),))])})
    V = SymArray((a.axes[1], ka), {(0,) * (len(c2) + 1): (c2 + (ky,), [(ONE, (), (('V' + base, ky) + c2,))])})
    return W, s, V


def inv(a):
    """inverse of a (nonsingular) square matrix"""
    if a.ndim != 2 or not Dim.of(a.shape[0]) == a.shape[1]:
        raise Unsupported('inverse of a rectangular matrix')
    a, rv, cv, e = _mat(a)
    ck = ('minv', a.canon())
    memo = path().memo
    if ck not in memo:
        memo[ck] = (path().new_id('inv'), {'nr': len(rv), 'def': (rv, cv, e)})
    base, info = memo[ck]
    atom('I' + base, 'minv', None, info)
    r2 = tuple(Ix(v.dim) for v in rv)
    c2 = tuple(Ix(v.dim) for v in cv)
    return SymArray((a.axes[1], a.axes[0]), {(0,) * (len(r2) + len(c2)): (c2 + r2, [(ONE, (), (('I' + base,) + c2 + r2,))])})


def matrix_rank(a):
    """of a nonsingular square matrix (singular ones are left to the bounded cases)"""
    if a.ndim != 2 or not Dim.of(a.shape[0]) == a.shape[1]:
        raise Unsupported('rank of a rectangular matrix')
    return a.shape[0]
