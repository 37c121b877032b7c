"""Tensor polynomials: finite sums of products of tensor entries, with free
slots and summed (bound) indices, kept in a normal form modulo renaming of bound
indices, commutativity, and the declared permutation symmetries of each tensor.

An index is one of
    ('f', seg, k)   free slot k, ranging over segment seg
    ('d', seg, k)   bound index, ranging over segment seg
    ('c', seg, key) a fixed (symbolic) position
A factor is (tensor name, (index, ...)); a monomial is a tuple of factors; a
polynomial is a dict monomial -> Fraction.  Two polynomials denote the same
function of all tensor values (respecting the symmetries) for every choice of
segment lengths iff their normal forms coincide; `canon` computes it by exact
lexicographic minimisation.
"""
from fractions import Fraction
from itertools import permutations

SYM = {}            # tensor name -> list of (perm, sign), the full group
TRIVIAL = {}


def declare(name, gens, rank):
    """Declare the symmetry group of a tensor from generators (perm, sign)."""
    ident = tuple(range(rank))
    group = {ident: 1}
    todo = [ident]
    while todo:
        p = todo.pop()
        for g, s in gens:
            q = tuple(p[k] for k in g)
            sq = group[p]*s
            if q in group:
                if group[q] != sq:
                    raise ValueError("inconsistent symmetry for " + name)
            else:
                group[q] = sq
                todo.append(q)
    grp = sorted(group.items())
    if name in SYM:
        if SYM[name] != grp:
            raise ValueError("redeclared with other symmetry: " + name)
        return
    SYM[name] = grp
    _CACHE.clear()


def group_of(name, rank):
    g = SYM.get(name)
    if g is not None:
        return g
    t = TRIVIAL.get(rank)
    if t is None:
        t = TRIVIAL[rank] = [(tuple(range(rank)), 1)]
    return t


_CACHE = {}
STATS = {'canon': 0, 'canon_hits': 0}

_KIND = {'f': 0, 'c': 1, 'd': 2}


def _precanon(factors):
    """Cheap renaming of bound indices, used as cache key."""
    m = {}
    out = []
    for name, idx in factors:
        ii = []
        for x in idx:
            if x[0] == 'd':
                y = m.get(x)
                if y is None:
                    y = m[x] = ('d', x[1], len(m))
                ii.append(y)
            else:
                ii.append(x)
        out.append((name, tuple(ii)))
    return tuple(out)


def canon(factors):
    """Return (normal form, sign); sign 0 if the monomial vanishes."""
    key = _precanon(sorted(factors, key=lambda f: (f[0], [(_KIND[i[0]], i[1]) if i[0] == 'd' else (_KIND[i[0]],) + i[1:] for i in f[1]].__repr__())))
    r = _CACHE.get(key)
    STATS['canon'] += 1
    if r is not None:
        STATS['canon_hits'] += 1
        return r
    r = _canon(key)
    _CACHE[key] = r
    return r


def _canon(key):
    n = len(key)
    if n == 0:
        return (), 1
    key = sorted(key, key=lambda f: f[0])
    names = [f[0] for f in key]
    # state: (remaining factor ids by frozenset, mapping of bound indices, sign)
    states = [(frozenset(range(n)), {}, 1)]
    out = []
    for pos in range(n):
        name = names[pos]
        best = None
        nxt = []
        for rem, mp, sg in states:
            for fi in rem:
                f = key[fi]
                if f[0] != name:
                    continue
                idx = f[1]
                for perm, ps in group_of(name, len(idx)):
                    code = []
                    new = None
                    cnt = len(mp)
                    for k in perm:
                        x = idx[k]
                        if x[0] == 'd':
                            y = mp.get(x)
                            if y is None and new is not None:
                                y = new.get(x)
                            if y is None:
                                if new is None:
                                    new = {}
                                y = cnt
                                cnt += 1
                                new[x] = y
                            code.append((2, x[1], y))
                        elif x[0] == 'f':
                            code.append((0, x[1], x[2]))
                        else:
                            code.append((1, x[1], x[2]))
                    code = tuple(code)
                    if best is None or code < best:
                        best = code
                        nxt = []
                    if code == best:
                        m2 = mp
                        if new is not None:
                            m2 = dict(mp)
                            m2.update(new)
                        nxt.append((rem - {fi}, m2, sg*ps))
        # merge states that agree; opposite signs mean the monomial is zero
        seen = {}
        states = []
        for rem, mp, sg in nxt:
            k2 = (rem, frozenset(mp.items()))
            s0 = seen.get(k2)
            if s0 is None:
                seen[k2] = sg
                states.append((rem, mp, sg))
            elif s0 != sg:
                return (), 0
        out.append((name, best))
    signs = {s for _, _, s in states}
    if len(signs) == 2:
        return (), 0
    res = []
    for name, code in out:
        res.append((name, tuple(('f', c[1], c[2]) if c[0] == 0 else
                                (('c', c[1], c[2]) if c[0] == 1 else ('d', c[1], c[2]))
                                for c in code)))
    return tuple(res), states[0][2]


def frac(x):
    """Exact rational meant by a numeric constant of the program."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, float):
        f = Fraction(x)
        if f.denominator == 1:
            return f
        g = f.limit_denominator(5040)
        if float(g) == x or abs(float(g) - x) <= 4e-16*abs(x):
            return g
        return f
    raise TypeError("not a number: %r" % (x,))


def elim_delta(factors):
    """Sum out bound indices that a Kronecker delta fixes."""
    fs = [(n, tuple(i)) for n, i in factors]
    again = True
    while again:
        again = False
        for k, (n, idx) in enumerate(fs):
            if n != 'delta':
                continue
            x, y = idx
            if x == y:
                rest = fs[:k] + fs[k+1:]
                if x[0] == 'd' and not any(x in i for _, i in rest):
                    rest = rest + [('n:' + x[1], ())]
                fs = rest
                again = True
                break
            if x[0] != 'd' and y[0] == 'd':
                x, y = y, x
            if x[0] == 'd':
                rest = fs[:k] + fs[k+1:]
                if y[0] == 'd' or any(x in i for _, i in rest) or True:
                    fs = [(m, tuple(y if z == x else z for z in i)) for m, i in rest]
                    if not any(x in i for _, i in rest) and y[0] == 'd' and not any(y in i for _, i in rest):
                        fs = fs + [('n:' + y[1], ())]
                again = True
                break
    return fs


class Poly(object):
    __slots__ = ('t',)

    def __init__(self, terms=None):
        self.t = terms if terms is not None else {}

    # -- construction
    @staticmethod
    def const(c):
        c = frac(c)
        return Poly({(): c} if c else {})

    @staticmethod
    def entry(name, idx):
        p = Poly()
        p.add_raw(((name, tuple(idx)),), Fraction(1))
        return p

    def copy(self):
        return Poly(dict(self.t))

    def add_raw(self, factors, c):
        for f in factors:
            if f[0] == 'delta':
                factors = elim_delta(factors)
                break
        m, s = canon(factors)
        if s == 0 or c == 0:
            return
        v = self.t.get(m, 0) + c*s
        if v == 0:
            self.t.pop(m, None)
        else:
            self.t[m] = v

    # -- algebra
    def __add__(self, o):
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m, 0) + c
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
        return Poly(r)

    def __sub__(self, o):
        return self + o.scale(-1)

    def __neg__(self):
        return self.scale(-1)

    def scale(self, c):
        c = frac(c)
        if c == 0:
            return Poly()
        return Poly({m: v*c for m, v in self.t.items()})

    def __mul__(self, o):
        return mul_many([self, o])

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __hash__(self):
        return hash(frozenset(self.t.items()))

    def iszero(self):
        return not self.t

    def isconst(self):
        return not self.t or list(self.t) == [()]

    def constval(self):
        return self.t.get((), Fraction(0))

    def rename(self, fmap):
        """Replace indices by fmap (dict of index -> index); bound indices may be
        targets only if not already used (caller's responsibility)."""
        r = Poly()
        for m, c in self.t.items():
            r.add_raw([(n, tuple(fmap.get(x, x) for x in idx)) for n, idx in m], c)
        return r

    def permute(self, perm):
        """Free slot k of the result is free slot perm[k] of self."""
        inv = {p: k for k, p in enumerate(perm)}
        r = Poly()
        for m, c in self.t.items():
            r.add_raw([(n, tuple(('f', x[1], inv[x[2]]) if x[0] == 'f' else x for x in idx))
                       for n, idx in m], c)
        return r

    def names(self):
        return {n for m in self.t for n, _ in m}

    def select(self, pred):
        return Poly({m: c for m, c in self.t.items() if pred(m)})

    def degree_in(self, m, name):
        return sum(1 for n, _ in m if n == name)

    def __repr__(self):
        return self.text(8)

    def text(self, limit=None):
        if not self.t:
            return '0'
        out = []
        for k, (m, c) in enumerate(sorted(self.t.items(), key=repr)):
            if limit is not None and k >= limit:
                out.append('... (%d terms)' % len(self.t))
                break
            out.append('%s %s' % (c, mono_text(m)))
        return ' ; '.join(out)


def mono_text(m):
    def ix(x):
        if x[0] == 'f':
            return '#%d' % x[2]
        if x[0] == 'c':
            return '<%s>' % (x[2],)
        return '%s%d' % (x[1], x[2])
    return '*'.join('%s[%s]' % (n, ','.join(ix(x) for x in idx)) if idx else n for n, idx in m) or '1'


def shift_bound(m, off):
    return [(n, tuple(('d', x[1], x[2] + off) if x[0] == 'd' else x for x in idx)) for n, idx in m]


def nbound(m):
    k = -1
    for _, idx in m:
        for x in idx:
            if x[0] == 'd' and x[2] > k:
                k = x[2]
    return k + 1


def mul_many(polys, rename=None, bind=None):
    """Product of polynomials.  rename: per polynomial, dict of free slot -> new
    index applied before multiplying (new bound indices must use numbers >= 10**6
    so that they cannot clash)."""
    r = Poly()

    def rec(k, factors, c, off):
        if k == len(polys):
            r.add_raw(factors, c)
            return
        rn = rename[k] if rename else None
        for m, v in polys[k].t.items():
            fs = []
            for n, idx in m:
                ii = []
                for x in idx:
                    if x[0] == 'd':
                        x = ('d', x[1], x[2] + off)
                    elif x[0] == 'f' and rn is not None:
                        x = rn[x[2]]
                    ii.append(x)
                fs.append((n, tuple(ii)))
            rec(k + 1, factors + fs, c*v, off + nbound(m))
    rec(0, [], Fraction(1), 0)
    return r


def derivative(p, name, nfree, order=None):
    """Formal derivative of a scalar polynomial with respect to entries of tensor
    `name`, summed over its symmetry group with signs: the derivative with respect
    to the independent entries. Free slot k is index k of the tensor."""
    r = Poly()
    for m, c in p.t.items():
        for k, (n, idx) in enumerate(m):
            if n != name:
                continue
            rest = m[:k] + m[k+1:]
            for perm, s in group_of(name, len(idx)):
                # d/dX[f0,f1,..] with X[idx] = s * X[idx o perm]
                mp = {}
                deltas = []
                for slot, kk in enumerate(perm):
                    x = idx[kk]
                    if x[0] != 'd' or x in mp:
                        raise ValueError("derivative of a trace or of an open index")
                    mp[x] = ('f', x[1], slot)
                r.add_raw([(n2, tuple(mp.get(x, x) for x in i2)) for n2, i2 in rest], c*s)
    return r


def substitute(p, table):
    """Replace factors by polynomials. table: name -> function(idx tuple) giving a
    Poly whose indices are already the given ones, or None to keep."""
    r = Poly()
    for m, c in p.t.items():
        parts = [Poly({(): c})]
        keep = []
        for n, idx in m:
            f = table.get(n)
            q = f(idx) if f else None
            if q is None:
                keep.append((n, idx))
            else:
                parts.append(q)
        # multiply without renaming: indices in parts refer to m's bound indices
        acc = [(keep, Fraction(1))]
        for q in parts:
            acc = [(fs + list(mm), cc*vv) for fs, cc in acc for mm, vv in q.t.items()]
        for fs, cc in acc:
            r.add_raw(fs, cc)
    return r


def raw_poly(terms):
    """Poly from an iterable of (factors, coeff) with bound indices shared across
    factors; does NOT canonicalise bound names inside entries used in substitute."""
    r = Poly()
    for fs, c in terms:
        r.add_raw(fs, c)
    return r


declare('delta', [((1, 0), 1)], 2)
