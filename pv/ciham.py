"""Contracts for CI matrix elements (P15) and for operators on CI vectors (P16)."""
import random
from .e2 import z3, iv, isz, isint, isnum, Arr, Obj, Num, Tensor, Unsupported, Abstract, PyExc, rv, const, Effect, subst
from .e2unit import E2Unit, earlier, values
from .ci import M, real, make, occ_of, parity, level_stub, U_level, U_excite, is_none_pair, phase_exponent
from . import ci

R = z3.RealSort()
Z = z3.IntSort()


def tensor(p, name, n, rank, sym=False):
    fn = z3.Function(name, *([Z]*rank + [R]))
    if sym:
        p.ctx.syms[name] = [(1, 0, 3, 2)]
    return Tensor(name, [n]*rank, fn), fn


# ------------------------------------------------------------------- P15

class Moved(object):
    """Bra and ket of one spin: a common core with m electrons moved.
    ket = core + o_1 < ... < o_m, bra = core + v_1 < ... < v_m."""
    def __init__(self, p, tag, n, m):
        ctx = p.ctx
        self.p, self.n, self.m = p, n, m
        core, self.c = p.bits('core' + tag, n)
        self.o = [p.int('o%d%s' % (k + 1, tag), 0) for k in range(m)]
        self.v = [p.int('v%d%s' % (k + 1, tag), 0) for k in range(m)]
        pts = self.o + self.v
        ctx.points += pts
        for x in pts:
            p.assume(x < n)
            p.assume(self.c(x) == 0)
        if len(pts) > 1:
            p.assume(z3.Distinct(*pts))
        for q in (self.o, self.v):
            if m == 2:
                p.assume(q[0] < q[1])
        self.core = core
        k = core.k0
        self.bra_arr = Arr(ctx, 'ndarray', n, k, core.expr, [(x, 1) for x in self.v] + [(x, 0) for x in self.o])
        self.ket_arr = Arr(ctx, 'ndarray', n, k, core.expr, [(x, 1) for x in self.o] + [(x, 0) for x in self.v])
        self.bra, self.ket = make(p, 'Dstring', n, self.bra_arr), make(p, 'Dstring', n, self.ket_arr)

    def exponent(self):
        """Electrons of the core passed when the m electrons are removed and created."""
        e = z3.IntVal(0)
        for x in self.o + self.v:
            e = e + self.p.ctx.sum_range(self.core, 0, x)
        return e

    def occupied(self, k):
        """k is occupied in both."""
        return self.c(k) == 1

    def unchanged(self):
        for nm, d, pos in (('bra', self.bra, self.v), ('ket', self.ket, self.o)):
            a = occ_of(self.p, d)
            self.p.pointwise('frame', nm + ' unchanged', a, self.n,
                             lambda k: z3.If(z3.Or(self.c(k) == 1, *[k == x for x in pos]), z3.IntVal(1), z3.IntVal(0)))


class Far(object):
    """Bra and ket of one spin with d moved electrons, d arbitrary."""
    def __init__(self, p, tag, n, d):
        a, self.f = p.bits('bra' + tag, n)
        b, self.g = p.bits('ket' + tag, n)
        k = p.ctx.fresh('k')
        D = p.ctx.psum(k, z3.If(self.f(k) != self.g(k), z3.IntVal(1), z3.IntVal(0)), n, n)
        p.assume(D == 2*d)      # equal particle numbers
        self.bra, self.ket = make(p, 'Dstring', n, a), make(p, 'Dstring', n, b)

    def unchanged(self):
        pass


def total(p, dims, guard, val):
    """Sum over all positions of val where guard holds."""
    from .e2 import Binder
    bs = [Binder(p.ctx.fresh('s'), 0, n) for n in dims]
    vs = [b.v for b in bs]
    g = z3.And(*([b.guard() for b in bs] + [guard(*vs)]))
    return p.it.real_sum(bs, g, val(*vs))


def one_spin_diag(p, w, h, I):
    n = w.n
    e = total(p, [n], w.occupied, lambda i: h(i, i))
    J = total(p, [n, n], lambda i, j: z3.And(w.occupied(i), w.occupied(j)), lambda i, j: I(i, j, i, j))
    K = total(p, [n, n], lambda i, j: z3.And(w.occupied(i), w.occupied(j)), lambda i, j: I(i, j, j, i))
    return e + (J - K)/2


def one_spin_single(p, w, h, I):
    """h[v,o] + sum over the common electrons of I[v,k,o,k] - I[v,k,k,o]."""
    o, v = w.o[0], w.v[0]
    J = total(p, [w.n], w.occupied, lambda k: I(v, k, o, k))
    K = total(p, [w.n], w.occupied, lambda k: I(v, k, k, o))
    return h(v, o) + J - K


def one_spin_double(w, I):
    (o1, o2), (v1, v2) = w.o, w.v
    return I(v1, v2, o1, o2) - I(v1, v2, o2, o1)


def finish(p, want, ws, tensors, v):
    if not isnum(v):
        raise Unsupported('matrix element')
    p.need('post', 'matrix element', rv(v) == want)
    for w in ws:
        w.unchanged()


def gmat_body(m):
    def body(p):
        n = p.int('n', 1)
        h, hf = tensor(p, 'h', n, 2)
        I, If = tensor(p, 'I', n, 4, True)
        const_ = z3.Real('const')
        if m == 'far':
            d = p.int('d', 3)
            w = Far(p, '', n, d)
        else:
            w = Moved(p, '', n, m)
        call = lambda: p.it.call(p.it.get(M, 'gci_matrixel'), [w.bra, w.ket, h, I, const_], {})

        def post(v):
            if m == 'far':
                want = z3.RealVal(0)
            elif m == 0:
                want = one_spin_diag(p, w, hf, If) + const_
            else:
                s = parity(w.exponent())
                want = s*(one_spin_single(p, w, hf, If) if m == 1 else one_spin_double(w, If))
            finish(p, want, [w], (h, I), v)
        p.run(call, post)
    return body


def mat_body(ma, mb):
    def body(p):
        n = p.int('n', 1)
        ha, fa = tensor(p, 'ha', n, 2)
        hb, fb = tensor(p, 'hb', n, 2)
        Ia, ga = tensor(p, 'Ia', n, 4, True)
        Ib, gb = tensor(p, 'Ib', n, 4, True)
        Iab, gab = tensor(p, 'Iabab', n, 4)
        const_ = z3.Real('const')
        if ma == 'far':
            da, db = p.int('da', 0), p.int('db', 0)
            p.assume(da + db >= 3)
            a, b = Far(p, 'a', n, da), Far(p, 'b', n, db)
        else:
            a, b = Moved(p, 'a', n, ma), Moved(p, 'b', n, mb)
        call = lambda: p.it.call(p.it.get(M, 'ci_matrixel'), [a.bra, b.bra, a.ket, b.ket, ha, hb, Ia, Ib, Iab, const_], {})

        def post(v):
            if ma == 'far':
                want = z3.RealVal(0)
            else:
                s = parity(a.exponent() + b.exponent())
                if (ma, mb) == (0, 0):
                    want = one_spin_diag(p, a, fa, ga) + one_spin_diag(p, b, fb, gb) + const_
                    want = want + total(p, [n, n], lambda i, j: z3.And(a.occupied(i), b.occupied(j)), lambda i, j: gab(i, j, i, j))
                elif (ma, mb) == (1, 0):
                    o, w = a.o[0], a.v[0]
                    want = s*(one_spin_single(p, a, fa, ga) + total(p, [n], b.occupied, lambda k: gab(w, k, o, k)))
                elif (ma, mb) == (0, 1):
                    o, w = b.o[0], b.v[0]
                    want = s*(one_spin_single(p, b, fb, gb) + total(p, [n], a.occupied, lambda k: gab(k, w, k, o)))
                elif (ma, mb) == (1, 1):
                    want = s*gab(a.v[0], b.v[0], a.o[0], b.o[0])
                elif (ma, mb) == (2, 0):
                    want = s*one_spin_double(a, ga)
                else:
                    want = s*one_spin_double(b, gb)
            finish(p, want, [a, b], (ha, hb, Ia, Ib, Iab), v)
        p.run(call, post)
    return body


# real code: Fock-space evaluation

def apply_ops(occ, ops):
    """Product of (create?, p), rightmost first, on an occupation tuple."""
    s, o = 1, list(occ)
    for cre, q in reversed(ops):
        if o[q] == (1 if cre else 0):
            return 0, None
        if sum(o[:q]) % 2:
            s = -s
        o[q] = 1 if cre else 0
    return s, tuple(o)


def fock_element(bra, ket, h, I):
    """<bra| sum h p+ q + 1/2 sum I[pqrs] p+ q+ s r |ket>, by applying the operators."""
    n = len(ket)
    bra, ket = tuple(bra), tuple(ket)
    tot = 0.0
    occ = [k for k in range(n) if ket[k]]
    need = [k for k in range(n) if bra[k] and not ket[k]]
    if len(need) > 2:
        return 0.0
    bo = [k for k in range(n) if bra[k]]
    for q in occ:
        for p_ in bo:
            s, o = apply_ops(ket, [(True, p_), (False, q)])
            if s and o == bra:
                tot += s*h[p_, q]
    for r in occ:
        for t in occ:
            if r == t:
                continue
            for p_ in bo:
                for q in bo:
                    if p_ == q:
                        continue
                    s, o = apply_ops(ket, [(True, p_), (True, q), (False, t), (False, r)])
                    if s and o == bra:
                        tot += 0.5*s*I[p_, q, r, t]
    return tot


def sym_random(rng, n, mode=0):
    I = values(rng, (n,)*4, mode)
    return I + I.transpose((1, 0, 3, 2))


def pick(rng, n, m, e):
    """Bra and ket with e common electrons and m moved ones."""
    idx = list(range(n))
    rng.shuffle(idx)
    o, v, c = idx[:m], idx[m:2*m], idx[2*m:2*m + e]
    bra, ket = [0]*n, [0]*n
    for x in o:
        ket[x] = 1
    for x in v:
        bra[x] = 1
    for x in c:
        bra[x] = ket[x] = 1
    return bra, ket


def mat_configs(ms):
    def cfg(rng, j, fixed):
        lo = max(1, 2*max(ms))
        n = max(lo, lo + rng.choice([0, 1, 2, 3, 4]))
        if j % 6 == 5:
            n = rng.choice([10, 18, 34] if len(ms) == 1 else [10, 14])
        if j % 30 == 11:
            n = 66      # more orbitals than bits in a machine integer
        fx = {k: v for k, v in (fixed or {}).items()}
        if 'n' in fx:
            n = min(max(lo, fx['n']), 40)
        return {'n': n, 'seed': rng.randrange(10**6), 'fixed': fx}
    return cfg


def with_model(cf, tag, m, n, rng):
    """Determinants with the moved orbitals of the counter-model."""
    fx = cf.get('fixed') or {}
    o = [fx.get('o%d%s' % (k + 1, tag)) for k in range(m)]
    v = [fx.get('v%d%s' % (k + 1, tag)) for k in range(m)]
    if None in o + v or any(not 0 <= x < n for x in o + v):
        return pick(rng, n, m, rng.randrange(0, n - 2*m + 1))
    bra, ket = [0]*n, [0]*n
    for k in range(n):
        if k not in o + v and rng.random() < 0.5:
            bra[k] = ket[k] = 1
    for x in o:
        ket[x] = 1
    for x in v:
        bra[x] = 1
    return bra, ket


def gmat_concrete(m):
    def run(cf):
        import numpy
        c = real()
        n = cf['n']
        rng = random.Random(cf['seed'])
        g = numpy.random.default_rng(cf['seed'])
        for t in range(12 if n < 60 else 2):
            k = m if m != 'far' else rng.randrange(3, min(5, n//2) + 1)
            bra, ket = with_model(cf, '', k, n, rng) if t % 2 and m != 'far' and n <= 14 \
                else pick(rng, n, k, rng.randrange(0, n - 2*k + 1) if n <= 14 else rng.randrange(0, 5))
            mode = t % 7
            h, I, const_ = values(g, (n, n), mode), sym_random(g, n, mode), g.uniform(-1, 1)
            b, q = c.Dstring(n, numpy.array(bra)), c.Dstring(n, numpy.array(ket))
            if bra == ket and t % 3 == 0:
                q = b
            h0, I0 = h.copy(), I.copy()
            call = lambda: c.gci_matrixel(b, q, h, I, const_)
            earlier(call, b.occ, h, I)
            got = call()
            want = fock_element(bra, ket, h0, I0) + (const_ if bra == ket else 0)
            who = 'bra=%s ket=%s' % (bra, ket)
            if not abs(got - want) <= 1e-13*(n*abs(h).max() + n*n*abs(I).max() + abs(want)):
                return [('post', 'matrix element', '%s gave %r, expected %r' % (who, got, want))]
            if list(b.occ) != bra or list(q.occ) != ket or (h != h0).any() or (I != I0).any():
                return [('frame', 'operands', who)]
        return []
    return run


class Blocks:
    """Spin-orbital integrals looked up in the spin blocks."""
    def __init__(self, n, *parts):
        self.n, self.parts = n, parts

    def __getitem__(self, idx):
        n = self.n
        s = tuple(x//n for x in idx)
        at = tuple(x % n for x in idx)
        if len(idx) == 2:
            return self.parts[s[0]][at] if s[0] == s[1] else 0.0
        if s[0] != s[2] or s[1] != s[3]:
            return 0.0
        if s[0] == s[1]:
            return self.parts[2 + s[0]][at]
        return self.parts[4][at if s[0] == 0 else (at[1], at[0], at[3], at[2])]


def so_integrals(n, ha, hb, Ia, Ib, Iab):
    import numpy
    if n > 12:
        return (Blocks(n, ha, hb, Ia, Ib, Iab),)*2
    h = numpy.zeros((2*n, 2*n))
    h[:n, :n], h[n:, n:] = ha, hb
    I = numpy.zeros((2*n,)*4)
    I[:n, :n, :n, :n], I[n:, n:, n:, n:] = Ia, Ib
    I[:n, n:, :n, n:] = Iab
    I[n:, :n, n:, :n] = Iab.transpose((1, 0, 3, 2))
    return h, I


def mat_concrete(ma, mb):
    def run(cf):
        import numpy
        c = real()
        n = cf['n']
        rng = random.Random(cf['seed'])
        g = numpy.random.default_rng(cf['seed'])
        for t in range(8 if n < 60 else 1):
            few = n//2 if n < 10 else 3
            if ma == 'far':
                ka, kb = rng.choice([(x, y) for x in range(few + 1) for y in range(few + 1) if x + y >= 3])
            else:
                ka, kb = ma, mb
            use = t % 2 and ma != 'far'
            rest = lambda k: rng.randrange(0, n - 2*k + 1) if n < 10 else rng.randrange(0, 4)
            da = with_model(cf, 'a', ka, n, rng) if use and n < 10 else pick(rng, n, ka, rest(ka))
            db = with_model(cf, 'b', kb, n, rng) if use and n < 10 else pick(rng, n, kb, rest(kb))
            mode = t % 7
            ha, hb = values(g, (n, n), mode), values(g, (n, n), mode)
            Ia, Ib, Iab, const_ = sym_random(g, n, mode), sym_random(g, n, mode), values(g, (n,)*4, mode), g.uniform(-1, 1)
            if rng.random() < 0.3:
                ha = hb
            if rng.random() < 0.3:
                Ia = Ib
            args = (ha, hb, Ia, Ib, Iab)
            keep = [x.copy() for x in args]
            ds = [c.Dstring(n, numpy.array(x)) for x in (da[0], db[0], da[1], db[1])]
            if rng.random() < 0.5:
                # equal determinants may be one object
                ds = [next(e for e in ds if list(e.occ) == list(d.occ)) for d in ds]
            call = lambda: c.ci_matrixel(*(ds + list(args) + [const_]))
            if t % 2:
                earlier(call, ds[0].occ, ds[3].occ, *args)
            got = call()
            h, I = so_integrals(n, *keep)
            bra, ket = da[0] + db[0], da[1] + db[1]
            want = fock_element(bra, ket, h, I) + (const_ if bra == ket else 0)
            who = 'bra=%s|%s ket=%s|%s' % (da[0], db[0], da[1], db[1])
            if not abs(got - want) <= 1e-13*(abs(want) + n*n*max([abs(x).max() for x in keep])):
                return [('post', 'matrix element', '%s gave %r, expected %r' % (who, got, want))]
            if [list(d.occ) for d in ds] != [da[0], db[0], da[1], db[1]] or any((x != y).any() for x, y in zip(args, keep)):
                return [('frame', 'operands', who)]
        return []
    return run


GCASES = [(0, 'equal determinants'), (1, 'one electron moved'), (2, 'two electrons moved'), ('far', 'three or more moved')]
CASES = [(0, 0), (1, 0), (0, 1), (1, 1), (2, 0), (0, 2)]


def P15_helpers(log):
    return [U_level('diff', log)]


def P15(log):
    us = []
    for m, what in GCASES:
        us.append(E2Unit('gci_matrixel, ' + what, [M + '.gci_matrixel'], gmat_body(m), mat_configs([m if m != 'far' else 3]),
                         gmat_concrete(m), log=log, maxsize=14))
    for a, b in CASES:
        us.append(E2Unit('ci_matrixel, %d alpha and %d beta moved' % (a, b), [M + '.ci_matrixel'], mat_body(a, b), mat_configs([a, b]),
                         mat_concrete(a, b), log=log, maxsize=8))
    us.append(E2Unit('ci_matrixel, three or more moved', [M + '.ci_matrixel'], mat_body('far', 'far'), mat_configs([2]),
                     mat_concrete('far', 'far'), log=log, maxsize=8))
    return us


# ------------------------------------------------------------------- P16

class Basis(Abstract):
    """Arbitrary list of nb determinants (or alpha/beta pairs) without duplicates.
    Look-ups are recorded: (determinant parts, membership, position)."""
    def __init__(self, p, n, nb, spins):
        self.p, self.norb, self.n, self.spins = p, n, nb, spins
        self.f = []
        self.lookups = []
        self.depth = 0
        for s in spins:
            f = z3.Function('basis' + s, Z, Z, Z)
            p.ctx.bits['basis' + s] = True
            self.f.append(f)

    def part(self, s, k):
        ctx = self.p.ctx
        j = ctx.fresh('k')
        d = make(self.p, 'Dstring', self.norb, Arr(ctx, 'ndarray', self.norb, j, self.f[s](k, j), depth=0))
        d.depth = 0
        d.ghost = ('elem', s, k)
        for a in d.attrs.values():
            if isinstance(a, Arr):
                a.depth = 0
        return d

    def at(self, k):
        k = iv(k)
        if len(self.spins) == 1:
            return self.part(0, k)
        return tuple(self.part(s, k) for s in range(len(self.spins)))

    def parts(self, v):
        v = v if isinstance(v, tuple) else (v,)
        if len(v) != len(self.spins) or not all(isinstance(x, Obj) for x in v):
            return None
        return [occ_of(self.p, x) for x in v]

    def lookup(self, v):
        ps = self.parts(v)
        if ps is None:
            raise Unsupported('look-up of something else')
        for ent in self.lookups:
            if all(self.same(x, y) for x, y in zip(ent[0], ps)):
                return ent
        ctx = self.p.ctx
        # arrays may change later: keep what was looked up
        ent = ([a.clone() for a in ps], ctx.fresh('member', 'Bool'), ctx.fresh('pos'))
        self.lookups.append(ent)
        return ent

    def same(self, x, y):
        ctx = self.p.ctx
        k = ctx.fresh('q')
        g = z3.And(k >= 0, k < self.norb)
        return ctx.proves(z3.Implies(g, iv(x.at(k)) == iv(y.at(k))))

    def contains(self, it, v):
        return self.lookup(v)[1]

    def method(self, it, name, args, kw):
        if name == 'index' and len(args) == 1 and not kw:
            ent = self.lookup(args[0])
            if not it.truth(ent[1]):
                raise PyExc(ValueError, 'not in list')
            it.ctx.add(z3.And(ent[2] >= 0, ent[2] < self.n))
            return ent[2]
        return Abstract.method(self, it, name, args, kw)


class Image(object):
    """Image of a basis element under a list of moves (spin, from, to), by the contract
    of the excitation operation."""
    def __init__(self, p, basis, k, moves):
        ctx = p.ctx
        arrs = []
        for s in range(len(basis.spins)):
            j = ctx.fresh('k')
            arrs.append(Arr(ctx, 'ndarray', basis.norb, j, basis.f[s](k, j)))
        can, e = [], z3.IntVal(0)
        for s, i, a in moves:
            w = arrs[s]
            can += [iv(w.at(i)) == 1, iv(w.at(a)) == 0]
            e = e + phase_exponent(p, w, i, a)
            w2 = w.clone()
            w2.updates += [(i, 0), (a, 1)]
            arrs[s] = w2
        self.arrs, self.can, self.exponent = arrs, z3.And(*can), e


def effects_of(out):
    """What loops added to an array, as a list of effects."""
    if out.updates:
        raise Unsupported('elements written outside the loop')
    if not (const(out.expr) == 0 if not isinstance(out.expr, Num) else not out.expr.terms):
        raise Unsupported('output is not a sum of contributions')
    return out.effects


def op_body(fname, spins, nmoves, spin_of):
    """spin_of: spin index of each move."""
    def body(p):
        ctx = p.ctx
        n = p.int('n', 1)
        nb = p.int('nb', 0)
        idx = [p.int('x%d' % k, 0) for k in range(2*nmoves)]
        for x in idx:
            p.assume(x < n)
        basis = Basis(p, n, nb, spins)
        vec, vf = p.reals('vec', nb)
        k0, expr = vec.k0, vec.expr
        # arguments: (i, a) or (i, j, a, b)
        moves = [(spin_of[k], idx[k], idx[nmoves + k]) for k in range(nmoves)]

        def post(out):
            if not isinstance(out, Arr):
                raise Unsupported('output vector')
            p.need('post', 'length', iv(out.n) == nb)
            p.need('frame', 'new vector', out is not vec)
            p.unchanged('vector passed in', vec, k0, expr)
            effs = effects_of(out)
            ctx.push()
            try:
                b = effs[0].binders[0].v if effs else ctx.fresh('i')
                if any(len(e.binders) != 1 or e.kind != 'add' for e in effs):
                    raise Unsupported('contributions')
                gs = []
                for e in effs:
                    sub = [(e.binders[0].v, b)]
                    p.need('post', 'one contribution per basis element',
                           z3.And(iv(e.binders[0].lo) == 0, iv(e.binders[0].hi) == nb))
                    gs.append((z3.substitute(e.guard, *sub), subst(e.data[0], sub), subst(e.data[1], sub)))
                ctx.add(z3.And(b >= 0, b < nb))
                im = Image(p, basis, b, moves)
                members = []
                for ent in basis.lookups:
                    arrs = [Arr(ctx, a.kind, a.n, a.k0, a.expr, a.updates) for a in ent[0]]
                    ctx.push()
                    ctx.add(im.can)
                    ok = all(basis.same(x, y) for x, y in zip(arrs, im.arrs))
                    ctx.pop()
                    if ok:
                        members.append(ent)
                for j, (g, ix, val) in enumerate(gs):
                    ctx.push()
                    ctx.add(g)
                    if ctx.solver.check() != z3.unsat:
                        p.need('post', 'contributes only if the move is possible', im.can)
                        hit = [ent for ent in members if isz(ix) and ent[2].eq(ix)]
                        p.need('post', 'goes to the position of the image', bool(hit))
                        p.need('post', 'phase times coefficient', rv(val) == parity(im.exponent)*vf(b))
                    ctx.pop()
                    for h, _, _ in gs[:j]:
                        p.need('post', 'contributes once', z3.Not(z3.And(g, h)))
                reach = z3.Or(*[g for g, _, _ in gs]) if gs else z3.BoolVal(False)
                p.need('post', 'contributes whenever the image is in the basis',
                       z3.Implies(z3.And(im.can, *[ent[1] for ent in members]), reach))
            finally:
                ctx.pop()
        p.run(lambda: p.it.call(p.it.get(M, fname), [basis, vec] + idx, {}), post)
    return body


def ham_body(fname, element, spins):
    def body(p):
        ctx = p.ctx
        n = p.int('n', 1)
        nb = p.int('nb', 0)
        basis = Basis(p, n, nb, spins)
        vec, vf = p.reals('vec', nb)
        k0, expr = vec.k0, vec.expr
        if len(spins) == 1:
            ts = [tensor(p, 'h', n, 2)[0], tensor(p, 'I', n, 4, True)[0]]
        else:
            ts = [tensor(p, 'ha', n, 2)[0], tensor(p, 'hb', n, 2)[0], tensor(p, 'Ia', n, 4, True)[0],
                  tensor(p, 'Ib', n, 4, True)[0], tensor(p, 'Iabab', n, 4)[0]]
        m = 2*len(spins)
        MEL = z3.Function('element', *([Z]*m + [R]))
        DEL = z3.Function('equal', *([Z]*m + [R]))

        def stub(it, env):
            a = list(env.values())
            if len(a) != m + len(ts) + 1:
                return NotImplemented
            ks = []
            for j, d in enumerate(a[:m]):
                if not (isinstance(d, Obj) and d.ghost and d.ghost[1] == j % len(spins)):
                    return NotImplemented
                arr = occ_of(p, d)
                if arr.updates or arr.effects:
                    return NotImplemented
                ks.append(iv(d.ghost[2]))
            if any(x is not y for x, y in zip(a[m:], ts)) or not isnum(a[-1]):
                return NotImplemented
            v = MEL(*ks)
            return v if const(a[-1]) == 0 else v + rv(a[-1])*DEL(*ks)
        p.it.stubs[M + '.' + element] = stub

        def want(i, j):
            return vf(j)*MEL(*([i]*len(spins) + [j]*len(spins)))

        def post(out):
            if not isinstance(out, Arr):
                raise Unsupported('output vector')
            p.need('post', 'length', iv(out.n) == nb)
            p.need('frame', 'new vector', out is not vec)
            p.unchanged('vector passed in', vec, k0, expr)
            i = ctx.fresh('q')
            spec = total(p, [nb], lambda j: z3.And(i >= 0, i < nb), lambda j: want(i, j))
            ctx.push()
            try:
                ctx.add(z3.And(i >= 0, i < nb))
                if not out.effects:
                    p.need('post', 'component', rv(out.at(i)) == spec)
                    return
                got = Num([])
                for e in effects_of(out):
                    if e.kind != 'add':
                        raise Unsupported('contributions')
                    row = [b for b in e.binders if isz(e.data[0]) and b.v.eq(e.data[0])]
                    if len(row) != 1 or len(e.binders) != 2:
                        raise Unsupported('contributions')
                    col = [b for b in e.binders if b is not row[0]]
                    p.need('post', 'all rows', z3.And(iv(row[0].lo) == 0, iv(row[0].hi) == nb))
                    sub = [(row[0].v, i)]
                    got = got + Num.of(p.it.real_sum(col, z3.substitute(e.guard, *sub), subst(e.data[1], sub)))
                p.need('post', 'component', rv(got) == spec)
            finally:
                ctx.pop()
        p.run(lambda: p.it.call(p.it.get(M, fname), [basis, vec] + ts, {}), post)
    return body


# real code

def op_configs(rng, j, fixed):
    n = rng.choice([2, 3, 4, 5, 6])
    if j % 6 == 5:
        n = rng.choice([20, 40, 70, 140, 300])
    fx = fixed or {}
    if 'n' in fx:
        n = max(1, fx['n'])
    return {'n': n, 'seed': rng.randrange(10**6), 'fixed': fx}


def random_basis(rng, n, nspin, most, idx=()):
    seen = []
    for _ in range(most):
        d = tuple(tuple(rng.randrange(2) for _ in range(n)) for _ in range(nspin))
        if n > 12:
            # neighbours of one determinant
            d = [list(x) for x in (rng.choice(seen) if seen else d)]
            for x in d:
                for _ in range(rng.randrange(0, 3)):
                    i, a = (rng.choice(idx) if idx and rng.random() < 0.7 else rng.randrange(n) for _ in range(2))
                    if rng.random() < 0.15:
                        a = min(n - 1, i + rng.choice([16, 31, 32, 61, 63, 64]))
                    x[i], x[a] = x[a], x[i]
            d = tuple(tuple(x) for x in d)
        elif rng.random() < 0.7:
            d = tuple(tuple(1 if k in rng.sample(range(n), (n + 1)//2) else 0 for k in range(n)) for _ in range(nspin))
        if d not in seen:
            seen.append(d)
    return seen


def objects(c, basis):
    import numpy
    n = len(basis[0][0]) if basis else 0
    out = []
    for d in basis:
        x = tuple(c.Dstring(n, numpy.array(s)) for s in d)
        out.append(x if len(x) > 1 else x[0])
    return out


def op_concrete(fname, nspin, nmoves, spin_of):
    def run(cf):
        import numpy
        c = real()
        n = cf['n']
        rng = random.Random(cf['seed'])
        g = numpy.random.default_rng(cf['seed'])
        for t in range(20):
            idx = [rng.randrange(n) for _ in range(2*nmoves)]
            if n <= 4 and t < 4:
                import itertools
                strs = list(itertools.product((0, 1), repeat=n))
                basis = [d for d in itertools.product(strs, repeat=nspin)]
                rng.shuffle(basis)
                basis = basis[:rng.choice([len(basis), max(1, len(basis)//2)])][:256]
            else:
                basis = random_basis(rng, n, nspin, rng.choice([1, 5, 20, 40]), idx)
            if t % 2:
                idx = [cf['fixed'].get('x%d' % k, idx[k]) for k in range(2*nmoves)]
                if any(not 0 <= x < n for x in idx):
                    continue
            elif nmoves == 2 and 4 <= n <= 12 and t % 4 == 0:
                idx = rng.sample(range(n), 4)
            vec = values(g, len(basis), t % 7)
            if t % 5 == 4:
                # a vector of integers
                vec = numpy.array([rng.randrange(-3, 4) for _ in basis], dtype=int)
            keep = vec.copy()
            want = numpy.zeros(len(basis))
            pos = {d: k for k, d in enumerate(basis)}
            for k, d in enumerate(basis):
                s, cur = 1, list(d)
                for m in range(nmoves):
                    i, a = idx[m], idx[nmoves + m]
                    f = 0
                    if cur[spin_of[m]][i] == 1 and cur[spin_of[m]][a] == 0:
                        f, new = apply_ops(cur[spin_of[m]], [(True, a), (False, i)])
                    if not f:
                        s = 0
                        break
                    s *= f
                    cur[spin_of[m]] = new
                if s and tuple(cur) in pos:
                    want[pos[tuple(cur)]] += s*vec[k]
            obs = objects(c, basis)
            call = lambda: getattr(c, fname)(obs, vec, *idx)
            if t % 2:
                earlier(call, obs, vec)
            got = call()
            who = '%s indices=%s basis=%s' % (fname, idx, basis if len(basis) < 8 else '%d determinants' % len(basis))
            if got.shape != want.shape or not numpy.allclose(got, want, rtol=1e-12, atol=1e-14*max(abs(vec))):
                return [('post', 'vector', '%s gave %s, expected %s' % (who, list(got)[:8], list(want)[:8]))]
            if (vec != keep).any() or got is vec:
                return [('frame', 'vector passed in', who)]
        return []
    return run


def ham_concrete(fname, nspin):
    def run(cf):
        import numpy
        c = real()
        n = min(cf['n'], 6)
        rng = random.Random(cf['seed'])
        g = numpy.random.default_rng(cf['seed'])
        if cf['n'] == 70:
            n = 66
        for t in range(5 if n < 60 else 1):
            mode = cf['seed'] % 7 if t > 1 else 0
            basis = []
            if n > 60:
                # two electrons among many orbitals
                for k in range(6):
                    at = [rng.sample(range(60, n) if k % 2 else range(n), 2) for _ in range(nspin)]
                    basis.append(tuple(tuple(1 if q in x else 0 for q in range(n)) for x in at))
                basis = list(dict.fromkeys(basis))
            for d in random_basis(rng, n, nspin, 40 if n < 60 else 0):
                if all(sum(x) == (n + 1)//2 for x in d):
                    basis.append(d)
            basis = basis[:8]
            if not basis:
                continue
            obs = objects(c, basis)
            vec = values(g, len(basis), mode)
            if t == 4:
                vec = vec*10.0**-g.integers(6, 17)
            if t == 1:
                vec = g.integers(-3, 4, len(basis))
            keep = vec.copy()
            if nspin == 1:
                ts = [values(g, (n, n), mode), sym_random(g, n, mode)]
                h, I = ts
            else:
                ts = [values(g, (n, n), mode), values(g, (n, n), mode), sym_random(g, n, mode), sym_random(g, n, mode),
                      values(g, (n,)*4, mode)]
                if t == 3:
                    ts[1], ts[3] = ts[0], ts[2]
                h, I = so_integrals(n, *ts)
            H = numpy.array([[fock_element(sum(b, ()), sum(k, ()), h, I) for k in basis] for b in basis])
            call = lambda: getattr(c, fname)(obs, vec, *ts)
            if t % 2:
                earlier(call, obs if t == 1 else [], *ts)
            got = call()
            who = '%s n=%d, %d determinants' % (fname, n, len(basis))
            if got.shape != vec.shape or not numpy.allclose(got, H @ keep, rtol=1e-12, atol=1e-13*n*n*max(abs(x).max() for x in ts)*abs(keep).max()):
                return [('post', 'vector', who)]
            if (vec != keep).any() or got is vec:
                return [('frame', 'vector passed in', who)]
        return []
    return run


OPS = [('s_on_vec', [''], 1, [0]), ('sa_on_vec', ['a', 'b'], 1, [0]), ('sb_on_vec', ['a', 'b'], 1, [1]),
       ('d_on_vec', [''], 2, [0, 0]), ('da_on_vec', ['a', 'b'], 2, [0, 0]), ('db_on_vec', ['a', 'b'], 2, [1, 1]),
       ('sasb_on_vec', ['a', 'b'], 2, [0, 1])]


def P16_helpers(log):
    return [U_excite(log)]


def P16(log):
    us = [E2Unit(f, [M + '.' + f], op_body(f, sp, k, so), op_configs, op_concrete(f, len(sp), k, so), log=log, maxsize=12)
          for f, sp, k, so in OPS]
    us.append(E2Unit('H_on_vec', [M + '.H_on_vec'], ham_body('H_on_vec', 'ci_matrixel', ['a', 'b']), op_configs,
                     ham_concrete('H_on_vec', 2), log=log, maxsize=12))
    us.append(E2Unit('gH_on_vec', [M + '.gH_on_vec'], ham_body('gH_on_vec', 'gci_matrixel', ['']), op_configs,
                     ham_concrete('gH_on_vec', 1), log=log, maxsize=12))
    return us
