"""Contract for CI coefficients from cluster amplitudes (P14).

Every accumulation C[index(det)] += value is a sum over loop variables of
amplitudes times a phase times a determinant.  The determinant is the reference
with holes i and particles a; when the phase is that of the operators
X(a1,i1) X(a2,i2) ..., the contribution is  sum c T.. T.. X_{a..;i..} |ref>, with X
antisymmetric in its particles and in its holes.  The contributions are compared
with exp(T1 + T2)|ref>, level by level."""
import itertools
import math
import random
from fractions import Fraction
from .e2 import z3, iv, isz, isint, isnum, Arr, Obj, Num, Tensor, Unsupported, Abstract, PyExc, rv, const, subst
from .e2unit import E2Unit, earlier, values
from .ci import (M, real, make, occ_of, phase_exponent, settle, prefix, UB, GB, invert, mentions, U_excite, P13_helpers, Multi,
                 ubasis_body, gbasis_body, gref, tup)

Z, R = z3.IntSort(), z3.RealSort()

# amplitude -> (spins of its particles, spins of its holes)
UAMP = {'T1a': ('a', 'a'), 'T1b': ('b', 'b'), 'T2aa': ('aa', 'aa'), 'T2ab': ('ab', 'ab'), 'T2bb': ('bb', 'bb')}
GAMP = {'T1': ('g', 'g'), 'T2': ('gg', 'gg')}


# -- basis by contract

class CBasis(Abstract):
    """All determinants with up to `order` moved electrons, the reference first."""
    def __init__(self, p, refs, order):
        self.p, self.refs, self.order = p, refs, order
        self.n = p.ctx.fresh('nd')
        p.ctx.add(self.n >= 1)
        self.depth = 0
        self.lookups = []

    def method(self, it, name, args, kw):
        if name != 'index' or len(args) != 1 or kw:
            return Abstract.method(self, it, name, args, kw)
        v = args[0] if isinstance(args[0], tuple) else (args[0],)
        if len(v) != len(self.refs):
            raise PyExc(ValueError, 'not in list')
        ps, level = [], 0
        for d, (n, base) in zip(v, self.refs):
            if d is None:
                raise PyExc(ValueError, 'not in list')
            a = occ_of(self.p, d)
            if not it.ctx.proves(iv(a.n) == iv(n)):
                raise Unsupported('length of a determinant')
            holes, parts = settle(self.p, a, base)
            if len(holes) != len(parts):
                raise PyExc(ValueError, 'not in list')
            level += len(holes)
            ps.append((a.clone(), holes, parts))
        if level > self.order:
            raise PyExc(ValueError, 'not in list')
        if level == 0:
            return 0
        pos = it.ctx.fresh('pos')
        it.ctx.add(z3.And(pos >= 1, pos < self.n))
        self.lookups.append((pos, ps))
        return pos


def ubasis_stub(order):
    def stub(it, env):
        n, na, nb = env['n'], env['na'], env['nb']
        if env.get('gs', True) is not True or not all(isint(x) for x in (n, na, nb)):
            return NotImplemented
        if not it.ctx.proves(z3.And(iv(na) >= 0, iv(na) <= iv(n), iv(nb) >= 0, iv(nb) <= iv(n))):
            return NotImplemented
        b = CBasis(it.proof, [(n, prefix(na)), (n, prefix(nb))], order)
        it.proof.basis = b
        return b
    return stub


def gbasis_stub(order):
    def stub(it, env):
        nmo, n = env['nmo'], env['n']
        if env.get('gs', True) is not True or not isint(n) or not isint(nmo):
            return NotImplemented
        h = z3.simplify(iv(nmo)/2)
        nb = iv(n)/2
        na = iv(n) - nb
        if not it.ctx.proves(z3.And(2*h == iv(nmo), iv(n) >= 0, na <= h)):
            return NotImplemented
        b = CBasis(it.proof, [(nmo, lambda k: z3.If(k < h, prefix(na)(k), prefix(nb)(k - h)))], order)
        it.proof.basis = b
        return b
    return stub


# -- expected expansion

def expansion(amps, order):
    """Coefficients of the products of amplitudes in exp(T), by sorted product.
    An amplitude T with m particles and m holes per spin enters T as
    1/(particles! holes!) per spin times T X."""
    out = {}
    lev = {a: len(s[0]) for a, s in amps.items()}
    for k in range(1, order + 1):
        for combo in itertools.combinations_with_replacement(sorted(amps), k):
            if sum(lev[a] for a in combo) > order:
                continue
            c = Fraction(1)
            for a in set(combo):
                c /= math.factorial(combo.count(a))
            for a in combo:
                for half in amps[a]:
                    for s in set(half):
                        c /= math.factorial(half.count(s))
            out[combo] = c
    return out


def perm_sign(seq):
    s = 1
    seq = list(seq)
    for i in range(len(seq)):
        for j in range(i):
            if seq[j] > seq[i]:
                s = -s
    return s


def normal(amps, factors):
    """Sorted product of amplitudes and the sign that brings the particles and holes
    of X into the order in which the amplitudes use them; None if a position is used
    twice or left out.  factors: [(name, particle slots, hole slots)], slots (spin, number)."""
    fs = sorted(factors, key=lambda f: f[0])
    sign = 1
    for half in (1, 2):
        for spin in sorted({s for v in amps.values() for s in v[0]}):
            seq = [x[1] for f in fs for x in f[half] if x[0] == spin]
            if len(set(seq)) != len(seq):
                return None
            sign *= perm_sign(seq)
    return tuple(f[0] for f in fs), sign


def canon(factors):
    """Product of amplitudes as a function of its slots, doubles antisymmetric."""
    out, sign = [], 1
    for n, ps, hs in factors:
        if len(ps) == 2 and ps[0][0] == ps[1][0]:
            if ps[0] > ps[1]:
                ps, sign = (ps[1], ps[0]), -sign
            if hs[0] > hs[1]:
                hs, sign = (hs[1], hs[0]), -sign
        out.append((n, tuple(ps), tuple(hs)))
    return tuple(sorted(out)), sign


def relabel(factors, pm, hm):
    return [(n, tuple(pm.get(x, x) for x in ps), tuple(hm.get(x, x) for x in hs)) for n, ps, hs in factors]


def slot_perms(groups, fixed):
    """Permutations of the slots of each group, leaving fixed ones in place."""
    opts = []
    for g in groups:
        free = [x for x in g if x not in fixed]
        opts.append([dict(zip(free, q)) for q in itertools.permutations(free)])
    for combo in itertools.product(*opts):
        m = {}
        for d in combo:
            m.update(d)
        yield m


def map_sign(m):
    keys = sorted(m)
    return perm_sign([keys.index(m[k]) for k in keys]) if m else 1


def symmetric_sum(factors, slots_p, slots_h, chains):
    """Sum over increasing positions within each chain, as a fraction of the full sum:
    the sum over any rearrangement of a chain must be the same, possibly after
    renaming unconstrained summation variables."""
    groups_p, groups_h = {}, {}
    for x in slots_p:
        groups_p.setdefault(x[0], []).append(x)
    for x in slots_h:
        groups_h.setdefault(x[0], []).append(x)
    tied_p = {x for k, c in chains if k == 'p' for x in c}
    tied_h = {x for k, c in chains if k == 'h' for x in c}
    base, bs = canon(factors)
    frac = Fraction(1)
    for kind, c in chains:
        frac /= math.factorial(len(c))
        for x, y in zip(c, c[1:]):
            t = {x: y, y: x}
            f = relabel(factors, t if kind == 'p' else {}, t if kind == 'h' else {})
            ok = False
            for pm in slot_perms(groups_p.values(), tied_p):
                for hm in slot_perms(groups_h.values(), tied_h):
                    g, gs = canon(relabel(f, pm, hm))
                    if g == base and gs*map_sign(pm)*map_sign(hm)*(-1) == bs:
                        ok = True
                        break
                if ok:
                    break
            if not ok:
                return None
    return frac


# -- reading the accumulations

def flatten(x):
    """Factors of a real term: (rational, applications)."""
    if z3.is_rational_value(x):
        return x.as_fraction(), []
    if z3.is_mul(x):
        c, out = Fraction(1), []
        for y in x.children():
            d, l = flatten(y)
            c *= d
            out += l
        return c, out
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UMINUS:
        c, l = flatten(x.arg(0))
        return -c, l
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_DIV and z3.is_rational_value(x.arg(1)):
        c, l = flatten(x.arg(0))
        return c/x.arg(1).as_fraction(), l
    return Fraction(1), [x]


def parity_equal(p, e, f):
    d = z3.simplify(iv(e) - iv(f))
    if z3.is_int_value(d):
        return d.as_long() % 2 == 0
    return z3.simplify(d % 2 == 0)


class Reader(object):
    def __init__(self, p, basis, amps, spins, ranks):
        """ranks: per spin (hole rank, particle rank) as functions of an orbital."""
        self.p, self.basis, self.amps, self.spins, self.ranks = p, basis, amps, spins, ranks
        self.total = {}

    def effect(self, e):
        p, ctx = self.p, self.p.ctx
        if e.kind != 'add':
            raise Unsupported('coefficient set rather than added to')
        g = z3.And(*([e.guard] + [b.guard() for b in e.binders]))
        idx, val = e.data
        ctx.push()
        try:
            ctx.add(g)
            if ctx.solver.check() == z3.unsat:
                return
            if isinstance(idx, int) and idx == 0:
                p.need('post', 'coefficient of the reference', False)
                return
            ent = [l for l in self.basis.lookups if isz(idx) and l[0].eq(idx)]
            if not ent:
                raise Unsupported('coefficient position that is not a look-up')
            slots = {}
            exponent = z3.IntVal(0)
            for s, (arr, holes, parts) in zip(self.spins, ent[0][1]):
                cur = Arr(ctx, 'ndarray', arr.n, arr.k0, arr.expr)
                for k, (i, a) in enumerate(zip(holes, parts)):
                    slots['h', (s, k)] = i
                    slots['p', (s, k)] = a
                    exponent = exponent + phase_exponent(p, cur, i, a)
                    cur = cur.clone()
                    cur.updates += [(i, 0), (a, 1)]
            chains = self.region(e, g, slots)
            if chains is None:
                return
            for c, ex, fs in Num.of(val).terms:
                ok = parity_equal(p, ex, exponent)
                p.need('post', 'phase', ok)
                coef, apps = Fraction(c), []
                for f in fs:
                    d, l = flatten(f)
                    coef *= d
                    apps += l
                factors = self.factors(apps, slots)
                if factors is None:
                    return
                hp = [k[1] for k in slots if k[0] == 'p']
                hh = [k[1] for k in slots if k[0] == 'h']
                used = sorted(x for f in factors for x in f[1]), sorted(x for f in factors for x in f[2])
                nf = normal(self.amps, factors)
                if nf is None or used != (sorted(hp), sorted(hh)):
                    p.need('post', 'each moved electron belongs to one amplitude', False)
                    return
                frac = symmetric_sum(factors, hp, hh, chains)
                if frac is None:
                    raise Unsupported('restricted sum that is not symmetric')
                key, sign = nf
                self.total[key] = self.total.get(key, Fraction(0)) + coef*sign*frac
        finally:
            ctx.pop()

    def factors(self, apps, slots):
        ctx, p = self.p.ctx, self.p
        out = []
        for x in apps:
            nm = x.decl().name() if z3.is_app(x) else None
            if nm not in self.amps:
                raise Unsupported('factor %s' % str(x)[:80])
            up, low = self.amps[nm]
            got = []
            for half, spins, off in (('p', up, 0), ('h', low, len(up))):
                row = []
                for j, s in enumerate(spins):
                    t = x.arg(off + j)
                    rank = self.ranks[s][0 if half == 'h' else 1]
                    m = [k[1] for k, orb in slots.items() if k[0] == half and k[1][0] == s and ctx.proves(rank(iv(orb)) == t)]
                    if len(m) != 1:
                        p.need('post', 'amplitude index is that of a moved electron', False)
                        return None
                    row.append(m[0])
                got.append(tuple(row))
            out.append((nm, got[0], got[1]))
        return out

    def region(self, e, g, slots):
        """The loop variables run over all positions of the moved electrons, possibly
        in increasing order; returns the increasing chains."""
        p, ctx = self.p, self.p.ctx
        inv = {}
        for k, orb in slots.items():
            r = invert(iv(orb), e.binders)
            if r is None:
                raise Unsupported('positions are not loop variables')
            inv[k] = r
        ids = [b.v.get_id() for b, _ in inv.values()]
        if len(set(ids)) != len(ids) or len(ids) != len(e.binders):
            raise Unsupported('loop variables do not match the positions')
        # orderings implied by the guard
        less = {}
        groups = {}
        for k in slots:
            groups.setdefault((k[0], k[1][0]), []).append(k)
        for ks in groups.values():
            for x, y in itertools.permutations(ks, 2):
                if ctx.proves(iv(slots[x]) < iv(slots[y])):
                    less.setdefault(x, set()).add(y)
        chains = []
        rest = {k for k in slots if k in less or any(k in v for v in less.values())}
        while rest:
            k = rest.pop()
            comp = {k}
            todo = [k]
            while todo:
                x = todo.pop()
                for y in list(rest):
                    if y in less.get(x, ()) or x in less.get(y, ()):
                        comp.add(y)
                        rest.discard(y)
                        todo.append(y)
            order = sorted(comp, key=lambda x: -len(less.get(x, ())))
            for x, y in itertools.combinations(order, 2):
                if y not in less.get(x, ()):
                    raise Unsupported('partial order of the loop variables')
            chains.append((order[0][0], [x[1] for x in order]))
        # every choice of positions is visited
        ctx.pop()
        try:
            names = {k: z3.Int('slot_%s_%s%d' % (k[0], k[1][0], k[1][1])) for k in slots}
            fs = []
            for k, v in names.items():
                n, base = self.basis.refs[self.spins.index(k[1][0])]
                fs += [v >= 0, v < iv(n), iv(base(v)) == (1 if k[0] == 'h' else 0)]
            for ks in groups.values():
                for x, y in itertools.combinations(ks, 2):
                    fs.append(names[x] != names[y])
            for kind, c in chains:
                for x, y in zip(c, c[1:]):
                    fs.append(names[kind, x] < names[kind, y])
            pairs = [(b.v, z3.simplify(names[k] - off)) for k, (b, off) in inv.items()]
            ctx.push()
            try:
                for f in fs:
                    ctx.add(f)
                if ctx.solver.check() == z3.unsat:
                    raise Unsupported('no excitation of this class')
                ok = p.need('post', 'every excitation of the class is visited', z3.substitute(g, *pairs))
            finally:
                ctx.pop()
        finally:
            ctx.push()
            ctx.add(g)
        return chains if ok else None

    def compare(self, order, dims):
        p = self.p
        want = expansion(self.amps, order)
        for key in sorted(set(want) | set(self.total)):
            a, b = self.total.get(key, Fraction(0)), want.get(key, Fraction(0))
            p.record('post', 'coefficient of ' + '*'.join(key), a == b, '%s, expected %s' % (a, b),
                     None if a == b else dims(key), backend='engine (normal form of products of amplitudes)')


def amp_post(p, order, amps, spins, ranks, tensors, dims):
    def post(C):
        if not isinstance(C, Arr) or getattr(p, 'basis', None) is None:
            raise Unsupported('coefficient vector')
        p.need('post', 'length', iv(C.n) == iv(p.basis.n))
        one = [u for u in C.updates]
        if len(one) != 1 or const(C.expr) != 0:
            raise Unsupported('coefficient vector written outside the loops')
        p.need('post', 'reference has coefficient 1', z3.And(iv(one[0][0]) == 0, rv(one[0][1]) == 1))
        rd = Reader(p, p.basis, amps, spins, ranks)
        for e in C.effects:
            rd.effect(e)
        rd.compare(order, dims)
    return post


def amp_tensor(name, dims):
    fn = z3.Function(name, *([Z]*len(dims) + [R]))
    return Tensor(name, dims, fn)


def u_body(order):
    def body(p):
        noa, nva, nob, nvb = [p.int(x, 0) for x in ('noa', 'nva', 'nob', 'nvb')]
        p.assume(noa + nva == nob + nvb)
        n = z3.simplify(noa + nva)
        p.ctx.intervals += [(z3.IntVal(0), noa), (z3.IntVal(0), nob)]
        o, v = {'a': noa, 'b': nob}, {'a': nva, 'b': nvb}
        ts = [amp_tensor(t, [v[s] for s in UAMP[t][0]] + [o[s] for s in UAMP[t][1]]) for t in ('T1a', 'T1b', 'T2aa', 'T2ab', 'T2bb')]
        ranks = {s: (lambda x: x, lambda x, s=s: x - o[s]) for s in 'ab'}

        def dims(key):
            k = {s: sum(UAMP[t][0].count(s) for t in key) for s in 'ab'}
            m = max(2*k['a'], 2*k['b'])
            return {'noa': k['a'], 'nva': m - k['a'], 'nob': k['b'], 'nvb': m - k['b']}
        p.run(lambda: p.it.call(p.it.get(M, 'makeCfromT'), [noa, nva, nob, nvb] + ts, {'order': order}),
              amp_post(p, order, UAMP, ['a', 'b'], ranks, ts, dims))
    return body


def g_body(order, given):
    def body(p):
        ctx = p.ctx
        h = p.int('half', 0)
        no, nv = p.int('no', 0), p.int('nv', 0)
        p.assume(no + nv == 2*h)
        nb = no/2
        na = no - nb
        p.assume(na <= h)

        def base(k):
            return z3.If(k < h, prefix(na)(k), prefix(nb)(k - h))
        ts = [amp_tensor('T1', [nv, no]), amp_tensor('T2', [nv, nv, no, no])]

        def hrank(x):
            k = ctx.fresh('k')
            return ctx.psum(k, base(k), x, 2*h)

        def prank(x):
            k = ctx.fresh('k')
            return ctx.psum(k, 1 - base(k), x, 2*h)
        # the number of occupied and empty orbitals (extent of the amplitudes): lemma by
        # induction on the number of orbitals counted

        def below(x, m):
            return z3.If(x < m, x, m)

        def occupied(x):
            return z3.If(x <= h, below(x, na), na + below(x - h, nb))
        x = ctx.fresh('x')
        lemmas = [('nothing to count', occupied(iv(0)) == 0),
                  ('one more orbital', z3.Implies(z3.And(x >= 0, x < 2*h), occupied(x + 1) == occupied(x) + base(x))),
                  ('all occupied orbitals', occupied(2*h) == no),
                  ('all empty orbitals', 2*h - occupied(2*h) == nv)]
        for label, f in lemmas:
            if not p.need('lemma', 'count of occupied orbitals: ' + label, f):
                raise RuntimeError('%s: lemma on the count of occupied orbitals fails' % p.name)
        p.assume(hrank(2*h) == no)
        p.assume(prank(2*h) == nv)
        kw = {'order': order}
        if given:
            k0 = ctx.fresh('k')
            kw['occ'] = Arr(ctx, given, z3.simplify(no + nv), k0, base(k0))

        def dims(key):
            k = sum(len(GAMP[t][0]) for t in key)
            m = (k + 1)//2
            return {'half': 2*m, 'no': 2*m, 'nv': 2*m}
        p.run(lambda: p.it.call(p.it.get(M, 'gmakeCfromT'), [no, nv] + ts, kw),
              amp_post(p, order, GAMP, ['g'], {'g': (hrank, prank)}, ts, dims))
    return body


# -- real code: exp(T) by applying the operators

def move(d, i, a):
    if not d[i] or d[a]:
        return 0, None
    s = sum(d[:i])
    e = list(d)
    e[i] = 0
    s += sum(e[:a])
    e[a] = 1
    return (-1 if s % 2 else 1), tuple(e)


def level_tol(ref, ops):
    """The rounding allowed in a coefficient: relative to the largest products of
    amplitudes that move as many electrons."""
    size = max([0.0] + [abs(t)**(1.0/k) for t, k, _ in ops])

    def tol(det):
        moved = sum(x == 1 and y == 0 for r, d in zip(ref, det) for x, y in zip(r, d))
        return 1e-12*size**moved if moved else 1e-15
    return tol


def exponential(ref, ops, order):
    """Coefficients of exp(T)|ref> up to the level; ops: [(value, level, moves)], a move
    being (part, i, a)."""
    total = {ref: 1.0}
    cur = {(ref, 0): 1.0}
    for k in range(1, order + 1):
        new = {}
        for (d, l), c in cur.items():
            for val, lev, moves in ops:
                if l + lev > order:
                    continue
                s, e = 1, list(d)
                for part, i, a in moves:
                    f, e2 = move(e[part], i, a)
                    s *= f
                    if not s:
                        break
                    e[part] = e2
                if s:
                    key = (tuple(e), l + lev)
                    new[key] = new.get(key, 0.0) + s*val*c/k
        cur = new
        for (d, _), c in cur.items():
            total[d] = total.get(d, 0.0) + c
    return total


def anti(x):
    x = x - x.transpose((1, 0, 2, 3))
    return x - x.transpose((0, 1, 3, 2))


def u_configs(order):
    small = {1: [(2, 1, 1, 2), (1, 3, 3, 1), (2, 3, 2, 3)], 2: [(2, 2, 2, 2), (1, 3, 2, 2), (3, 1, 1, 3), (2, 3, 3, 2)],
             3: [(2, 2, 2, 2), (1, 3, 2, 2), (3, 3, 1, 5), (1, 5, 3, 3), (2, 2, 1, 3)],
             4: [(2, 2, 2, 2), (2, 2, 1, 3), (4, 4, 0, 8), (0, 8, 4, 4), (3, 3, 1, 5), (1, 5, 3, 3), (3, 2, 2, 3)]}[order]

    def cfg(rng, j, fixed):
        d = small[j % len(small)]
        if fixed and all(k in fixed for k in ('noa', 'nva', 'nob', 'nvb')):
            d = tuple(fixed[k] for k in ('noa', 'nva', 'nob', 'nvb'))
        elif j >= len(small):
            n = rng.choice([2, 3, 4])
            d = (rng.randrange(n + 1), rng.randrange(n + 1))
            d = (d[0], n - d[0], d[1], n - d[1])
            if j % 20 == 11 and order == 1:
                d = (1, 65, 1, 65)
        return {'dims': list(d), 'seed': rng.randrange(10**6), 'mode': j % 8}
    return cfg


def u_concrete(order):
    def run(cf):
        import numpy
        c = real()
        noa, nva, nob, nvb = cf['dims']
        g = numpy.random.default_rng(cf['seed'])
        n = noa + nva
        mode = cf.get('mode', 0)
        T1a, T1b = values(g, (nva, noa), mode), values(g, (nvb, nob), mode)
        Taa, Tbb = anti(values(g, (nva, nva, noa, noa), mode)), anti(values(g, (nvb, nvb, nob, nob), mode))
        Tab = values(g, (nva, nvb, noa, nob), mode)
        if mode == 7 and T1a.shape == T1b.shape:
            # the same arrays for both spins
            T1b, Tbb = T1a, (Taa if cf['seed'] % 2 else Tbb)
        args = [T1a, T1b, Taa, Tab, Tbb]
        keep = [x.copy() for x in args]
        call = lambda: c.makeCfromT(noa, nva, nob, nvb, *args, order=order)
        if mode % 2:
            earlier(call, *args)
        got = call()
        basis = getattr(c, UB[order])(n, noa, nob)
        ops = []
        for s, (T1, T2, no, nv) in enumerate(((T1a, Taa, noa, nva), (T1b, Tbb, nob, nvb))):
            for i in range(no):
                for a in range(nv):
                    ops.append((T1[a, i], 1, [(s, i, no + a)]))
                    for j in range(i + 1, no):
                        for b in range(a + 1, nv):
                            ops.append((T2[a, b, i, j], 2, [(s, j, no + b), (s, i, no + a)]))
        for i in range(noa):
            for a in range(nva):
                for j in range(nob):
                    for b in range(nvb):
                        ops.append((Tab[a, b, i, j], 2, [(1, j, nob + b), (0, i, noa + a)]))
        ref = tuple(tuple(1 if k < m else 0 for k in range(n)) for m in (noa, nob))
        want = exponential(ref, ops, order)
        tol = level_tol(ref, ops)
        who = 'order %d, noa=%d nva=%d nob=%d nvb=%d' % (order, noa, nva, nob, nvb)
        if len(got) != len(basis):
            return [('post', 'length', who)]
        for x, d in zip(got, basis):
            w = want.get((tup(d[0]), tup(d[1])), 0.0)
            if not abs(x - w) <= tol((tup(d[0]), tup(d[1]))):
                return [('post', 'coefficient', '%s: determinant %s|%s has %r, expected %r' % (who, tup(d[0]), tup(d[1]), x, w))]
        if any((x != y).any() for x, y in zip(args, keep)):
            return [('frame', 'amplitudes', who)]
        return []
    return run


def g_configs(order):
    small = {1: [(2, 2), (3, 3), (1, 3)], 2: [(2, 2), (3, 3), (2, 4), (4, 2)], 3: [(2, 2), (3, 3), (3, 1), (4, 2)],
             4: [(2, 2), (4, 4), (3, 3), (3, 1), (2, 4)]}[order]

    def cfg(rng, j, fixed):
        d = small[j % len(small)]
        if fixed and 'no' in fixed and 'nv' in fixed:
            d = (fixed['no'], fixed['nv'])
        elif j % 20 == 11 and order == 1:
            d = (2, 64)
        return {'dims': list(d), 'seed': rng.randrange(10**6), 'mode': j % 8}
    return cfg


def g_concrete(order, given):
    def run(cf):
        import numpy
        c = real()
        no, nv = cf['dims']
        if (no + nv) % 2 or no - no//2 > (no + nv)//2:
            return []
        g = numpy.random.default_rng(cf['seed'])
        mode = cf.get('mode', 0)
        T1, T2 = values(g, (nv, no), mode), anti(values(g, (nv, nv, no, no), mode))
        keep = T1.copy(), T2.copy()
        occ = gref((no + nv)//2, no)
        kw = {'occ': list(occ)} if given else {}
        call = lambda: c.gmakeCfromT(no, nv, T1, T2, order=order, **kw)
        if mode % 2:
            earlier(call, T1, T2)
        got = call()
        basis = getattr(c, GB[order])(no + nv, no)
        o = [k for k, x in enumerate(occ) if x]
        v = [k for k, x in enumerate(occ) if not x]
        ops = []
        for i in range(no):
            for a in range(nv):
                ops.append((T1[a, i], 1, [(0, o[i], v[a])]))
                for j in range(i + 1, no):
                    for b in range(a + 1, nv):
                        ops.append((T2[a, b, i, j], 2, [(0, o[j], v[b]), (0, o[i], v[a])]))
        want = exponential((tuple(occ),), ops, order)
        tol = level_tol((tuple(occ),), ops)
        who = 'order %d, no=%d nv=%d' % (order, no, nv)
        if len(got) != len(basis):
            return [('post', 'length', who)]
        for x, d in zip(got, basis):
            w = want.get((tup(d),), 0.0)
            if not abs(x - w) <= tol((tup(d),)):
                return [('post', 'coefficient', '%s: determinant %s has %r, expected %r' % (who, tup(d), x, w))]
        if (T1 != keep[0]).any() or (T2 != keep[1]).any():
            return [('frame', 'amplitudes', who)]
        return []
    return run


def P14_helpers(log):
    hs = P13_helpers(log)
    for k in (1, 2, 3, 4):
        hs.append(E2Unit(UB[k], [M + '.' + UB[k]], ubasis_body(k, None), None, None, ubasis_stub(k), log=log))
        hs.append(E2Unit(GB[k], [M + '.' + GB[k]], gbasis_body(k, None), None, None, gbasis_stub(k), log=log))
    return hs


def P14(log):
    us = []
    for k in (1, 2, 3, 4):
        us.append(E2Unit('makeCfromT, order %d' % k, [M + '.makeCfromT'], u_body(k), u_configs(k), u_concrete(k), log=log, maxsize=8))
        for given in (None, 'list'):
            us.append(E2Unit('gmakeCfromT, order %d, %s' % (k, 'reference given' if given else 'default reference'), [M + '.gmakeCfromT'],
                             g_body(k, given), g_configs(k), g_concrete(k, given), log=log, maxsize=8))
    return us
