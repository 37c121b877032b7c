"""Specification generator: coupled-cluster energy, residuals, Lagrangian and their
derivatives, derived from the definition <Phi| exp(-T) H_N exp(T) |0> by Wick's
theorem.  Nothing here looks at the code under verification.

H_N = F_pq {p+ q} + 1/4 I_pqrs {p+ q+ s r}, T1 = t_ai {a+ i},
T2 = 1/4 t_abij {a+ b+ j i}, <Phi_i^a| = <0| i+ a, <Phi_ij^ab| = <0| i+ j+ b a.
"""
from fractions import Fraction
from itertools import product
from math import factorial
from functools import lru_cache
from .poly import Poly, declare, derivative

A2 = [((1, 0, 2, 3), -1), ((0, 1, 3, 2), -1)]
# the nine stored blocks of an antisymmetrised two-body tensor
BLOCKS = {'vvvv': A2, 'vvvo': A2[:1], 'vovv': A2[1:], 'vvoo': A2, 'vovo': [],
          'oovv': A2, 'vooo': A2[1:], 'ooov': A2[:1], 'oooo': A2}
for _b, _g in BLOCKS.items():
    declare('I.' + _b, _g, 4)
declare('T2', A2, 4)
declare('L2', A2, 4)


def std_block(idx):
    """Map I[pqrs] (spaces given by idx) to a stored block: (name, idx, sign)."""
    sp = ''.join(x[1] for x in idx)
    for pa, sa in (((0, 1), 1), ((1, 0), -1)):
        for pb, sb in (((2, 3), 1), ((3, 2), -1)):
            p = (pa[0], pa[1], pb[0], pb[1])
            s2 = ''.join(sp[k] for k in p)
            if s2 in BLOCKS:
                return 'I.' + s2, tuple(idx[k] for k in p), sa*sb
    raise ValueError(sp)


def _wick(ops):
    """All full contractions of a product of normal-ordered groups.
    ops: list of (kind '+'|'-', space, index id, group). Yields (sign, pairs)."""
    n = len(ops)

    def rec(rem):
        if not rem:
            yield 1, []
            return
        f = rem[0]
        kf, sf, _, gf = ops[f]
        # left operator must be i+ (hole) or a (particle)
        if not ((kf == '+' and sf == 'o') or (kf == '-' and sf == 'v')):
            return
        want = '-' if kf == '+' else '+'
        for pos in range(1, len(rem)):
            g = rem[pos]
            kg, sg, _, gg = ops[g]
            if gg == gf or sg != sf or kg != want:
                continue
            sgn = -1 if (pos - 1) % 2 else 1
            for s, pairs in rec(rem[1:pos] + rem[pos+1:]):
                yield s*sgn, [(f, g)] + pairs
    return rec(tuple(range(n)))


def project(bra, ham, amps, connected=True):
    """<bra| ham amps |0> / n! summed over spaces of the general indices.
    bra: '' | 'S' | 'D'; ham: 'F' | 'I'; amps: tuple of 1 and 2 (T1, T2)."""
    out = Poly()
    braops, bfree = {
        '': ([], {}),
        'S': ([('+', 'o', 'i'), ('-', 'v', 'a')], {'a': 0, 'i': 1}),
        'D': ([('+', 'o', 'i'), ('+', 'o', 'j'), ('-', 'v', 'b'), ('-', 'v', 'a')],
              {'a': 0, 'b': 1, 'i': 2, 'j': 3})}[bra]
    coef0 = Fraction(1, factorial(len(amps)))
    ampops = []
    ampf = []
    for k, r in enumerate(amps):
        if r == 1:
            ampops += [('+', 'v', 'a%d' % k, k + 2), ('-', 'o', 'i%d' % k, k + 2)]
            ampf.append(('T1', ('a%d' % k, 'i%d' % k)))
        else:
            ampops += [('+', 'v', 'a%d' % k, k + 2), ('+', 'v', 'b%d' % k, k + 2),
                       ('-', 'o', 'j%d' % k, k + 2), ('-', 'o', 'i%d' % k, k + 2)]
            ampf.append(('T2', ('a%d' % k, 'b%d' % k, 'i%d' % k, 'j%d' % k)))
            coef0 /= 4
    nr = 2 if ham == 'F' else 4
    for sp in product('ov', repeat=nr):
        if ham == 'F':
            hops = [('+', sp[0], 'p', 1), ('-', sp[1], 'q', 1)]
            hidx = ('p', 'q')
            hsp = dict(zip(hidx, sp))
            coef = coef0
        else:
            hidx = ('p', 'q', 'r', 's')
            hsp = dict(zip(hidx, sp))
            hops = [('+', sp[0], 'p', 1), ('+', sp[1], 'q', 1),
                    ('-', sp[3], 's', 1), ('-', sp[2], 'r', 1)]
            coef = coef0/4
        ops = [(a, b, c, 0) for a, b, c in braops] + hops + ampops
        for s, pairs in _wick(ops):
            if connected:
                touched = set()
                for x, y in pairs:
                    if ops[x][3] == 1:
                        touched.add(ops[y][3])
                if any((k + 2) not in touched for k in range(len(amps))):
                    continue
            rep = {}
            nb = 0
            for x, y in pairs:
                ia, ib, space = ops[x][2], ops[y][2], ops[x][1]
                if ops[x][3] == 0 and ia in bfree:
                    v = ('f', space, bfree[ia])
                else:
                    v = ('d', space, nb)
                    nb += 1
                rep[ia] = v
                rep[ib] = v
            hi = tuple(rep[h] for h in hidx)
            if ham == 'F':
                facs = [('F.' + hi[0][1] + hi[1][1], hi)]
                sg = s
            else:
                nm, ii, s2 = std_block(hi)
                facs = [(nm, ii)]
                sg = s*s2
            facs += [(n, tuple(rep[x] for x in ix)) for n, ix in ampf]
            out.add_raw(facs, coef*sg)
    return out


@lru_cache(None)
def component(bra, ham, amps):
    """Component of the projection with the given multiset of amplitudes; amps is a
    sorted tuple such as (1, 1, 2).  All orderings of the exponential included."""
    from math import comb
    n1, n2 = amps.count(1), amps.count(2)
    return project(bra, ham, amps).scale(comb(n1 + n2, n1))


@lru_cache(None)
def projection(bra, kinds=(1, 2)):
    """Full CC projection ('' energy, 'S', 'D') with T1/T2 as listed."""
    out = Poly()
    for ham, mx in (('F', 2), ('I', 4)):
        for n in range(0, mx + 1):
            for n2 in range(0, n + 1):
                amps = (1,)*(n - n2) + (2,)*n2
                if any(a not in kinds for a in amps):
                    continue
                out = out + component(bra, ham, amps)
    return out


def close(p, name, slots):
    """Contract free slots of p with tensor `name`: slots lists, for each index of
    the tensor, the free slot it meets."""
    r = Poly()
    for m, c in p.t.items():
        fs = {}

        def b(x):
            if x[0] == 'f':
                fs[x[2]] = x[1]
                return ('d', x[1], 1000 + x[2])
            return x
        facs = [(n, tuple(b(x) for x in idx)) for n, idx in m]
        facs.append((name, tuple(('d', fs[s], 1000 + s) for s in slots)))
        r.add_raw(facs, c)
    return r


@lru_cache(None)
def lagrangian(kinds=(1, 2), lkinds=(1, 2), energy=None):
    """E + L1.R1 + 1/4 L2.R2; energy: optional scalar name weighting E."""
    e = projection('', kinds)
    if energy is not None:
        r = Poly()
        for m, c in e.t.items():
            r.add_raw(list(m) + [(energy, ())], c)
        e = r
    out = e
    if 1 in lkinds:
        out = out + close(projection('S', kinds), 'L1', (1, 0))
    if 2 in lkinds:
        out = out + close(projection('D', kinds), 'L2', (2, 3, 0, 1)).scale(Fraction(1, 4))
    return out


def grad(L, name):
    return derivative(L, name, None)
