"""Spin integration of spin-orbital polynomials.

A spin-orbital tensor entry with every index given a spin is an entry of an
alpha/beta ("unrestricted") tensor, up to sign, or zero.  For closed-shell input the
unrestricted tensors are expressed by the spatial ones.
"""
from fractions import Fraction
from itertools import product
from .poly import Poly, declare
from .wick import BLOCKS, A2

PAIR = [((1, 0, 3, 2), 1)]
for _s in ('a', 'b'):
    for _b, _g in BLOCKS.items():
        declare('I%s.%s' % (_s, _b), _g, 4)
for _n in ('T2aa', 'T2bb', 'L2aa', 'L2bb'):
    declare(_n, A2, 4)

# spatial (closed shell): particle exchange symmetry I[pqrs] = I[qpsr]
R_BLOCKS = ['vvvv', 'vvvo', 'vovv', 'vvoo', 'vovo', 'ovvo', 'oovv', 'vooo', 'ooov', 'oooo']
FULL = [''.join(x) for x in product('vo', repeat=4)]
for _b in ('vvvv', 'vvoo', 'oovv', 'oooo', 'ovvo'):
    if _b == 'ovvo':
        continue
    declare('R.' + _b, PAIR, 4)
declare('RT2', PAIR, 4)
declare('RL2', PAIR, 4)


def r_entry(idx):
    """Spatial integral entry: choose the stored representative of {pqrs, qpsr}."""
    sp = ''.join(x[1][0] for x in idx)
    sw = sp[1] + sp[0] + sp[3] + sp[2]
    if sp < sw:         # 'o' < 'v': prefer the larger, e.g. vovv over ovvv
        return ('R.' + sw, (idx[1], idx[0], idx[3], idx[2]))
    return ('R.' + sp, tuple(idx))


def u_map(name, idx, spins):
    """Unrestricted factor for a spin-orbital one: (factor, sign) or None.
    idx already carry spin-labelled segments."""
    if name in ('T1', 'L1'):
        return ((name + spins[0], idx), 1) if spins[0] == spins[1] else None
    if name.startswith('F.'):
        return (('F%s.%s' % (spins[0], name[2:]), idx), 1) if spins[0] == spins[1] else None
    if name in ('T2', 'L2') or name.startswith('I.'):
        if sorted(spins[:2]) != sorted(spins[2:]):
            return None
        if spins[0] == spins[1]:
            if name in ('T2', 'L2'):
                return ((name + spins[0]*2, idx), 1)
            return (('I%s.%s' % (spins[0], name[2:]), idx), 1)
        sg = 1
        i = list(idx)
        if spins[0] == 'b':
            i[0], i[1] = i[1], i[0]
            sg = -sg
        if spins[2] == 'b':
            i[2], i[3] = i[3], i[2]
            sg = -sg
        i = tuple(i)
        if name in ('T2', 'L2'):
            return ((name + 'ab', i), sg)
        return (('Iab.' + ''.join(x[1][0] for x in i), i), sg)
    if not idx:
        return ((name, idx), 1)
    raise KeyError(name)


def unrestricted(p, free):
    """p: spin-orbital polynomial (segments o, v); free: spins of the free slots,
    e.g. 'abab'. Result over segments oa, ob, va, vb."""
    r = Poly()
    for m, c in p.t.items():
        ds = sorted({x for _, idx in m for x in idx if x[0] == 'd'}, key=repr)
        for sp in product('ab', repeat=len(ds)):
            mp = dict(zip(ds, sp))
            facs = []
            cc = c
            for n, idx in m:
                spins = tuple(free[x[2]] if x[0] == 'f' else mp[x] for x in idx)
                ii = tuple((x[0], x[1] + s, x[2]) for x, s in zip(idx, spins))
                f = u_map(n, ii, spins)
                if f is None:
                    cc = 0
                    break
                facs.append(f[0])
                cc = cc*f[1]
            if cc:
                r.add_raw(facs, cc)
    return r


def _unspin(x):
    return (x[0], x[1][0], x[2])


def r_map(n, idx):
    """Spatial expression (list of (factor, coeff)) of an unrestricted factor."""
    i = tuple(_unspin(x) for x in idx)
    if n in ('T1a', 'T1b', 'L1a', 'L1b'):
        return [(('R' + n[:2], i), 1)]
    if n[:3] in ('Fa.', 'Fb.'):
        return [(('F.' + n[3:], i), 1)]
    if n in ('T2ab', 'L2ab'):
        return [(('R' + n[:2], i), 1)]
    if n in ('T2aa', 'T2bb', 'L2aa', 'L2bb'):
        return [(('R' + n[:2], i), 1), (('R' + n[:2], (i[0], i[1], i[3], i[2])), -1)]
    if n.startswith('Iab.'):
        return [(r_entry(i), 1)]
    if n[:3] in ('Ia.', 'Ib.'):
        return [(r_entry(i), 1), (r_entry((i[0], i[1], i[3], i[2])), -1)]
    if not idx:
        return [((n, idx), 1)]
    raise KeyError(n)


def restricted(pu):
    """Closed-shell form of an unrestricted polynomial."""
    r = Poly()
    for m, c in pu.t.items():
        acc = [([], c)]
        for n, idx in m:
            opts = r_map(n, idx)
            acc = [(fs + [f], cc*s) for fs, cc in acc for f, s in opts]
        for fs, cc in acc:
            # distinct bound indices of equal number but different spin segments
            r.add_raw(fs, cc)
    return r
