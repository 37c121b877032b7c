"""Contracts of the coupled-cluster routines (cc_equations, cc_energy)."""
from fractions import Fraction
from functools import lru_cache
from .poly import Poly, declare
from . import wick, spin
from .wick import projection, lagrangian, grad, component, BLOCKS, A2
from .contract import Contract, Spec, spec, scalar_spec

declare('X2.vvoo', A2, 4)
declare('X2.oovv', A2, 4)


# ---------------------------------------------------------------- specifications

@lru_cache(None)
def R(bra, kinds=(1, 2)):
    return projection(bra, kinds)


@lru_cache(None)
def linear(bra, kinds):
    """Part of the projection at most linear in the amplitudes."""
    return R(bra, kinds).select(lambda m: sum(n in ('T1', 'T2') for n, _ in m) <= 1)


@lru_cache(None)
def lam(which, kinds=(1, 2), lkinds=(1, 2)):
    """Lambda residual: derivative of the Lagrangian, slots (i,a) / (i,j,a,b)."""
    L = lagrangian(kinds, lkinds)
    if which == 1:
        return grad(L, 'T1').permute((1, 0))
    return grad(L, 'T2').permute((2, 3, 0, 1))


@lru_cache(None)
def dens(block):
    """Response density block: derivative of the Lagrangian (energy part weighted by
    tfac) with respect to the Fock or two-electron block."""
    L = lagrangian(energy='tfac')
    if len(block) == 2:
        return grad(L, 'F.' + block).permute((1, 0))
    return grad(L, 'I.' + block).permute((2, 3, 0, 1))


def weight(p, name, value=None):
    """Set the scalar `name` to one (value None) or keep it."""
    r = Poly()
    for m, c in p.t.items():
        r.add_raw([(n, i) for n, i in m if n != name], c)
    return r


def f(k, s):
    return ('f', s, k)


@lru_cache(None)
def ladder():
    """vvoo + particle-particle and hole-hole ladders + their product part."""
    p = R('D', (2,))

    def keep(m):
        names = [n for n, _ in m]
        if 'I.vvoo' in names or 'I.vvvv' in names or 'I.oooo' in names:
            return True
        if names.count('T2') == 2:
            # both doubles joined to the integral by two lines of one kind each
            (iname, ii), = [x for x in m if x[0] == 'I.oovv']
            for n, idx in m:
                if n != 'T2':
                    continue
                virt, occ = set(idx[:2]), set(idx[2:])
                k = (len(virt & set(ii[2:])), len(occ & set(ii[:2])))
                if k not in ((2, 0), (0, 2)):
                    return False
            return True
        return False
    return p.select(keep)


@lru_cache(None)
def ring():
    """Ring part in Riccati form, R = B + A T + T A + T B T over particle-hole pairs,
    with A[ai,ck] = -I[a,k,c,i], B[ai,bj] = I[a,b,i,j] resp. I[k,l,c,d]."""
    p = Poly.entry('I.vvoo', [f(0, 'v'), f(1, 'v'), f(2, 'o'), f(3, 'o')])
    a, b, i, j = f(0, 'v'), f(1, 'v'), f(2, 'o'), f(3, 'o')
    c, d, k, l = ('d', 'v', 0), ('d', 'v', 1), ('d', 'o', 2), ('d', 'o', 3)
    p.add_raw([('I.vovo', (b, k, c, j)), ('T2', (a, c, i, k))], Fraction(-1))
    p.add_raw([('I.vovo', (a, k, c, i)), ('T2', (b, c, j, k))], Fraction(-1))
    p.add_raw([('I.oovv', (k, l, c, d)), ('T2', (a, c, i, k)), ('T2', (d, b, l, j))], Fraction(1))
    return p


# ---------------------------------------------------------------- inputs

def F_so(B, tag='F'):
    return B.obj(tag, **{b: B.tensor('F.' + b, b) for b in ('oo', 'ov', 'vo', 'vv')})


def I_so(B, tag='I'):
    return B.obj(tag, **{b: B.tensor('I.' + b, b) for b in BLOCKS})


def us(block, spins):
    return tuple(x + s for x, s in zip(block, spins))


def F_u(B, s):
    return B.obj('F' + s, **{b: B.tensor('F%s.%s' % (s, b), us(b, s*2)) for b in ('oo', 'ov', 'vo', 'vv')})


def I_uu(B, s):
    return B.obj('I' + s, **{b: B.tensor('I%s.%s' % (s, b), us(b, s*4)) for b in BLOCKS})


def I_ab(B):
    return B.obj('Iab', **{b: B.tensor('Iab.' + b, us(b, 'abab')) for b in spin.FULL})


def amps_u(B, n, blk1, blk2):
    t1 = (B.tensor(n + '1a', us(blk1, 'aa')), B.tensor(n + '1b', us(blk1, 'bb')))
    t2 = (B.tensor(n + '2aa', us(blk2, 'aaaa')), B.tensor(n + '2ab', us(blk2, 'abab')),
          B.tensor(n + '2bb', us(blk2, 'bbbb')))
    return t1, t2


def r_block(b):
    """Spec of a spatial integral block (pair symmetric)."""
    idx = tuple(('f', s, k) for k, s in enumerate(b))
    n, i = spin.r_entry(idx)
    return spec(b, Poly.entry(n, i))


def I_r(B):
    return B.obj('I', **{b: B.array('I.' + b, r_block(b)) for b in spin.FULL})


def r_amp(B, n, blk):
    return B.tensor('R' + n, blk)


U_SEGS = ('oa', 'va', 'ob', 'vb')
SO_SEGS = ('o', 'v')


def T_so(B):
    return B.tensor('T1', 'vo'), B.tensor('T2', 'vvoo')


def L_so(B):
    return B.tensor('L1', 'ov'), B.tensor('L2', 'oovv')


# ---------------------------------------------------------------- public contracts

def so_residual(func, kinds, outs, args='FI'):
    def inputs(B):
        a = []
        if 'F' in args:
            a.append(F_so(B))
        a.append(I_so(B))
        if 1 in kinds:
            a.append(B.tensor('T1', 'vo'))
        a.append(B.tensor('T2', 'vvoo'))
        return tuple(a), {}

    def post(B, r):
        if len(outs) == 1:
            r = (r,)
        n = len(outs)
        r = tuple(r)
        if len(r) != n:
            raise ValueError('expected %d results' % n)
        return [(lab, x, spec(blk, p())) for (lab, blk, p), x in zip(outs, r)]
    return Contract(func, 'cc_equations', func, inputs, post, SO_SEGS, fresh=True,
                    styles=('plain', 'view', 'fortran'))


def P01():
    s = ('singles residual', 'vo')
    d = ('doubles residual', 'vvoo')
    return [
        so_residual('ccsd_simple', (1, 2), [s + (lambda: R('S'),), d + (lambda: R('D'),)]),
        so_residual('ccsd_stanton', (1, 2), [s + (lambda: R('S'),), d + (lambda: R('D'),)]),
        so_residual('lccsd_simple', (1, 2), [s + (lambda: linear('S', (1, 2)),), d + (lambda: linear('D', (1, 2)),)]),
        so_residual('ccd_simple', (2,), [d + (lambda: R('D', (2,)),)]),
        so_residual('ccd_stanton', (2,), [d + (lambda: R('D', (2,)),)]),
        so_residual('lccd_simple', (2,), [d + (lambda: linear('D', (2,)),)]),
        so_residual('ccd_ladder_simple', (2,), [d + (ladder,)], args='I'),
        so_residual('ccd_ring_simple', (2,), [d + (ring,)], args='I'),
    ]


U1 = (('a', 'aa'), ('b', 'bb'))
U2 = (('aa', 'aaaa'), ('ab', 'abab'), ('bb', 'bbbb'))


@lru_cache(None)
def U(key, free):
    """Unrestricted form of a named spin-orbital polynomial."""
    return spin.unrestricted(SO[key](), free)


@lru_cache(None)
def Rs(key, free):
    return spin.restricted(U(key, free))


SO = {
    'S': lambda: R('S'), 'D': lambda: R('D'), 'E': lambda: R(''),
    'L1': lambda: lam(1), 'L2': lambda: lam(2),
}
for _b in ('vv', 'oo', 'ov', 'vo') + tuple(BLOCKS):
    SO['P' + _b] = (lambda b: lambda: dens(b))(_b)


def P02():
    def in_u(B):
        t1, t2 = amps_u(B, 'T', 'vo', 'vvoo')
        return (F_u(B, 'a'), F_u(B, 'b'), I_uu(B, 'a'), I_uu(B, 'b'), I_ab(B), t1, t2), {}

    def post_u(B, r):
        (ra, rb), (raa, rab, rbb) = r
        return ([('singles ' + s, x, spec(us('vo', sp), U('S', sp))) for (s, sp), x in zip(U1, (ra, rb))]
                + [('doubles ' + s, x, spec(us('vvoo', sp), U('D', sp))) for (s, sp), x in zip(U2, (raa, rab, rbb))])

    def in_r(B):
        return (F_so(B), I_r(B), r_amp(B, 'T1', 'vo'), r_amp(B, 'T2', 'vvoo')), {}

    def post_r(B, r):
        a, b = r
        return [('singles', a, spec('vo', Rs('S', 'aa'))), ('doubles', b, spec('vvoo', Rs('D', 'abab')))]
    return [
        Contract('uccsd_stanton', 'cc_equations', 'uccsd_stanton', in_u, post_u, U_SEGS, fresh=True,
                 styles=('plain', 'view')),
        Contract('rccsd_stanton', 'cc_equations', 'rccsd_stanton', in_r, post_r, SO_SEGS, fresh=True,
                 styles=('plain', 'view')),
    ]


def P03():
    def inputs(B):
        t1, t2 = T_so(B)
        l1, l2 = L_so(B)
        return (F_so(B), I_so(B), l1, l2, t1, t2), {}

    def post(B, r):
        a, b = r
        return [('singles', a, spec('ov', lam(1))), ('doubles', b, spec('oovv', lam(2)))]
    out = [Contract(n, 'cc_equations', n, inputs, post, SO_SEGS, fresh=True, styles=('plain', 'view'))
           for n in ('ccsd_lambda_simple', 'ccsd_lambda_opt', 'ccsd_lambda_stanton')]

    def call_int(B, fn, args, kw):
        F, I, l1, l2, t1, t2 = args
        intor = B.module('cc_equations').lambda_int(F, I, t1, t2)
        return fn(F, I, l1, l2, t1, t2, intor)
    out.append(Contract('ccsd_lambda_opt_int', 'cc_equations', 'ccsd_lambda_opt_int', inputs, post,
                        SO_SEGS, fresh=True, call=call_int, styles=('plain', 'view')))

    def in_d(B):
        F, I = F_so(B), I_so(B)
        l2 = B.tensor('L2', 'oovv')
        return (F, I, l2, B.tensor('T2', 'vvoo')), {}

    def post_d(B, r):
        return [('doubles', r, spec('oovv', lam(2, (2,), (2,))))]
    out.append(Contract('ccd_lambda_simple', 'cc_equations', 'ccd_lambda_simple', in_d, post_d,
                        SO_SEGS, fresh=True, styles=('plain', 'view')))
    return out


def P04():
    def in_u(B):
        t1, t2 = amps_u(B, 'T', 'vo', 'vvoo')
        l1, l2 = amps_u(B, 'L', 'ov', 'oovv')
        return (F_u(B, 'a'), F_u(B, 'b'), I_uu(B, 'a'), I_uu(B, 'b'), I_ab(B), l1, l2, t1, t2), {}

    def post_u(B, r):
        (ra, rb), (raa, rab, rbb) = r
        return ([('singles ' + s, x, spec(us('ov', sp), U('L1', sp))) for (s, sp), x in zip(U1, (ra, rb))]
                + [('doubles ' + s, x, spec(us('oovv', sp), U('L2', sp))) for (s, sp), x in zip(U2, (raa, rab, rbb))])

    def in_r(B):
        return (F_so(B), I_r(B), r_amp(B, 'L1', 'ov'), r_amp(B, 'L2', 'oovv'),
                r_amp(B, 'T1', 'vo'), r_amp(B, 'T2', 'vvoo')), {}

    def post_r(B, r):
        a, b = r
        return [('singles', a, spec('ov', Rs('L1', 'aa'))), ('doubles', b, spec('oovv', Rs('L2', 'abab')))]
    return [
        Contract('uccsd_lambda_opt', 'cc_equations', 'uccsd_lambda_opt', in_u, post_u, U_SEGS, fresh=True,
                 styles=('plain', 'view'), maxdim=2),
        Contract('rccsd_lambda_opt', 'cc_equations', 'rccsd_lambda_opt', in_r, post_r, SO_SEGS, fresh=True,
                 styles=('plain', 'view')),
    ]


# density block names: routine suffix -> tensor block differentiated
DENS = {'ba': 'vv', 'ji': 'oo', 'ai': 'ov',
        'cdab': 'vvvv', 'ciab': 'vvvo', 'bcai': 'vovv', 'bjai': 'vovo', 'abij': 'oovv',
        'jkai': 'vooo', 'kaij': 'ooov', 'klij': 'oooo'}


def dens_segs(suffix):
    b = DENS[suffix]
    if len(b) == 2:
        return b[1] + b[0]
    return b[2:] + b[:2]


def P05():
    out = []

    def mk(name, suffix, tf):
        def inputs(B):
            t1, t2 = T_so(B)
            l1, l2 = L_so(B)
            kw = {'tfac': B.scalar('tfac')} if tf == 'kw' else {}
            return (t1, t2, l1, l2), kw

        def post(B, r):
            p = dens(DENS[suffix])
            if tf != 'kw':
                p = weight(p, 'tfac')
            return [('density ' + suffix, r, spec(dens_segs(suffix), p))]
        return Contract(name + ('(tfac)' if tf == 'kw' else ''), 'cc_equations', name, inputs, post, SO_SEGS,
                        fresh=True, scalars=('tfac',) if tf == 'kw' else (), styles=('plain', 'view'))
    for s in ('ba', 'ji', 'ai'):
        for opt in ('', '_opt'):
            out.append(mk('ccsd_1rdm_' + s + opt, s, ''))
            if s == 'ai':
                out.append(mk('ccsd_1rdm_' + s + opt, s, 'kw'))
    for s in ('cdab', 'ciab', 'bcai', 'bjai', 'abij', 'jkai', 'kaij', 'klij'):
        for opt in ('', '_opt'):
            if (s, opt) == ('jkai', '_opt') and not _has('ccsd_2rdm_jkai_opt'):
                continue
            out.append(mk('ccsd_2rdm_' + s + opt, s, ''))
            if s == 'abij':
                out.append(mk('ccsd_2rdm_' + s + opt, s, 'kw'))
    return out


def _has(name):
    from . import loader
    return hasattr(loader.real('cqcpy.cc_equations'), name)


# spin blocks returned by the unrestricted density routines, in order
UD = {'ba': ('aa', 'bb'), 'ji': ('aa', 'bb'), 'ai': ('aa', 'bb'),
      'ciab': ('aaaa', 'bbbb', 'abab', 'baba'), 'jkai': ('aaaa', 'bbbb', 'abab', 'baba'),
      'cdab': ('aaaa', 'bbbb', 'abab'), 'klij': ('aaaa', 'bbbb', 'abab'), 'abij': ('aaaa', 'bbbb', 'abab'),
      'bjai': ('aaaa', 'bbbb', 'abab', 'abba', 'baab', 'baba'),
      'bcai': ('aaaa', 'bbbb', 'abab', 'baba'), 'kaij': ('aaaa', 'bbbb', 'abab', 'baba')}


def P06():
    out = []

    def mku(suffix, tf):
        name = 'uccsd_%drdm_%s' % (1 if len(suffix) == 2 else 2, suffix)

        def inputs(B):
            t1, t2 = amps_u(B, 'T', 'vo', 'vvoo')
            l1, l2 = amps_u(B, 'L', 'ov', 'oovv')
            return t1 + t2 + l1 + l2, ({'tfac': B.scalar('tfac')} if tf else {})

        def post(B, r):
            r = tuple(r)
            if len(r) != len(UD[suffix]):
                raise ValueError('number of blocks')
            res = []
            for sp, x in zip(UD[suffix], r):
                p = U('P' + DENS[suffix], sp)
                if not tf:
                    p = weight(p, 'tfac')
                res.append(('density %s %s' % (suffix, sp), x, spec(us(dens_segs(suffix), sp), p)))
            return res
        return Contract(name + ('(tfac)' if tf else ''), 'cc_equations', name, inputs, post, U_SEGS, fresh=True,
                        scalars=('tfac',) if tf else (), styles=('plain', 'view'), maxdim=2)

    def mkr(name, suffix, sp, perm, tf):
        def inputs(B):
            return (r_amp(B, 'T1', 'vo'), r_amp(B, 'T2', 'vvoo'), r_amp(B, 'L1', 'ov'),
                    r_amp(B, 'L2', 'oovv')), ({'tfac': B.scalar('tfac')} if tf else {})

        def post(B, r):
            p = Rs('P' + DENS[suffix], sp)
            if not tf:
                p = weight(p, 'tfac')
            sg = dens_segs(suffix)
            if perm:
                p = p.permute(perm).scale(-1)
                sg = ''.join(sg[k] for k in perm)
            return [('density', r, spec(sg, p))]
        return Contract(name + ('(tfac)' if tf else ''), 'cc_equations', name, inputs, post, SO_SEGS, fresh=True,
                        scalars=('tfac',) if tf else (), styles=('plain', 'view'))
    for s in UD:
        out.append(mku(s, False))
        if s in ('ai', 'abij'):
            out.append(mku(s, True))
    for s in ('ba', 'ji', 'ai'):
        out.append(mkr('rccsd_1rdm_' + s, s, 'aa', None, False))
        out.append(mkr('rccsd_1rdm_' + s, s, 'aa', None, True))
    for s in ('ciab', 'jkai', 'cdab', 'bjai', 'klij', 'bcai', 'kaij', 'abij'):
        out.append(mkr('rccsd_2rdm_' + s, s, 'abab', None, False))
    # P[b,j,i,a] of opposite spins: minus the swapped abba block
    out.append(mkr('rccsd_2rdm_bjia', 'bjai', 'abba', (0, 1, 3, 2), False))
    return out


def P07():
    T1T1 = lambda m: [n for n, _ in m].count('T1') == 2
    E = R('')

    def sel(pred):
        return E.select(pred)
    deg1 = lambda m: sum(n in ('T1', 'T2') for n, _ in m) == 1

    def en(func, names, poly, call=None):
        def inputs(B):
            a = {'t1': lambda: B.tensor('T1', 'vo'), 't2': lambda: B.tensor('T2', 'vvoo'),
                 'f': lambda: B.tensor('F.ov', 'ov'), 'I': lambda: B.tensor('I.oovv', 'oovv'),
                 't1x': lambda: B.tensor('T1x', 'vo')}
            return tuple(a[n]() for n in names), {}

        def post(B, r):
            return [('energy', r, scalar_spec(poly))]
        return Contract(func, 'cc_energy', func, inputs, post, SO_SEGS, styles=('plain', 'view', 'integer'))
    s2 = sel(T1T1).scale(2)
    a, b, i, j = ('d', 'v', 0), ('d', 'v', 1), ('d', 'o', 2), ('d', 'o', 3)
    s2a = Poly()
    s2a.add_raw([('T1', (a, i)), ('T1x', (b, j)), ('I.oovv', (i, j, a, b))], Fraction(1))
    out = [
        en('cc_energy', ('t1', 't2', 'f', 'I'), E),
        en('mp2_energy', ('t1', 't2', 'f', 'I'), sel(deg1)),
        en('cc_energy_d', ('t2', 'I'), sel(lambda m: any(n == 'T2' for n, _ in m))),
        en('cc_energy_s1', ('t1', 'f'), sel(lambda m: any(n == 'F.ov' for n, _ in m))),
        en('cc_energy_s2', ('t1', 'I'), s2),
        en('cc_energy_s2_a', ('t1', 't1x', 'I'), s2a),
    ]

    def in_u(B):
        t1, t2 = amps_u(B, 'T', 'vo', 'vvoo')
        return (t1, t2, B.tensor('Fa.ov', us('ov', 'aa')), B.tensor('Fb.ov', us('ov', 'bb')),
                B.tensor('Ia.oovv', us('oovv', 'aaaa')), B.tensor('Ib.oovv', us('oovv', 'bbbb')),
                B.tensor('Iab.oovv', us('oovv', 'abab'))), {}
    Eu = spin.unrestricted(E, '')
    Eu1 = spin.unrestricted(sel(deg1), '')
    out.append(Contract('ucc_energy', 'cc_energy', 'ucc_energy', in_u,
                        lambda B, r: [('energy', r, scalar_spec(Eu))], U_SEGS, styles=('plain', 'view', 'integer')))
    out.append(Contract('ump2_energy', 'cc_energy', 'ump2_energy', in_u,
                        lambda B, r: [('energy', r, scalar_spec(Eu1))], U_SEGS, styles=('plain', 'view', 'integer')))

    def in_r(B):
        return (r_amp(B, 'T1', 'vo'), r_amp(B, 'T2', 'vvoo'), B.tensor('F.ov', 'ov'),
                B.array('I.oovv', r_block('oovv'))), {}
    Er = spin.restricted(Eu)
    out.append(Contract('rcc_energy', 'cc_energy', 'rcc_energy', in_r,
                        lambda B, r: [('energy', r, scalar_spec(Er))], SO_SEGS, styles=('plain', 'view', 'integer')))
    return out
