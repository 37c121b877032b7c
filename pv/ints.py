"""Contracts of integrals.

The external engine is specified, not verified: `ao2mo.general(mol, (a,b,c,d))` and
`with_df.ao2mo((a,b,c,d), kpts)` return (ij|kl) = sum G[pqrs] a*[pi] b[qj] c*[rk] d[sl]
as a matrix, with G real and eightfold symmetric for molecules and at real orbitals,
G[pqrs] = G[rspq] for complex orbitals at one k-point, and one G per quadruple of
k-points otherwise. In concrete runs the molecular engine is the installed one, acting
on an array of integrals; the periodic engine is evaluated from the same definition.
"""
from fractions import Fraction
from itertools import product
import types
import numpy
from .poly import Poly, declare, SYM
from . import symnp, loader
from .symnp import Arr, Unsupported, CTX, SBool, SDim
from .contract import Contract, Spec, spec
from .wick import BLOCKS

NINE = tuple(BLOCKS)
G8 = [((1, 0, 2, 3), 1), ((0, 1, 3, 2), 1), ((2, 3, 0, 1), 1)]
declare('Gm', G8, 4)
declare('Gr', G8, 4)
declare('Gc', G8[2:], 4)
declare('Gr0', G8, 4)
declare('Gc0', G8[2:], 4)
C16 = numpy.dtype(complex)
F8 = numpy.dtype(float)


class Tok(object):
    def __init__(self, name):
        self.name = name


class Mol(Tok):
    pass


# ---------------------------------------------------------------- symbolic engine

def transform(name, mos):
    mos = [Arr.of(x) for x in mos]
    if len(mos) != 4 or any(x.ndim != 2 for x in mos):
        raise Unsupported('orbital arguments')
    for x in mos:
        if x.struct()[0] != (('ao',),):
            raise symnp.ShapeError('rows of the coefficients are not basis functions')
    cplx = name[:2] != 'Gm' and any(x.dtype.kind == 'c' for x in mos)
    g = symnp.named(name, ((('ao',),),)*4, C16 if cplx else F8)
    c = [mos[0].conj(), mos[1], mos[2].conj(), mos[3]]
    r = symnp.einsum('pqrs,pi,qj,rk,sl->ijkl', g, *c)
    n = [SDim.of(x.shape[1]) for x in mos]
    return r.reshape(n[0]*n[1], n[2]*n[3])


def sym_general(mol, mos, *args, **kw):
    if not isinstance(mol, Mol):
        raise Unsupported('integral source')
    if args or kw.pop('compact', True) is not False or set(kw) - {'verbose', 'max_memory', 'dataname'}:
        raise Unsupported('options of the integral engine')
    return transform('Gm', mos)


class KI(object):
    """Symbolic index of a k-point."""
    def __init__(self, e):
        self.e = e

    def _cmp(self, o):
        if isinstance(o, KI):
            return SBool(self.e == o.e, (), '%s == %s' % (self.e, o.e))
        raise Unsupported('k-point index compared with %r' % (o,))

    def __eq__(self, o):
        return self._cmp(o)

    def __ne__(self, o):
        b = self._cmp(o)
        return SBool(symnp._z3().Not(b.expr), (), 'not ' + b.desc)

    def __hash__(self):
        return hash(str(self.e))


def kcanon(e):
    """A base name equal to e on this path, or e itself."""
    z3 = symnp._z3()
    for n in ('k1', 'k2', 'k3', 'k4'):
        if symnp._check(CTX.z3path + [e != z3.Int(n)]) == 'unsat':
            return n
    return str(e)


class KPt(Tok):
    pass


class KList(object):
    """The k-points: a list of unknown length indexed by symbolic indices."""
    def __getitem__(self, k):
        if not isinstance(k, KI):
            raise Unsupported('k-point %r' % (k,))
        return KPt(kcanon(k.e))

    def __len__(self):
        raise Unsupported('number of k-points')


class KCons(object):
    def __getitem__(self, k):
        if not (isinstance(k, tuple) and len(k) == 3 and all(isinstance(x, KI) for x in k)):
            raise Unsupported('kconserv index')
        z3 = symnp._z3()
        f = z3.Function('kconserv', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())
        return KI(f(*[x.e for x in k]))


class SymDF(object):
    def __init__(self, stem, kpt=None, klist=None):
        self.stem, self.kpt, self.klist = stem, kpt, klist

    def ao2mo(self, mo_coeffs, kpts=None, compact=True, **kw):
        if compact is not False or kw:
            raise Unsupported('options of the integral engine')
        if self.kpt is not None:
            if kpts is self.kpt:
                return transform(self.stem, mo_coeffs)
            if kpts is None:
                return transform(self.stem + '0', mo_coeffs)
            raise Unsupported('k-point argument')
        if not (isinstance(kpts, (tuple, list)) and len(kpts) == 4 and all(isinstance(k, KPt) for k in kpts)):
            raise Unsupported('k-point argument')
        return transform('G{%s}' % ','.join(k.name for k in kpts), mo_coeffs)
    get_mo_eri = ao2mo


class Helper(object):
    def __init__(self, cell, kpts, *a, **k):
        if isinstance(kpts, KList):
            self.kconserv = KCons()
        elif hasattr(kpts, 'table'):
            self.kconserv = kpts.table
        else:
            raise Unsupported('KptsHelper argument')


class RHF(object):
    pass


def shims():
    kh = loader.ShimModule('pyscf.pbc.lib.kpts_helper')
    kh.KptsHelper = Helper
    kh.get_kconserv = lambda cell, kpts: Helper(cell, kpts).kconserv
    tl = loader.ShimModule('pyscf.pbc.tools')
    tl.get_kconserv = kh.get_kconserv
    hf = loader.ShimModule('pyscf.scf.hf')
    hf.RHF = RHF
    return loader.pyscf_shim(sym_general, {'pyscf.pbc.lib.kpts_helper': kh, 'pyscf.pbc.tools': tl,
                                           'pyscf.scf.hf': hf})


def world():
    if mask_hook not in symnp.FANCY:
        symnp.FANCY.append(mask_hook)
    return loader.World(shims())


# ---------------------------------------------------------------- occupation masks

SAMPLES = [Fraction(0), Fraction(1, 1000), Fraction(1, 2), Fraction(1), Fraction(2)]
OPS = {'>': lambda a, b: a > b, '<': lambda a, b: a < b, '>=': lambda a, b: a >= b,
       '<=': lambda a, b: a <= b, '==': lambda a, b: a == b, '!=': lambda a, b: a != b}


def truth(m):
    """(name of the occupation vector, tuple of truth values over SAMPLES)"""
    if isinstance(m, symnp.BoolMask):
        n, x = truth(m.x)
        if m.op == 'not':
            return n, tuple(not a for a in x)
        n2, y = truth(m.y)
        if n != n2:
            raise Unsupported('mask over two occupation vectors')
        return n, tuple((a and b) if m.op == 'and' else (a or b) for a, b in zip(x, y))
    a, s, v = m.key()
    if a.struct() != ((('mo',),),):
        raise Unsupported('mask shape')
    t = list(a.flat()[1].values())
    if len(t) != 1 or len(t[0].t) != 1:
        raise Unsupported('mask')
    (mono, c), = t[0].t.items()
    if c != 1 or len(mono) != 1 or not mono[0][0].startswith('occ'):
        raise Unsupported('mask')
    if s not in OPS:
        raise Unsupported('mask ' + s)
    return mono[0][0], tuple(OPS[s](x, v) for x in SAMPLES)


def mask_hook(arr, key):
    if not isinstance(key, tuple):
        key = (key,)
    pos = [k for k, x in enumerate(key) if isinstance(x, symnp.Mask)]
    if len(pos) != 1 or any(not (isinstance(x, slice) and x == slice(None)) for k, x in enumerate(key) if k not in pos):
        return None
    k = pos[0]
    st = arr.struct()
    if st[k] != (('mo',),):
        return None
    occ, t = truth(key[k])
    sp = occ[3:]
    if t == (False,) + (True,)*4:
        seg = 'o' + sp
    elif t == (True,) + (False,)*4:
        seg = 'v' + sp
    else:
        seg = 'mo{%s%s}' % (sp, ''.join('01'[x] for x in t))
    out = {}
    for q, p in arr.flat()[1].items():
        r = Poly()
        for m, c in p.t.items():
            fs = []
            for n, idx in m:
                hit = [j for j, x in enumerate(idx) if x[0] == 'f' and x[2] == k]
                if hit:
                    n = '%s|%s' % (n, seg)
                    idx = tuple(('f', seg, k) if j in hit else x for j, x in enumerate(idx))
                fs.append((n, idx))
            r.add_raw(fs, c)
        out[q] = r
    return Arr.make(st[:k] + (((seg,),),) + st[k+1:], out, arr.dtype)


# ---------------------------------------------------------------- expected values

def term(g, four, cplx, sign=1):
    """sum_pqrs g[pqrs] a*[p,i] b[q,j] c*[r,k] d[s,l]; four = [(tensor, free index)]."""
    p = Poly()
    d = [('d', 'ao', k) for k in range(4)]
    fs = [(g, tuple(d))]
    for k, (n, f) in enumerate(four):
        nm = symnp.conj_name(n, 2) if cplx and k in (0, 2) else n
        fs.append((nm, (d[k], f)))
    p.add_raw(fs, Fraction(sign))
    return p


def value(g, sets, anti, phys, cplx, spins=(0,)*4):
    """Entry of the integral array; sets[k] = (tensor, seg) for axis k; spins per axis."""
    f = [(n, ('f', s, k)) for k, (n, s) in enumerate(sets)]
    p = Poly()
    # chemist (12|34), physicist <12|34> = (13|24)
    d = (0, 1, 2, 3) if not phys else (0, 2, 1, 3)
    x = (0, 3, 2, 1) if not phys else (0, 3, 1, 2)
    for o, sg in ((d, 1), (x, -1))[:2 if anti else 1]:
        if spins[o[0]] == spins[o[1]] and spins[o[2]] == spins[o[3]]:
            p = p + term(g(o) if callable(g) else g, [f[k] for k in o], cplx, sg)
    return p


def spatial(g, sets, anti, phys, cplx):
    return spec([s for _, s in sets], value(g, sets, anti, phys, cplx))


def spinor(g, sets, anti, phys, cplx):
    """sets[k] = ((tensor, seg) alpha, (tensor, seg) beta)."""
    data = {}
    for sp in product((0, 1), repeat=4):
        data[sp] = value(g, [sets[k][sp[k]] for k in range(4)], anti, phys, cplx, sp)
    return Spec([(a[1], b[1]) for a, b in sets], data)


# ---------------------------------------------------------------- inputs

def fill_G(B, name, cplx):
    """Concrete values of the atomic-orbital integrals."""
    if name in B.values:
        return B.values[name]
    n = B.dim('ao')
    if cplx:
        b = B.rng.uniform(-1, 1, (n + 2, n, n)) + 1j*B.rng.uniform(-1, 1, (n + 2, n, n))
        b = b + b.conj().transpose(0, 2, 1)
    else:
        b = B.rng.uniform(-1, 1, (n + 2, n, n))
        b = b + b.transpose(0, 2, 1)
    B.values[name] = numpy.einsum('Lpq,Lrs->pqrs', b, b)
    return B.values[name]


def mol(B):
    if B.symbolic:
        return Mol('mol')
    return fill_G(B, 'Gm', False)


def num_transform(g, mos):
    n = [x.shape[1] for x in mos]
    r = numpy.einsum('pqrs,pi,qj,rk,sl->ijkl', g, mos[0].conj(), mos[1], mos[2].conj(), mos[3], optimize=True)
    return r.reshape(n[0]*n[1], n[2]*n[3])


class NumDF(object):
    def __init__(self, B, stem, kpt, cplx):
        self.g = fill_G(B, stem, cplx)
        self.g0 = fill_G(B, stem + '0', cplx)
        self.kpt = kpt

    def ao2mo(self, mo_coeffs, kpts=None, compact=True, **kw):
        assert compact is False
        k = numpy.zeros(3) if kpts is None else numpy.asarray(kpts)
        if k.ndim == 2:
            k = k[0]
        return num_transform(self.g if numpy.allclose(k, self.kpt) else self.g0, mo_coeffs)


def stem(cplx):
    return 'Gc' if cplx else 'Gr'


def cell_mf(B, cplx, **attrs):
    """A periodic mean-field object at one k-point."""
    if B.symbolic:
        kpt = Tok('kpt')
        df = SymDF(stem(cplx), kpt)
    else:
        kpt = B.rng.uniform(0.1, 1.0, 3)
        df = NumDF(B, stem(cplx), kpt, cplx)
    return B.obj('mf', with_df=df, kpt=kpt, **attrs)


def coef(B, name, seg, cplx):
    return B.tensor(name, ('ao', seg), C16 if cplx else F8)


def sets4(B, cplx, tag='C', seg='n'):
    return [coef(B, '%s%d' % (tag, k), '%s%d' % (seg, k), cplx) for k in (1, 2, 3, 4)]


S4 = [('C%d' % k, 'n%d' % k) for k in (1, 2, 3, 4)]
S8 = [(('C%d' % k, 'n%d' % k), ('D%d' % k, 'm%d' % k)) for k in (1, 2, 3, 4)]
SALL = [(('Ca', 'na'), ('Cb', 'nb'))]*4
COEFS = {'C%s' % k for k in ('', 1, 2, 3, 4, 'a', 'b')} | {'D%d' % k for k in (1, 2, 3, 4)}
SEG4 = ('ao', 'n1', 'n2', 'n3', 'n4')
SEG8 = SEG4 + ('m1', 'm2', 'm3', 'm4')
SEGA = ('ao', 'na', 'nb')


def styles(cplx):
    return ('complex',) if cplx else ('plain', 'view', 'fortran')


def P19():
    out = []

    def C(name, func, inputs, post, segs, cplx=False, call=None, maxdim=2):
        out.append(Contract(name, 'integrals', func, inputs, post, segs, call=call, styles=styles(cplx),
                            vals=('plain',), maxdim=maxdim, world=world, forcing=COEFS))

    def flags(func, anti):
        return '%s%s' % (func, '' if anti is None else ' anti=%s' % anti)

    def kw(anti):
        return {} if anti is None else {'anti': anti}
    # ---- molecules
    for func, phys, dflt in (('get_chem', 0, None), ('get_chem', 0, False), ('get_chem', 0, True),
                             ('get_phys', 1, None), ('get_phys', 1, False), ('get_phys', 1, True)):
        C(flags(func, dflt), func, lambda B, a=dflt: ((mol(B),) + tuple(sets4(B, 0)), kw(a)),
          lambda B, r, p=phys, a=dflt: [('I', r, spatial('Gm', S4, a, p, 0))], SEG4)
    for func, phys in (('get_chem_anti', 0), ('get_phys_anti', 1)):
        C(func, func, lambda B: ((mol(B),) + tuple(sets4(B, 0)), {}),
          lambda B, r, p=phys: [('I', r, spatial('Gm', S4, True, p, 0))], SEG4)
    for anti in (None, False, True):
        C(flags('get_chemu', anti), 'get_chemu',
          lambda B, a=anti: ((mol(B),) + tuple(sets4(B, 0)) + tuple(sets4(B, 0, 'D', 'm')), kw(a)),
          lambda B, r, a=anti: [('I', r, spinor('Gm', S8, a, 0, 0))], SEG8)
    for func, phys in (('get_chem_antiu', 0), ('get_phys_antiu', 1)):
        C(func, func, lambda B: ((mol(B),) + tuple(sets4(B, 0)) + tuple(sets4(B, 0, 'D', 'm')), {}),
          lambda B, r, p=phys: [('I', r, spinor('Gm', S8, True, p, 0))], SEG8)

    def ab(B, cplx):
        return (coef(B, 'Ca', 'na', cplx), coef(B, 'Cb', 'nb', cplx))
    for func, phys, anti in (('get_chemu_all', 0, None), ('get_chemu_all', 0, False), ('get_chemu_all', 0, True),
                             ('get_physu_all', 1, None), ('get_physu_all', 1, False), ('get_physu_all', 1, True)):
        C(flags(func, anti), func, lambda B, a=anti: ((mol(B),) + ab(B, 0), kw(a)),
          lambda B, r, p=phys, a=anti: [('I', r, spinor('Gm', SALL, a, p, 0))], SEGA)
    for func, phys in (('get_chem_antiu_all', 0), ('get_phys_antiu_all', 1)):
        C(func, func, lambda B: ((mol(B),) + ab(B, 0), {}),
          lambda B, r, p=phys: [('I', r, spinor('Gm', SALL, True, p, 0))], SEGA)
    # ---- one k-point
    for cplx in (False, True):
        t = ' complex' if cplx else ' real'
        g = stem(cplx)
        for func, phys in (('get_chem_sol', 0), ('get_phys_sol', 1)):
            for anti in (None, False, True):
                C(flags(func, anti) + t, func,
                  lambda B, a=anti, c=cplx: ((cell_mf(B, c),) + tuple(sets4(B, c)), kw(a)),
                  lambda B, r, p=phys, a=anti, c=cplx, g=g: [('I', r, spatial(g, S4, a, p, c))], SEG4, cplx)
        for anti in (None, False, True):
            C(flags('get_chemu_sol', anti) + t, 'get_chemu_sol',
              lambda B, a=anti, c=cplx: ((cell_mf(B, c),) + tuple(sets4(B, c)) + tuple(sets4(B, c, 'D', 'm')), kw(a)),
              lambda B, r, a=anti, c=cplx, g=g: [('I', r, spinor(g, S8, a, 0, c))], SEG8, cplx)
        for func, phys in (('get_chem_antiu_sol', 0), ('get_phys_antiu_sol', 1)):
            C(func + t, func,
              lambda B, c=cplx: ((cell_mf(B, c),) + tuple(sets4(B, c)) + tuple(sets4(B, c, 'D', 'm')), {}),
              lambda B, r, p=phys, c=cplx, g=g: [('I', r, spinor(g, S8, True, p, c))], SEG8, cplx)
        for func, phys in (('get_chemu_all_sol', 0), ('get_physu_all_sol', 1)):
            for anti in (None, False, True):
                C(flags(func, anti) + t, func,
                  lambda B, a=anti, c=cplx: ((cell_mf(B, c),) + ab(B, c), kw(a)),
                  lambda B, r, p=phys, a=anti, c=cplx, g=g: [('I', r, spinor(g, SALL, a, p, c))], SEGA, cplx)
    # ---- from a mean-field object
    for pbc, cplx in ((0, 0), (1, 0), (1, 1)):
        g = stem(cplx) if pbc else 'Gm'
        t = (' periodic' if pbc else ' molecule') + (' complex' if cplx else '')
        for anti in (None, False, True):
            C(flags('get_phys_gen', anti) + t, 'get_phys_gen',
              lambda B, a=anti, pb=pbc, c=cplx: ((cell_mf(B, c) if pb else B.obj('mf', mol=mol(B)),)
                                                 + tuple(sets4(B, c)), kw(a)),
              lambda B, r, a=anti, c=cplx, g=g: [('I', r, spatial(g, S4, a, 1, c))], SEG4, cplx)
            for unr in (0, 1):
                st = [(('Ca', 'mo'), ('Cb', 'mo'))]*4 if unr else [(('C', 'mo'), ('C', 'mo'))]*4
                C(flags('get_physu_all_gen', anti) + t + (' unrestricted' if unr else ' restricted'), 'get_physu_all_gen',
                  lambda B, a=anti, pb=pbc, c=cplx, u=unr: ((ref_mf(B, pb, c, u),), kw(a)),
                  lambda B, r, a=anti, c=cplx, g=g, s=st: [('I', r, spinor(g, s, a, 1, c))],
                  ('ao', 'oa', 'va', 'ob', 'vb'), cplx)
        for unr in (0, 1):
            st = [(('Ca', 'mo'), ('Cb', 'mo'))]*4 if unr else [(('C', 'mo'), ('C', 'mo'))]*4
            C('get_phys_antiu_all_gen' + t + (' unrestricted' if unr else ' restricted'), 'get_phys_antiu_all_gen',
              lambda B, pb=pbc, c=cplx, u=unr: ((ref_mf(B, pb, c, u),), {}),
              lambda B, r, c=cplx, g=g, s=st: [('I', r, spinor(g, s, True, 1, c))],
              ('ao', 'oa', 'va', 'ob', 'vb'), cplx)
    # ---- several k-points
    for func, phys in (('get_chem_solk', 0), ('get_phys_solk', 1)):
        for anti in (None, False, True):
            C(flags(func, anti), func, lambda B, a=anti: ((kmf4(B), kidx(B)) + tuple(sets4(B, 1)), kw(a)),
              lambda B, r, p=phys, a=anti: kpost(B, r, p, a), SEG4, True,
              call=lambda B, fn, args, kws, p=phys: kcall(B, fn, args, kws, p))
    return out


# ---------------------------------------------------------------- references

def occupations(B, unr):
    """Concrete occupation patterns; fixes the extents."""
    rng = B.rng
    d = B.dims
    if unr:
        n = max(d['oa'] + d['va'], d['ob'] + d['vb'])
        d['va'], d['vb'] = n - d['oa'], n - d['ob']
    else:
        n = d['oa'] + d['va']
        d['o'], d['v'] = d['oa'], d['va']
    d['mo'] = n
    rows = []
    for s in ('a', 'b')[:2 if unr else 1]:
        x = numpy.zeros(n)
        w = rng.permutation(n)[:d['o' + s]]
        x[w] = 1.0 if unr else 2.0
        if rng.uniform() < 0.3 and len(w):
            x[w[0]] = rng.choice([0.5, 1.0, 0.05, 1e-3, 1e-6, 1e-12])
        rows.append(x)
    return rows


def ref_mf(B, pbc, cplx, unr):
    dt = C16 if cplx else F8
    sp = ('a', 'b') if unr else ('',)
    if not B.symbolic:
        for s, x in zip(sp, occupations(B, unr)):
            B.values['occ' + s] = x
            c = B.value('C' + s, ('ao', 'mo'))
            B.values['C%s|o%s' % (s, s)] = c[:, x > 0]
            B.values['C%s|v%s' % (s, s)] = c[:, x == 0]

    def ent(n, axes, k0):
        return Poly.entry(n, [('f', x, k + k0) for k, x in enumerate(axes)])
    if unr:
        c = B.array('mo_coeff', Spec([('1', '1'), ('ao',), ('mo',)], {
            (0, 0, 0): ent('Ca', ('ao', 'mo'), 1), (1, 0, 0): ent('Cb', ('ao', 'mo'), 1)}), dt)
        oc = B.array('mo_occ', Spec([('1', '1'), ('mo',)], {
            (0, 0): ent('occa', ('mo',), 1), (1, 0): ent('occb', ('mo',), 1)}), F8)
    else:
        c = B.tensor('C', ('ao', 'mo'), dt)
        oc = B.tensor('occ', ('mo',), F8)
    if not B.symbolic and numpy.iscomplexobj(oc):
        oc = oc.real.copy()
    if pbc:
        return cell_mf(B, cplx, mo_coeff=c, mo_occ=oc, mol=Tok('cell') if B.symbolic else None)
    return B.obj('mf', mol=mol(B), mo_coeff=c, mo_occ=oc)


CODES = ['all'] + ['vvvv', 'vvvo', 'vovv', 'vvoo', 'vovo', 'oovv', 'vooo', 'ooov', 'oooo']


def P20():
    out = []
    for pbc, cplx in ((0, 0), (1, 0), (1, 1)):
        for unr in (0, 1):
            g = stem(cplx) if pbc else 'Gm'

            def inputs(B, code, pb=pbc, c=cplx, u=unr):
                mf = ref_mf(B, pb, c, u)
                return (mf,), ({} if code is None else {'code': code})

            def post(B, r, code, c=cplx, g=g, u=unr):
                res = []
                for b in (NINE if not code else (CODES[code],)):
                    sets = []
                    for x in b:
                        if u:
                            sets.append(tuple(('C%s|%s%s' % (s, x, s), x + s) for s in 'ab'))
                        else:
                            sets.append((('C|' + x, x),)*2)
                    res.append((b, getattr(r, b, None), spinor(g, sets, True, 1, c)))
                return res

            def extra(B, r, code):
                res = []
                for b in NINE:
                    want = not code or CODES[code] == b
                    have = getattr(r, b, None) is not None
                    res.append(('stores ' + b, have == want, '' if have == want else
                                'block %s is %s' % (b, 'stored' if have else 'missing')))
                    f = getattr(r, 'has_' + b, want)
                    res.append(('flag ' + b, bool(f) == want, '' if bool(f) == want else 'has_%s is %s' % (b, f)))
                return res
            for code in [None] + list(range(10)):
                nm = 'eri_blocks %s%s %s %s' % ('periodic' if pbc else 'molecule', ' complex' if cplx else '',
                                                'unrestricted' if unr else 'restricted',
                                                'default' if code is None else CODES[code])
                out.append(Contract(nm, 'integrals', 'eri_blocks', lambda B, k=code, f=inputs: f(B, k),
                                    lambda B, r, k=code, f=post: f(B, r, k), ('ao', 'oa', 'va', 'ob', 'vb'),
                                    extra_post=lambda B, r, k=code, f=extra: f(B, r, k),
                                    styles=styles(cplx), vals=('plain',), maxdim=2, world=world, forcing=COEFS))
    return out


# ---------------------------------------------------------------- several k-points

class FakeCell(object):
    def lattice_vectors(self):
        return numpy.eye(3)*2*numpy.pi


def num_kpts(B):
    if not hasattr(B, 'kp'):
        n = int(B.rng.integers(1, 5))
        if n == 4:
            B.kp = numpy.array([[a, b, 0.0] for a in (0.0, 0.5) for b in (0.0, 0.5)])
        else:
            B.kp = numpy.array([[k/float(n), 0.0, 0.0] for k in range(n)])
        nk = len(B.kp)
        B.kc = numpy.zeros((nk, nk, nk), dtype=int)
        for a, b, c in product(range(nk), repeat=3):
            for d in range(nk):
                x = B.kp[a] - B.kp[b] + B.kp[c] - B.kp[d]
                if numpy.allclose(x, numpy.rint(x)):
                    B.kc[a, b, c] = d
        k = [int(x) for x in B.rng.integers(0, nk, 4)]
        B.which = int(B.rng.integers(0, 3))
        B.kk = k
    return B.kp


class NumKDF(object):
    def __init__(self, B):
        self.B = B

    def ao2mo(self, mo_coeffs, kpts=None, compact=True, **kw):
        assert compact is False
        kk = []
        for v in kpts:
            kk.append([j for j in range(len(self.B.kp)) if numpy.allclose(self.B.kp[j], v)][0])
        return num_transform(kgrid(self.B, tuple(kk)), mo_coeffs)
    get_mo_eri = ao2mo


def kgrid(B, kk):
    """Integrals over one quadruple of k-points, (12|34) = (34|12)."""
    n = B.dim('ao')
    name = 'G@' + ','.join(str(k) for k in kk)
    sw = kk[2:] + kk[:2]
    other = 'G@' + ','.join(str(k) for k in sw)
    if name not in B.values:
        if other in B.values:
            B.values[name] = B.values[other].transpose(2, 3, 0, 1)
        else:
            x = B.rng.uniform(-1, 1, (n,)*4) + 1j*B.rng.uniform(-1, 1, (n,)*4)
            B.values[name] = x + x.transpose(2, 3, 0, 1) if sw == kk else x
    return B.values[name]


def kmf4(B):
    if B.symbolic:
        return B.obj('kmf', cell=Tok('cell'), kpts=KList(), with_df=SymDF(None))
    kp = num_kpts(B)
    return B.obj('kmf', cell=FakeCell(), kpts=kp, with_df=NumKDF(B))


def kidx(B):
    if B.symbolic:
        z3 = symnp._z3()
        return tuple(KI(z3.Int('k%d' % k)) for k in (1, 2, 3, 4))
    return None


def kcall(B, fn, args, kws, phys):
    """Call, then split on whether the quadruple conserves momentum."""
    if B.symbolic:
        k1, k2, k3, k4 = args[1]
        r = fn(*args, **kws)
        c = KCons()
        ok = bool((c[k1, k3, k2] if phys else c[k1, k2, k3]) == k4)
        return r, ok
    k = list(B.kk)
    if B.which:
        k[3] = int(B.kc[k[0], k[2], k[1]] if phys else B.kc[k[0], k[1], k[2]])
    ok = (B.kc[k[0], k[2], k[1]] if phys else B.kc[k[0], k[1], k[2]]) == k[3]
    B.kq = tuple(k)
    return fn(args[0], tuple(k), *args[2:], **kws), ok


def kpost(B, r, phys, anti):
    r, ok = r
    if not ok:
        return [('I', r, Spec([(s,) for _, s in S4], {}))]

    def g(o):
        name = 'G{%s}' % ','.join('k%d' % (k + 1) for k in o)
        if not B.symbolic:
            B.values[name] = kgrid(B, tuple(B.kq[k] for k in o))
        return name
    return [('I', r, spatial(g, S4, anti, phys, True))]


class KTable(list):
    """k-points of a chain of n cells with their conservation table."""
    def __init__(self, n):
        list.__init__(self, [KPt(str(k)) for k in range(n)])
        self.table = numpy.zeros((n, n, n), dtype=int)
        for a, b, c in product(range(n), repeat=3):
            self.table[a, b, c] = (a - b + c) % n


def solk(nk, order):
    """All integrals of a mean field with nk k-points."""
    def inputs(B, n=nk, order=order):
        if B.symbolic:
            mf = RHF()
            mf.cell, mf.kpts, mf.with_df = Tok('cell'), KTable(n), SymDF(None)
            mf.mo_occ = [B.tensor('occ0', ('mo',), F8)]*n
        else:
            import pyscf.scf.hf
            mf = object.__new__(type('KMF', (pyscf.scf.hf.RHF,), {}))
            B.kp = numpy.array([[k/float(n), 0.0, 0.0] for k in range(n)])
            mf.cell, mf.kpts, mf.with_df = FakeCell(), B.kp, NumKDF(B)
            mf.mo_occ = [numpy.zeros(B.dim('mo'))]*n
        cs = [B.tensor('C%d' % k, ('ao', 'mo'), C16) for k in range(n)]
        hs = [B.tensor('h%d' % k, ('ao', 'ao'), C16) for k in range(n)]
        mf.mo_coeff = cs
        mf.get_hcore = lambda *a: hs
        return (mf,), {'eriorder': order}

    def post(B, r, n=nk, order=order):
        h1, h2 = r
        phys = order[0] in 'pP'
        d1 = {}
        for k in range(n):
            p = Poly()
            p.add_raw([('C%d*' % k, (('d', 'ao', 0), ('f', 'mo', 1))), ('h%d' % k, (('d', 'ao', 0), ('d', 'ao', 1))),
                       ('C%d' % k, (('d', 'ao', 1), ('f', 'mo', 2)))], Fraction(1))
            d1[(k, 0, 0)] = p
        d2 = {}
        for a, b, c in product(range(n), repeat=3):
            e = (a - b + c) % n if not phys else (a - c + b) % n
            kk = (a, b, c, e)
            o = (0, 2, 1, 3) if phys else (0, 1, 2, 3)
            g = 'G{%s}' % ','.join(str(kk[j]) for j in o)
            if not B.symbolic:
                B.values[g] = kgrid(B, tuple(kk[j] for j in o))
            f = [('C%d' % kk[j], ('f', 'mo', 3 + j)) for j in range(4)]
            d2[(a, b, c, 0, 0, 0, 0)] = term(g, [f[j] for j in o], True)
        ks = ('1',)*n
        return [('h1', h1, Spec([ks, ('mo',), ('mo',)], d1)),
                ('h2', h2, Spec([ks]*3 + [('mo',)]*4, d2))]
    return Contract('get_solk_integrals %s %d k-points' % (order, nk), 'integrals', 'get_solk_integrals',
                    inputs, post, ('ao', 'mo'), styles=('complex',), vals=('plain',), maxdim=2, world=world)
