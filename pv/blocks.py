"""Contracts of spin_utils, ov_blocks, utils and test_utils."""
from fractions import Fraction
from itertools import product
import numpy
from .poly import Poly, declare
from . import spin, symnp
from .wick import BLOCKS
from .cc import us, F_u, I_uu, I_ab, U2, U_SEGS
from .contract import Contract, Spec, spec, SymBackend

FB = ('oo', 'ov', 'vo', 'vv')
NINE = tuple(BLOCKS)
SYM2 = [((1, 0, 2, 3), 1), ((0, 1, 3, 2), 1)]
declare('Dden.aa', SYM2, 4)
declare('Dden.bb', SYM2, 4)


def so_axes(block):
    return [(s + 'a', s + 'b') for s in block]


def expanded(name, block, entry=None):
    """Spec of the spin-orbital array of a tensor given by its spin blocks."""
    data = {}
    for sp in product((0, 1), repeat=len(block)):
        spins = tuple('ab'[k] for k in sp)
        idx = tuple(('f', s + x, k) for k, (s, x) in enumerate(zip(block, spins)))
        f = (entry or spin.u_map)(name, idx, spins)
        if f is None:
            continue
        p = Poly()
        for (fac, c) in (f if isinstance(f, list) else [f]):
            p.add_raw([fac], Fraction(c))
        data[sp] = p
    return Spec(so_axes(block), data)


def d2_entry(name, idx, spins):
    """Denominators: placed like doubles amplitudes, without signs."""
    f = spin.u_map('T2', idx, spins)
    if f is None:
        return None
    (n, i), _ = f
    return ('Dden.' + n[2:], i), 1


def bare_name(s, idx):
    """Bare same-spin integrals, pair symmetric: stored representative."""
    sp = ''.join(x[1][0] for x in idx)
    sw = sp[1] + sp[0] + sp[3] + sp[2]
    if sp < sw:
        return ('B%s.%s' % (s, sw), (idx[1], idx[0], idx[3], idx[2]))
    return ('B%s.%s' % (s, sp), tuple(idx))


for _s in 'ab':
    for _b in ('vvvv', 'vvoo', 'oovv', 'oooo'):
        declare('B%s.%s' % (_s, _b), spin.PAIR, 4)


def bare_entry(name, idx, spins):
    """Antisymmetrised spin-orbital integral from bare same-spin and mixed ones."""
    if len(set(spins)) == 1:
        x = (idx[0], idx[1], idx[3], idx[2])
        return [(bare_name(spins[0], idx), 1), (bare_name(spins[0], x), -1)]
    return spin.u_map(name, idx, spins)


def nums(B, *segs):
    return tuple(B.dim(s) for s in segs)


NUM = ('oa', 'va', 'ob', 'vb')


def I_bare(B, s):
    attrs = {}
    for b in spin.FULL:
        segs = us(b, s*4)
        n, i = bare_name(s, tuple(('f', x, k) for k, x in enumerate(segs)))
        attrs[b] = B.array('B%s.%s' % (s, b), spec(segs, Poly.entry(n, i)))
    return B.obj('B' + s, **attrs)


def so_arrays(B, tag, pre, blocks):
    return B.obj(tag, **{b: B.array(pre + b, expanded(pre + b, b)) for b in blocks})


def P09():
    out = []
    M = 'spin_utils'

    def C(name, func, inputs, post, call=None):
        out.append(Contract(name, M, func, inputs, post, U_SEGS, call=call, styles=('plain', 'view', 'fortran', 'integer')))
    C('F_to_spin', 'F_to_spin', lambda B: ((F_u(B, 'a'), F_u(B, 'b')) + nums(B, *NUM), {}),
      lambda B, r: [(b, getattr(r, b), expanded('F.' + b, b)) for b in FB])

    def fpost(B, r):
        return [('F%s.%s' % (s, b), getattr(x, b), spec(us(b, s*2), Poly.entry('F%s.%s' % (s, b), idx(us(b, s*2)))))
                for s, x in zip('ab', two(r)) for b in FB]
    C('F_to_spatial', 'F_to_spatial', lambda B: ((so_arrays(B, 'F', 'F.', FB),) + nums(B, *NUM), {}), fpost)

    def trip(to, back):
        def call(B, fn, args, kw):
            m = B.module(M)
            n = args[-4:]
            return getattr(m, back)(getattr(m, to)(*args), *n)
        return call
    C('F round trip', 'F_to_spatial', lambda B: ((F_u(B, 'a'), F_u(B, 'b')) + nums(B, *NUM), {}), fpost,
      trip('F_to_spin', 'F_to_spatial'))

    def t1(B):
        return (B.tensor('T1a', us('vo', 'aa')), B.tensor('T1b', us('vo', 'bb')))

    def t1post(B, r):
        return [('T1' + s, x, spec(us('vo', s*2), Poly.entry('T1' + s, idx(us('vo', s*2))))) for s, x in zip('ab', two(r))]
    C('T1_to_spin', 'T1_to_spin', lambda B: (t1(B) + nums(B, *NUM), {}),
      lambda B, r: [('T1', r, expanded('T1', 'vo'))])
    C('T1_to_spatial', 'T1_to_spatial',
      lambda B: ((B.array('T1', expanded('T1', 'vo')),) + nums(B, *NUM), {}), t1post)
    C('T1 round trip', 'T1_to_spatial', lambda B: (t1(B) + nums(B, *NUM), {}), t1post,
      trip('T1_to_spin', 'T1_to_spatial'))

    def t2(B):
        return tuple(B.tensor('T2' + s, us('vvoo', sp)) for s, sp in U2)

    def t2post(B, r):
        r = tuple(r)
        if len(r) != 3:
            raise ValueError('number of blocks')
        return [('T2' + s, x, spec(us('vvoo', sp), Poly.entry('T2' + s, idx(us('vvoo', sp)))))
                for (s, sp), x in zip(U2, r)]
    C('T2_to_spin', 'T2_to_spin', lambda B: (t2(B) + nums(B, *NUM), {}),
      lambda B, r: [('T2', r, expanded('T2', 'vvoo'))])
    C('T2_to_spatial', 'T2_to_spatial',
      lambda B: ((B.array('T2', expanded('T2', 'vvoo')),) + nums(B, *NUM), {}), t2post)
    C('T2 round trip', 'T2_to_spatial', lambda B: (t2(B) + nums(B, *NUM), {}), t2post,
      trip('T2_to_spin', 'T2_to_spatial'))
    C('D2_to_spin', 'D2_to_spin',
      lambda B: (tuple(B.tensor('Dden.' + s, us('vvoo', sp)) for s, sp in U2) + nums(B, *NUM), {}),
      lambda B, r: [('D2', r, expanded('D2', 'vvoo', d2_entry))])
    return out


def two(r):
    r = tuple(r)
    if len(r) != 2:
        raise ValueError('expected two results')
    return r


def idx(segs):
    return [('f', s, k) for k, s in enumerate(segs)]


def P10():
    out = []
    M = 'spin_utils'

    def C(name, func, inputs, post, call=None):
        out.append(Contract(name, M, func, inputs, post, U_SEGS, call=call, maxdim=2,
                            styles=('plain', 'view', 'fortran', 'integer')))

    def bare(B):
        return (I_bare(B, 'a'), I_bare(B, 'b'), I_ab(B)) + nums(B, *NUM), {}

    def anti(B):
        return (I_uu(B, 'a'), I_uu(B, 'b'), I_ab(B)) + nums(B, *NUM), {}
    C('int_to_spin', 'int_to_spin', bare,
      lambda B, r: [(b, getattr(r, b), expanded('I.' + b, b, bare_entry)) for b in NINE])
    C('int_to_spin2', 'int_to_spin2', anti,
      lambda B, r: [(b, getattr(r, b), expanded('I.' + b, b)) for b in NINE])

    def spost(B, r):
        a, b, m = tuple(r)
        res = []
        for s, x in (('a', a), ('b', b)):
            for k in NINE:
                sg = us(k, s*4)
                res.append(('I%s.%s' % (s, k), getattr(x, k), spec(sg, Poly.entry('I%s.%s' % (s, k), idx(sg)))))
        for k in spin.FULL:
            sg = us(k, 'abab')
            res.append(('Iab.' + k, getattr(m, k), spec(sg, Poly.entry('Iab.' + k, idx(sg)))))
        return res

    def by_name(B, fn, args, kw):
        """The block counts are passed by their names: the order of the parameters
        differs between the converters."""
        oa, va, ob, vb = nums(B, *NUM)
        return fn(args[0], noa=oa, nva=va, nob=ob, nvb=vb)
    C('int_to_spatial', 'int_to_spatial', lambda B: ((so_arrays(B, 'I', 'I.', NINE),), {}), spost, by_name)

    def trip(to):
        def call(B, fn, args, kw):
            oa, va, ob, vb = nums(B, *NUM)
            I = getattr(B.module(M), to)(args[0], args[1], args[2], noa=oa, nva=va, nob=ob, nvb=vb)
            return fn(I, noa=oa, nva=va, nob=ob, nvb=vb)
        return call
    C('integral round trip', 'int_to_spatial',
      lambda B: ((I_uu(B, 'a'), I_uu(B, 'b'), I_ab(B)), {}), spost, trip('int_to_spin2'))

    def bpost(B, r):
        a, b, m = tuple(r)
        res = []
        for s, x in (('a', a), ('b', b)):
            for k in NINE:
                sg = us(k, s*4)
                p = Poly()
                for f, c in bare_entry('I.' + k, tuple(idx(sg)), (s,)*4):
                    p.add_raw([f], Fraction(c))
                res.append(('I%s.%s' % (s, k), getattr(x, k), spec(sg, p)))
        return res + [x for x in spost(B, r) if x[0].startswith('Iab.')]
    C('bare integral round trip', 'int_to_spatial',
      lambda B: ((I_bare(B, 'a'), I_bare(B, 'b'), I_ab(B)), {}), bpost, trip('int_to_spin'))
    return out


P4 = ('1o', '1v', '2o', '2v', '3o', '3v', '4o', '4v')


def P11():
    out = []

    def itot(B):
        axes = [('p%do' % k, 'p%dv' % k) for k in (1, 2, 3, 4)]
        data = {}
        for key in product((0, 1), repeat=4):
            segs = [axes[k][key[k]] for k in range(4)]
            data[key] = Poly.entry('Itot.' + ''.join('ov'[k] for k in key), idx(segs))
        return B.array('Itot', Spec(axes, data))
    segs8 = tuple('p%s' % x for x in P4)

    def part(func, blocks):
        def post(B, r):
            res = []
            for b in blocks:
                sg = ['p%d%s' % (k + 1, s) for k, s in enumerate(b)]
                res.append((b, getattr(r, b), spec(sg, Poly.entry('Itot.' + b, idx(sg)))))
            return res
        out.append(Contract(func, 'ov_blocks', func, lambda B: ((itot(B),) + nums(B, *segs8), {}), post, segs8,
                            styles=('plain', 'view', 'fortran', 'integer')))

        def bad(pos):
            def inputs(B):
                n = list(nums(B, *segs8))
                n[pos] = n[pos] + B.dim('extra') + 1
                return (itot(B),) + tuple(n), {}
            return Contract('%s rejects wrong %s' % (func, P4[pos]), 'ov_blocks', func, inputs, lambda B, r: [],
                            segs8 + ('extra',), raises=lambda e, info: e is not None, maxdim=2)

        def low(pos):
            def inputs(B):
                # one axis longer than the sum of the two counts
                axes = [('p%do' % k, 'p%dv' % k) + (('extra', '1') if k == pos else ()) for k in (1, 2, 3, 4)]
                a = B.array('Itot', Spec(axes, {(0, 0, 0, 0): Poly.entry('Itot.oooo', idx([x[0] for x in axes]))}))
                return (a,) + nums(B, *segs8), {}
            return Contract('%s rejects long axis %d' % (func, pos), 'ov_blocks', func, inputs, lambda B, r: [],
                            segs8 + ('extra',), raises=lambda e, info: e is not None, maxdim=2)
        out.extend([bad(k) for k in range(8)])
        out.extend([low(k) for k in (1, 2, 3, 4)])

    def keeps(cls, blocks, named):
        def inputs(B):
            xs = {b: B.tensor('X.' + b, list(b)) for b in blocks}
            return ((), xs) if named else (tuple(xs.values()), {})
        out.append(Contract(cls, 'ov_blocks', cls, inputs,
                            lambda B, r: [(b, getattr(r, b), spec(list(b), Poly.entry('X.' + b, idx(list(b))))) for b in blocks],
                            ('o', 'v')))
    keeps('one_e_blocks', FB, False)
    keeps('two_e_blocks', NINE, True)
    keeps('two_e_blocks_full', spin.FULL, True)
    part('make_two_e_blocks', NINE)
    part('make_two_e_blocks_full', spin.FULL)

    def den(func, names, segs):
        """names: 1-d inputs in call order; segs: per result axis (input, sign)."""
        def inputs(B):
            return tuple(B.tensor(n, (s,)) for n, s in names), {}

        def post(B, r):
            p = Poly()
            for k, (n, c) in enumerate(segs):
                p.add_raw([(n, (('f', dict(names)[n], k),))], Fraction(c))
            return [(func, r, spec([dict(names)[n] for n, _ in segs], p))]
        out.append(Contract(func, 'utils', func, inputs, post, tuple(s for _, s in names),
                            styles=('plain', 'view', 'integer')))
    den('D1', [('ev', 'v'), ('eo', 'o')], [('ev', 1), ('eo', -1)])
    den('D2', [('ev', 'v'), ('eo', 'o')], [('ev', 1), ('ev', 1), ('eo', -1), ('eo', -1)])
    den('D2u', [('eva', 'va'), ('evb', 'vb'), ('eoa', 'oa'), ('eob', 'ob')],
        [('eva', 1), ('evb', 1), ('eoa', -1), ('eob', -1)])

    def bd(B, r):
        return [('block_diag', r, Spec([('ma', 'mb'), ('na', 'nb')], {
            (0, 0): Poly.entry('A', idx(('ma', 'na'))), (1, 1): Poly.entry('Bm', idx(('mb', 'nb')))}))]
    out.append(Contract('block_diag', 'utils', 'block_diag',
                        lambda B: ((B.tensor('A', ('ma', 'na')), B.tensor('Bm', ('mb', 'nb'))), {}), bd,
                        ('ma', 'na', 'mb', 'nb'), styles=('plain', 'view', 'fortran', 'integer')))
    return out


# ------------------------------------------------------------------ random tensors

def is_equal(B, x, y, sign):
    """x == sign*y entrywise, for all draws."""
    if B.symbolic:
        if x.struct() != y.struct():
            return False, 'extents %s and %s' % (x.shape, y.shape)
        a, b = x.flat()[1], y.flat()[1]
        for key in set(a) | set(b):
            d = a.get(key, Poly()) - b.get(key, Poly()).scale(sign)
            if not d.iszero():
                return False, 'differs by ' + d.text(4)
        return True, ''
    if x.shape != y.shape:
        return False, 'shape %s and %s' % (x.shape, y.shape)
    e = abs(x - sign*y).max() if x.size else 0.0
    return bool(e < 1e-10), 'differs by %g' % e


def has_shape(B, x, segs):
    if B.symbolic:
        ok = isinstance(x, symnp.Arr) and x.struct() in (tuple(((s,),) for s in segs), tuple((tuple(s),) for s in segs))
        return ok, '' if ok else 'shape %s' % (getattr(x, 'shape', None),)
    want = tuple(B.dim(s) if isinstance(s, str) else sum(B.dim(t) for t in s) for s in segs)
    return x.shape == want, 'shape %s, expected %s' % (x.shape, want)


def nonzero(B, x, anti):
    if B.symbolic:
        ok = any(not p.iszero() for p in x.flat()[1].values())
        return ok, '' if ok else 'identically zero'
    # small extents can force a vanishing antisymmetric tensor
    if min(x.shape + (9,)) < (2 if anti else 1):
        return True, ''
    return bool(abs(x).max() > 0), 'identically zero'


def checks_of(B, blocks, gens, segs):
    """Symmetry relations between stored blocks. blocks: {name: array}."""
    res = []
    for b, x in sorted(blocks.items()):
        ok, det = has_shape(B, x, segs(b))
        res.append((b + ' extents', ok, det))
        if not ok:
            return res
        anti = any(s < 0 and ''.join(b[k] for k in perm) == b for perm, s in gens)
        res.append((b + ' nonzero',) + nonzero(B, x, anti))
        for perm, s in gens:
            b2 = ''.join(b[k] for k in perm)
            if b2 in blocks and b2 >= b:
                y = blocks[b2]
                ok, det = has_shape(B, y, segs(b2))
                if ok:
                    ok, det = is_equal(B, y, x.transpose(perm), s)
                res.append(('%s/%s under %s' % (b, b2, perm), ok, '' if ok else det))
    return res


A2 = [((1, 0, 2, 3), -1), ((0, 1, 3, 2), -1), ((1, 0, 3, 2), 1)]


def one_tensor(B, x, gens, segs, lab):
    ok, det = has_shape(B, x, segs)
    res = [(lab + ' extents', ok, '' if ok else det)]
    if ok:
        res.append((lab + ' nonzero',) + nonzero(B, x, any(s < 0 for _, s in gens)))
        for perm, s in gens:
            ok, det = is_equal(B, x, x.transpose(perm), s)
            res.append(('%s under %s' % (lab, perm), ok, '' if ok else det))
    return res


def P21():
    out = []

    def C(func, segs, extra, args=None, dims=None):
        out.append(Contract(func, 'test_utils', func,
                            lambda B: (tuple(B.dim(s) for s in (args or segs)), {}),
                            lambda B, r: [], segs, extra_post=extra, styles=('plain',)))

    def ov(b):
        return list(b)

    def fchk(B, F):
        bl = {b: getattr(F, b) for b in FB}
        return checks_of(B, bl, [((1, 0), 1)], ov)

    def i9(I):
        return {b: getattr(I, b) for b in NINE}

    def i16(I):
        return {b: getattr(I, b) for b in spin.FULL}
    C('make_random_F', ('o', 'v'), fchk)
    C('make_random_I', ('o', 'v'), lambda B, I: checks_of(B, i9(I), [((1, 0, 3, 2), 1)], ov))
    C('make_random_I_anti', ('o', 'v'), lambda B, I: checks_of(B, i9(I), A2, ov))
    C('make_random_Ifull', ('o', 'v'), lambda B, I: checks_of(B, i16(I), A2, ov))
    C('make_random_integrals', ('o', 'v'),
      lambda B, r: fchk(B, r[0]) + checks_of(B, i9(r[1]), A2, ov))
    C('make_random_Itot', ('n',),
      lambda B, I: one_tensor(B, I, [((1, 0, 3, 2), 1), ((2, 3, 0, 1), 1), ((3, 2, 1, 0), 1)], 'nnnn', 'I'))
    segs8 = tuple('p%s' % x for x in P4)
    C('make_random_Ifull_gen', segs8,
      lambda B, I: checks_of(B, i16(I), [], lambda b: ['p%d%s' % (k + 1, s) for k, s in enumerate(b)]))
    def tchk(b1, b2):
        def f(B, r):
            return one_tensor(B, r[0], [], b1, 'singles') + one_tensor(B, r[1], A2, b2, 'doubles')
        return f
    C('make_random_T', ('o', 'v'), tchk('vo', 'vvoo'))
    C('make_random_L', ('o', 'v'), tchk('ov', 'oovv'))
    C('make_random_T1_spatial', NUM,
      lambda B, r: one_tensor(B, r[0], [], us('vo', 'aa'), 'a') + one_tensor(B, r[1], [], us('vo', 'bb'), 'b'))
    C('make_random_T2_spatial', NUM,
      lambda B, r: one_tensor(B, r[0], A2, us('vvoo', 'aaaa'), 'aa')
      + one_tensor(B, r[1], [], us('vvoo', 'abab'), 'ab') + one_tensor(B, r[2], A2, us('vvoo', 'bbbb'), 'bb'))
    C('make_random_ft_integrals', ('n',),
      lambda B, r: one_tensor(B, r[0], [((1, 0), 1)], 'nn', 'F') + one_tensor(B, r[1], A2, 'nnnn', 'I'))
    G2 = [((0,) + tuple(p + 1 for p in perm), s) for perm, s in A2]
    C('make_random_ft_T', ('g', 'n'),
      lambda B, r: one_tensor(B, r[0], [], 'gnn', 'T1') + one_tensor(B, r[1], G2, 'gnnnn', 'T2'))
    C('make_random_ft_T1_spatial', ('g', 'na', 'nb'),
      lambda B, r: one_tensor(B, r[0], [], ('g', 'na', 'na'), 'a') + one_tensor(B, r[1], [], ('g', 'nb', 'nb'), 'b'))
    C('make_random_ft_T2_spatial', ('g', 'na', 'nb'),
      lambda B, r: one_tensor(B, r[0], G2, ('g',) + ('na',)*4, 'aa')
      + one_tensor(B, r[1], [], ('g', 'na', 'nb', 'na', 'nb'), 'ab') + one_tensor(B, r[2], G2, ('g',) + ('nb',)*4, 'bb'))
    S1 = [((1, 0), -1)]
    S2 = [((1, 0, 2, 3), 1), ((0, 1, 3, 2), 1), ((2, 3, 0, 1), -1)]

    def joint(B, r):
        d1, d2 = r
        res = one_tensor(B, d1, S1, 'nn', 'D1') + one_tensor(B, d2, S2, 'nnnn', 'D2')
        if all(x[1] for x in res):
            ok, det = is_equal(B, d2, d1[:, None, :, None] + d1[None, :, None, :], 1)
            res.append(('same energies', ok, '' if ok else det))
        return res
    C('make_random_ft_D', ('n',), joint)
    C('make_random_ft_D1', ('n',), lambda B, r: one_tensor(B, r, S1, 'nn', 'D1'))

    def d2u(B, r):
        sg = ('n1', 'n2', 'n1', 'n2')
        return one_tensor(B, r, [((2, 3, 0, 1), -1)], sg, 'D2')
    C('make_random_ft_D2', ('n1', 'n2'), d2u)
    return out
