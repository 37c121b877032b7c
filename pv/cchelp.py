"""Contracts of the private routines of cc_equations, and stubs that let a caller be
verified against them.

Each helper adds, to the arrays handed in, `fac` times a homogeneous part of a
residual.  The contract is informational: a helper that no longer meets it (terms
moved between helpers, signature changed) is executed in line when its callers are
verified, so only the public postconditions can raise an alarm.
"""
import inspect
from fractions import Fraction
from . import cc, spin, symnp
from .poly import Poly, SYM
from .contract import Contract, spec, verify
from .cc import R, lam, U, Rs, us, BLOCKS, SO_SEGS, U_SEGS

MOD = 'cc_equations'
FB = ('oo', 'ov', 'vo', 'vv')


def deg(m):
    n = [x for x, _ in m]
    return tuple(n.count(k) for k in ('L1', 'L2', 'T1', 'T2'))


def part(p, l1, l2, t1, t2):
    return p.select(lambda m: deg(m) == (l1, l2, t1, t2))


def _so_params():
    d = {'F': ('F.', FB), 'I': ('I.', tuple(BLOCKS))}
    objs = {k: {b: (pre + b, b) for b in bl} for k, (pre, bl) in d.items()}
    tens = {'T1old': ('T1', 'vo'), 'T2old': ('T2', 'vvoo'), 'L1old': ('L1', 'ov'), 'L2old': ('L2', 'oovv')}
    return objs, tens, {}


def _u_params():
    objs = {}
    for s, al in (('a', ('Fa', 'Faa')), ('b', ('Fb', 'Fbb'))):
        for a in al:
            objs[a] = {b: ('F%s.%s' % (s, b), us(b, s*2)) for b in FB}
        objs['I' + s] = {b: ('I%s.%s' % (s, b), us(b, s*4)) for b in BLOCKS}
    objs['Iabab'] = objs['I_abab'] = {b: ('Iab.' + b, us(b, 'abab')) for b in spin.FULL}
    tens, tup = {}, {}
    for n, b1, b2 in (('T', 'vo', 'vvoo'), ('L', 'ov', 'oovv')):
        for s in 'ab':
            tens[n + '1' + s + 'old'] = (n + '1' + s, us(b1, s*2))
        for s, sp in cc.U2:
            tens[n + '2' + s + 'old'] = (n + '2' + s, us(b2, sp))
        for suf in ('old', 'olds'):
            tup[n + '1' + suf] = [tens[n + '1' + s + 'old'] for s in 'ab']
            tup[n + '2' + suf] = [tens[n + '2' + s + 'old'] for s in ('aa', 'ab', 'bb')]
    return objs, tens, tup


def _r_params():
    objs = {'F': {b: ('F.' + b, b) for b in FB},
            'I': {b: ('R.' + b, b) for b in spin.FULL}}
    tens = {'T1old': ('RT1', 'vo'), 'T2old': ('RT2', 'vvoo'), 'L1old': ('RL1', 'ov'), 'L2old': ('RL2', 'oovv')}
    return objs, tens, {}


class Helper(object):
    def __init__(self, name, flavour, outs, usefac=True, intor=False):
        self.name, self.flavour, self.outs = name, flavour, outs
        self.usefac, self.intor = usefac, intor
        self.params = {'so': _so_params, 'u': _u_params, 'r': _r_params}[flavour]()
        self.segs = U_SEGS if flavour == 'u' else SO_SEGS

    def polys(self):
        return [(p, sg, f()) for p, sg, f in self.outs]

    def supported(self, fn):
        """Parameters of the current function are all known ones."""
        objs, tens, tup = self.params
        outs = {o[0] for o in self.outs}
        for n, p in inspect.signature(fn).parameters.items():
            if n in outs or n in objs or n in tens or n in tup or n == 'fac' or (n == 'intor' and self.intor):
                continue
            return False
        return outs <= set(inspect.signature(fn).parameters)

    def contract(self):
        h = self
        objs, tens, tup = self.params

        def mk(B, name, segs):
            if name.startswith('R.'):
                return B.array('I.' + name[2:], cc.r_block(name[2:]))
            return B.tensor(name, segs)

        def inputs(B):
            fn = getattr(B.module(MOD), h.name)
            if not h.supported(fn):
                raise symnp.Unsupported('signature of ' + h.name)
            kw = {}
            cache = {}
            outs = {o[0]: o[1] for o in h.outs}
            for n in inspect.signature(fn).parameters:
                if n in outs:
                    # the array accumulated into: not part of the frame
                    kw[n] = B.tensor('X' + n, outs[n])
                    B.inputs.pop()
                    if B.symbolic:
                        kw[n].given = False         # written: not one of the other arguments
                    elif any(kw[n] is x for _, x in B.inputs):
                        kw[n] = kw[n].copy()
                elif n in objs:
                    kw[n] = B.obj(n, **{b: mk(B, *v) for b, v in objs[n].items()})
                elif n in tens:
                    if n not in cache:
                        cache[n] = mk(B, *tens[n])
                    kw[n] = cache[n]
                elif n in tup:
                    kw[n] = tuple(mk(B, *v) for v in tup[n])
                elif n == 'fac' and h.usefac:
                    kw[n] = B.scalar('fac')
            return (), kw

        def call(B, fn, args, kw):
            kw = dict(kw)
            if h.intor:
                kw['intor'] = B.module(MOD).lambda_int(kw['F'], kw['I'], kw['T1old'], kw['T2old'])
            fn(**kw)
            return [kw[o[0]] for o in h.outs]

        def post(B, r):
            res = []
            for (pn, sg, f), x in zip(h.outs, r):
                want = Poly.entry('X' + pn, [('f', s, k) for k, s in enumerate(sg)])
                p = f()
                if h.usefac:
                    q = Poly()
                    for m, c in p.t.items():
                        q.add_raw(list(m) + [('fac', ())], c)
                    p = q
                res.append((pn, x, spec(sg, want + p)))
            return res
        return Contract(h.name, MOD, h.name, inputs, post, self.segs, call=call,
                        scalars=('fac',) if h.usefac else ())

    def stub(self, log):
        """Replacement executing the contract instead of the body."""
        h = self
        objs, tens, tup = self.params

        def wrap(fn):
            if not h.supported(fn) or h.intor:
                return fn
            sig = inspect.signature(fn)

            def g(*a, **k):
                try:
                    b = sig.bind(*a, **k)
                except TypeError:
                    return fn(*a, **k)
                b.apply_defaults()
                env = {}
                try:
                    for n, v in b.arguments.items():
                        if n in objs:
                            for blk, (nm, sg) in objs[n].items():
                                env[nm] = (getattr(v, blk), sg)
                        elif n in tens:
                            env[tens[n][0]] = (v, tens[n][1])
                        elif n in tup:
                            for x, (nm, sg) in zip(v, tup[n]):
                                env[nm] = (x, sg)
                except (AttributeError, TypeError, ValueError):
                    return fn(*a, **k)
                fac = b.arguments.get('fac', 1.0)
                if not h.usefac and not (isinstance(fac, float) and fac == 1.0):
                    return fn(*a, **k)
                outs = [(b.arguments[pn], sg, p) for pn, sg, p in h.polys()]
                need = set()
                for _, _, p in outs:
                    need |= p.names()
                for nm in need:
                    if nm not in env or not meets(nm, *env[nm]):
                        return fn(*a, **k)
                for x, sg, p in outs:
                    if not isinstance(x, symnp.Arr) or x.struct() != tuple(((s,),) for s in sg):
                        return fn(*a, **k)
                if len({id(x.buf) for x, _, _ in outs} | {id(env[n][0].buf) for n in need}) \
                        < len(outs) + len({id(env[n][0].buf) for n in need}):
                    return fn(*a, **k)
                log[h.name] = log.get(h.name, 0) + 1
                for x, sg, p in outs:
                    x += fac*evaluate(p, sg, env)
            return g
        return wrap


def meets(name, arr, segs):
    """Precondition of a stub: right extents, symmetries of the tensor it stands for."""
    if not isinstance(arr, symnp.Arr) or arr.struct() != tuple(((s,),) for s in segs):
        return False
    for perm, s in SYM.get(name, ()):
        a, b = arr.flat()[1], (arr.transpose(perm)*float(s)).flat()[1]
        for key in set(a) | set(b):
            if not (a.get(key, Poly()) - b.get(key, Poly())).iszero():
                return False
    return True


def evaluate(p, segs, env):
    letters = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
    tot = None
    for m, c in p.t.items():
        names = {}

        def let(x):
            if x not in names:
                names[x] = letters[len(names)]
            return names[x]
        subs = [''.join(let(x) for x in idx) for n, idx in m]
        out = ''.join(let(('f', s, k)) for k, s in enumerate(segs))
        t = symnp.einsum(','.join(subs) + '->' + out, *[env[n][0] for n, _ in m])*float(c)
        tot = t if tot is None else tot + t
    return tot


def table():
    s1, s2, l1, l2 = 'vo', 'vvoo', 'ov', 'oovv'
    T = []

    def T1(n, *d):
        T.append(Helper(n, 'so', [('T1', s1, lambda: part(R('S'), 0, 0, *d))]))

    def T2(n, *d):
        T.append(Helper(n, 'so', [('T2', s2, lambda: part(R('D'), 0, 0, *d))]))

    def L1(n, *d):
        T.append(Helper(n, 'so', [('L1', l1, lambda: part(lam(1), *d))]))

    def L2(n, *d):
        T.append(Helper(n, 'so', [('L2', l2, lambda: part(lam(2), *d))]))
    T1('_S_S', 1, 0), T1('_S_D', 0, 1), T1('_S_SS', 2, 0), T1('_S_SD', 1, 1), T1('_S_SSS', 3, 0)
    T2('_D_S', 1, 0), T2('_D_D', 0, 1), T2('_D_SS', 2, 0), T2('_D_SD', 1, 1), T2('_D_DD', 0, 2)
    T2('_D_SSS', 3, 0), T2('_D_SSD', 2, 1), T2('_D_SSSS', 4, 0)
    for n, f in (('ladder', cc.ladder), ('ring', cc.ring)):
        T.append(Helper('_D_D_' + n, 'so', [('T2', s2, (lambda f: lambda: part(f(), 0, 0, 0, 1))(f))]))
        T.append(Helper('_D_DD_' + n, 'so', [('T2', s2, (lambda f: lambda: part(f(), 0, 0, 0, 2))(f))]))
    L1('_LS_TS', 0, 0, 1, 0), L1('_LS_LS', 1, 0, 0, 0), L1('_LS_LSTS', 1, 0, 1, 0), L1('_LS_LSTD', 1, 0, 0, 1)
    L1('_LS_LSTSS', 1, 0, 2, 0), L1('_LS_LD', 0, 1, 0, 0), L1('_LS_LDTS', 0, 1, 1, 0), L1('_LS_LDTD', 0, 1, 0, 1)
    L1('_LS_LDTSS', 0, 1, 2, 0), L1('_LS_LDTSD', 0, 1, 1, 1), L1('_LS_LDTSSS', 0, 1, 3, 0)
    L2('_LD_LS', 1, 0, 0, 0), L2('_LD_LSTS', 1, 0, 1, 0), L2('_LD_LD', 0, 1, 0, 0), L2('_LD_LDTS', 0, 1, 1, 0)
    L2('_LD_LDTD', 0, 1, 0, 1), L2('_LD_LDTSS', 0, 1, 2, 0)

    def lad(p):
        """particle-particle and hole-hole ladder part of the Lambda doubles"""
        def keep(m):
            (n, ii), = [x for x in m if x[0].startswith('I.')]
            (_, ll), = [x for x in m if x[0] == 'L2']
            if n in ('I.vvvv', 'I.oooo'):
                return True
            if n != 'I.oovv':
                return False
            return len(set(ii) & {x for x in ll}) == 0 and \
                len({x for x in ll if x[0] == 'f'}) == 2 and \
                {x[1] for x in ll if x[0] == 'f'} in ({'o'}, {'v'})
        return p.select(lambda m: any(x[0].startswith('I.') for x in m) and keep(m))
    T.append(Helper('_LD_LD_ladder', 'so', [('L2', l2, lambda: lad(part(lam(2), 0, 1, 0, 0)))]))
    T.append(Helper('_LD_LDTD_ladder', 'so', [('L2', l2, lambda: lad(part(lam(2), 0, 1, 0, 1)))]))

    def noconst(p):
        return p.select(lambda m: sum(deg(m)) > 0)

    def withL(p):
        return p.select(lambda m: any(n[:2] in ('L1', 'L2') or n[:3] in ('RL1', 'RL2') for n, _ in m))

    def noL(p):
        return p.select(lambda m: not any(n[:2] in ('L1', 'L2') or n[:3] in ('RL1', 'RL2') for n, _ in m)
                        and any(n[:2] in ('T1', 'T2') or n[:3] in ('RT1', 'RT2') for n, _ in m))

    def amps(p):
        return p.select(lambda m: any(n[:2] in ('T1', 'T2') or n[:3] in ('RT1', 'RT2') for n, _ in m))
    T.append(Helper('_Stanton', 'so', [('T1', s1, lambda: noconst(R('S'))), ('T2', s2, lambda: noconst(R('D')))]))
    T.append(Helper('_Stanton_ccd', 'so', [('T2', s2, lambda: noconst(R('D', (2,))))]))
    lo = [('L1', l1, lambda: withL(lam(1))), ('L2', l2, lambda: withL(lam(2)))]
    T.append(Helper('_Lambda_opt', 'so', lo))
    T.append(Helper('_Lambda_opt_int', 'so', lo, intor=True))
    T.append(Helper('_Lambda_Stanton', 'so', lo, usefac=False))
    T.append(Helper('_u_Stanton', 'u',
                    [('T1' + s, us(s1, sp), (lambda sp: lambda: amps(U('S', sp)))(sp)) for s, sp in cc.U1]
                    + [('T2' + s, us(s2, sp), (lambda sp: lambda: amps(U('D', sp)))(sp)) for s, sp in cc.U2]))
    T.append(Helper('_u_LS_TS', 'u',
                    [('L1' + s, us(l1, sp), (lambda sp: lambda: noL(U('L1', sp)))(sp)) for s, sp in cc.U1]))
    T.append(Helper('_uccsd_Lambda_opt', 'u',
                    [('L1' + s, us(l1, sp), (lambda sp: lambda: withL(U('L1', sp)))(sp)) for s, sp in cc.U1]
                    + [('L2' + s, us(l2, sp), (lambda sp: lambda: withL(U('L2', sp)))(sp)) for s, sp in cc.U2]))
    T.append(Helper('_r_Stanton', 'r', [('T1', s1, lambda: amps(Rs('S', 'aa'))), ('T2', s2, lambda: amps(Rs('D', 'abab')))]))
    T.append(Helper('_r_LS_TS', 'r', [('L1', l1, lambda: noL(Rs('L1', 'aa')))]))
    T.append(Helper('_rccsd_Lambda_opt', 'r', [('L1', l1, lambda: withL(Rs('L1', 'aa'))),
                                              ('L2', l2, lambda: withL(Rs('L2', 'abab')))]))
    return {h.name: h for h in T}


USES = {
    'P01': ['_S_S', '_S_D', '_S_SS', '_S_SD', '_S_SSS', '_D_S', '_D_D', '_D_SS', '_D_SD', '_D_DD', '_D_SSS',
            '_D_SSD', '_D_SSSS', '_D_D_ladder', '_D_DD_ladder', '_D_D_ring', '_D_DD_ring', '_Stanton', '_Stanton_ccd'],
    'P02': ['_u_Stanton', '_r_Stanton'],
    'P03': ['_LS_TS', '_LS_LS', '_LS_LSTS', '_LS_LSTD', '_LS_LSTSS', '_LS_LD', '_LS_LDTS', '_LS_LDTD', '_LS_LDTSS',
            '_LS_LDTSD', '_LS_LDTSSS', '_LD_LS', '_LD_LSTS', '_LD_LD', '_LD_LDTS', '_LD_LDTD', '_LD_LDTSS',
            '_LD_LD_ladder', '_LD_LDTD_ladder', '_Lambda_opt', '_Lambda_opt_int', '_Lambda_Stanton'],
    'P04': ['_u_LS_TS', '_uccsd_Lambda_opt', '_r_LS_TS', '_rccsd_Lambda_opt'],
}
