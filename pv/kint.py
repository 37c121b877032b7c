"""P19: all integrals of a k-point mean field, for any number of k-points.

The loops run over a symbolic number of k-points.  The two-electron routines called in
them are replaced by their contracts (proved with symbolic arrays in pv/ints.py); the
orbitals and one-electron matrices are symbols indexed by k-point."""
from . import ints
from .e2 import z3, iv, isz, isint, Abstract, Ext, Effect, Native, Unsupported, PyExc, MapList, subst
from .e2unit import E2Unit
from .runner import E1Unit

Z = z3.IntSort()
M = 'cqcpy.integrals'


class Seq(Abstract):
    """Sequence of n values given by position."""
    def __init__(self, n, at, **fields):
        self.n, self._at, self.fields = n, at, fields

    def at(self, k):
        return self._at(iv(k))


class Mat(Ext):
    """Product of matrices: factors (name, k-point, transposed, conjugated)."""
    def __init__(self, w, facs, shape):
        self.w, self.facs, self.shape = w, tuple(facs), shape

    def subst(self, pairs):
        return Mat(self.w, [(n, subst(k, pairs), t, c) for n, k, t, c in self.facs], self.shape)

    def attr(self, it, name):
        if name == 'shape':
            return self.shape
        if name == 'ndim':
            return 2
        if name == 'T':
            return self.turned()
        if name in ('conj', 'conjugate'):
            return Native(name, lambda: Mat(self.w, [(n, k, t, not c) for n, k, t, c in self.facs], self.shape))
        if name == 'transpose':
            return Native(name, self.transpose)
        if name == 'dot':
            return Native(name, lambda b: self.w.dot(self, b))
        if name == 'copy':
            return Native(name, lambda: self)
        return Ext.attr(self, it, name)

    def turned(self):
        return Mat(self.w, [(n, k, not t, c) for n, k, t, c in reversed(self.facs)], self.shape[::-1])

    def transpose(self, *a):
        a = a[0] if len(a) == 1 and isinstance(a[0], tuple) else a
        if a in ((), (1, 0)):
            return self.turned()
        raise Unsupported('transpose%s' % (a,))


class Eri(Ext):
    """Integrals (12|34) over one quadruple of k-points, zero unless it conserves
    momentum, with axes permuted."""
    def __init__(self, kpts, orbs, perm, shape):
        self.kpts, self.orbs, self.perm, self.shape = tuple(kpts), tuple(orbs), tuple(perm), tuple(shape)

    def subst(self, pairs):
        return Eri([subst(k, pairs) for k in self.kpts], [subst(o, pairs) for o in self.orbs], self.perm, self.shape)

    def attr(self, it, name):
        if name == 'transpose':
            return Native(name, self.transpose)
        if name == 'copy':
            return Native(name, lambda: self)
        if name == 'shape':
            return self.shape
        return Ext.attr(self, it, name)

    def transpose(self, *a):
        a = a[0] if len(a) == 1 and isinstance(a[0], tuple) else a
        if len(a) != 4 or not all(isinstance(x, int) for x in a) or sorted(a) != [0, 1, 2, 3]:
            raise Unsupported('transpose%s' % (a,))
        return Eri(self.kpts, self.orbs, [self.perm[x] for x in a], [self.shape[x] for x in a])


class Grid(Ext):
    """Complex array written one leading cell at a time."""
    def __init__(self, it, shape, zero):
        self.shape, self.depth, self.zero = tuple(shape), it.ctx.depth, zero
        self.effects = []

    def attr(self, it, name):
        if name == 'shape':
            return self.shape
        if name == 'ndim':
            return len(self.shape)
        return Ext.attr(self, it, name)

    def item(self, it, idx):
        it.ctx.read(self)
        return Ext.item(self, it, idx)

    def set_item(self, it, idx, v):
        ctx = it.ctx
        idx = idx if isinstance(idx, tuple) else (idx,)
        while idx and not isz(idx[-1]) and (idx[-1] is Ellipsis or idx[-1] == slice(None)):
            idx = idx[:-1]
        if not all(isint(k) for k in idx):
            raise Unsupported('index of a cell')
        cell = self.shape[len(idx):]
        if not isinstance(v, (Mat, Eri)) or len(v.shape) != len(cell):
            raise Unsupported('value of a cell')
        for a, b in zip(v.shape, cell):
            if not ctx.proves(iv(a) == iv(b)):
                raise Unsupported('shape of a cell')
        at = []
        for k, n in zip(idx, self.shape):
            at.append(it.norm_index(Seq(n, None), k))
        e = Effect(self, 'set', (tuple(at), v))
        if self.depth < ctx.depth:
            ctx.runs[-1].effects.append(e)
        else:
            self.effects.append(e)

    def apply(self, it, effs):
        self.effects.extend(effs)


class World(object):
    """A k-point mean field and the library functions on it."""
    def __init__(self, p):
        self.p, self.it = p, p.it
        ctx = p.ctx
        self.nk, self.nmo, self.nao = p.int('nk', 1), p.int('mo', 1), p.int('ao', 1)
        self.kc = z3.Function('kconserv', Z, Z, Z, Z)

        def facts(ctx, t):
            g = z3.And(*[z3.And(t.arg(k) >= 0, t.arg(k) < self.nk) for k in range(3)])
            return [z3.Implies(g, z3.And(t >= 0, t < self.nk))]
        ctx.hooks['kconserv'] = facts
        w = self.it.world
        self.rhf = Native('pyscf.scf.hf.RHF', None)
        w['pyscf.scf.hf.RHF'] = self.rhf
        w['isinstance'] = self.isinstance
        for base in ('pyscf.pbc.lib.kpts_helper', 'pyscf.pbc.tools'):
            w[base + '.get_kconserv'] = Native('get_kconserv', lambda cell, kpts: self.table(cell, kpts))
        w['pyscf.pbc.lib.kpts_helper.KptsHelper'] = Native('KptsHelper', lambda cell, kpts: Fields(kconserv=self.table(cell, kpts)))
        w['numpy.dot'] = Native('numpy.dot', self.dot)
        w['numpy.matmul'] = Native('numpy.matmul', self.dot)
        w['numpy.zeros'] = Native('numpy.zeros', lambda s, dtype=None: self.grid(s, dtype, True))
        w['numpy.empty'] = Native('numpy.empty', lambda s, dtype=None: self.grid(s, dtype, False))
        w['numpy.complex128'] = Native('complex', None)
        for n in ('asarray', 'array', 'stack'):
            w['numpy.' + n] = Native('numpy.' + n, self.stack)
        self.kpts = Seq(self.nk, self.nothing, shape=(self.nk, 3))
        self.cell = Fields()
        self.C = Seq(self.nk, lambda k: Mat(self, [('C', k, False, False)], (self.nao, self.nmo)))
        self.h = Seq(self.nk, lambda k: Mat(self, [('h', k, False, False)], (self.nao, self.nao)))
        occ = Seq(self.nmo, self.nothing, shape=(self.nmo,), size=self.nmo)
        self.kmf = Fields(get_hcore=Native('get_hcore', lambda: self.h), mo_coeff=self.C, kpts=self.kpts, cell=self.cell,
                          mo_occ=Seq(self.nk, lambda k: occ))
        st = self.it.stubs
        st[M + '.get_chem_solk'] = self.eri(False)
        st[M + '.get_phys_solk'] = self.eri(True)

    def nothing(self, k):
        raise Unsupported('value left open by the contract')

    def isinstance(self, v, c):
        if v is self.kmf and c is self.rhf:
            return True
        raise Unsupported('isinstance')

    def table(self, cell, kpts):
        if cell is not self.cell or kpts is not self.kpts:
            raise Unsupported('conservation table of something else')
        return Table(self)

    def dot(self, a, b):
        if not isinstance(a, Mat) or not isinstance(b, Mat):
            raise Unsupported('dot')
        if not self.p.ctx.proves(iv(a.shape[1]) == iv(b.shape[0])):
            raise PyExc(ValueError, 'shapes not aligned')
        return Mat(self, a.facs + b.facs, (a.shape[0], b.shape[1]))

    def grid(self, shape, dtype, zero):
        if not isinstance(shape, tuple) or not all(isint(x) for x in shape):
            raise Unsupported('array shape')
        if not (isinstance(dtype, Native) and dtype.name == 'complex'):
            raise Unsupported('array type')
        return Grid(self.it, shape, zero)

    def stack(self, v, **kw):
        if kw:
            raise Unsupported('array arguments')
        v = self.it.positional(v)
        if isinstance(v, MapList):
            return v
        raise Unsupported('array of %s' % type(v).__name__)

    def eri(self, phys):
        def stub(it, env):
            ks = env['kpt']
            if not isinstance(ks, tuple) or len(ks) != 4 or not all(isint(k) for k in ks):
                raise Unsupported('k-points of a call')
            os = [env['o%d' % k] for k in (1, 2, 3, 4)]
            if env['kmf'] is not self.kmf or env['anti'] is not False or not all(isinstance(o, Mat) for o in os):
                raise Unsupported('arguments of a call')
            shape = [o.shape[1] for o in os]
            o = (0, 2, 1, 3) if phys else (0, 1, 2, 3)
            return Eri([ks[k] for k in o], [os[k] for k in o], o, shape)
        return stub


class Fields(Ext):
    def __init__(self, **f):
        self.f = f

    def attr(self, it, name):
        if name in self.f:
            return self.f[name]
        return Ext.attr(self, it, name)


class Table(Ext):
    def __init__(self, w):
        self.w = w

    def item(self, it, idx):
        if not isinstance(idx, tuple) or len(idx) != 3:
            raise Unsupported('conservation table index')
        s = Seq(self.w.nk, None)
        return self.w.kc(*[iv(it.norm_index(s, k)) for k in idx])


def same_mat(a, b):
    """Formula for equal factor lists, or False."""
    if len(a.facs) != len(b.facs):
        return False
    out = []
    for x, y in zip(a.facs, b.facs):
        if x[0] != y[0] or x[2:] != y[2:]:
            return False
        out.append(iv(x[1]) == iv(y[1]))
    return z3.And(*out)


def same_eri(a, b):
    if a.perm != b.perm:
        return False
    out = [iv(x) == iv(y) for x, y in zip(a.kpts, b.kpts)]
    for x, y in zip(a.orbs, b.orbs):
        f = same_mat(x, y)
        if f is False:
            return False
        out.append(f)
    return z3.And(*out)


def cells(p, label, g, nk, rank, spec, same):
    """Every cell is written, and every write puts the specified value there."""
    ctx = p.ctx
    if not isinstance(g, Grid):
        raise Unsupported('%s is not an array' % label)
    cover = []
    at = [ctx.fresh('q') for _ in range(rank)]
    for e in g.effects:
        idx, v = e.data
        if len(idx) != rank:
            raise Unsupported('cells of %s' % label)
        ctx.push()
        try:
            ctx.add(e.guard)
            f = same(v, spec(*[iv(k) for k in idx])) if type(v) is type(spec(*at)) else False
            p.need('post', label + ' value written', f)
        finally:
            ctx.pop()
        own = [b.v for b in e.binders]
        if not all(isz(k) and any(k.eq(o) for o in own) for k in idx) or len({k.get_id() for k in idx}) != rank or len(own) != rank:
            raise Unsupported('positions written in %s' % label)
        cover.append(z3.substitute(e.guard, *[(k, q) for k, q in zip(idx, at)]))
    ctx.push()
    try:
        ctx.add(z3.And(*[z3.And(q >= 0, q < nk) for q in at]))
        p.need('post', label + ' every cell written', z3.Or(*cover) if cover else False)
    finally:
        ctx.pop()


def body(order, kinds):
    def run(p):
        w = World(p)
        nk = w.nk
        f = p.it.load(M).env['get_solk_integrals']
        phys = order[0] in 'pP'

        def one(k):
            return Mat(w, [('C', k, True, True), ('h', k, False, False), ('C', k, False, False)], (w.nmo, w.nmo))

        def two(a, b, c):
            a, b, c = (a, c, b) if phys else (a, b, c)
            ks = (a, b, c, w.kc(a, b, c))
            return Eri(ks, [w.C.at(k) for k in ks], (0, 2, 1, 3) if phys else (0, 1, 2, 3), (w.nmo,)*4)

        def dims(label, got, want):
            if len(got) != len(want):
                p.need('post', label + ' rank', False)
                return
            p.need('post', label + ' extents', z3.And(*[iv(a) == iv(b) for a, b in zip(got, want)]))

        def post(r):
            if not isinstance(r, tuple) or len(r) != 2:
                raise Unsupported('result')
            h1, h2 = r
            if 'frame' in kinds:
                # no operation on the mean field or its matrices writes to them: any other is out of reach
                p.record('frame', 'mean field and its matrices', True, 'not written', backend='engine (path, extent and frame conditions)')
                return
            if isinstance(h1, MapList):
                k = p.ctx.fresh('q')
                p.need('post', 'h1 length', iv(h1.n) == nk)
                v = h1.at(k)
                if not isinstance(v, Mat):
                    raise Unsupported('element of h1')
                p.ctx.push()
                try:
                    p.ctx.add(z3.And(k >= 0, k < nk))
                    p.need('post', 'h1 value', same_mat(v, one(k)))
                    dims('h1', v.shape, (w.nmo, w.nmo))
                finally:
                    p.ctx.pop()
            else:
                cells(p, 'h1', h1, nk, 1, one, same_mat)
                dims('h1', h1.shape, (nk, w.nmo, w.nmo))
            cells(p, 'h2', h2, nk, 3, two, same_eri)
            dims('h2', h2.shape, (nk,)*3 + (w.nmo,)*4)
        p.run(lambda: p.it.call(f, [w.kmf], {'eriorder': order}), post)
    return run


def units(kinds=('post',)):
    out = []
    for order in ('chem', 'phys', 'C', 'Physicist'):
        made = {}

        def unit(n, order=order, made=made):
            if n not in made:
                made[n] = E1Unit(ints.solk(n, order), kinds)
            return made[n]

        def configs(rng, j, fixed, unit=unit):
            n = min(9, fixed['nk']) if fixed and 'nk' in fixed else 1 + j % 4
            fx = {k: min(3, max(1, v)) for k, v in fixed.items() if k in ('ao', 'mo')} if fixed else None
            return {'nk': n, 'config': unit(n).configs(rng.randrange(10**6), 1, fx)[0]}

        def concrete(cf, unit=unit):
            return unit(cf['nk']).concrete(cf['config'])
        out.append(E2Unit('get_solk_integrals ' + order, ['integrals.get_solk_integrals'], body(order, kinds), configs, concrete,
                          maxsize=9))
    return out
