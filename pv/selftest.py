"""Checks of the machinery itself, independent of /repo.

* expected expressions (pv.wick) against a brute-force Fock-space evaluation of
  exp(-T) H_N exp(T), its Lagrangian gradient and its response densities;
* spin integration (pv.spin) against evaluation on spin-expanded tensors;
* the array model (pv.symnp) against real numpy on random expressions;
* the interpreter (pv.e2) against CPython on a corpus of programs (pv.e2diff).
"""
import sys
from itertools import product
import numpy
from . import cc, e2diff, spin, symnp
from .contract import NumBackend, SymBackend, spec, Spec
from .poly import Poly, SYM
from .wick import BLOCKS


def fock(n):
    """Annihilation matrices of n fermionic modes."""
    sz = numpy.diag([1.0, -1.0])
    a = numpy.array([[0.0, 1.0], [0.0, 0.0]])
    out = []
    for p in range(n):
        m = numpy.eye(1)
        for k in range(n):
            m = numpy.kron(m, sz if k < p else a if k == p else numpy.eye(2))
        out.append(m)
    return out


class Space(object):
    def __init__(self, no, nv):
        self.no, self.nv, self.n = no, nv, no + nv
        self.a = fock(self.n)
        self.c = [x.T for x in self.a]
        self.ref = numpy.zeros(2**self.n)
        self.ref[int('1'*no + '0'*nv, 2)] = 1.0
        # quasi-particle annihilators, for normal ordering
        self.seg = {'o': list(range(no)), 'v': list(range(no, self.n))}

    def normal(self, ops):
        """Normal-ordered product of [(kind, p)], with respect to the reference."""
        def qcre(o):
            return (o[0] == '+') == (o[1] >= self.no)
        idx = sorted(range(len(ops)), key=lambda k: (not qcre(ops[k]), k))
        sign = 1
        for i in range(len(idx)):
            for j in range(i):
                if idx[j] > idx[i]:
                    sign = -sign
        m = numpy.eye(2**self.n)*sign
        for k in idx:
            m = m @ (self.c if ops[k][0] == '+' else self.a)[ops[k][1]]
        return m


def expm(t):
    r = numpy.eye(len(t))
    x = numpy.eye(len(t))
    for k in range(1, 12):
        x = x @ t/k
        r = r + x
    return r


def check_wick(no, nv, seed=3):
    S = Space(no, nv)
    rng = numpy.random.default_rng(seed)
    B = NumBackend(rng, {'o': no, 'v': nv})
    F = {b: B.value('F.' + b, b) for b in ('oo', 'ov', 'vo', 'vv')}
    I = {b: B.value('I.' + b, b) for b in BLOCKS}
    T1, T2 = B.value('T1', 'vo'), B.value('T2', 'vvoo')
    L1, L2 = B.value('L1', 'ov'), B.value('L2', 'oovv')
    tf = 0.37
    B.values['tfac'] = numpy.asarray(tf)
    n = S.n
    Ff = numpy.zeros((n, n))
    for b, x in F.items():
        Ff[numpy.ix_(S.seg[b[0]], S.seg[b[1]])] = x
    If = numpy.zeros((n,)*4)
    for b in BLOCKS:
        for pa, sa in (((0, 1), 1), ((1, 0), -1)):
            for pb, sb in (((2, 3), 1), ((3, 2), -1)):
                perm = (pa[0], pa[1], pb[0], pb[1])
                bb = ''.join(b[k] for k in perm)
                If[numpy.ix_(*[S.seg[s] for s in bb])] = sa*sb*I[b].transpose(perm)
    H = sum(Ff[p, q]*S.normal([('+', p), ('-', q)]) for p in range(n) for q in range(n))
    for p, q, r, s in product(range(n), repeat=4):
        if p != q and r != s and If[p, q, r, s] != 0:
            H = H + 0.25*If[p, q, r, s]*S.normal([('+', p), ('+', q), ('-', s), ('-', r)])
    T = numpy.zeros((2**n, 2**n))
    for a, i in product(range(nv), range(no)):
        T = T + T1[a, i]*S.c[no + a] @ S.a[i]
    for a, b, i, j in product(range(nv), range(nv), range(no), range(no)):
        T = T + 0.25*T2[a, b, i, j]*S.c[no + a] @ S.c[no + b] @ S.a[j] @ S.a[i]
    eT, emT = expm(T), expm(-T)

    def bra(*ops):
        v = S.ref
        for k, p in ops:
            v = v @ (S.c if k == '+' else S.a)[p]
        return v
    Hb = emT @ H @ eT @ S.ref
    errs = {}
    errs['E'] = abs(S.ref @ Hb - B.eval_poly(cc.R(''), []))
    R1 = numpy.array([[bra(('+', i), ('-', no + a)) @ Hb for i in range(no)] for a in range(nv)])
    errs['S'] = abs(R1 - B.eval_poly(cc.R('S'), 'vo')).max()
    R2 = numpy.zeros((nv, nv, no, no))
    for a, b, i, j in product(range(nv), range(nv), range(no), range(no)):
        R2[a, b, i, j] = bra(('+', i), ('+', j), ('-', no + b), ('-', no + a)) @ Hb
    errs['D'] = abs(R2 - B.eval_poly(cc.R('D'), 'vvoo')).max()
    # left vector (tfac + Lambda) exp(-T)
    lam = tf*S.ref
    lam1 = numpy.zeros(2**n)
    for a, i in product(range(nv), range(no)):
        lam1 = lam1 + L1[i, a]*bra(('+', i), ('-', no + a))
    for a, b, i, j in product(range(nv), range(nv), range(no), range(no)):
        lam1 = lam1 + 0.25*L2[i, j, a, b]*bra(('+', i), ('+', j), ('-', no + b), ('-', no + a))
    left = (lam + lam1) @ emT
    right = eT @ S.ref
    for b in ('oo', 'ov', 'vv'):
        got = B.eval_poly(cc.dens(b), b[::-1])
        want = numpy.zeros(got.shape)
        for x, p in enumerate(S.seg[b[0]]):
            for y, q in enumerate(S.seg[b[1]]):
                want[y, x] = left @ S.normal([('+', p), ('-', q)]) @ right
        errs['P' + b] = abs(got - want).max()
    for b in BLOCKS:
        got = B.eval_poly(cc.dens(b), b[2:] + b[:2])
        want = numpy.zeros(got.shape)
        for (x, p), (y, q), (z, r), (w, s) in product(*[list(enumerate(S.seg[k])) for k in b]):
            want[z, w, x, y] = left @ S.normal([('+', p), ('+', q), ('-', s), ('-', r)]) @ right
        errs['P' + b] = abs(got - want).max()
    # Lambda: dL/dt = <(1+Lambda) exp(-T) [H, tau] exp(T)>
    left = (S.ref + lam1) @ emT
    g1 = numpy.zeros((no, nv))
    for a, i in product(range(nv), range(no)):
        t = S.c[no + a] @ S.a[i]
        g1[i, a] = left @ (H @ t - t @ H) @ right
    errs['L1'] = abs(g1 - B.eval_poly(cc.lam(1), 'ov')).max()
    g2 = numpy.zeros((no, no, nv, nv))
    for a, b, i, j in product(range(nv), range(nv), range(no), range(no)):
        t = S.c[no + a] @ S.c[no + b] @ S.a[j] @ S.a[i]
        g2[i, j, a, b] = left @ (H @ t - t @ H) @ right
    errs['L2'] = abs(g2 - B.eval_poly(cc.lam(2), 'oovv')).max()
    return errs


def expand(name, vals, segs, dims):
    """Spin-orbital tensor from its unrestricted blocks: by definition."""
    def rng(s):
        return [(s, sp, k) for sp in 'ab' for k in range(dims[s + sp])]
    shape = [len(rng(s)) for s in segs]
    out = numpy.zeros(shape)
    for pos in product(*[list(enumerate(rng(s))) for s in segs]):
        idx = tuple(p[0] for p in pos)
        lab = [p[1] for p in pos]
        f = spin.u_map(name, tuple(('f', l[0] + l[1], ('x', n)) for n, l in enumerate(lab)),
                       tuple(l[1] for l in lab))
        if f is None:
            continue
        (nm, ii), sg = f
        out[idx] = sg*vals(nm, ii)[tuple(lab[x[2][1]][2] for x in ii)]
    return out


def check_spin(seed=5):
    errs = {}
    rng = numpy.random.default_rng(seed)
    dims = {'oa': 2, 'va': 3, 'ob': 1, 'vb': 2}
    B = NumBackend(rng, dims)
    S = NumBackend(rng, {'o': 3, 'v': 5})

    def vals(nm, ii):
        return B.value(nm, [x[1] for x in ii])
    for n, b in [('T1', 'vo'), ('L1', 'ov'), ('T2', 'vvoo'), ('L2', 'oovv')] + \
            [('F.' + b, b) for b in ('oo', 'ov', 'vo', 'vv')] + [('I.' + b, b) for b in BLOCKS]:
        x = expand(n, vals, b, dims)
        for perm, s in SYM.get(n, []):
            errs['sym ' + n] = max(errs.get('sym ' + n, 0), abs(x - s*x.transpose(perm)).max())
        S.values[n] = x
    S.values['tfac'] = B.values['tfac'] = numpy.asarray(0.4)

    def sl(s, sp):
        return slice(0, dims[s + 'a']) if sp == 'a' else slice(dims[s + 'a'], None)
    for key, segs in [('S', 'vo'), ('D', 'vvoo'), ('L1', 'ov'), ('L2', 'oovv')] + \
            [('P' + b, b[::-1] if len(b) == 2 else b[2:] + b[:2]) for b in ('vv', 'oo', 'ov') + tuple(BLOCKS)]:
        full = S.eval_poly(cc.SO[key](), segs)
        for sp in product('ab', repeat=len(segs)):
            sp = ''.join(sp)
            got = B.eval_poly(cc.U(key, sp), [s + x for s, x in zip(segs, sp)])
            e = abs(got - full[tuple(sl(s, x) for s, x in zip(segs, sp))]).max() if got.size else 0
            errs[key] = max(errs.get(key, 0), e)
    # closed shell
    dims = {'o': 2, 'v': 3}
    Rb = NumBackend(rng, dims)
    Ub = NumBackend(rng, {'oa': 2, 'va': 3, 'ob': 2, 'vb': 3})

    def uval(n, segs):
        p = Poly()
        for f, c in spin.r_map(n, tuple(('f', s, k) for k, s in enumerate(segs))):
            p.add_raw([f], c)
        return Rb.eval_poly(p, [s[0] for s in segs])
    for n in ('T1', 'L1'):
        for s in 'ab':
            b = 'vo' if n == 'T1' else 'ov'
            Ub.values[n + s] = uval(n + s, [x + s for x in b])
    for n in ('T2', 'L2'):
        for s, sp in cc.U2:
            b = 'vvoo' if n == 'T2' else 'oovv'
            Ub.values[n + s] = uval(n + s, [x + y for x, y in zip(b, sp)])
    for s in 'ab':
        for b in ('oo', 'ov', 'vo', 'vv'):
            Ub.values['F%s.%s' % (s, b)] = uval('F%s.%s' % (s, b), [x + s for x in b])
        for b in BLOCKS:
            Ub.values['I%s.%s' % (s, b)] = uval('I%s.%s' % (s, b), [x + s for x in b])
    for b in spin.FULL:
        Ub.values['Iab.' + b] = uval('Iab.' + b, [x + y for x, y in zip(b, 'abab')])
    Ub.values['tfac'] = Rb.values['tfac'] = numpy.asarray(0.4)
    for key, segs, sp in [('S', 'vo', 'aa'), ('D', 'vvoo', 'abab'), ('L1', 'ov', 'aa'), ('L2', 'oovv', 'abab'),
                          ('Poovv', 'vvoo', 'abab'), ('Pvovo', 'vovo', 'abba')]:
        u = Ub.eval_poly(cc.U(key, sp), [x + y for x, y in zip(segs, sp)])
        r = Rb.eval_poly(cc.Rs(key, sp), segs)
        errs['R' + key] = abs(u - r).max()
    return errs


def check_arrays(seed=7, count=60):
    """Random array programs, run on real numpy and on the model."""
    rng = numpy.random.default_rng(seed)
    worst = 0.0
    for k in range(count):
        worst = max(worst, _array_program(int(rng.integers(0, 2**31))))
    return {'array programs': worst}


def _array_program(seed):
    dims = {'o': 2, 'v': 3, 'w': 4}

    def run(B, np, einsum):
        rng = numpy.random.default_rng(seed)
        A = B.tensor('zA', 'vo')
        C = B.tensor('zC', 'vo')
        D = B.tensor('zD', 'vvoo')
        E = B.array('zE', Spec([('o', 'v'), ('v', 'o')], {
            (0, 0): Poly.entry('zE00', [('f', 'o', 0), ('f', 'v', 1)]),
            (1, 0): Poly.entry('zE10', [('f', 'v', 0), ('f', 'v', 1)]),
            (0, 1): Poly.entry('zE01', [('f', 'o', 0), ('f', 'o', 1)]),
            (1, 1): Poly.entry('zE11', [('f', 'v', 0), ('f', 'o', 1)])}))
        no, nv = B.dim('o'), B.dim('v')
        pool = [A, C, D, A.copy(), D.copy()]
        for _ in range(7):
            r = int(rng.integers(0, 14))
            x = pool[int(rng.integers(0, len(pool)))]
            y = pool[int(rng.integers(0, len(pool)))]
            same = len(x.shape) == len(y.shape)
            if r == 0:
                pool.append(x.transpose(tuple(range(len(x.shape)))[::-1]).transpose(tuple(range(len(x.shape)))[::-1]))
            elif r == 1 and same:
                pool.append(x + 0.5*y)
            elif r == 2 and same:
                x += y
            elif r == 3 and same:
                x -= 0.25*y*y
            elif r == 4:
                pool.append(einsum('ai,bj->abij', A, C))
            elif r == 5:
                pool.append(einsum('abij,bj->ai', D, x if len(x.shape) == 2 else A))
            elif r == 6 and len(x.shape) == 4:
                pool.append(x.transpose((1, 0, 3, 2)))
            elif r == 7 and len(x.shape) == 4:
                x[:] = x.transpose((1, 0, 2, 3)) - x
            elif r == 8:
                z = np.zeros((no + nv, nv + no))
                z[no:, nv:] = x if len(x.shape) == 2 else A
                z[:no, :nv] += E[:no, :nv]
                pool.append(z[no:, nv:])
            elif r == 9:
                v = E[no:, nv:]
                v += A
                pool.append(v)
            elif r == 10:
                pool.append(np.dot(A, C.transpose((1, 0)) @ A))
            elif r == 11 and same:
                pool.append(np.concatenate((x, y), axis=0)[:nv])
            elif r == 12:
                pool.append(np.tensordot(D, C, axes=([1, 3], [0, 1])))
            elif r == 13 and len(x.shape) == 2:
                pool.append(x*einsum('ai,ai->', A, C))
        return pool + [E]
    S = SymBackend(None)
    sym = run(S, symnp.NUMPY, symnp.einsum)
    N = NumBackend(numpy.random.default_rng(seed), dims)
    num = run(N, numpy, numpy.einsum)
    worst = 0.0
    for a, b in zip(sym, num):
        st = a.struct()
        axes = [tuple(ax[0]) if ax else ('1',) for ax in st]
        segs, data = a.flat()
        want = N.eval_spec(Spec(axes, dict(data)))
        if want.shape != b.shape:
            return float('inf')
        worst = max(worst, abs(want - b).max()/(1 + abs(b).max()))
    return worst


def check_conditions(seed=11, count=80):
    """Random programs that branch on data and extents: the path taken by real numpy
    must be one the model explored, with the same values, before and after what the
    path says is used."""
    rng = numpy.random.default_rng(seed)
    errs = {'values': 0.0, 'path not explored': 0.0}
    for k in range(count):
        for what, e in _condition_program(int(rng.integers(0, 2**31))):
            errs[what] = max(errs[what], e)
    return errs


def _condition_program(seed):
    segs = {'A': 'vo', 'C': 'vo', 'D': 'vvoo', 'G': 'wo'}

    def run(B, np, einsum, rec):
        rng = numpy.random.default_rng(seed)

        def test(c):
            c = bool(c)
            rec.append(c)
            return c
        A, C, D, G = [B.tensor('z' + n, s) for n, s in segs.items()]
        no, nv, nw = B.dim('o'), B.dim('v'), B.dim('w')
        out = A + 2.0*C
        two = einsum('ai,bj->abij', A, C) + D
        for _ in range(3):
            r = int(rng.integers(0, 12))
            if r == 0 and test(A.any()):
                out = out + A
            elif r == 1 and test(not C.any()):
                out = out - A + 3.0*C
            elif r == 2 and test(np.array_equal(A, C)):
                out = 2.0*A + out
            elif r == 3 and test(np.array_equal(D, D.transpose((1, 0, 3, 2)))):
                two = two + D.transpose((1, 0, 3, 2))
            elif r == 4 and test(np.max(abs(A)) > 0.5 if no*nv > 0 else False):
                out = out*2.0
            elif r == 5 and test(no == nv):
                out = out + A.transpose((1, 0))
            elif r == 6 and test(no == 0):
                two = two - D
            elif r == 7:
                k = int(rng.integers(0, 2))
                out = out[-nv:] if k else np.concatenate((out[:nv], A), axis=0)[-nv:]
            elif r == 8 and test(np.allclose(A, C)):
                out = out - C
            elif r == 9 and test((D == 0).all()):
                two = two + 5.0*D
            elif r == 10 and test(np.array_equal(A, G)):
                out = out + G
            elif r == 11 and test(symnp.identical(A, C)):
                out = out - 3.0*C + A
            else:
                out = out + 0.5*C
        return [out, two]

    def symbolic():
        rec = []
        S = SymBackend(None)
        return run(S, symnp.NUMPY, symnp.einsum, rec), rec
    try:
        paths = symnp.explore(symbolic, 256)
    except symnp.Unsupported:
        return
    for j, (dims, vals, force) in enumerate([
            ({'o': 2, 'v': 3, 'w': 4}, 'plain', None), ({'o': 2, 'v': 2, 'w': 2}, 'twins', None),
            ({'o': 0, 'v': 3, 'w': 3}, 'plain', None), ({'o': 2, 'v': 0, 'w': 2}, 'plain', None),
            ({'o': 2, 'v': 3, 'w': 3}, 'plain', {'zero': ['zA', 'zD']}),
            ({'o': 3, 'v': 2, 'w': 2}, 'plain', {'zero': ['zC']}),
            ({'o': 1, 'v': 3, 'w': 3}, 'plain', {'groups': [['same', 'zA', 'zC', 'zG']]}),
            ({'o': 2, 'v': 3, 'w': 2}, 'plain', {'groups': [['alias', 'zA', 'zC']]})]):
        N = NumBackend(numpy.random.default_rng(seed + j), dims, vals=vals, force=force)
        took = []
        num = run(N, numpy, numpy.einsum, took)
        hits = [(r[1][0], info) for r, info in paths if r[0] == 'ok' and r[1][1] == took]
        good = False
        for sym, info in hits:
            if not _extents_fit(info['z3path'], dims):
                continue
            good = True
            symnp.CTX.facts, symnp.CTX.z3path = info['facts'], info['z3path']
            for a, b in zip(sym, num):
                axes = [tuple(ax[0]) if ax else ('1',) for ax in a.struct()]
                data = dict(a.flat()[1])
                empty = symnp.zero_segs({s for ax in axes for s in ax} | {'o', 'v', 'w'})
                for d in (data, {k: symnp.use_facts(p, info['facts'], empty) for k, p in data.items()}):
                    want = N.eval_spec(Spec(axes, dict(d)))
                    if want.shape != b.shape:
                        yield 'values', float('inf')
                    elif b.size:
                        yield 'values', abs(want - b).max()/(1 + abs(b).max())
            symnp.CTX.reset([])
        if not good:
            yield 'path not explored', 1.0


def _extents_fit(conds, dims):
    z3 = symnp._z3()
    s = z3.Solver()
    s.add(conds)
    for k, n in dims.items():
        s.add(z3.Int('n_' + k) == n)
    return s.check() == z3.sat


def main():
    bad = 0
    for name, errs in [('wick 2o2v', check_wick(2, 2)), ('wick 3o2v', check_wick(3, 2)),
                       ('spin', check_spin()), ('arrays', check_arrays()),
                       ('branches', check_conditions())]:
        w = max(errs, key=lambda k: errs[k])
        ok = all(e < 1e-9 for e in errs.values())
        print('%-10s %d comparisons, largest deviation %.1e (%s) %s' % (name, len(errs), errs[w], w, 'ok' if ok else 'FAILED'))
        bad += not ok
    runs, wrong, out = e2diff.check()
    print('%-10s %d runs, %d programs out of reach, %d disagreements %s'
          % ('interpreter', runs, len(out), len(wrong), 'FAILED' if wrong else 'ok'))
    for w in wrong:
        print('  ' + w)
    bad += len(wrong)
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
