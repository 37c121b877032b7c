"""Contracts for the configuration-interaction utilities: determinants, excitation
lists, bases (P12, P13, P22)."""
import itertools
from .e2 import (z3, iv, isz, isint, Arr, Obj, Num, PyList, SymList, Seg, Binder, Unsupported, same, subst, ite, rv)
from .e2unit import E2Unit, Proof, earlier
from . import loader

M = 'cqcpy.ci_utils'


def real():
    return loader.real(M)


def make(p, cls, n, arr):
    d = p.it.call(p.it.get(M, cls), [n, arr], {})
    d.given = isinstance(d, Obj)
    return d


def occ_of(p, v, what='result'):
    """Occupation array of a determinant object."""
    if not isinstance(v, Obj):
        raise Unsupported('%s is not a determinant' % what)
    a = v.attrs.get('occ')
    if a is None:
        a = p.it.attr(v, 'occ')
    if not isinstance(a, Arr):
        raise Unsupported('occupation of %s' % what)
    return a


def parity(e):
    """Sign (-1)^e as a real term."""
    return z3.If(e % 2 == 0, z3.RealVal(1), z3.RealVal(-1))


def is_none_pair(v):
    return isinstance(v, tuple) and len(v) == 2 and v[0] is None and v[1] is None


# ------------------------------------------------------------------- P12

def phase_exponent(p, arr, i, a):
    """Electrons passed by a_i and then by a+_a, on occupation arr."""
    ctx = p.ctx
    before_i = ctx.sum_range(arr, 0, i)
    before_a = ctx.sum_range(arr, 0, a)
    return before_i + before_a - z3.If(iv(i) < iv(a), iv(arr.at(i)), z3.IntVal(0))


def excite_body(kind):
    def body(p):
        n = p.int('n', 1)
        i, a = p.int('i', 0), p.int('a', 0)
        p.assume(z3.And(i < n, a < n))
        occ, f = p.bits('occ', n, kind)
        k0, expr = occ.k0, occ.expr
        cls = p.it.get(M, 'Dstring')
        d = make(p, 'Dstring', n, occ)
        fn = p.it.attr(d, 'excite')
        own = d.attrs.get('occ')

        def post(v):
            can = z3.And(f(i) == 1, f(a) == 0)
            if is_none_pair(v):
                p.need('post', 'nothing returned only when the move is impossible', z3.Not(can))
            else:
                if not (isinstance(v, tuple) and len(v) == 2):
                    p.need('post', 'a sign and a determinant', False)
                    return
                s, new = v
                if s is None or new is None:
                    p.need('post', 'both or none', False)
                    return
                p.need('post', 'determinant returned only when the move is possible', can)
                p.need('post', 'class', isinstance(new, Obj) and new.cls is cls)
                na = occ_of(p, new)
                p.pointwise('post', 'occupations', na, n,
                            lambda k: z3.If(k == i, z3.IntVal(0), z3.If(k == a, z3.IntVal(1), f(k))))
                p.need('post', 'orbital count', iv(p.it.attr(new, 'n')) == n)
                p.need('post', 'phase', rv(s) == parity(phase_exponent(p, Arr(p.ctx, 'ndarray', n, k0, expr), i, a)))
                p.need('frame', 'new occupation array', na is not occ and na is not own)
            p.unchanged('occupations given', occ, k0, expr)
            if own is not None and own is not occ:
                p.unchanged('original determinant', own, k0, expr)
        p.run(lambda: p.it.call(fn, [i, a], {}), post)
    return body


def typed(rng, occ):
    """Occupations in one of the forms a caller may hand over."""
    import numpy
    k = rng.choice(['int64']*4 + ['int32', 'int8', 'float64'])
    return numpy.array(occ, dtype=k)


def sign_of(occ, i, a):
    s = sum(occ[:i])
    o = list(occ)
    o[i] = 0
    return -1 if (s + sum(o[:a])) % 2 else 1


def excite_configs(rng, j, fixed):
    n = rng.choice([1, 2, 3, 4, 5, 6, 7, 9, 14] if j % 4 != 3 else [20, 40, 70, 140, 300])
    if fixed and 'n' in fixed:
        n = max(1, fixed['n'])
    return {'n': n, 'seed': rng.randrange(10**6), 'fixed': fixed or {}}


def patterns(cf):
    """Occupation patterns and orbital pairs for one size: all if few, else random."""
    import random
    n = cf['n']
    rng = random.Random(cf['seed'])
    fx = cf.get('fixed') or {}
    if n <= 5:
        for occ in itertools.product((0, 1), repeat=n):
            for i in range(n):
                for a in range(n):
                    yield list(occ), i, a
        return
    for t in range(1500 if n <= 14 else 300):
        w = rng.random()
        occ = [1 if rng.random() < w else 0 for _ in range(n)]
        i, a = rng.randrange(n), rng.randrange(n)
        if t % 2 and 0 <= fx.get('i', -1) < n and 0 <= fx.get('a', -1) < n:
            i, a = fx['i'], fx['a']
        if i != a and rng.random() < 0.9:
            occ[i], occ[a] = 1, 0
        yield occ, i, a


def excite_concrete(kind):
    def run(cf):
        import random
        c = real()
        rng = random.Random(cf['seed'] + 1)
        bad = []
        for occ, i, a in patterns(cf):
            arg = typed(rng, occ) if kind == 'ndarray' else list(occ)
            d = c.Dstring(len(occ), arg)
            earlier(lambda: d.excite(i, a), d.occ)
            s, new = d.excite(i, a)
            who = 'occ=%s i=%d a=%d' % (occ, i, a)
            if list(d.occ) != occ or list(arg) != occ:
                bad.append(('frame', 'original determinant', who))
            if occ[i] == 1 and occ[a] == 0:
                want = list(occ)
                want[i], want[a] = 0, 1
                if new is None or s is None:
                    bad.append(('post', 'determinant', who + ' gave none'))
                elif list(new.occ) != want or new.n != len(occ):
                    bad.append(('post', 'occupations', who + ' gave %s' % list(new.occ)))
                elif s != sign_of(occ, i, a):
                    bad.append(('post', 'phase', who + ' gave %s' % s))
                else:
                    new.occ[i] = 1
                    if list(d.occ) != occ:
                        bad.append(('frame', 'shared storage', who))
            elif s is not None or new is not None:
                bad.append(('post', 'none', who + ' gave %s' % ((s, new),)))
            if bad:
                break
        return bad
    return run


def excite_stub(it, env):
    """Contract of the excitation operation."""
    ctx = it.ctx
    d, i, a = env['self'], env['i'], env['a']
    if not isinstance(d, Obj) or not isint(i) or not isint(a):
        return NotImplemented
    occ = d.attrs.get('occ')
    if not isinstance(occ, Arr) or occ.effects or 'n' not in d.attrs:
        return NotImplemented
    if not ctx.proves(z3.And(iv(i) >= 0, iv(i) < iv(occ.n), iv(a) >= 0, iv(a) < iv(occ.n))):
        return NotImplemented
    if not it.truth(ctx.compare('==', occ.at(i), 1)):
        return (None, None)
    if not it.truth(ctx.compare('==', occ.at(a), 0)):
        return (None, None)
    o2 = occ.clone('ndarray', ctx.depth)
    o2.updates += [(i, 0), (a, 1)]
    new = Obj(ctx, d.cls, {'n': d.attrs['n'], 'occ': o2})
    return (Num.sign(phase_exponent(it.proof, occ, i, a)), new)


def level_body(fname):
    def body(p):
        n = p.int('n', 0)
        a, f = p.bits('occ', n)
        b, g = p.bits('other', n)
        d, e = make(p, 'Dstring', n, a), make(p, 'Dstring', n, b)
        ka, ea, kb, eb = a.k0, a.expr, b.k0, b.expr
        k = p.ctx.fresh('k')
        want = p.ctx.psum(k, z3.If(f(k) != g(k), z3.IntVal(1), z3.IntVal(0)), n, n)

        def post(v):
            if not isint(v):
                raise Unsupported('difference count')
            p.need('post', 'number of orbitals that differ', iv(v) == want)
            p.unchanged('first', a, ka, ea)
            p.unchanged('second', b, kb, eb)
        p.run(lambda: p.it.call(p.it.get(M, fname), [d, e], {}), post)
    return body


def level_stub(it, env):
    vals = list(env.values())[:2]
    ctx = it.ctx
    if not all(isinstance(v, Obj) and isinstance(v.attrs.get('occ'), Arr) for v in vals):
        return NotImplemented
    x, y = [v.attrs['occ'] for v in vals]
    if x.effects or y.effects or not ctx.proves(iv(x.n) == iv(y.n)):
        return NotImplemented
    if not (ctx.is01_generic(x) and ctx.is01_generic(y)):
        return NotImplemented
    d = it.elementwise(lambda u, w: z3.If(iv(u) != iv(w), z3.IntVal(1), z3.IntVal(0)), [x, y])
    return ctx.sum_range(d, 0, x.n)


def pair_configs(rng, j, fixed):
    n = rng.choice([0, 1, 2, 3, 4, 5, 8, 13] if j % 4 != 3 else [20, 40, 70, 140, 300])
    if fixed and 'n' in fixed:
        n = fixed['n']
    return {'n': n, 'seed': rng.randrange(10**6)}


def level_concrete(fname):
    def run(cf):
        import random
        c = real()
        rng = random.Random(cf['seed'])
        n = cf['n']
        for t in range(60):
            x = [rng.randrange(2) for _ in range(n)]
            y = [rng.randrange(2) for _ in range(n)]
            dx, dy = c.Dstring(n, typed(rng, x)), c.Dstring(n, typed(rng, y))
            earlier(lambda: getattr(c, fname)(dx, dy), dx.occ)
            v = getattr(c, fname)(dx, dy)
            if v != sum(p != q for p, q in zip(x, y)):
                return [('post', 'number of orbitals that differ', '%s %s gave %s' % (x, y, v))]
            if list(dx.occ) != x or list(dy.occ) != y:
                return [('frame', 'operands', '%s %s' % (x, y))]
        return []
    return run


def eq_body(cls):
    def body(p):
        n, m = p.int('n', 0), p.int('m', 0)
        mk = p.bits if cls == 'Dstring' else p.counts
        a, f = mk('occ', n)
        b, g = mk('other', m)
        d, e = make(p, cls, n, a), make(p, cls, m, b)
        q = z3.Int('q')
        want = z3.And(n == m, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), f(q) == g(q))))

        def post(v):
            w = v if isz(v) else z3.BoolVal(bool(v))
            if isz(w) and not z3.is_bool(w):
                raise Unsupported('comparison result')
            p.need('post', 'equal exactly when the occupations agree', w == want)
        p.run(lambda: p.it.equal(d, e), post)
    return body


def eq_concrete(cls):
    def run(cf):
        import random
        c = real()
        rng = random.Random(cf['seed'])
        n = cf['n']
        top = 2 if cls == 'Dstring' else 4
        for t in range(80):
            x = [rng.randrange(top) for _ in range(n)]
            y = list(x)
            r = rng.random()
            if r < 0.5 and n:
                y[rng.randrange(n)] = rng.randrange(top)
            elif r < 0.6:
                y = y + [0]
            elif r < 0.65 and n and top > 2 and t % 4 == 0:
                k = rng.randrange(n)
                y[k] = x[k] + rng.choice(MANY[6:])
            elif r < 0.7:
                y = [rng.randrange(top) for _ in range(n)]
            form = typed if t % 2 else lambda r, z: list(z)
            v = getattr(c, cls)(len(x), form(rng, x)) == getattr(c, cls)(len(y), typed(rng, y) if t % 4 else list(y))
            if bool(v) != (x == y):
                return [('post', 'equality', '%s %s gave %s' % (x, y, v))]
        return []
    return run


def U_excite(log=None):
    return E2Unit('moving an electron (array)', [M + '.Dstring.excite', M + '.Dstring.__init__'],
                  excite_body('ndarray'), excite_configs, excite_concrete('ndarray'), excite_stub, log=log)


def U_level(fname='level', log=None):
    return E2Unit(fname, [M + '.' + fname], level_body(fname), pair_configs, level_concrete(fname), level_stub, log=log)


def P12(log):
    return [U_excite(log),
            E2Unit('moving an electron (list)', [M + '.Dstring.excite'], excite_body('list'), excite_configs,
                   excite_concrete('list')),
            U_level('level'), U_level('diff'),
            E2Unit('equality', [M + '.Dstring.__eq__'], eq_body('Dstring'), pair_configs, eq_concrete('Dstring'))]


# ------------------------------------------------------------------- P13

def guard_of(seg):
    return z3.And(seg.guard, *[b.guard() for b in seg.binders])


def settle(p, arr, base):
    """Positions where the array differs from base (a function of the position), as
    (holes, particles) under the current assumptions; the updates must be settled by
    them: distinct positions or repeated ones with known equality."""
    ctx = p.ctx
    if arr.effects:
        raise Unsupported('array changed in a loop')
    k = ctx.fresh('q')
    ctx.push()
    try:
        ctx.add(z3.And(k >= 0, k < iv(arr.n)))
        if not ctx.proves(iv(arr.base(k)) == iv(base(k))):
            raise Unsupported('list element not built from the reference')
    finally:
        ctx.pop()
    pts = []
    for pos, _ in arr.updates:
        dup = False
        for q in pts:
            if same(q, pos) is True or ctx.proves(iv(q) == iv(pos)):
                dup = True
                break
            if not ctx.proves(iv(q) != iv(pos)):
                raise Unsupported('positions of the changes not settled')
        if not dup:
            pts.append(pos)
    holes, parts = [], []
    for q in pts:
        v = arr.at(q)
        b = base(iv(q))
        if ctx.proves(iv(v) == iv(b)):
            continue
        if ctx.proves(z3.And(iv(v) == 0, iv(b) == 1)):
            holes.append(iv(q))
        elif ctx.proves(z3.And(iv(v) == 1, iv(b) == 0)):
            parts.append(iv(q))
        else:
            raise Unsupported('value of a changed occupation')
    return holes, parts


def invert(term, binders):
    """(binder, offset) when term = binder + offset and offset has no binder."""
    for b in binders:
        off = z3.simplify(term - b.v)
        if not any(mentions(off, c.v) for c in binders):
            return b, off
    return None


def mentions(t, v):
    todo = [t]
    while todo:
        x = todo.pop()
        if x.eq(v):
            return True
        todo += x.children()
    return False


class Piece(object):
    """One segment of a list of determinants (or of tuples of them)."""
    def __init__(self, seg, spins):
        self.seg, self.spins = seg, spins       # spins: [(holes, particles)]

    def cls(self):
        return tuple(len(h) for h, _ in self.spins)


def read_list(p, lst, bases, what):
    """Leading element and pieces of a list result."""
    ctx = p.ctx
    if isinstance(lst, PyList):
        vals, segs = list(lst.vals), list(lst.tail)
    elif isinstance(lst, SymList):
        vals, segs = [], list(lst.segs)
    else:
        raise Unsupported('%s is not a list' % what)
    segs = [Seg([], z3.BoolVal(True), v) for v in vals] + segs
    out = []
    for j, s in enumerate(segs):
        ctx.push()
        try:
            ctx.add(guard_of(s))
            if ctx.solver.check() == z3.unsat:
                continue
            pay = s.payload if isinstance(s.payload, tuple) else (s.payload,)
            if len(pay) != len(bases):
                p.need('post', 'element %d' % j, False)
                return None
            spins = []
            for d, (n, base) in zip(pay, bases):
                if d is None or isint(d) or isinstance(d, (Num, Arr, PyList, SymList, tuple, str, bool)):
                    p.need('post', 'every element is a determinant', False)
                    return None
                a = occ_of(p, d, 'element')
                p.need('post', 'length of element %d' % j, z3.And(iv(a.n) == iv(n), iv(p.it.attr(d, 'n')) == iv(n)))
                spins.append(settle(p, a, base))
            out.append(Piece(s, spins))
        finally:
            ctx.pop()
    return out


def sorted_targets(p, k, n, base, tag):
    """k increasing occupied and k increasing empty positions."""
    hs = [z3.Int('%sh%d' % (tag, j)) for j in range(k)]
    ps = [z3.Int('%sp%d' % (tag, j)) for j in range(k)]
    fs = []
    for lst, val in ((hs, 1), (ps, 0)):
        for j, x in enumerate(lst):
            fs += [x >= 0, x < iv(n), iv(base(x)) == val]
            if j:
                fs.append(lst[j-1] < x)
    return hs, ps, fs


def matches(p, piece, targets):
    """Conditions under which the piece yields the target, one per assignment of the
    targets to the binders."""
    ctx = p.ctx
    seg = piece.seg
    terms, options = [], []
    for (holes, parts), (hs, ps) in zip(piece.spins, targets):
        terms += holes + parts
        options.append([tuple(x) + tuple(y) for x in itertools.permutations(hs) for y in itertools.permutations(ps)])
    inv = []
    for t in terms:
        r = invert(t, seg.binders)
        if r is None:
            raise Unsupported('positions are not loop variables')
        inv.append(r)
    names = [b.v for b, _ in inv]
    if len({v.get_id() for v in names}) != len(names) or len(names) != len(seg.binders):
        raise Unsupported('loop variables do not match the positions')
    g = guard_of(seg)
    out = []
    for combo in itertools.product(*options):
        vals = [x for c in combo for x in c]
        pairs = [(b.v, z3.simplify(v - off)) for (b, off), v in zip(inv, vals)]
        f = z3.substitute(g, *pairs) if pairs else g
        if ctx.check(f) != z3.unsat:
            out.append(f)
    return out


def check_list(p, lst, bases, classes, first=None, what='list'):
    """The list holds every determinant of the classes exactly once and nothing else."""
    ctx = p.ctx
    pieces = read_list(p, lst, bases, what)
    if pieces is None:
        return
    if first is not None:
        if first:
            ok = bool(pieces) and not pieces[0].seg.binders and pieces[0].cls() == (0,)*len(bases)
            p.need('post', 'reference first', ok)
            if not ok:
                return
            pieces = pieces[1:]
    seen = {}
    for j, q in enumerate(pieces):
        ctx.push()
        try:
            ctx.add(guard_of(q.seg))
            okc = all(len(h) == len(x) for h, x in q.spins) and q.cls() in classes
            p.need('post', 'element class %s' % (q.cls(),), okc)
        finally:
            ctx.pop()
        if not okc:
            return
        seen.setdefault(q.cls(), []).append(q)
    for c in classes:
        targets, facts = [], []
        for s, (k, (n, base)) in enumerate(zip(c, bases)):
            hs, ps, fs = sorted_targets(p, k, n, base, 'ab'[s])
            targets.append((hs, ps))
            facts += fs
        ctx.push()
        try:
            for f in facts:
                ctx.add(f)
            if ctx.solver.check() == z3.unsat:
                # no member on this path
                p.must.setdefault('class %s' % (c,), False)
                continue
            p.must['class %s' % (c,)] = True
            conds = []
            for q in seen.get(c, []):
                conds += matches(p, q, targets)
            if not conds:
                p.need('post', 'class %s present once' % (c,), False)
            elif len(conds) == 1:
                p.need('post', 'class %s present once' % (c,), conds[0])
            else:
                p.need('post', 'class %s present once' % (c,),
                       z3.Sum([z3.If(x, z3.IntVal(1), z3.IntVal(0)) for x in conds]) == 1)
        finally:
            ctx.pop()


def prefix(m):
    return lambda k: z3.If(k < iv(m), z3.IntVal(1), z3.IntVal(0))


LETTER = {1: 's', 2: 'd', 3: 't', 4: 'q'}


def strings_body(k, given):
    def body(p):
        n = p.int('n', 0)
        nocc = p.int('nocc', 0)
        p.assume(nocc <= n)
        p.ctx.intervals += [(z3.IntVal(0), nocc), (nocc, n)]
        fn = p.it.get(M, LETTER[k] + '_strings')
        if given is None:
            base = prefix(nocc)
            p.run(lambda: p.it.call(fn, [n, nocc], {}), lambda v: check_list(p, v, [(n, base)], [(k,)]))
        else:
            occ, f = p.bits('occ', n, given)
            k0, e = occ.k0, occ.expr

            def post(v):
                check_list(p, v, [(n, f)], [(k,)])
                p.unchanged('reference given', occ, k0, e)
            p.run(lambda: p.it.call(fn, [n, nocc], {'occ': occ}), post)
    return body


def excitations(occ, k):
    o = [i for i, x in enumerate(occ) if x]
    v = [i for i, x in enumerate(occ) if not x]
    out = []
    for hs in itertools.combinations(o, k):
        for ps in itertools.combinations(v, k):
            w = list(occ)
            for h in hs:
                w[h] = 0
            for q in ps:
                w[q] = 1
            out.append(tuple(w))
    return out


def strings_configs(k):
    def cfg(rng, j, fixed):
        top = {1: 9, 2: 8, 3: 8, 4: 9}[k]
        n = rng.randrange(0, top + 1) if j else min(2*k, top)
        nocc = rng.randrange(0, n + 1) if j else k
        if j % 12 == 11:
            # more orbitals than bits in a machine integer
            n = 12 if k == 4 else 66
            nocc = rng.randrange(n + 1) if k == 1 else k
        if fixed:
            n = min(max(fixed.get('n', n), 0), {1: 70, 2: 40, 3: 14, 4: 12}[k])
            nocc = min(max(fixed.get('nocc', nocc if n <= 24 or k == 1 else rng.choice([2, 3, n - 2])), 0), n)
            if n > 24 and k > 1 and 3 < nocc < n - 3:
                n = 24
                nocc = min(nocc, n)
        occ = [1]*nocc + [0]*(n - nocc)
        if rng.random() < 0.8:
            rng.shuffle(occ)
        return {'n': n, 'nocc': nocc, 'occ': occ}
    return cfg


def tup(d):
    return None if d is None else tuple(int(x) for x in d.occ)


def strings_concrete(k, given):
    def run(cf):
        import numpy
        c = real()
        fn = getattr(c, LETTER[k] + '_strings')
        n, nocc = cf['n'], cf['nocc']
        occ = [1 if i < nocc else 0 for i in range(n)]
        if given is None:
            earlier(lambda: fn(n, nocc))
            r = fn(n, nocc)
        else:
            occ = list(cf['occ'])
            arg = list(occ) if given == 'list' else numpy.array(occ)
            earlier(lambda: fn(n, nocc, occ=arg), arg)
            r = fn(n, nocc, occ=arg)
            if list(arg) != occ:
                return [('frame', 'reference', str(occ))]
        return compare([tup(d) for d in r], excitations(occ, k), 'reference %s' % (occ,))
    return run


def compare(got, want, who):
    from collections import Counter
    if None in got:
        return [('post', 'every element is a determinant', who)]
    a, b = Counter(got), Counter(want)
    for x in a:
        if a[x] > b.get(x, 0):
            return [('post', 'duplicate' if x in b else 'not an excitation', '%s: %s' % (who, x))]
    for x in b:
        if x not in a:
            return [('post', 'missing', '%s: %s' % (who, x))]
    return []


def strings_stub(k):
    def stub(it, env):
        ctx = it.ctx
        n, nocc, occ = env.get('n'), env.get('nocc'), env.get('occ')
        if not isint(n):
            return NotImplemented
        if occ is None:
            if not isint(nocc) or not ctx.proves(z3.And(iv(nocc) >= 0, iv(nocc) <= iv(n))):
                return NotImplemented
            k0 = ctx.fresh('k')
            arr = Arr(ctx, 'ndarray', n, k0, prefix(nocc)(k0))
        else:
            if not isinstance(occ, Arr) or occ.effects or not ctx.is01_generic(occ) or not ctx.proves(iv(occ.n) == iv(n)):
                return NotImplemented
            if occ.updates:
                return NotImplemented
            arr = occ.clone('ndarray', ctx.depth)
        hs, ps = [ctx.fresh('h') for _ in range(k)], [ctx.fresh('p') for _ in range(k)]
        g = []
        for lst, val in ((hs, 1), (ps, 0)):
            for j, x in enumerate(lst):
                g.append(iv(arr.base(x)) == val)
                if j:
                    g.append(lst[j-1] < x)
        new = arr.clone('ndarray', ctx.depth)
        new.updates = [(x, 0) for x in hs] + [(x, 1) for x in ps]
        d = Obj(ctx, it.get(M, 'Dstring'), {'n': n, 'occ': new})
        bs = [Binder(x, 0, n) for x in hs + ps]
        r = PyList(ctx, [])
        r.tail = [Seg(bs, z3.And(*(g + [b.guard() for b in bs])), d)]
        return r
    return stub


def U_strings(k, given=None, log=None):
    return E2Unit('%s-fold excitations, %s' % (k, 'default reference' if given is None else 'reference as ' + given),
                  [M + '.%s_strings' % LETTER[k]], strings_body(k, given), strings_configs(k), strings_concrete(k, given),
                  strings_stub(k), log=log, maxsize=24)


def pair_classes(order):
    return [(i, j) for i in range(order + 1) for j in range(order + 1 - i) if i + j > 0]


UB = {1: 'ucis_basis', 2: 'ucisd_basis', 3: 'ucisdt_basis', 4: 'ucisdtq_basis'}
GB = {1: 'gcis_basis', 2: 'gcisd_basis', 3: 'gcisdt_basis', 4: 'gcisdtq_basis'}


def ubasis_body(order, gs):
    def body(p):
        n = p.int('n', 0)
        na, nb = p.int('na', 0), p.int('nb', 0)
        p.assume(z3.And(na <= n, nb <= n))
        kw = {} if gs is None else {'gs': gs}
        bases = [(n, prefix(na)), (n, prefix(nb))]
        p.run(lambda: p.it.call(p.it.get(M, UB[order]), [n, na, nb], kw),
              lambda v: check_list(p, v, bases, pair_classes(order), first=gs is not False))
    return body


def gbasis_body(order, gs):
    def body(p):
        h = p.int('half', 0)
        n = p.int('n', 0)
        na, nb = n - n/2, n/2
        p.assume(na <= h)
        kw = {} if gs is None else {'gs': gs}

        def base(k):
            return z3.If(k < h, prefix(na)(k), prefix(nb)(k - h))
        p.run(lambda: p.it.call(p.it.get(M, GB[order]), [2*h, n], kw),
              lambda v: check_list(p, v, [(2*h, base)], [(k,) for k in range(1, order + 1)], first=gs is not False))
    return body


def ubasis_configs(order):
    def cfg(rng, j, fixed):
        n = rng.randrange(0, {1: 7, 2: 6, 3: 6, 4: 5}[order]) if j else {1: 4, 2: 5, 3: 5, 4: 4}[order]
        na, nb = rng.randrange(0, n + 1), rng.randrange(0, n + 1)
        if not j:
            na, nb = (2, 3) if n > 4 else (2, 2)
        if 0 < j < 4 and order > 2:
            # every class has members for one of these
            n, na, nb = {3: [(6, 3, 1), (6, 2, 3), (6, 3, 3)], 4: [(8, 4, 1), (8, 1, 4), (6, 3, 3)]}[order][j-1]
        if j % 20 == 11:
            n, na, nb = 66, 1, 1
        if fixed:
            n = min(max(fixed.get('n', n), 0), 40)
            na, nb = [min(max(fixed.get(x, rng.choice([1, n - 1])), 0), n) for x in ('na', 'nb')]
            if n > 8 and any(1 < x < n - 1 for x in (na, nb)):
                # many electrons to move: few orbitals
                n = 8
                na, nb = min(na, n), min(nb, n)
        return {'n': n, 'na': na, 'nb': nb}
    return cfg


def ubasis_concrete(order, gs):
    def run(cf):
        c = real()
        n, na, nb = cf['n'], cf['na'], cf['nb']
        kw = {} if gs is None else {'gs': gs}
        call = lambda: getattr(c, UB[order])(n, na, nb, **kw)
        earlier(call)
        r = [(tup(x), tup(y)) for x, y in call()]
        oa, ob = [[1 if i < m else 0 for i in range(n)] for m in (na, nb)]
        want = [] if gs is False else [(tuple(oa), tuple(ob))]
        who = 'n=%d na=%d nb=%d' % (n, na, nb)
        if want and (not r or r[0] != want[0]):
            return [('post', 'reference first', who)]
        for i, j in pair_classes(order):
            want += [(x, y) for x in excitations(oa, i) for y in excitations(ob, j)]
        return compare(r, want, who)
    return run


def gbasis_configs(order):
    def cfg(rng, j, fixed):
        h = rng.randrange(0, {1: 6, 2: 5, 3: 5, 4: 5}[order]) if j else 4
        n = rng.randrange(0, 2*h + 1) if j else {1: 3, 2: 3, 3: 4, 4: 4}[order]
        if j % 20 == 11:
            h, n = 33, 2
        if fixed:
            h = min(max(fixed.get('half', h), 0), 24)
            n = min(max(fixed.get('no', fixed.get('n', n)), 0), 2*h)
            if h > 6 and 2 < n < 2*h - 2:
                h = 6
                n = min(n, 2*h)
        return {'half': h, 'n': n}
    return cfg


def gref(h, n):
    nb = n//2
    na = n - nb
    return [1 if i < na else 0 for i in range(h)] + [1 if i < nb else 0 for i in range(h)]


def gbasis_concrete(order, gs):
    def run(cf):
        c = real()
        h, n = cf['half'], cf['n']
        kw = {} if gs is None else {'gs': gs}
        call = lambda: getattr(c, GB[order])(2*h, n, **kw)
        earlier(call)
        r = [tup(x) for x in call()]
        occ = gref(h, n)
        want = [] if gs is False else [tuple(occ)]
        who = 'nmo=%d n=%d' % (2*h, n)
        if want and (not r or r[0] != want[0]):
            return [('post', 'reference first', who)]
        for k in range(1, order + 1):
            want += excitations(occ, k)
        return compare(r, want, who)
    return run


def P13_helpers(log):
    return [U_excite(log)] + [Multi('%d-fold excitations' % k, [M + '.%s_strings' % LETTER[k]],
                                    [U_strings(k, g) for g in (None, 'list', 'ndarray')], strings_stub(k))
                              for k in (1, 2, 3, 4)]


def P13(log):
    us = [U_strings(k, g, log) for k in (1, 2, 3, 4) for g in (None, 'list', 'ndarray')]
    for u in us:
        u.without = u.funcs[0]
    for order in (1, 2, 3, 4):
        for gs in ((None, False) if order == 1 else (None,)):
            sfx = '' if gs is None else ' without reference'
            us.append(E2Unit('%s%s' % (UB[order], sfx), [M + '.' + UB[order]], ubasis_body(order, gs), ubasis_configs(order),
                             ubasis_concrete(order, gs), log=log, maxsize=8))
            us.append(E2Unit('%s%s' % (GB[order], sfx), [M + '.' + GB[order]], gbasis_body(order, gs), gbasis_configs(order),
                             gbasis_concrete(order, gs), log=log, maxsize=8))
    return us


class Multi(E2Unit):
    """A callee contract in several variants, used by callers only if all are proved."""
    def __init__(self, name, funcs, parts, stub):
        E2Unit.__init__(self, name, funcs, None, None, None, stub)
        self.parts = parts

    def prove(self, stubs=None):
        outs = []
        for u in self.parts:
            o = u.prove(stubs)
            outs.append(o)
            if o.status != 'proved':
                return o
        r = outs[0]
        for o in outs[1:]:
            r.obligations += o.obligations
            r.paths += o.paths
            r.nonzero += o.nonzero
        return r


# ------------------------------------------------------------------- P22

def raise_body(name):
    def body(p):
        n = p.int('n', 1)
        q = p.int('p', 0)
        p.assume(q < n)
        occ, f = p.counts('occ', n)
        k0, e = occ.k0, occ.expr
        d = make(p, 'Pstring', n, occ)
        cls = p.it.get(M, 'Pstring')
        step = 1 if name == 'raize' else -1
        fn = p.it.attr(d, name)
        own = d.attrs.get('occ')

        def post(v):
            if v is None:
                p.need('post', 'nothing returned only when there is no quantum to remove',
                       z3.And(z3.BoolVal(step < 0), f(q) == 0))
            else:
                if step < 0:
                    p.need('post', 'a quantum was there', f(q) > 0)
                p.need('post', 'class', isinstance(v, Obj) and v.cls is cls)
                a = occ_of(p, v)
                p.pointwise('post', 'occupations', a, n, lambda k: z3.If(k == q, f(k) + step, f(k)))
                p.need('post', 'mode count', iv(p.it.attr(v, 'n')) == n)
                p.need('frame', 'new occupation array', a is not occ and a is not own)
            p.unchanged('occupations given', occ, k0, e)
            if own is not None and own is not occ:
                p.unchanged('original string', own, k0, e)
        p.run(lambda: p.it.call(fn, [q], {}), post)
    return body


# around the ends of the shorter integer types
MANY = [0, 1, 126, 127, 128, 254, 255, 256, 32766, 32767, 32768, 65535, 65536, 2**31 - 1, 2**31, 2**32]


def raise_concrete(name):
    def run(cf):
        import numpy
        import random
        c = real()
        rng = random.Random(cf['seed'])
        n = max(cf['n'], 1)
        for t in range(80):
            occ = [rng.choice([0, 0, 1, 2, 5] if t % 2 else MANY) for _ in range(n)]
            q = rng.randrange(n)
            arr = typed(rng, occ) if t % 2 else numpy.array(occ, dtype='int64') if t % 4 else list(occ)
            s = c.Pstring(n, arr)
            earlier(lambda: getattr(s, name)(q), s.occ)
            r = getattr(s, name)(q)
            who = 'occ=%s p=%d' % (occ, q)
            if list(s.occ) != occ or list(arr) != occ:
                return [('frame', 'original string', who)]
            if name == 'lower' and occ[q] == 0:
                if r is not None:
                    return [('post', 'none', who)]
                continue
            want = list(occ)
            want[q] += 1 if name == 'raize' else -1
            if r is None or list(r.occ) != want or r.n != n:
                return [('post', 'occupations', who + ' gave %s' % (None if r is None else list(r.occ)))]
            r.occ[q] = 77
            if list(s.occ) != occ:
                return [('frame', 'shared storage', who)]
        return []
    return run


def raise_stub(step):
    def stub(it, env):
        ctx = it.ctx
        vals = list(env.values())
        d, q = vals[0], vals[1]
        if not isinstance(d, Obj) or not isint(q):
            return NotImplemented
        occ = d.attrs.get('occ')
        if not isinstance(occ, Arr) or occ.effects or not ctx.proves(z3.And(iv(q) >= 0, iv(q) < iv(occ.n))):
            return NotImplemented
        if step < 0:
            return NotImplemented
        o2 = occ.clone('ndarray', ctx.depth)
        o2.updates.append((q, ctx.arith('+', occ.at(q), 1)))
        return Obj(ctx, d.cls, {'n': d.attrs['n'], 'occ': o2})
    return stub


def check_quanta(p, lst, n, classes, first=None):
    """Every state with the given numbers of quanta exactly once and nothing else."""
    ctx = p.ctx
    if isinstance(lst, PyList):
        segs = [Seg([], z3.BoolVal(True), v) for v in lst.vals] + list(lst.tail)
    elif isinstance(lst, SymList):
        segs = list(lst.segs)
    else:
        raise Unsupported('not a list')
    pieces = []
    for j, s in enumerate(segs):
        ctx.push()
        try:
            ctx.add(guard_of(s))
            if ctx.solver.check() == z3.unsat:
                continue
            if not isinstance(s.payload, Obj):
                p.need('post', 'every element is a string', False)
                return
            a = occ_of(p, s.payload)
            if a.effects:
                raise Unsupported('array changed in a loop')
            p.need('post', 'length of element %d' % j, z3.And(iv(a.n) == iv(n), iv(p.it.attr(s.payload, 'n')) == iv(n)))
            pts = [iv(q) for q, _ in a.updates]
            k = ctx.fresh('q')
            ctx.push()
            try:
                ctx.add(z3.And(k >= 0, k < iv(n)))
                p.need('post', 'quanta of element %d' % j,
                       iv(a.at(k)) == z3.Sum([z3.IntVal(0)] + [z3.If(k == q, z3.IntVal(1), z3.IntVal(0)) for q in pts]))
            finally:
                ctx.pop()
            pieces.append((s, pts))
        finally:
            ctx.pop()
    if first:
        ok = bool(pieces) and not pieces[0][0].binders and not pieces[0][1]
        p.need('post', 'vacuum first', ok)
        if not ok:
            return
        pieces = pieces[1:]
    for s, pts in pieces:
        ctx.push()
        ctx.add(guard_of(s))
        ok = p.need('post', 'number of quanta %d' % len(pts), len(pts) in classes)
        ctx.pop()
        if not ok:
            return
    for c in classes:
        for tied in ((False,) if c == 1 else (False, True)):
            t = [z3.Int('t%d' % j) for j in range(c)]
            ctx.push()
            try:
                for x in t:
                    ctx.add(z3.And(x >= 0, x < iv(n)))
                if c == 2:
                    ctx.add(t[0] == t[1] if tied else t[0] < t[1])
                conds = []
                for s, pts in pieces:
                    if len(pts) != c:
                        continue
                    inv = [invert(q, s.binders) for q in pts]
                    if any(x is None for x in inv) or len({b.v.get_id() for b, _ in inv}) != len(s.binders) or len(inv) != len(s.binders):
                        raise Unsupported('positions are not loop variables')
                    perms = [tuple(t)] if tied else list(itertools.permutations(t))
                    for perm in perms:
                        f = z3.substitute(guard_of(s), *[(b.v, z3.simplify(x - off)) for (b, off), x in zip(inv, perm)])
                        if ctx.check(f) != z3.unsat:
                            conds.append(f)
                p.need('post', 'states with %d quanta%s once' % (c, ' in one mode' if tied else ''),
                       z3.Sum([z3.IntVal(0)] + [z3.If(x, z3.IntVal(1), z3.IntVal(0)) for x in conds]) == 1)
            finally:
                ctx.pop()


def plist_body(fname, classes, first):
    def body(p):
        n = p.int('n', 0)
        p.run(lambda: p.it.call(p.it.get(M, fname), [n], {}), lambda v: check_quanta(p, v, n, classes, first))
    return body


def plist_concrete(fname, classes, first):
    def run(cf):
        c = real()
        n = min(cf['n'], 300 if 2 not in classes else 210)
        call = lambda: getattr(c, fname)(n)
        earlier(call)
        r = [tup(x) for x in call()]
        want = [tuple([0]*n)] if first else []
        if first and (not r or r[0] != want[0]):
            return [('post', 'vacuum first', 'n=%d' % n)]
        for k in classes:
            for m in itertools.combinations_with_replacement(range(n), k):
                want.append(tuple(m.count(x) for x in range(n)))
        return compare(r, want, 'n=%d' % n)
    return run


def plist_stub(k):
    def stub(it, env):
        ctx = it.ctx
        n = list(env.values())[0]
        if not isint(n):
            return NotImplemented
        qs = [ctx.fresh('q') for _ in range(k)]
        a = Arr(ctx, 'ndarray', n, ctx.fresh('k'), 0)
        for q in qs:
            a.updates.append((q, ctx.arith('+', a.at(q), 1)))
        d = Obj(ctx, it.get(M, 'Pstring'), {'n': n, 'occ': a})
        bs = [Binder(q, 0 if not j else qs[j-1], n) for j, q in enumerate(qs)]
        r = PyList(ctx, [])
        r.tail = [Seg(bs, z3.And(*[b.guard() for b in bs]), d)]
        return r
    return stub


def U_plist(fname, classes, first, stub=None, log=None):
    return E2Unit(fname, [M + '.' + fname], plist_body(fname, classes, first), pair_configs,
                  plist_concrete(fname, classes, first), stub, log=log)


def P22_helpers(log):
    return [E2Unit('raising', [M + '.Pstring.raize'], raise_body('raize'), pair_configs, raise_concrete('raize'), raise_stub(1)),
            U_plist('s_pstrings', (1,), False, plist_stub(1)), U_plist('d_pstrings', (2,), False, plist_stub(2))]


def P22(log):
    us = [E2Unit('raising', [M + '.Pstring.raize'], raise_body('raize'), pair_configs, raise_concrete('raize'), log=log),
          E2Unit('lowering', [M + '.Pstring.lower'], raise_body('lower'), pair_configs, raise_concrete('lower'), log=log),
          U_plist('s_pstrings', (1,), False, log=log), U_plist('d_pstrings', (2,), False, log=log),
          U_plist('vcis_basis', (1,), True, log=log), U_plist('vcisd_basis', (1, 2), True, log=log),
          E2Unit('equality', [M + '.Pstring.__eq__'], eq_body('Pstring'), pair_configs, eq_concrete('Pstring'))]
    for u in us:
        u.without = u.funcs[0]
    return us
