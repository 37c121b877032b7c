"""The interpreter of pv/e2.py against CPython.

Each program is run twice on the same input: by CPython, and by the interpreter with
symbolic sizes and contents that are tied to the input only through solver
assumptions, so that loops go through the generic-iteration rule.  The value computed
by CPython has to be provable, a wrong value must not be, and the two have to agree on
whether an exception is raised.
"""
import ast
import random
from itertools import product
import numpy
from . import e2, loader
from .e2 import z3, isz, iv, rv, Arr, PyExc
from .e2unit import Proof
from .contract import Outcome
from .symnp import Unsupported

SRC = '''
import numpy


class Box(object):
    def __init__(self, n, occ):
        self.occ = numpy.asarray(occ)
        assert(n == self.occ.shape[0])
        self.n = n

    def bump(self, p):
        new = self.occ.copy()
        new[p] = new[p] + 1
        return Box(self.n, new)

    def total(self):
        return self.occ.sum()


def total(n, occ):
    s = 0
    for i in range(n):
        s += occ[i]
    return s


def weighted(n, occ):
    s = 0
    for i in range(n):
        if occ[i] == 1:
            continue
        s += 2
    return s


def between(n, occ):
    if n < 3:
        return -1
    return occ[1:n - 1].sum()


def parity(n, occ):
    return 1 if occ.sum() % 2 == 0 else -1


def positions(n, occ):
    return [i for i, x in enumerate(occ) if x > 0]


def empties(n, occ):
    vir = [1 if x == 0 else 0 for x in occ]
    return [i for i, x in enumerate(vir) if x > 0]


def flipped(n, occ):
    out = numpy.zeros(n)
    for i in range(n):
        out[i] = 1 - occ[i]
    return out


def shifted(n, occ):
    out = numpy.zeros(n + 1)
    for i in range(n):
        out[i + 1] = 3*occ[i]
    return out


def pairs(n, occ):
    out = []
    for i in range(n):
        for j in range(i + 1, n):
            out.append(i + 10*j)
    return out


def upper(n, occ):
    out = []
    for i in range(n):
        for j in range(n):
            if j < i:
                continue
            out.append((i, j))
    return out


def cross(n, occ):
    iocc = [i for i, x in enumerate(occ) if x > 0]
    ivir = [i for i, x in enumerate(occ) if x == 0]
    out = []
    for i in iocc:
        for a in ivir:
            out.append((i, a))
    return out


def count_pairs(n, occ):
    c = 0
    for i in range(n):
        for j in range(i + 1, n):
            c += 1
    return c


def distance(n, occ):
    ref = [1 if i < 2 else 0 for i in range(n)]
    d = [abs(a - b) for a, b in zip(ref, occ)]
    return numpy.array(d, dtype=int).sum()


def like_input(n, occ):
    w = numpy.zeros_like(occ)
    for i in range(n):
        w[i] = 0.75*occ[i] - 1.5
    return w


def like_float(n, occ):
    w = numpy.zeros_like(occ, dtype=float)
    v = numpy.zeros(n)
    for i in range(n):
        w[i] = 0.75*occ[i] - 1.5
        v[i] = w[i]
    return v


def int_zeros(n, occ):
    w = numpy.zeros(n, dtype=int)
    for i in range(n):
        w[i] = 2.5 - 4*occ[i]
    return w


def converted(n, occ):
    w = (1.75*occ - 0.5).astype(int)
    return w + (0.5*occ).astype(float)


def one_real(n, occ):
    if n < 2:
        return None
    w = occ.copy()
    w[1] = 1.25
    u = 1.0*occ
    u[1] = 1.25
    w[0] += 2.75
    return w[0] + 10*w[1] + 100*u[1]


def array_of(n, occ):
    w = numpy.array([0.5, 1.75, -2.25], dtype=int)
    u = numpy.asarray(1.5*occ, dtype=int)
    return w.sum() + 10*u.sum()


def moved(n, occ):
    if n < 2 or occ[0] != 1 or occ[n - 1] != 0:
        return None
    new = occ.copy()
    new[0] = 0
    new[n - 1] = 1
    return new


def objects(n, occ):
    b = Box(n, occ)
    if n == 0:
        return 0
    c = b.bump(n - 1)
    return 100*c.total() + b.total()


def boxes(n, occ):
    b = Box(n, occ)
    out = []
    for i in range(n):
        out.append(b.bump(i).total() + i)
    return out


def found(n, occ):
    lst = [i for i, x in enumerate(occ) if x > 0]
    try:
        return lst.index(1)
    except ValueError:
        return -7


def member(n, occ):
    lst = [2*i for i in range(n)]
    return 4 in lst


def minmax(n, occ):
    i = min(n, 3)
    j = max(n, 2)
    return 10*i + j


def slices(n, occ):
    if n < 2:
        return 5
    i, j = 0, n - 1
    return occ[i + 1:j].sum()*2 + occ[:j].sum()


def stop(n, occ):
    last = -1
    for i in range(n):
        if occ[i] == 1:
            last = i
            break
    return last


def fails(n, occ):
    return occ[n - 3]


def guarded(n, occ):
    assert n > 1
    return occ[1]


def raising(n, occ):
    if occ.sum() > 1:
        raise Exception('too many')
    return n


def concat(n, occ):
    a = [1 if i < 1 else 0 for i in range(n)]
    b = [0 for i in range(n)]
    return a + b


def ends(n, occ):
    out = [n]
    for i in range(n):
        out.append(occ[i])
    out.append(-1)
    return out


def nested(n, occ):
    out = numpy.zeros(n)
    for i in range(n):
        for j in range(n):
            if occ[j] == 1:
                out[i] += i + j
    return out


def scatter(n, occ):
    idx = [i for i, x in enumerate(occ) if x > 0]
    out = numpy.zeros(n)
    for k, i in enumerate(idx):
        out[i] += k + 1
    return out


def gather(n, occ):
    idx = [i for i, x in enumerate(occ) if x == 0]
    return [idx[len(idx) - 1 - k] for k in range(len(idx))]


def nz(n, occ):
    p = numpy.nonzero(occ)[0]
    return len(p)


def two_lists(n, occ):
    a = []
    b = []
    for i in range(n):
        if occ[i] == 1:
            a.append(i)
        else:
            b.append(i)
    return (len(a), len(b))


def default(n, occ, scale=2):
    return scale*n


def keyword(n, occ):
    return default(n, occ, scale=3) + default(n, occ)


def whiles(n, occ):
    k = 0
    while k < 3 and k < n:
        k += 1
    return k


def lists_equal(n, occ):
    a = [1 if i < 2 else 0 for i in range(n)]
    return numpy.array_equal(numpy.asarray(a), occ)


def division(n, occ):
    return 10*(n//2) + n % 2


def early(n, occ):
    for i in range(n):
        if occ[i] == 1:
            return i
    return -1


def swaps(n, occ):
    out = numpy.zeros(n)
    for i in range(n):
        out[n - 1 - i] = i + occ[i]
    return out


def triple(n, occ):
    idx = [i for i, x in enumerate(occ) if x > 0]
    out = []
    for i in idx:
        for j in idx:
            if j <= i:
                continue
            for k in range(n):
                if occ[k] == 1:
                    continue
                out.append((i, j, k))
    return out


def unused(n, occ):
    if n > 0 and occ[0] == 1 and n < 2:
        return 1
    if n > 2 and (occ[1] == 1 or occ[2] == 1):
        return 2
    return 3


def chained(n, occ):
    return 1 if 0 < n < 3 else 2


def rebinding(n, occ):
    a = occ
    b = occ.copy()
    if n > 0:
        a[0] = 5
        b[0] = 7
    return (occ.sum(), b.sum())


def negatives(n, occ):
    if n == 0:
        return 0
    return occ[-1] + 2*(-n)


def count_while(n, occ):
    i = 0
    s = 0
    while i < n:
        s += occ[i]*2
        i += 1
    return s + 10*i


def while_from(n, occ):
    i = 2
    out = []
    while i <= n - 1:
        out.append(occ[i] + i)
        i = i + 1
    return out, i


def while_list(n, occ):
    k = 0
    out = []
    while k < n:
        if occ[k] > 0:
            out.append(k)
        k += 1
    return out


def loop_list(n, occ):
    new = []
    for i in range(n):
        if occ[i] > 0:
            new.append(0)
        else:
            new.append(1)
    return numpy.array(new)


def loop_list_sum(n, occ):
    new = []
    for x in occ:
        new.append(1 - x)
    m = 0
    for i, x in enumerate(new):
        if x > 0:
            m += i
    return m, len(new)


def loop_list_at(n, occ):
    new = []
    for x in occ:
        new.append(2*x + 1)
    if n < 2:
        return 0
    return new[1] + 10*new[n - 1]


def by_position(n, occ):
    idx = [i for i, x in enumerate(occ) if x > 0]
    out = []
    for k in range(len(idx)):
        out.append(idx[k]*2)
    return out


def twice_filled(n, occ):
    new = []
    for x in occ:
        if x > 0:
            new.append(1)
        new.append(0)
    return len(new)


def number_method(n, occ):
    return n.index(1)


def while_len(n, occ):
    idx = [i for i, x in enumerate(occ) if x > 0]
    k = 0
    out = []
    while k < len(idx):
        out.append(idx[k] + 1)
        k += 1
    return out
'''

NAMES = [n.name for n in ast.parse(SRC).body if isinstance(n, ast.FunctionDef)]


class SrcModule(e2.Module):
    def __init__(self):
        self.name, self.path, self.src = 'corpus', '<corpus>', SRC
        self.tree = ast.parse(SRC)
        self.env = {}


def holds(p, f):
    """Decide a closed formula; None when the context leaves it open."""
    if p.ctx.check(z3.Not(f)) == z3.unsat:
        return True
    if p.ctx.check(f) == z3.unsat:
        return False
    return None


def expand(p, binders, guard, data):
    """Instances of a quantified entry, in order."""
    out = []
    for pt in product(range(p.bound + 1), repeat=len(binders)):
        sub = [(b.v, z3.IntVal(x)) for b, x in zip(binders, pt)]
        g = z3.substitute(z3.And(guard, *[b.guard() for b in binders]), *sub) if sub else guard
        p.ctx.instantiate(g)
        h = holds(p, g)
        if h is None:
            raise Unsupported('instance not decided')
        if h:
            out.append(e2.subst(data, sub) if sub else data)
    return out


def elements(p, v):
    """The entries of a list-like value, quantified entries written out."""
    it = p.it
    if isinstance(v, e2.PyList):
        out = list(v.vals)
        for s in v.tail:
            out += expand(p, s.binders, s.guard, s.payload)
        return out
    if isinstance(v, e2.SymList):
        out = []
        for s in v.segs:
            out += expand(p, s.binders, s.guard, s.payload)
        return out
    n = it.b_len(v)
    k = [j for j in range(2*p.bound + 2) if holds(p, iv(n) == j)]
    if len(k) != 1:
        raise Unsupported('length not decided')
    if isinstance(v, Arr) and v.effects:
        base = Arr(v.ctx, v.kind, v.n, v.k0, v.expr, v.updates)
        out = [base.at(j) for j in range(k[0])]
        for e in v.effects:
            for pos, val in expand(p, e.binders, e.guard, e.data):
                q = [j for j in range(k[0]) if holds(p, iv(pos) == j)]
                if len(q) != 1:
                    raise Unsupported('position not decided')
                out[q[0]] = val if e.kind == 'set' else p.ctx.arith('+', out[q[0]], val)
        return out
    return [it.item(v, j) for j in range(k[0])]


def agrees(p, v, ref):
    """Formula (or bool) stating that interpreter value v is the CPython value ref."""
    if ref is None or v is None:
        return ref is None and v is None
    if isinstance(ref, (bool, numpy.bool_)):
        if isinstance(v, bool):
            return v == bool(ref)
        if isz(v) and z3.is_bool(v):
            return v == bool(ref)
        return rv(v) == (1 if ref else 0)
    if isinstance(ref, (int, float, numpy.integer, numpy.floating)):
        w = z3.RealVal(str(float(ref)))
        if isinstance(v, e2.Num):
            v = v.z()
        if isinstance(v, bool):
            v = int(v)
        return rv(v) == w
    ref = list(ref)
    if isinstance(v, tuple):
        if len(v) != len(ref):
            return False
        fs = [agrees(p, x, y) for x, y in zip(v, ref)]
    else:
        xs = elements(p, v)
        if len(xs) != len(ref):
            return False
        fs = [agrees(p, x, y) for x, y in zip(xs, ref)]
    if any(f is False for f in fs):
        return False
    fs = [f for f in fs if f is not True]
    return z3.And(*fs) if fs else True


def wrong(ref):
    """A different value of the same shape."""
    if ref is None:
        return 1
    if isinstance(ref, (bool, numpy.bool_)):
        return not ref
    if isinstance(ref, (int, float, numpy.integer, numpy.floating)):
        return ref + 1
    ref = list(ref)
    return ref[:-1] + [wrong(ref[-1])] if ref else [0]


def unfold(p, c):
    """Definitions of the sums met so far, unfolded for sizes up to c."""
    ctx, I = p.ctx, z3.IntVal
    for k0, expr, fn, ps, n, pos in list(ctx.psums):
        for vals in product(range(c + 1), repeat=len(ps)):
            a = [I(x) for x in vals]
            ctx.solver.add(fn(*(a + [I(0)])) == 0)
            for t in range(c + 2):
                e = z3.substitute(expr, *([(k0, I(t))] + list(zip(ps, a))))
                ctx.solver.add(fn(*(a + [I(t + 1)])) == fn(*(a + [I(t)])) + e)
    for bs, g, w, fn, ps in list(ctx.sums):
        for vals in product(range(c + 1), repeat=len(ps)):
            tot = z3.RealVal(0)
            for pt in product(range(c + 1), repeat=len(bs)):
                sub = [(b.v, I(x)) for b, x in zip(bs, pt)] + [(q, I(x)) for q, x in zip(ps, vals)]
                rg = z3.And(*[b.guard() for b in bs])
                tot = tot + z3.If(z3.substitute(z3.And(g, rg), *sub), z3.substitute(w, *sub), z3.RealVal(0))
            ctx.solver.add((fn(*[I(x) for x in vals]) if ps else fn) == tot)


def one(name, bits, ns):
    """Returns (agreed, refuted wrong value) or a text when out of reach."""
    n = len(bits)
    occ = numpy.array(bits, dtype=int)
    try:
        ref = ns[name](n, occ.copy())
        exc = None
    except Exception as e:
        ref, exc = None, type(e).__name__
    p = Proof(name, Outcome(None))
    p.bound = n + 1
    m = SrcModule()
    p.it.mods['corpus'] = m
    p.it.block(m.tree.body, m.env, m)
    nz = p.int('n', 0)
    arr, f = p.bits('occ', nz)
    p.assume(nz == n)
    for k, b in enumerate(bits):
        p.assume(f(z3.IntVal(k)) == b)
    res = []

    def run():
        try:
            v = p.it.call(p.it.get('corpus', name), [nz, arr], {})
        except PyExc as e:
            unfold(p, n + 1)
            if p.ctx.check() == z3.sat:
                res.append(('raise', e.cls if isinstance(e.cls, str) else getattr(e.cls, '__name__', str(e.cls))))
            return
        unfold(p, n + 1)
        if p.ctx.check() == z3.unsat:
            return
        if exc is not None:
            res.append(('value', None))
            return
        g = agrees(p, v, ref)
        unfold(p, n + 1)
        ok = g if isinstance(g, bool) else p.ctx.check(z3.Not(g)) == z3.unsat
        h = agrees(p, v, wrong(ref))
        unfold(p, n + 1)
        no = (not h) if isinstance(h, bool) else p.ctx.check(h) == z3.unsat
        res.append(('value', ok, no))
    try:
        p.ctx.explore(run)
    except Unsupported as e:
        return 'out of reach: %s' % e
    if not res:
        return False, False
    if exc is not None:
        return all(r[0] == 'raise' for r in res), True
    return all(r[0] == 'value' and r[1] for r in res), all(r[0] == 'value' and r[2] for r in res)


def check(seed=11, per=5):
    ns = {}
    exec(compile(SRC, '<corpus>', 'exec'), ns)
    rng = random.Random(seed)
    bad, out, runs = [], [], 0
    for name in NAMES:
        for k in range(per):
            n = k if k < 2 else rng.randint(2, 5)
            bits = [rng.randint(0, 1) for _ in range(n)]
            r = one(name, bits, ns)
            runs += 1
            if isinstance(r, str):
                out.append('%s: %s' % (name, r))
                break
            if not all(r):
                bad.append('%s %s %s' % (name, bits, r))
    return runs, bad, out


if __name__ == '__main__':
    print(check())
