"""Symbolic arrays with symbolic shapes, and a numpy facade over them.

The code under verification is compiled and executed by CPython itself; only the
array library it imports is replaced by this one.  An array has symbolic extents
(polynomials in segment lengths), a buffer that views share, and for every block
of its segments a tensor polynomial (pv.poly) giving each entry as a function of
the entries of the input tensors.  A statement proved about the polynomials holds
for all extents and all entry values.
"""
from fractions import Fraction
from itertools import product, permutations
import builtins
import types
import numpy as real_numpy
from .poly import Poly, mul_many, frac, declare, group_of, SYM


class Unsupported(BaseException):
    """The engine cannot represent a construct. Never a verdict."""


class Infeasible(BaseException):
    """Current path condition is unsatisfiable."""


class ShapeError(ValueError):
    """The program combines arrays whose extents need not agree."""


class OpaqueBranch(BaseException):
    pass


# ---------------------------------------------------------------- context

class Ctx(object):
    def __init__(self):
        self.alias = {}
        self.reset()

    def reset(self, decisions=()):
        self.decisions = list(decisions)
        self.pos = 0
        self.path = []          # list of (description, bool)
        self.z3path = []
        self.subst = {}         # scalar tensor name -> Poly, learnt on the path
        self.opaque = False     # path depends on an undecided data condition
        self.facts = []         # what the path says about input arrays
        self.hints = []         # arrays that undecided conditions are about
        self.counter = 0
        self.shape_checks = 0
        self.slice_checks = 0
        self.rands = []
        self.unknown = {}
        self.order = {}

    def fresh(self, stem):
        self.counter += 1
        return '%s%d' % (stem, self.counter)


CTX = Ctx()
Z3STAT = {'queries': 0, 'time': 0.0}


def _z3():
    import sys
    p = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
    if p not in sys.path:
        sys.path.append(p)
    import z3
    return z3


def _z3dim(d):
    z3 = _z3()
    e = z3.IntVal(0)
    for m, c in d.t.items():
        t = z3.IntVal(c)
        for s in m:
            t = t*z3.Int('n_' + s)
        e = e + t
    return e


def _z3base(dims):
    z3 = _z3()
    segs = set()
    for d in dims:
        for m in d.t:
            segs.update(m)
    return [z3.Int('n_' + s) >= 0 for s in segs]


def _check(conds):
    import time
    z3 = _z3()
    s = z3.Solver()
    s.set('timeout', 5000)
    t0 = time.time()
    for c in conds:
        s.add(c)
    r = s.check()
    Z3STAT['queries'] += 1
    Z3STAT['time'] += time.time() - t0
    return str(r)


class SBool(object):
    """A condition on symbolic extents (z3) or on data (opaque)."""
    def __init__(self, expr=None, dims=(), desc='', scalar=None, facts=None, when=True, hint=None):
        # facts: rewriting rules that hold exactly when the condition equals `when`
        self.expr, self.dims, self.desc, self.scalar = expr, dims, desc, scalar
        self.facts, self.when, self.hint = facts, when, hint

    def __bool__(self):
        return decide(self)

    def __invert__(self):
        if self.expr is None:
            return SBool(desc='not ' + self.desc, facts=self.facts, when=not self.when, hint=self.hint)
        return SBool(_z3().Not(self.expr), self.dims, 'not ' + self.desc)

    def __and__(self, o):
        return bool(self) and bool(o)

    def __or__(self, o):
        return bool(self) or bool(o)


def decide(b):
    z3 = _z3()
    if b.expr is not None:
        base = _z3base(b.dims)
        t = _check(base + CTX.z3path + [b.expr])
        f = _check(base + CTX.z3path + [z3.Not(b.expr)])
        if t == 'unsat' and f == 'unsat':
            raise Infeasible()
        if t == 'unsat':
            return False
        if f == 'unsat':
            return True
    if CTX.pos < len(CTX.decisions):
        v = CTX.decisions[CTX.pos]
    else:
        v = True
        CTX.decisions.append(True)
    CTX.pos += 1
    CTX.path.append((b.desc, v))
    if b.expr is not None:
        CTX.z3path += _z3base(b.dims) + [b.expr if v else z3.Not(b.expr)]
    elif b.scalar is not None and v:
        name, val = b.scalar
        CTX.subst[name] = val
    elif b.facts is not None:
        if v == b.when:
            CTX.facts = CTX.facts + b.facts
            CTX.hints.append(b.hint)
    elif b.scalar is None:
        CTX.opaque = True
        if b.hint is not None:
            CTX.hints.append(b.hint)
    return v


# ---------------------------------------------------------------- facts about arrays

def _single(p):
    """(name, indices, coefficient) of a polynomial that is one tensor entry."""
    if len(p.t) != 1:
        return None
    (m, c), = p.t.items()
    if len(m) != 1 or any(x[0] != 'f' for x in m[0][1]) or len(set(m[0][1])) != len(m[0][1]):
        return None
    return m[0][0], m[0][1], c


def equal_facts(a, b):
    """Rewriting rules equivalent to a == b everywhere, or None.  b may be None (zero)."""
    out = []
    try:
        sa, da = a.flat()
        sb, db = b.flat() if b is not None and b.ndim else (None, None)
        k0 = b.poly() if b is not None and not b.ndim else Poly()
    except Unsupported:
        return None
    if not k0.iszero():
        return None
    if db is None:
        for key, p in da.items():
            if p.iszero():
                continue
            x = _single(p)
            if x is None or len(x[1]) != len(key):
                return None
            out.append(('zero', x[0], tuple(i[1] for i in x[1])))
        return out
    if len(sa) != len(sb) or any(len(x) != 1 for x in sa) or any(len(x) != 1 for x in sb):
        return None
    for x, y in zip(sa, sb):
        if not same(seg_len(x), seg_len(y)):
            return None
    key = (0,)*len(sa)
    p, q = da.get(key, Poly()), db.get(key, Poly())
    if p == q:
        return []
    if p.iszero() or q.iszero():
        x = _single(q if p.iszero() else p)
        return [('zero', x[0], tuple(i[1] for i in x[1]))] if x is not None and len(x[1]) == len(key) else None
    x, y = _single(p), _single(q)
    if x is None or y is None or len(x[1]) != len(key) or len(y[1]) != len(key) or x[0] == y[0]:
        return None
    pos = {i[2]: j for j, i in enumerate(y[1])}
    # y entry with indices J equals (cx/cy) x entry with J permuted
    perm = tuple(pos[i[2]] for i in x[1])
    ident = {}
    for u, v in zip(sa, sb):
        if u != v:
            ident[v[0]] = u[0]
    return [('same', y[0], tuple(i[1] for i in y[1]), x[0], perm, x[2]/y[2], tuple(sorted(ident.items())))]


def zero_segs(segs):
    """Segments that the current path says are empty."""
    if not CTX.z3path:
        return set()
    return {s for s in segs if s != '1' and same(SDim.seg(s), SDim({}))}


def use_facts(p, facts, empty=()):
    """Rewrite a polynomial with what the path says."""
    if not facts and not empty:
        return p
    names = {}
    for f in facts:
        if f[0] == 'same':
            for v, u in f[6]:
                names[v] = u

    def seg(x):
        n = 0
        while x in names and n < 20:
            x, n = names[x], n + 1
        return x
    for rnd in range(4):
        r = Poly()
        changed = False
        for m, c in p.t.items():
            fs = []
            for n, idx in m:
                if any(x[1] in empty for x in idx):
                    fs = None
                    break
                if n.startswith('n:') and n[2:] in empty:
                    fs = None
                    break
                done = False
                ss = tuple(x[1] for x in idx)
                for f in facts:
                    if f[1] != n or tuple(seg(x) for x in f[2]) != tuple(seg(x) for x in ss):
                        continue
                    changed = True
                    done = True
                    if f[0] == 'zero':
                        fs = None
                    else:
                        fs.append((f[3], tuple(idx[k] for k in f[4])))
                        c = c*f[5]
                    break
                if fs is None:
                    break
                if not done:
                    fs.append((n, idx))
            if fs is None:
                changed = True
                continue
            if names:
                fs = [(('n:' + seg(n[2:])) if n.startswith('n:') else n,
                       tuple((x[0], seg(x[1]), x[2]) if x[0] != 'd' else (x[0], seg(x[1]), (x[1], x[2])) for x in idx))
                      for n, idx in fs]
                # bound indices of identified segments stay distinct
                num = {}
                fs = [(n, tuple((x[0], x[1], num.setdefault(x, len(num))) if x[0] == 'd' else x for x in idx))
                      for n, idx in fs]
            r.add_raw(tuple(fs), c)
        p = r
        if not changed:
            break
    return p


def path_dims():
    """Extents of a moderate size that satisfy the current path condition."""
    if not CTX.z3path:
        return None
    z3 = _z3()
    segs = set()

    def walk(e):
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            segs.add(e)
        for ch in e.children():
            walk(ch)
    for c in CTX.z3path:
        walk(c)
    for lo, hi in ((2, 6), (1, 8), (0, 12), (1, 40), (0, 200), (0, 100000)):
        s = z3.Solver()
        s.set('timeout', 3000)
        s.add(CTX.z3path)
        for x in segs:
            s.add(x >= lo, x <= hi)
        if s.check() == z3.sat:
            m = s.model()
            return {str(x)[2:]: m.eval(x, model_completion=True).as_long() for x in segs}
    return None


def explore(fn, limit=64):
    """Run fn() once per feasible path; yields (outcome, ctx snapshot)."""
    decisions = []
    out = []
    while True:
        CTX.reset(decisions)
        try:
            r = ('ok', fn())
        except Infeasible:
            r = ('infeasible', None)
        except Unsupported:
            raise
        except Exception as e:
            r = ('raise', e)
        out.append((r, dict(path=list(CTX.path), subst=dict(CTX.subst), opaque=CTX.opaque,
                            facts=list(CTX.facts), hints=list(CTX.hints), z3path=list(CTX.z3path),
                            shape_checks=CTX.shape_checks, slice_checks=CTX.slice_checks,
                            dims=path_dims())))
        d = CTX.decisions[:CTX.pos]
        while d and d[-1] is False:
            d.pop()
        if not d:
            return [o for o in out if o[0][0] != 'infeasible']
        d[-1] = False
        decisions = d
        if len(out) > limit:
            raise Unsupported('more than %d paths' % limit)


# ---------------------------------------------------------------- extents

class SDim(object):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = {m: c for m, c in t.items() if c}

    @staticmethod
    def of(x):
        if isinstance(x, SDim):
            return x
        if isinstance(x, bool):
            return SDim({(): int(x)})
        if isinstance(x, (int, real_numpy.integer)):
            return SDim({(): int(x)})
        return None

    @staticmethod
    def seg(s):
        return SDim({(): 1}) if s == '1' else SDim({(s,): 1})

    def const(self):
        if not self.t:
            return 0
        if list(self.t) == [()]:
            return self.t[()]
        return None

    def _norm(self):
        c = self.const()
        return self if c is None else c

    def __add__(self, o):
        o2 = SDim.of(o)
        if o2 is None:
            return _dim_arr(self) + o if isinstance(o, (float, Fraction, Arr)) else NotImplemented
        t = dict(self.t)
        for m, c in o2.t.items():
            t[m] = t.get(m, 0) + c
        return SDim(t)
    __radd__ = __add__

    def __neg__(self):
        return SDim({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        o2 = SDim.of(o)
        if o2 is None:
            return _dim_arr(self) - o if isinstance(o, (float, Fraction, Arr)) else NotImplemented
        return self + (-o2)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        o2 = SDim.of(o)
        if o2 is None:
            if isinstance(o, (float, Fraction, Arr)):
                return _dim_arr(self)*o
            return NotImplemented
        t = {}
        for m, c in self.t.items():
            for m2, c2 in o2.t.items():
                k = tuple(sorted(m + m2))
                t[k] = t.get(k, 0) + c*c2
        return SDim(t)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return _dim_arr(self)/o

    def __floordiv__(self, o):
        if isinstance(o, int) and o and all(c % o == 0 for c in self.t.values()):
            return SDim({m: c//o for m, c in self.t.items()})
        raise Unsupported('integer division of an extent')

    def _cmp(self, o, f, sym):
        o2 = SDim.of(o)
        if o2 is None:
            raise Unsupported('comparison of an extent with %r' % (o,))
        if self.t == o2.t:
            return f(0, 0)
        a, b = self.const(), o2.const()
        if a is not None and b is not None:
            return f(a, b)
        return SBool(f(_z3dim(self), _z3dim(o2)), (self, o2), '%s %s %s' % (self, sym, o2))

    def __eq__(self, o):
        if SDim.of(o) is None:
            return False
        return self._cmp(o, lambda x, y: x == y, '==')

    def __ne__(self, o):
        if SDim.of(o) is None:
            return True
        return self._cmp(o, lambda x, y: x != y, '!=')

    def __lt__(self, o):
        return self._cmp(o, lambda x, y: x < y, '<')

    def __le__(self, o):
        return self._cmp(o, lambda x, y: x <= y, '<=')

    def __gt__(self, o):
        return self._cmp(o, lambda x, y: x > y, '>')

    def __ge__(self, o):
        return self._cmp(o, lambda x, y: x >= y, '>=')

    def __hash__(self):
        return hash(frozenset(self.t.items()))

    def __bool__(self):
        return bool(self != 0)

    def __index__(self):
        c = self.const()
        if c is None:
            raise Unsupported('symbolic extent used as a concrete integer')
        return c
    __int__ = __index__

    def __float__(self):
        raise Unsupported('float of a symbolic extent')

    def __repr__(self):
        if not self.t:
            return '0'
        return '+'.join(('%d*' % c if c != 1 else '') + ('*'.join(m) or '1') for m, c in self.t.items())


def _dim_poly(d):
    p = Poly()
    for m, c in d.t.items():
        p.add_raw([('n:' + s, ()) for s in m], Fraction(c))
    return p


def _dim_arr(d):
    return Arr.scalar(_dim_poly(d), real_numpy.dtype('int64'))


def same(a, b):
    """Provable equality of extents under the current path."""
    if a.t == b.t:
        return True
    if a.const() is not None and b.const() is not None:
        return False
    z3 = _z3()
    r = _check(_z3base((a, b)) + CTX.z3path + [_z3dim(a) != _z3dim(b)])
    return r == 'unsat'


def seg_len(segs):
    d = SDim({})
    for s in segs:
        d = d + SDim.seg(s)
    return d


F8 = real_numpy.dtype('float64')
C16 = real_numpy.dtype('complex128')
I8 = real_numpy.dtype('int64')
B1 = real_numpy.dtype('bool')


def dt(x):
    if x is None:
        return F8
    if isinstance(x, Arr):
        return x.dtype
    return real_numpy.dtype(x)


# ---------------------------------------------------------------- arrays

class Buf(object):
    __slots__ = ('axes', 'data', 'dtype', 'origin', 'snap', 'uniform')

    def __init__(self, axes, data, dtype, origin=None):
        self.axes = [tuple(a) for a in axes]   # segment names per buffer axis
        self.data = data                       # {positions: Poly}
        self.dtype = dtype
        self.origin = origin
        self.snap = dict(data) if origin is not None else None


def seg_axes(shape):
    """Axes (segment lists) for a new array of the given shape."""
    if not isinstance(shape, (tuple, list)):
        shape = (shape,)
    out = []
    for d in shape:
        d2 = SDim.of(d)
        if d2 is None:
            if isinstance(d, Arr) and d.ndim == 0:
                raise Unsupported('extent given by an array scalar')
            raise TypeError('bad extent %r' % (d,))
        c = d2.const()
        if c is not None:
            if c == 1:
                out.append(None)
                continue
            if c > 16 or c < 0:
                raise Unsupported('concrete extent %d' % c)
            out.append(('1',)*c)
            continue
        segs = []
        for m, c in d2.t.items():
            if c < 0 or c > 8:
                raise Unsupported('extent %r' % d2)
            if m == ():
                segs += ['1']*c
            elif len(m) == 1:
                segs += [m[0]]*c
            else:
                if len(d2.t) == 1 and c == 1:
                    segs = None
                    break
                raise Unsupported('extent %r' % d2)
        if segs is None:
            raise Unsupported('product extent %r' % d2)
        out.append(tuple(segs))
    return out


class Arr(object):
    """View of a buffer. axes: tuple of axes; an axis is a tuple of components
    (buffer axis, positions); () is an axis of extent one; more than one component
    is a flattened composite axis."""
    __array_priority__ = 1000
    __slots__ = ('buf', 'axes', 'fixed', '_flat', 'given')

    def __init__(self, buf, axes, fixed=()):
        self.buf = buf
        self.axes = tuple(axes)
        self.fixed = tuple(fixed)

    # ---- constructors
    @staticmethod
    def make(struct, data, dtype, origin=None):
        """struct: per axis, tuple of segment tuples; data keyed by flat positions."""
        baxes = [s for ax in struct for s in ax]
        b = Buf(baxes, data, dtype, origin)
        axes = []
        k = 0
        for ax in struct:
            a = []
            for s in ax:
                a.append((k, tuple(range(len(s)))))
                k += 1
            axes.append(tuple(a))
        return Arr(b, axes)

    @staticmethod
    def scalar(poly, dtype=F8):
        return Arr.make((), {(): poly} if not poly.iszero() else {}, dtype)

    @staticmethod
    def of(x, dtype=None):
        if isinstance(x, Arr):
            return x
        if isinstance(x, SDim):
            return _dim_arr(x)
        if isinstance(x, (bool, int, float, Fraction, real_numpy.floating, real_numpy.integer)):
            d = I8 if isinstance(x, (bool, int, real_numpy.integer)) else F8
            if isinstance(x, (real_numpy.floating, real_numpy.integer)):
                x = x.item()
            return Arr.scalar(Poly.const(x), d)
        if isinstance(x, complex):
            if x.imag == 0:
                return Arr.scalar(Poly.const(x.real), C16)
            p = Poly.const(x.real) + Poly.entry('imag_unit', ()).scale(frac(x.imag))
            return Arr.scalar(p, C16)
        if isinstance(x, (list, tuple)):
            return stack([Arr.of(y) for y in x], 0)
        raise Unsupported('array from %s' % type(x).__name__)

    # ---- shape
    @property
    def ndim(self):
        return len(self.axes)

    def axis_segs(self, ax):
        return tuple(tuple(self.buf.axes[c[0]][p] for p in c[1]) for c in ax)

    def struct(self):
        return tuple(self.axis_segs(ax) for ax in self.axes)

    def axis_len(self, ax):
        d = SDim({(): 1})
        for segs in self.axis_segs(ax):
            d = d*seg_len(segs)
        return d

    @property
    def shape(self):
        return tuple(self.axis_len(ax)._norm() for ax in self.axes)

    @property
    def size(self):
        d = SDim({(): 1})
        for ax in self.axes:
            d = d*self.axis_len(ax)
        return d._norm()

    @property
    def dtype(self):
        return self.buf.dtype

    def __len__(self):
        if not self.axes:
            raise TypeError('len() of unsized object')
        n = self.axis_len(self.axes[0]).const()
        if n is None:
            raise Unsupported('len() of a symbolic extent')
        return n

    # ---- content
    def comps(self):
        return [c for ax in self.axes for c in ax]

    def flat(self):
        """(list of segment tuples, {positions: Poly}) over the components."""
        comps = self.comps()
        slot = {c[0]: k for k, c in enumerate(comps)}
        segs = [tuple(self.buf.axes[c[0]][p] for p in c[1]) for c in comps]
        ident = (not self.fixed and len(comps) == len(self.buf.axes)
                 and all(c[0] == k and c[1] == tuple(range(len(self.buf.axes[k])))
                         for k, c in enumerate(comps)))
        if ident:
            return segs, dict(self.buf.data)
        fixed = dict(self.fixed)
        data = {}
        n = len(self.buf.axes)
        for key, p in self.buf.data.items():
            ok = True
            new = [None]*len(comps)
            for ax in range(n):
                if ax in fixed:
                    if fixed[ax] != key[ax]:
                        ok = False
                        break
                else:
                    k = slot[ax]
                    try:
                        new[k] = comps[k][1].index(key[ax])
                    except ValueError:
                        ok = False
                        break
            if not ok:
                continue
            mp = {('f', self.buf.axes[ax][key[ax]], ax): ('f', self.buf.axes[ax][key[ax]], slot[ax])
                  for ax in range(n) if ax not in fixed and slot[ax] != ax}
            data[tuple(new)] = p.rename(mp) if mp else p
        return segs, data

    def copy(self, order=None):
        segs, data = self.flat()
        return Arr.make(self.struct(), data, self.dtype)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, dtype, copy=True, **kw):
        d = dt(dtype)
        if not copy and d == self.dtype:
            return self
        segs, data = self.flat()
        return Arr.make(self.struct(), {k: cast(p, self.dtype, d) for k, p in data.items()}, d)

    # ---- views
    def transpose(self, *axes):
        if len(axes) == 1 and (axes[0] is None or isinstance(axes[0], (tuple, list))):
            axes = axes[0]
        if not axes and self.ndim != 0:
            axes = tuple(reversed(range(self.ndim)))
        axes = tuple(a + self.ndim if a < 0 else a for a in (axes or ()))
        if sorted(axes) != list(range(self.ndim)):
            raise ValueError("axes don't match array")
        return Arr(self.buf, [self.axes[a] for a in axes], self.fixed)

    @property
    def T(self):
        return self.transpose()

    def swapaxes(self, a, b):
        p = list(range(self.ndim))
        p[a], p[b] = p[b], p[a]
        return self.transpose(p)

    def _is_contig(self):
        comps = self.comps()
        return (not self.fixed and [c[0] for c in comps] == list(range(len(self.buf.axes)))
                and all(len(c[1]) == len(self.buf.axes[c[0]]) for c in comps))

    def reshape(self, *shape, **kw):
        if kw.get('order', 'C') not in ('C',):
            raise Unsupported('reshape order')
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        base = self if self._is_contig() else self.copy()
        comps = base.comps()
        lens = [seg_len(tuple(base.buf.axes[c[0]][p] for p in c[1])) for c in comps]
        shape = [SDim.of(s) for s in shape]
        if any(s is None for s in shape):
            raise Unsupported('reshape to non-integers')
        wild = [k for k, s in enumerate(shape) if s.const() == -1]
        if len(wild) > 1:
            raise ValueError('can only specify one unknown dimension')

        def match(dims, cs, ls):
            """assign consecutive components to dims"""
            out = []
            k = 0
            for d in dims:
                acc = SDim({(): 1})
                ax = []
                while not (acc.t == d.t or same(acc, d)):
                    if k >= len(cs):
                        return None
                    acc = acc*ls[k]
                    ax.append(cs[k])
                    k += 1
                out.append(tuple(ax))
            return out, k
        if not wild:
            m = match(shape, comps, lens)
            if m is None or m[1] != len(comps):
                raise self._reshape_fail(shape)
            return Arr(base.buf, m[0], base.fixed)
        w = wild[0]
        m1 = match(shape[:w], comps, lens)
        if m1 is None:
            raise self._reshape_fail(shape)
        m2 = match(list(reversed(shape[w+1:])), list(reversed(comps)), list(reversed(lens)))
        if m2 is None or m1[1] + m2[1] > len(comps):
            raise self._reshape_fail(shape)
        tail = [tuple(reversed(a)) for a in reversed(m2[0])]
        mid = tuple(comps[m1[1]:len(comps) - m2[1]])
        return Arr(base.buf, m1[0] + [mid] + tail, base.fixed)

    def _reshape_fail(self, shape):
        tot = SDim({(): 1})
        for s in shape:
            tot = tot*s
        mine = SDim.of(self.size)
        if same(tot, mine):
            return Unsupported('reshape splits or merges extents differently')
        return ShapeError('cannot reshape array of shape %s into %s' % (self.shape, tuple(shape)))

    def ravel(self, order='C'):
        return self.reshape(-1)

    def flatten(self, order='C'):
        return self.copy().reshape(-1)

    def squeeze(self, axis=None):
        return Arr(self.buf, [ax for ax in self.axes if ax != ()], self.fixed)

    def _slice_axis(self, ax, s):
        if s.step not in (None, 1):
            raise Unsupported('slice step')
        if s.start is None and s.stop is None:
            return ax
        CTX.slice_checks += 1
        if len(ax) != 1:
            if ax == ():
                st, sp = s.start, s.stop
                if st in (None, 0) and (sp is None or (isinstance(sp, int) and sp >= 1)):
                    return ax
            raise Unsupported('slice of a composite axis')
        bax, pos = ax[0]
        n = self.axis_len(ax)

        def norm(x, default):
            if x is None:
                return default
            d = SDim.of(x)
            if d is None:
                raise Unsupported('slice bound %r' % (x,))
            c = d.const()
            if c is not None:
                return n + d if c < 0 else d
            if all(v < 0 for v in d.t.values()):
                # x[-k:] with k = 0 is all of x
                return SDim({}) if d == 0 else n + d
            return d
        lo, hi = norm(s.start, SDim({})), norm(s.stop, n)

        def locate(d):
            for attempt in range(2):
                cum = SDim({})
                cums = [cum]
                for p in pos:
                    cum = cum + SDim.seg(self.buf.axes[bax][p])
                    cums.append(cum)
                for k, c in enumerate(cums):
                    if c.t == d.t:
                        return k
                for k, c in enumerate(cums):
                    if same(c, d):
                        return k
                if attempt == 0 and not self.buf.data and self._reorder(bax, pos, d):
                    continue
                break
            raise MisalignedSlice('slice bound %r of an axis of extent %r' % (d, n))
        k1, k2 = locate(lo), locate(hi)
        if k2 < k1:
            k2 = k1
        if k1 == k2:
            if lo.t != hi.t:
                pass
            return ((bax, ()),)
        return ((bax, pos[k1:k2]),)

    def _reorder(self, bax, pos, d):
        """An array of zeros may have its segments listed in any order."""
        if pos != tuple(range(len(self.buf.axes[bax]))):
            return False
        segs = self.buf.axes[bax]
        for perm in permutations(range(len(segs))):
            cum = SDim({})
            for k in perm:
                cum = cum + SDim.seg(segs[k])
                if cum.t == d.t:
                    self.buf.axes[bax] = tuple(segs[j] for j in perm)
                    return True
        return False

    def _view(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        nreal = sum(1 for k in key if k is not None and k is not Ellipsis)
        if any(k is Ellipsis for k in key):
            i = [j for j, k in enumerate(key) if k is Ellipsis][0]
            key = key[:i] + (slice(None),)*(self.ndim - nreal) + key[i+1:]
        elif nreal < self.ndim:
            key = key + (slice(None),)*(self.ndim - nreal)
        if nreal > self.ndim:
            raise IndexError('too many indices')
        axes = []
        fixed = list(self.fixed)
        k = 0
        for x in key:
            if x is None:
                axes.append(())
                continue
            ax = self.axes[k]
            k += 1
            if isinstance(x, slice):
                axes.append(self._slice_axis(ax, x))
                continue
            d = SDim.of(x)
            if d is None:
                raise FancyIndex(x)
            c = d.const()
            if ax == ():
                if c in (0, -1):
                    continue
                raise IndexError('index out of bounds')
            if len(ax) != 1 or c is None:
                raise Unsupported('integer index %r' % (x,))
            segs = self.axis_segs(ax)[0]
            if any(s != '1' for s in segs):
                raise Unsupported('integer index into a symbolic extent')
            if c < -len(segs) or c >= len(segs):
                raise IndexError('index out of bounds')
            fixed.append((ax[0][0], ax[0][1][c]))
        return Arr(self.buf, axes, fixed)

    def __getitem__(self, key):
        if isinstance(key, list):
            raise Unsupported('fancy index')
        try:
            v = self._view(key)
        except FancyIndex as e:
            return fancy(self, key)
        return v

    def __setitem__(self, key, val):
        try:
            v = self._view(key)
        except FancyIndex:
            raise Unsupported('assignment through a fancy index')
        v._assign(val)

    def _assign(self, val):
        val = Arr.of(val)
        if val.ndim > self.ndim:
            extra = val.ndim - self.ndim
            if any(ax != () for ax in val.axes[:extra]):
                raise ShapeError('could not broadcast input array into shape')
            val = Arr(val.buf, val.axes[extra:], val.fixed)
        st = broadcast([self.struct(), val.struct()])
        if not struct_same(st, self.struct()):
            raise ShapeError('could not broadcast shape %s into %s' % (val.shape, self.shape))
        data = expand(val, self.struct())
        if val.dtype != self.dtype:
            data = {k: cast(p, val.dtype, self.dtype) for k, p in data.items()}
        self._write(data)

    def _write(self, data):
        comps = self.comps()
        b = self.buf
        fixed = dict(self.fixed)
        slot = {c[0]: k for k, c in enumerate(comps)}
        # clear the target region
        for key in list(b.data):
            if all((fixed[ax] == key[ax]) if ax in fixed else (key[ax] in comps[slot[ax]][1])
                   for ax in range(len(b.axes))):
                del b.data[key]
        for key, p in data.items():
            if p.iszero():
                continue
            full = [None]*len(b.axes)
            mp = {}
            for ax in range(len(b.axes)):
                if ax in fixed:
                    full[ax] = fixed[ax]
                else:
                    k = slot[ax]
                    full[ax] = comps[k][1][key[k]]
                    if k != ax:
                        sg = b.axes[ax][full[ax]]
                        mp[('f', sg, k)] = ('f', sg, ax)
            b.data[tuple(full)] = p.rename(mp) if mp else p

    def fill(self, v):
        self._assign(v)

    # ---- arithmetic
    def __add__(self, o):
        return binop(self, o, 'add')

    def __radd__(self, o):
        return binop(o, self, 'add')

    def __sub__(self, o):
        return binop(self, o, 'sub')

    def __rsub__(self, o):
        return binop(o, self, 'sub')

    def __mul__(self, o):
        return binop(self, o, 'mul')

    def __rmul__(self, o):
        return binop(o, self, 'mul')

    def __truediv__(self, o):
        return binop(self, o, 'div')

    def __rtruediv__(self, o):
        return binop(o, self, 'div')

    def __neg__(self):
        return unop(self, lambda p: -p)

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        return opaque_fn('abs', self)

    def __pow__(self, e):
        if isinstance(e, float) and e == int(e):
            e = int(e)
        if isinstance(e, int):
            if e < 0:
                return 1.0/(self**(-e))
            r = Arr.of(1.0)
            for _ in range(e):
                r = r*self
            if e == 0:
                r = binop(zeros_like(self), 1.0, 'add')
            return r
        if e == 0.5:
            return opaque_fn('sqrt', self)
        raise Unsupported('power')

    def _inplace(self, o, op):
        if self.ndim == 0 and not self.fixed and self.buf.origin is None:
            return binop(self, o, op)
        r = binop(self, o, op)
        if not struct_same(r.struct(), self.struct()):
            raise ShapeError('non-broadcastable output operand')
        if not real_numpy.can_cast(r.dtype, self.dtype, 'same_kind'):
            raise TypeError('Cannot cast ufunc output from %s to %s' % (r.dtype, self.dtype))
        segs, data = r.flat()
        if r.dtype != self.dtype:
            data = {k: cast(p, r.dtype, self.dtype) for k, p in data.items()}
        self._write(data)
        return self

    def __iadd__(self, o):
        return self._inplace(o, 'add')

    def __isub__(self, o):
        return self._inplace(o, 'sub')

    def __imul__(self, o):
        return self._inplace(o, 'mul')

    def __itruediv__(self, o):
        return self._inplace(o, 'div')

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    def dot(self, o):
        return dot(self, o)

    def _cmp(self, o, sym):
        o = Arr.of(o)
        if self.ndim == 0 and o.ndim == 0:
            p = self.poly() - o.poly()
            if p.isconst():
                v = p.constval()
                return {'==': v == 0, '!=': v != 0, '<': v < 0, '>': v > 0,
                        '<=': v <= 0, '>=': v >= 0}[sym]
            dims = _poly_dim(p)
            if dims is not None:
                return dims._cmp(0, {'==': lambda x, y: x == y, '!=': lambda x, y: x != y,
                                     '<': lambda x, y: x < y, '>': lambda x, y: x > y,
                                     '<=': lambda x, y: x <= y, '>=': lambda x, y: x >= y}[sym], sym)
            sc = None
            if sym == '==':
                sc = _linear_scalar(p)
                return SBool(desc='%r == 0' % p, scalar=sc)
            if sym == '!=':
                sc = _linear_scalar(p)
                b = SBool(desc='%r == 0' % p, scalar=sc)
                return not b
            return SBool(desc='%r %s 0' % (p, sym), hint=tuple(sorted(names_in(p))) or None)
        return Mask(self, o, sym)

    def __eq__(self, o):
        if o is None:
            return False
        return self._cmp(o, '==')

    def __ne__(self, o):
        if o is None:
            return True
        return self._cmp(o, '!=')

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    __hash__ = object.__hash__

    def __bool__(self):
        if self.ndim == 0:
            return bool(self != 0)
        raise Unsupported('truth value of an array')

    def __float__(self):
        if self.ndim == 0 and self.poly().isconst():
            return float(self.poly().constval())
        raise Unsupported('float() of symbolic data')

    def __int__(self):
        if self.ndim == 0 and self.poly().isconst():
            return int(self.poly().constval())
        raise Unsupported('int() of symbolic data')

    def __complex__(self):
        raise Unsupported('complex() of symbolic data')

    def __iter__(self):
        if not self.axes:
            raise TypeError('iteration over a 0-d array')
        return iter([self[k] for k in range(len(self))])

    def poly(self):
        """value of a 0-d array"""
        segs, data = self.flat()
        if self.comps():
            raise Unsupported('scalar value of an array')
        return data.get((), Poly())

    def item(self):
        return self

    # ---- reductions and misc
    def sum(self, axis=None, **kw):
        return asum(self, axis)

    def trace(self, *a, **k):
        return trace(self, *a, **k)

    def conj(self):
        return self if self.dtype.kind != 'c' else conj_fn(self)
    conjugate = conj

    @property
    def real(self):
        if self.dtype.kind != 'c':
            return self
        return opaque_fn('real', self, F8)

    @property
    def imag(self):
        if self.dtype.kind != 'c':
            return zeros_like(self)
        return opaque_fn('imag', self, F8)

    def diagonal(self):
        return einsum('ii->i', self)

    def argsort(self, *a, **k):
        raise Unsupported('argsort')
    sort = nonzero = mean = argsort

    def max(self, axis=None, **k):
        if axis is not None:
            raise Unsupported('max along an axis')
        return extreme('max', self)

    def min(self, axis=None, **k):
        if axis is not None:
            raise Unsupported('min along an axis')
        return extreme('min', self)

    def any(self, axis=None, **k):
        if axis is not None:
            raise Unsupported('any along an axis')
        return SBool(desc='any entry nonzero', facts=equal_facts(self, None), when=False, hint=hint_of(self))

    def all(self, axis=None, **k):
        if axis is not None:
            raise Unsupported('all along an axis')
        return SBool(desc='all entries nonzero', hint=hint_of(self))

    def __repr__(self):
        return 'Arr%s' % (self.shape,)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported('ndarray attribute ' + name)


def sym_len(x):
    if isinstance(x, Arr):
        if x.ndim == 0:
            raise TypeError('len() of unsized object')
        return x.shape[0]
    return len(x)


class FancyIndex(Exception):
    def __init__(self, x):
        self.x = x


class MisalignedSlice(Unsupported):
    pass


class Mask(object):
    """Elementwise comparison with a constant, only for use as an index."""
    def __init__(self, a, b, sym):
        self.a, self.b, self.sym = a, b, sym

    def key(self):
        if self.b.ndim != 0 or not self.b.poly().isconst():
            raise Unsupported('mask against symbolic data')
        return self.a, self.sym, self.b.poly().constval()

    def __and__(self, o):
        return BoolMask('and', self, o)

    def __or__(self, o):
        return BoolMask('or', self, o)

    def __invert__(self):
        return BoolMask('not', self, None)

    def __bool__(self):
        raise Unsupported('truth value of an array comparison')

    def all(self, axis=None):
        if axis is None and self.sym == '==':
            return SBool(desc='arrays equal', facts=equal_facts(self.a, self.b), hint=hint_of(self.a, self.b))
        return SBool(desc='all(mask)', hint=hint_of(self.a, self.b))

    def any(self, axis=None):
        if axis is None and self.sym == '!=':
            return SBool(desc='arrays differ', facts=equal_facts(self.a, self.b), when=False,
                         hint=hint_of(self.a, self.b))
        return SBool(desc='any(mask)', hint=hint_of(self.a, self.b))


class BoolMask(Mask):
    def __init__(self, op, a, b):
        self.op, self.x, self.y = op, a, b

    def all(self, axis=None):
        return SBool(desc='all(mask)')
    any = all


def names_in(p):
    """Names of the input arrays a polynomial is made of."""
    out = set()
    for m in p.t:
        for n, _ in m:
            if n in CTX.unknown:
                out |= set(CTX.unknown[n])
            elif n in _OPQ:
                out |= names_in(_OPQ[n][1])
            elif n != 'delta' and not n.startswith('n:'):
                out.add(n)
    return out


def hint_of(*arrs):
    """Names of the input arrays a condition looks at."""
    out = []
    for a in arrs:
        try:
            for p in a.flat()[1].values():
                out += names_in(p)
        except Exception:
            pass
    return tuple(sorted(set(out)))


def extreme(fn, a):
    """Largest or smallest entry: a number about which nothing is known."""
    if bool(_axlen_total(a) == 0):
        raise ValueError('zero-size array to reduction operation')
    CTX.unknown[CTX.fresh(fn + '#')] = hint_of(a)
    return Arr.scalar(Poly.entry('%s#%d' % (fn, CTX.counter), ()))


def _axlen_total(a):
    d = SDim({(): 1})
    for n in a.shape:
        d = d*n
    return d


def identical(a, b):
    """a is b.  Two arrays given to the function may be one object if they can be equal."""
    if a is b:
        return True
    if isinstance(a, types.SimpleNamespace) and isinstance(b, types.SimpleNamespace):
        if set(vars(a)) != set(vars(b)):
            return False
        pairs = [(vars(a)[k], vars(b)[k]) for k in sorted(vars(a))]
    else:
        pairs = [(a, b)]
    facts = []
    for x, y in pairs:
        if not isinstance(x, Arr) or not isinstance(y, Arr) or not getattr(x, 'given', False) \
                or not getattr(y, 'given', False) or x.ndim != y.ndim or x.dtype != y.dtype:
            return False
        for m, n in zip(x.shape, y.shape):
            if not (m == n):
                return False
        f = equal_facts(x, y)
        facts = None if f is None or facts is None else facts + f
    return bool(SBool(desc='is', facts=facts, hint=('is',) + tuple(hint_of(x, y) for x, y in pairs)))


def _pair_test(desc):
    def f(a, b, *args, **kw):
        a, b = Arr.of(a), Arr.of(b)
        if desc == 'array_equal':
            if a.ndim != b.ndim:
                return False
            for x, y in zip(a.shape, b.shape):
                if not (x == y):
                    return False
            if a.ndim == 0:
                return a == b
            return SBool(desc=desc, facts=equal_facts(a, b), hint=hint_of(a, b))
        return SBool(desc=desc, hint=hint_of(a, b))
    return f


FANCY = []          # hooks: function(arr, key) -> Arr or None


def fancy(arr, key):
    for h in FANCY:
        r = h(arr, key)
        if r is not None:
            return r
    raise Unsupported('fancy index %r' % (key,))


def cast(p, src, dst):
    if src == dst or p.iszero():
        return p
    if real_numpy.can_cast(src, dst, 'safe'):
        return p
    if p.isconst() and dst.kind in 'fc':
        return p
    if dst == F8 and src.kind in 'iub':
        return p
    return opaque_poly('cast_%s_%s' % (src, dst), p)


def _poly_dim(p):
    """SDim equal to a polynomial in extents only, or None."""
    t = {}
    for m, c in p.t.items():
        segs = []
        for n, idx in m:
            if idx or not n.startswith('n:'):
                return None
            segs.append(n[2:])
        if c.denominator != 1:
            return None
        t[tuple(sorted(segs))] = int(c)
    return SDim(t)


def _linear_scalar(p):
    """If p == 0 determines a scalar parameter (a*x + b), give (x, Poly)."""
    names = {n for m in p.t for n, idx in m}
    if len(names) != 1:
        return None
    x = names.pop()
    m = ((x, ()),)
    if set(p.t) <= {m, ()} and m in p.t:
        return x, Poly.const(-p.t.get((), Fraction(0))/p.t[m])
    return None


# ---------------------------------------------------------------- broadcasting

def axis_same(a, b):
    """a, b: tuples of segment tuples."""
    if a == b:
        return True
    return False


def struct_same(a, b):
    return len(a) == len(b) and all(axis_same(x, y) for x, y in zip(a, b))


def _axlen(ax):
    d = SDim({(): 1})
    for segs in ax:
        d = d*seg_len(segs)
    return d


def broadcast(structs):
    n = max(len(s) for s in structs)
    out = []
    for k in range(n):
        cur = ()
        for s in structs:
            j = k - (n - len(s))
            if j < 0:
                continue
            ax = s[j]
            if ax == ():
                continue
            if cur == ():
                cur = ax
            elif not axis_same(cur, ax):
                CTX.shape_checks += 1
                mismatch(cur, ax)
        CTX.shape_checks += 1
        out.append(cur)
    return tuple(out)


def mismatch(a, b):
    la, lb = _axlen(a), _axlen(b)
    if same(la, lb):
        raise Unsupported('extents agree but are segmented differently: %s / %s' % (a, b))
    raise ShapeError('extents %r and %r need not agree' % (la, lb))


def expand(arr, struct):
    """Entries of arr broadcast to the given structure."""
    segs, data = arr.flat()
    st = arr.struct()
    off = len(struct) - len(st)
    src = []            # for each flat slot of the target: flat slot of arr or None
    tgt = [s for ax in struct for s in ax]
    k = 0
    sk = 0
    amap = {}
    free = []
    for j, ax in enumerate(struct):
        mine = st[j - off] if j >= off else ()
        for c in range(len(ax)):
            if mine != ():
                amap[sk] = k
                sk += 1
            else:
                free.append(k)
            k += 1
    if not free and all(a == b for a, b in amap.items()):
        return data
    out = {}
    for key, p in data.items():
        mp = {}
        for a, b in amap.items():
            if a != b:
                sg = segs[a][key[a]]
                mp[('f', sg, a)] = ('f', sg, b)
        q = p.rename(mp) if mp else p
        for combo in product(*[range(len(tgt[f])) for f in free]):
            full = [None]*len(tgt)
            for a, b in amap.items():
                full[b] = key[a]
            for f, c in zip(free, combo):
                full[f] = c
            out[tuple(full)] = q
    return out


def result_dtype(a, b, pa, pb):
    """numpy promotion; python scalars are weak."""
    if pa and not pb:
        return _weak(a, b)
    if pb and not pa:
        return _weak(b, a)
    return real_numpy.result_type(a.dtype, b.dtype)


def _weak(s, arr):
    order = {'b': 0, 'u': 1, 'i': 1, 'f': 2, 'c': 3}
    if order[s.dtype.kind] <= order[arr.dtype.kind]:
        return arr.dtype
    return C16 if s.dtype.kind == 'c' else F8


def binop(x, y, op):
    pa = not isinstance(x, Arr)
    pb = not isinstance(y, Arr)
    if (pa and not isinstance(x, _NUM)) or (pb and not isinstance(y, _NUM)):
        if isinstance(x, (list, tuple)) or isinstance(y, (list, tuple)):
            pass
        elif isinstance(x, Mask) or isinstance(y, Mask):
            raise Unsupported('arithmetic with a mask')
        else:
            return NotImplemented
    a, b = Arr.of(x), Arr.of(y)
    if a.ndim == 0:
        pa = True
    if b.ndim == 0:
        pb = True
    if pa and pb:
        pa = pb = False
    dtp = result_dtype(a, b, pa, pb)
    if op == 'div' and dtp.kind in 'iub':
        dtp = F8
    st = broadcast([a.struct(), b.struct()])
    da, db = expand(a, st), expand(b, st)
    out = {}
    if op in ('add', 'sub'):
        out = dict(da)
        for k, p in db.items():
            q = p if op == 'add' else -p
            if k in out:
                r = out[k] + q
                if r.iszero():
                    del out[k]
                else:
                    out[k] = r
            else:
                out[k] = q
    elif op == 'mul':
        for k, p in da.items():
            q = db.get(k)
            if q is not None:
                r = pmul(p, q)
                if not r.iszero():
                    out[k] = r
    else:
        segs = [s for ax in st for s in ax]
        if any(tuple(k) not in db for k in product(*[range(len(s)) for s in segs])):
            if b.ndim == 0:
                raise ZeroDivisionError('division by zero')
            raise Unsupported('division by an array of zeros')
        for k, p in da.items():
            r = pmul(p, recip(db[k]))
            if not r.iszero():
                out[k] = r
    return Arr.make(st, out, dtp)


def pmul(p, q):
    if p.isconst():
        return q.scale(p.constval())
    if q.isconst():
        return p.scale(q.constval())
    return mul_many([p, q])


def unop(a, f):
    segs, data = a.flat()
    return Arr.make(a.struct(), {k: f(p) for k, p in data.items()}, a.dtype)


# ---------------------------------------------------------------- opaque functions

_OPQ = {}


def opaque_poly(fn, p):
    """f(p) for an uninterpreted elementwise function: a tensor named by the normal
    form of its argument, indexed by the argument's free slots."""
    slots = sorted({(x[2], x[1]) for m in p.t for _, idx in m for x in idx if x[0] == 'f'})
    n = len(slots)
    best = None
    perms = []
    for perm in permutations(range(n)):
        # new slot k <- old slot slots[perm[k]]
        mp = {('f', slots[perm[k]][1], slots[perm[k]][0]): ('f', slots[perm[k]][1], k) for k in range(n)}
        q = p.rename(mp)
        key = repr(sorted(q.t.items(), key=repr))
        segs = tuple(slots[perm[k]][1] for k in range(n))
        kk = (segs, key)
        if best is None or kk < best:
            best, perms = kk, [perm]
        elif kk == best:
            perms.append(perm)
    name = '%s{%s}' % (fn, best[1])
    idx = tuple(('f', slots[perms[0][k]][1], slots[perms[0][k]][0]) for k in range(n))
    if name not in SYM:
        base = perms[0]
        gens = []
        inv = {base[k]: k for k in range(n)}
        for pm in perms[1:]:
            gens.append((tuple(inv[pm[k]] for k in range(n)), 1))
        declare(name, gens, n)
        _OPQ[name] = (fn, p)
    return Poly.entry(name, idx)


def recip(p):
    if p.isconst():
        v = p.constval()
        if v == 0:
            raise ZeroDivisionError('division by zero')
        return Poly.const(1/v)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if len(m) == 1 and m[0][0].startswith('recip{'):
            pass
    lead = p.t[sorted(p.t, key=repr)[0]]
    # normalise the leading coefficient of the slot-canonical form
    a = opaque_poly('recip', p.scale(1/abs(lead)))
    return a.scale(1/abs(lead))


def opaque_fn(fn, a, dtype=None):
    a = Arr.of(a)
    segs, data = a.flat()
    out = {}
    for key in product(*[range(len(s)) for s in segs]):
        p = data.get(key, Poly())
        if p.isconst():
            v = float(p.constval())
            if fn == 'abs':
                out[key] = Poly.const(abs(p.constval()))
                continue
            if fn == 'exp' and v == 0:
                out[key] = Poly.const(1)
                continue
            if fn == 'sqrt' and v in (0.0, 1.0, 4.0):
                out[key] = Poly.const({0.0: 0, 1.0: 1, 4.0: 2}[v])
                continue
            out[key] = Poly.entry('%s(%s)' % (fn, p.constval()), ())
            continue
        out[key] = opaque_poly(fn, p)
    return Arr.make(a.struct(), {k: v for k, v in out.items() if not v.iszero()}, dtype or a.dtype)


CONJ = {}           # tensor name -> name of its conjugate


def conj_poly(p):
    r = Poly()
    for m, c in p.t.items():
        fs = []
        s = 1
        for n, idx in m:
            if n == 'imag_unit':
                s = -s
                fs.append((n, idx))
            else:
                fs.append((conj_name(n, len(idx)), idx))
        r.add_raw(fs, c*s)
    return r


def conj_name(n, rank):
    if n.startswith('n:'):
        return n
    if n in CONJ:
        return CONJ[n]
    m = n[:-1] if n.endswith('*') else n + '*'
    if n in SYM and m not in SYM:
        declare(m, SYM[n], rank)
    return m


def conj_fn(a):
    a = Arr.of(a)
    if a.dtype.kind != 'c':
        return a.copy()
    return unop(a, conj_poly)


# ---------------------------------------------------------------- contractions

def einsum(sub, *ops, **kw):
    out = kw.pop('out', None)
    kw.pop('optimize', None)
    kw.pop('order', None)
    kw.pop('_contract', None)
    if kw:
        raise Unsupported('einsum options %s' % sorted(kw))
    if not isinstance(sub, str):
        raise Unsupported('einsum in list form')
    sub = sub.replace(' ', '')
    if '.' in sub:
        raise Unsupported('einsum ellipsis')
    if '->' in sub:
        lhs, rhs = sub.split('->')
    else:
        lhs = sub
        labs = sorted(set(lhs.replace(',', '')))
        rhs = ''.join(x for x in labs if lhs.count(x) == 1)
    terms = lhs.split(',')
    ops = [Arr.of(o) for o in ops]
    if len(terms) != len(ops):
        raise ValueError('einsum operand count does not match subscripts')
    struct = {}
    for t, o in zip(terms, ops):
        if len(t) != o.ndim:
            raise ValueError('einstein sum subscripts string has wrong number of subscripts')
        for lab, ax in zip(t, o.struct()):
            CTX.shape_checks += 1
            if lab in struct and struct[lab] != ():
                if ax != () and not axis_same(struct[lab], ax):
                    mismatch(struct[lab], ax)
            else:
                struct[lab] = ax
    for x in rhs:
        if x not in struct:
            raise ValueError('einstein sum output subscript not in inputs')
        if rhs.count(x) > 1:
            raise ValueError('einstein sum repeated output subscript')
    # single operand permutation: a view, as in numpy
    if len(ops) == 1 and sorted(terms[0]) == sorted(rhs) and len(set(rhs)) == len(rhs):
        v = ops[0].transpose([terms[0].index(x) for x in rhs])
        if out is None:
            return v
        out._assign(v)
        return out
    r = contract(terms, rhs, ops, struct)
    if out is not None:
        out._assign(r)
        return out
    return r


def contract(terms, rhs, ops, struct):
    dtp = real_numpy.result_type(*[o.dtype for o in ops])
    outslots = {}
    k = 0
    ost = []
    for x in rhs:
        ost.append(struct[x])
        for c in range(len(struct[x])):
            outslots[(x, c)] = k
            k += 1
    nout = k
    sums = {}
    for x in struct:
        if x not in rhs:
            for c in range(len(struct[x])):
                sums[(x, c)] = len(sums)
    # choose segment positions
    flats = [o.flat() for o in ops]
    labs = []
    for t, o in zip(terms, ops):
        l = []
        for lab, ax in zip(t, o.struct()):
            if ax == () and struct[lab] != ():
                continue        # broadcast extent one
            for c in range(len(ax)):
                l.append((lab, c))
        labs.append(l)
    res = {}

    def rec(j, asg, polys, renames):
        if j == len(ops):
            # unused (broadcast-only) summed labels cannot occur: every label has
            # an operand carrying it
            p = mul_many(polys, renames)
            # summed labels whose index does not occur in a monomial: sum of a
            # constant gives the extent
            if p.iszero():
                return
            key = [None]*nout
            for lc, s in outslots.items():
                key[s] = asg[lc]
            key = tuple(key)
            if key in res:
                q = res[key] + p
                if q.iszero():
                    del res[key]
                else:
                    res[key] = q
            else:
                res[key] = p
            return
        segs, data = flats[j]
        for key, p in data.items():
            a2 = dict(asg)
            ok = True
            for lc, pos in zip(labs[j], key):
                if a2.setdefault(lc, pos) != pos:
                    ok = False
                    break
            if not ok:
                continue
            rn = {}
            for s, lc in enumerate(labs[j]):
                sg = segs[s][key[s]]
                rn[s] = ('f', sg, outslots[lc]) if lc in outslots else ('d', sg, 10**6 + sums[lc])
            rec(j + 1, a2, polys + [p], renames + [rn])
    if any('1' in segs or True for segs in [()]):
        pass
    _check_const_sums(terms, rhs, ops, struct, flats, labs, sums)
    rec(0, {}, [], [])
    return Arr.make(tuple(ost), res, dtp)


def _check_const_sums(terms, rhs, ops, struct, flats, labs, sums):
    """Every summed label must show up as an index of some factor in each monomial
    of some operand, otherwise an extent factor would be lost."""
    for lc in sums:
        covered = False
        for (segs, data), l in zip(flats, labs):
            if lc not in l:
                continue
            slots = [k for k, x in enumerate(l) if x == lc]
            if all(_uses(p, slots, segs, key) for key, p in data.items()):
                covered = True
                break
        if not covered:
            raise Unsupported('sum over an index on which the operand does not depend')


def _uses(p, slots, segs, key):
    sset = set(slots)
    for m in p.t:
        if not any(x[0] == 'f' and x[2] in sset for _, idx in m for x in idx):
            if any(segs[s][key[s]] == '1' for s in slots):
                continue
            return False
    return True


_LET = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'


def tensordot(a, b, axes=2):
    a, b = Arr.of(a), Arr.of(b)
    if isinstance(axes, int):
        ax_a = list(range(a.ndim - axes, a.ndim))
        ax_b = list(range(axes))
    else:
        ax_a, ax_b = axes
        if isinstance(ax_a, int):
            ax_a = [ax_a]
        if isinstance(ax_b, int):
            ax_b = [ax_b]
        ax_a = [x + a.ndim if x < 0 else x for x in ax_a]
        ax_b = [x + b.ndim if x < 0 else x for x in ax_b]
    la = list(_LET[:a.ndim])
    lb = list(_LET[a.ndim:a.ndim + b.ndim])
    for x, y in zip(ax_a, ax_b):
        lb[y] = la[x]
    out = [la[k] for k in range(a.ndim) if k not in ax_a] + [lb[k] for k in range(b.ndim) if k not in ax_b]
    return einsum('%s,%s->%s' % (''.join(la), ''.join(lb), ''.join(out)), a, b)


def dot(a, b, out=None):
    a, b = Arr.of(a), Arr.of(b)
    if a.ndim == 0 or b.ndim == 0:
        return a*b
    if b.ndim == 1:
        return tensordot(a, b, ([a.ndim-1], [0]))
    return tensordot(a, b, ([a.ndim-1], [b.ndim-2]))


def matmul(a, b):
    a, b = Arr.of(a), Arr.of(b)
    if a.ndim > 2 or b.ndim > 2:
        raise Unsupported('batched matmul')
    return dot(a, b)


def asum(a, axis=None, **kw):
    a = Arr.of(a)
    if axis is None:
        axis = tuple(range(a.ndim))
    if isinstance(axis, int):
        axis = (axis,)
    axis = [x + a.ndim if x < 0 else x for x in axis]
    lab = _LET[:a.ndim]
    if not axis:
        return a.copy()
    return einsum('%s->%s' % (lab, ''.join(lab[k] for k in range(a.ndim) if k not in axis)), a)


def trace(a, *args, **kw):
    if args or kw:
        raise Unsupported('trace options')
    return einsum('ii->', a)


def outer(a, b):
    return einsum('a,b->ab', Arr.of(a).ravel(), Arr.of(b).ravel())


# ---------------------------------------------------------------- creation and joining

def zeros(shape, dtype=None, order=None):
    ax = seg_axes(shape)
    return Arr.make(tuple(() if a is None else (a,) for a in ax), {}, dt(dtype))


def empty(shape, dtype=None, order=None):
    ax = seg_axes(shape)
    st = tuple(() if a is None else (a,) for a in ax)
    return named(CTX.fresh('uninit'), st, dt(dtype))


def named(name, st, dtype=F8, origin=None):
    """An arbitrary array: one independent tensor per block."""
    segs = [s for ax in st for s in ax]
    data = {}
    for key in product(*[range(len(s)) for s in segs]):
        sg = [segs[k][key[k]] for k in range(len(segs))]
        multi = any(len(s) > 1 for s in segs)
        nm = name + ('<%s>' % ','.join(str(k) for k in key) if multi else '')
        data[key] = Poly.entry(nm, [('f', sg[k], k) for k in range(len(segs)) if sg[k] != '1'])
    return Arr.make(st, data, dtype, origin)


def zeros_like(a, dtype=None, **kw):
    a = Arr.of(a)
    return Arr.make(a.struct(), {}, dt(dtype) if dtype is not None else a.dtype)


def empty_like(a, dtype=None, **kw):
    a = Arr.of(a)
    return named(CTX.fresh('uninit'), a.struct(), dt(dtype) if dtype is not None else a.dtype)


def full(shape, v, dtype=None):
    z = zeros(shape, dtype if dtype is not None else Arr.of(v).dtype)
    z._assign(v)
    return z


def ones(shape, dtype=None, order=None):
    return full(shape, 1.0, dt(dtype))


def ones_like(a, dtype=None):
    z = zeros_like(a, dtype)
    z._assign(1.0)
    return z


def array(x, dtype=None, copy=True, **kw):
    a = Arr.of(x)
    if dtype is not None and dt(dtype) != a.dtype:
        return a.astype(dtype)
    return a.copy() if copy else a


def asarray(x, dtype=None, **kw):
    a = Arr.of(x)
    if dtype is not None and dt(dtype) != a.dtype:
        return a.astype(dtype)
    return a


def ascontiguousarray(x, dtype=None):
    a = asarray(x, dtype)
    return a if a._is_contig() else a.copy()


def concatenate(arrs, axis=0, **kw):
    arrs = [Arr.of(a) for a in arrs]
    nd = arrs[0].ndim
    if axis < 0:
        axis += nd
    if any(a.ndim != nd for a in arrs):
        raise ValueError('all the input array dimensions must match')
    st = [None]*nd
    for k in range(nd):
        if k == axis:
            segs = ()
            for a in arrs:
                ax = a.struct()[k]
                if ax == ():
                    segs += ('1',)
                elif len(ax) == 1:
                    segs += ax[0]
                else:
                    raise Unsupported('concatenate along a composite axis')
            st[k] = (segs,)
        else:
            cur = arrs[0].struct()[k]
            for a in arrs[1:]:
                CTX.shape_checks += 1
                if not axis_same(cur, a.struct()[k]):
                    mismatch(cur, a.struct()[k])
            st[k] = cur
    slot = sum(len(st[k]) for k in range(axis))
    data = {}
    off = 0
    for a in arrs:
        segs, d = a.flat()
        unit = a.struct()[axis] == ()
        w = 1 if unit else len(a.struct()[axis][0])
        for key, p in d.items():
            if unit:
                nk = key[:slot] + (off,) + key[slot:]
                mp = {('f', segs[s][key[s]], s): ('f', segs[s][key[s]], s + 1) for s in range(slot, len(segs))}
                # apply from the top to avoid clashes
                p = p.rename(mp) if mp else p
            else:
                nk = key[:slot] + (key[slot] + off,) + key[slot+1:]
            data[nk] = p
        off += w
    dtp = real_numpy.result_type(*[a.dtype for a in arrs])
    return Arr.make(tuple(st), data, dtp)


def stack(arrs, axis=0, **kw):
    arrs = [Arr.of(a) for a in arrs]
    nd = arrs[0].ndim + 1
    if axis < 0:
        axis += nd
    return concatenate([Arr(a.buf, a.axes[:axis] + ((),) + a.axes[axis:], a.fixed) for a in arrs], axis)


def hstack(arrs, **kw):
    arrs = [Arr.of(a) for a in arrs]
    return concatenate(arrs, 0 if arrs[0].ndim == 1 else 1)


def vstack(arrs, **kw):
    arrs = [Arr.of(a) for a in arrs]
    arrs = [a if a.ndim > 1 else a[None, :] for a in arrs]
    return concatenate(arrs, 0)


def block(x):
    def depth(y):
        return 1 + depth(y[0]) if isinstance(y, list) else 0

    def rec(y, axis):
        if not isinstance(y, list):
            return y
        return concatenate([rec(z, axis + 1) for z in y], axis)
    d = depth(x)

    def go(y, lev):
        if not isinstance(y, list):
            return Arr.of(y)
        parts = [go(z, lev - 1) for z in y]
        return concatenate(parts, -lev)
    return go(x, d)


def eye(n, m=None, dtype=None, **kw):
    if m is not None and not (SDim.of(m).t == SDim.of(n).t):
        raise Unsupported('rectangular eye')
    segs = seg_axes((n,))[0]
    if segs is None:
        return ones((1, 1), dtype)
    data = {}
    for k, s in enumerate(segs):
        data[(k, k)] = Poly.const(1) if s == '1' else Poly.entry('delta', [('f', s, 0), ('f', s, 1)])
    return Arr.make(((segs,), (segs,)), data, dt(dtype))


def diag(a, k=0):
    a = Arr.of(a)
    if k != 0:
        raise Unsupported('diag offset')
    if a.ndim == 2:
        return einsum('ii->i', a)
    return einsum('i,ij->ij', a, eye(a.shape[0]))


def ndim(a):
    return Arr.of(a).ndim


def shape(a):
    return Arr.of(a).shape


def transpose(a, axes=None):
    return Arr.of(a).transpose(axes)


def swapaxes(a, i, j):
    return Arr.of(a).swapaxes(i, j)


def moveaxis(a, src, dst):
    a = Arr.of(a)
    src = [src] if isinstance(src, int) else list(src)
    dst = [dst] if isinstance(dst, int) else list(dst)
    src = [s % a.ndim for s in src]
    dst = [d % a.ndim for d in dst]
    order = [n for n in range(a.ndim) if n not in src]
    for d, s in sorted(zip(dst, src)):
        order.insert(d, s)
    return a.transpose(order)


def expand_dims(a, axis):
    a = Arr.of(a)
    if axis < 0:
        axis += a.ndim + 1
    return Arr(a.buf, a.axes[:axis] + ((),) + a.axes[axis:], a.fixed)


def reshape(a, shp, **kw):
    return Arr.of(a).reshape(shp, **kw)


def _ufunc(op):
    def f(a, b, out=None, **kw):
        if kw:
            raise Unsupported('ufunc options')
        r = binop(Arr.of(a), b, op)
        if out is not None:
            out._assign(r)
            return out
        return r
    return f


add = _ufunc('add')
subtract = _ufunc('sub')
multiply = _ufunc('mul')
divide = true_divide = _ufunc('div')


class _Outer(object):
    def __init__(self, f):
        self.f = f

    def __call__(self, *a, **k):
        return self.f(*a, **k)

    def outer(self, a, b):
        a, b = Arr.of(a), Arr.of(b)
        a2 = Arr(a.buf, a.axes + ((),)*b.ndim, a.fixed)
        return self.f(a2, b)


add, subtract, multiply, divide = _Outer(add), _Outer(subtract), _Outer(multiply), _Outer(divide)
true_divide = divide


def negative(a, out=None):
    r = -Arr.of(a)
    if out is not None:
        out._assign(r)
        return out
    return r


def copyto(dst, src, **kw):
    dst._assign(src)


_NUM = (bool, int, float, complex, Fraction, SDim, real_numpy.floating, real_numpy.integer, real_numpy.complexfloating)


class _Random(object):
    def _r(self, shape):
        if shape is None:
            nm = CTX.fresh('rnd')
            return Arr.scalar(Poly.entry(nm, ()))
        ax = seg_axes(shape)
        st = tuple(() if a is None else (a,) for a in ax)
        return named(CTX.fresh('rnd'), st)

    def random(self, size=None):
        return self._r(size)
    random_sample = ranf = sample = standard_normal = random

    def rand(self, *s):
        return self._r(tuple(s) if s else None)
    randn = rand

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._r(size)*(high - low) + low

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._r(size)*scale + loc

    def seed(self, *a):
        return None

    def default_rng(self, *a):
        return self

    RandomState = default_rng

    def __getattr__(self, n):
        raise Unsupported('numpy.random.' + n)


class _Linalg(object):
    LinAlgError = real_numpy.linalg.LinAlgError

    def norm(self, a, *args, **kw):
        if args or kw:
            raise Unsupported('norm options')
        return opaque_fn('sqrt', asum(multiply(a, a)))

    def __getattr__(self, n):
        raise Unsupported('numpy.linalg.' + n)


class NumpyFacade(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported('numpy.' + name)


def facade():
    m = NumpyFacade('numpy')
    g = globals()
    for n in ('einsum tensordot dot matmul outer trace zeros empty zeros_like empty_like full ones '
              'ones_like array asarray ascontiguousarray concatenate stack hstack vstack block eye diag '
              'ndim shape transpose swapaxes moveaxis expand_dims reshape add subtract multiply divide '
              'true_divide negative copyto').split():
        setattr(m, n, g[n])
    m.sum = asum
    m.identity = eye
    m.asanyarray = asarray
    m.conj = m.conjugate = conj_fn
    m.exp = lambda a: opaque_fn('exp', a, F8)
    m.log = lambda a: opaque_fn('log', a, F8)
    m.sqrt = lambda a: opaque_fn('sqrt', a)
    m.abs = m.absolute = lambda a: opaque_fn('abs', a)
    m.ravel = lambda a, *k: Arr.of(a).ravel()
    m.squeeze = lambda a, *k: Arr.of(a).squeeze()
    m.copy = lambda a, **k: Arr.of(a).copy()
    m.real = lambda a: Arr.of(a).real
    m.result_type = lambda *a: real_numpy.result_type(*[x.dtype if isinstance(x, Arr) else x for x in a])
    m.newaxis = None
    m.any = lambda a, *k, **kw: a.any(*k, **kw)
    m.all = lambda a, *k, **kw: a.all(*k, **kw)
    m.max = m.amax = lambda a, *k, **kw: Arr.of(a).max(*k, **kw)
    m.min = m.amin = lambda a, *k, **kw: Arr.of(a).min(*k, **kw)
    m.allclose = _pair_test('allclose')
    m.array_equal = m.array_equiv = _pair_test('array_equal')
    m.ndarray = Arr
    m.pi = real_numpy.pi
    for n in 'float64 float32 complex128 complex64 int64 int32 float_ double dtype bool_ integer floating number'.split():
        setattr(m, n, getattr(real_numpy, n))
    m.random = _Random()
    m.linalg = _Linalg()
    m.__version__ = real_numpy.__version__
    m.nan, m.inf = float('nan'), float('inf')
    return m


NUMPY = facade()
