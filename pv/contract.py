"""Contracts on array code and the two ways of discharging them.

A contract gives the inputs of a function (built from named tensors with declared
symmetries: the precondition), and for each array it returns the polynomial its
entries must equal (the postcondition, taken from the property's meaning).  The
frame condition (inputs unchanged, results fresh) is part of every contract.

`verify`  runs the real source on symbolic arrays and decides every obligation for
          all extents and all values.
`sample`  runs the real, unmodified module on concrete arrays and compares with the
          same postcondition; used to cross-check the engine, to find witnesses, and
          as a labelled bounded stand-in where `verify` is out of reach.
"""
import time
import types
import traceback
from itertools import product
import numpy
from . import symnp, loader
from .poly import Poly, group_of, SYM
from .symnp import Arr, SDim, Unsupported, CTX, explore


class Spec(object):
    """Expected array: struct = per axis tuple of segments, data = {pos: Poly}."""
    def __init__(self, axes, data):
        self.axes = tuple(tuple(a) for a in axes)
        self.data = {k: p for k, p in data.items() if not p.iszero()}


def spec(segs, poly):
    """Single-block expected array; segs e.g. 'vvoo' or a list of names."""
    segs = tuple(segs)
    return Spec([(s,) for s in segs], {(0,)*len(segs): poly})


def scalar_spec(poly):
    return Spec((), {(): poly})


# ------------------------------------------------------------------ backends

class SymBackend(object):
    symbolic = True

    def __init__(self, world, integers=()):
        self.world = world
        self.integers = integers        # labels of the arrays with integer elements
        self.inputs = []        # (label, Arr)
        self.containers = []    # (label, obj, attrs)
        self.dtype = numpy.dtype('float64')
        self.real_dtype = numpy.dtype('float64')

    def module(self, name):
        return self.world.load('cqcpy.' + name)

    def dim(self, seg):
        return SDim.seg(seg)

    def array(self, label, sp, dtype=None):
        """Input array with the given Spec content."""
        d = numpy.dtype('int64') if label in self.integers else dtype or self.dtype
        a = Arr.make(tuple((ax,) for ax in sp.axes), dict(sp.data), d, origin=label)
        a.given = True
        self.inputs.append((label, a))
        return a

    def tensor(self, name, segs, dtype=None):
        segs = tuple(segs)
        return self.array(name, spec(segs, Poly.entry(name, [('f', s, k) for k, s in enumerate(segs)])), dtype)

    def scalar(self, name):
        return Arr.scalar(Poly.entry(name, ()))

    def obj(self, label, **attrs):
        o = types.SimpleNamespace(**attrs)
        self.containers.append((label, o, dict(attrs)))
        return o


class NumBackend(object):
    symbolic = False

    def __init__(self, rng, dims, style='plain', scalars=None, values=None, vals='plain', force=None):
        self.rng = rng
        self.force = force or {}
        self.vals = vals
        self.dims = dict(dims)
        self.style = style
        self.inputs = []
        self.containers = []
        self.values = values if values is not None else {}
        self.scalars = scalars or {}
        self.complex = style == 'complex'

    def module(self, name):
        return loader.real('cqcpy.' + name)

    def dim(self, seg):
        if seg == '1':
            return 1
        return self.dims[seg]

    def value(self, name, segs):
        """Random value of a base tensor, with its declared symmetry."""
        if name in self.values:
            return self.values[name]
        shape = tuple(self.dim(s) for s in segs)
        if name in self.scalars:
            self.values[name] = numpy.asarray(self.scalars[name])
            return self.values[name]
        x = numpy.asarray(self.rng.uniform(-1.0, 1.0, size=shape))
        if self.vals == 'integers' or self.vals == 'mixed' and self.rng.uniform() < 0.5:
            x = numpy.asarray(self.rng.integers(-2, 3, size=shape)).astype(float)
        elif self.vals == 'zeros' and self.rng.uniform() < 0.4:
            x = numpy.zeros(shape)
        elif self.vals == 'scales':
            x = x*10.0**self.rng.integers(-8, 3)
        elif self.vals == 'sparse':
            x = x*(self.rng.uniform(size=shape) < 0.3)
        if self.complex:
            x = x + 1j*self.rng.uniform(-1.0, 1.0, size=shape)
        if name in SYM and len(segs) > 1:
            y = 0
            for perm, s in SYM[name]:
                y = y + s*x.transpose(perm)
            x = numpy.ascontiguousarray(y)
        x = self.coincide(name, x)
        self.values[name] = x
        return x

    def coincide(self, name, x):
        """Values that agree with one another, vanish or are symmetric, where the
        configuration asks for it."""
        if name in self.force.get('zero', ()) or 'only' in self.force and name not in self.force['only']:
            return numpy.zeros_like(x)
        if name in self.force.get('small', ()):
            return x*self.force.get('by', 1e-13)
        if name in self.force.get('positive', ()):
            return abs(x)
        if name in self.force.get('negative', ()):
            return -abs(x)
        twins = self.vals == 'twins' and x.ndim and self.rng.uniform() < 0.6
        for n, y in self.values.items():
            if (twins or self.grouped(name, n, 'same')) and \
                    y.shape == x.shape and SYM.get(n) == SYM.get(name):
                # apart: relative if not very small, else absolute
                apart = self.force.get('apart', 0.0)
                return y + apart*(x*y if apart > 1e-6 else x)
        if self.vals == 'twins' and name not in SYM and x.ndim in (2, 4) and self.rng.uniform() < 0.4:
            perm = (1, 0) if x.ndim == 2 else [(1, 0, 3, 2), (2, 3, 0, 1), (1, 0, 2, 3)][self.rng.integers(0, 3)]
            if x.transpose(perm).shape == x.shape:
                return x + x.transpose(perm)
        return x

    def beyond(self, sp, err, want, c):
        """Is the error more than rounding, judged by the sums of the absolute values of
        the terms (per entry where the code only places and adds entries)?"""
        entry = c.module in EXACT
        if not ((err > c.tol*want).any() if entry else err.max() > c.tol*want.max()):
            return False
        keep = self.values
        data = {}
        for key, p in sp.data.items():
            data[key] = q = Poly()
            q.t = {k: abs(v) for k, v in p.t.items()}
        try:
            self.values = {k: abs(v) for k, v in keep.items()}
            x = abs(self.eval_spec(Spec(sp.axes, data)))
        finally:
            self.values = keep
        return bool((err > c.tol*x).any() if entry else err.max() > c.tol*x.max())

    def eval_spec(self, sp):
        shape = tuple(sum(self.dim(s) for s in ax) for ax in sp.axes)
        out = numpy.zeros(shape, dtype=complex if self.complex else float)
        for key, p in sp.data.items():
            segs = [sp.axes[k][key[k]] for k in range(len(sp.axes))]
            sl = []
            for k, ax in enumerate(sp.axes):
                off = sum(self.dim(s) for s in ax[:key[k]])
                sl.append(slice(off, off + self.dim(ax[key[k]])))
            out[tuple(sl)] = self.eval_poly(p, segs)
        return out

    def eval_poly(self, p, segs):
        shape = tuple(self.dim(s) for s in segs)
        out = numpy.zeros(shape, dtype=complex if self.complex else float)
        for m, c in p.t.items():
            out = out + float(c)*self._mono(m, segs, shape)
        return out

    def _mono(self, m, segs, shape):
        ops = []
        subs = []
        names = {}
        letters = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'

        def let(x):
            if x not in names:
                names[x] = letters[len(names)]
            return names[x]
        seen = set()
        for n, idx in m:
            if n.startswith('n:'):
                ops.append(numpy.asarray(float(self.dim(n[2:]))))
                subs.append('')
                continue
            if n == 'delta':
                ops.append(numpy.eye(self.dim(idx[0][1])))
            elif n.startswith('recip{'):
                ops.append(self.eval_opaque(n))
            elif n.endswith('*') and n[:-1] in self.values:
                ops.append(numpy.conj(self.values[n[:-1]]))
            else:
                ops.append(self.value(n, [x[1] for x in idx]))
            subs.append(''.join(let(x) for x in idx))
            for x in idx:
                if x[0] == 'f':
                    seen.add(x[2])
        for k, s in enumerate(segs):
            if k not in seen:
                ops.append(numpy.ones(shape[k]))
                subs.append(let(('f', s, k)))
        outsub = ''.join(let(('f', s, k)) for k, s in enumerate(segs))
        if not ops:
            return numpy.ones(shape)
        if len(ops) > 2:
            return numpy.einsum(','.join(subs) + '->' + outsub, *ops, optimize=True)
        return numpy.einsum(','.join(subs) + '->' + outsub, *ops)

    def array(self, label, sp, dtype=None):
        x = self.eval_spec(sp)
        if self.style == 'view' and x.ndim > 0:
            y = numpy.zeros(tuple(2*n for n in x.shape), dtype=x.dtype)
            v = y[tuple(slice(0, 2*n, 2) for n in x.shape)]
            v[...] = x
            x = v
        elif self.style == 'fortran':
            x = numpy.asfortranarray(x)
        elif self.style in ('integer', 'mixed') and numpy.array_equal(x, numpy.rint(x)):
            x = numpy.asarray(numpy.rint(x)).astype(int)
        if self.force.get('groups'):
            for lab, y in self.inputs:
                if y.shape == x.shape and y.dtype == x.dtype and numpy.array_equal(x, y) and y.ndim and \
                        (self.grouped(label, lab, 'alias')):
                    x = y
                    break
        self.inputs.append((label, x))
        return x

    def grouped(self, a, b, kind):
        return any(a in g[1:] and b in g[1:] and g[0] in ('alias', kind) for g in self.force.get('groups', ()))

    def tensor(self, name, segs, dtype=None):
        segs = tuple(segs)
        return self.array(name, spec(segs, Poly.entry(name, [('f', s, k) for k, s in enumerate(segs)])), dtype)

    def scalar(self, name):
        return float(self.value(name, ()))

    def obj(self, label, **attrs):
        o = types.SimpleNamespace(**attrs)
        for lab, p, old in self.containers:
            if self.force.get('groups') and set(old) == set(attrs) and all(attrs[k] is old[k] for k in old):
                o = p
        self.containers.append((label, o, dict(attrs)))
        return o


# ------------------------------------------------------------------ contracts

# modules that place, add and subtract entries and do no sums
EXACT = ('spin_utils', 'ov_blocks', 'utils')


class Contract(object):
    """name: unique; module, func: where; call(B, f): build inputs with backend B,
    call f, return result; post(B, result): list of (label, array, Spec).
    segs: segment names used (for choosing concrete sizes)."""
    def __init__(self, name, module, func, inputs, post, segs, fresh=False, call=None,
                 scalars=(), raises=None, styles=('plain',), helpers=(), extra_post=None,
                 note=None, maxdim=3, vals=None, world=None, nonempty=False,
                 forcing=None, tol=None):
        self.name, self.module, self.func = name, module, func
        self.inputs, self.post, self.segs = inputs, post, segs
        self.fresh = fresh
        # rounding allowed to the real code, relative to the terms of the result
        self.tol = tol or (1e-14 if module in EXACT else 1e-9)
        self.callfn = call
        self.scalars = scalars
        self.raises = raises
        self.styles = styles
        self.helpers = helpers
        self.extra_post = extra_post
        self.note = note
        self.maxdim = maxdim
        self.vals = vals
        self.world = world
        self.forcing = forcing      # names whose values may be chosen freely
        self.nonempty = nonempty    # contract asks for nonempty ranges

    def target(self, B):
        m = B.module(self.module)
        f = m
        for part in self.func.split('.'):
            f = getattr(f, part)
        return f

    def run(self, B):
        f = self.target(B)
        args, kw = self.inputs(B)
        if self.callfn is not None:
            return self.callfn(B, f, args, kw)
        return f(*args, **kw)


class Obligation(object):
    __slots__ = ('contract', 'kind', 'label', 'ok', 'detail', 'path', 'dims')

    def __init__(self, contract, kind, label, ok, detail='', path='', dims=None):
        self.dims = dims
        self.contract, self.kind, self.label, self.ok = contract, kind, label, ok
        self.detail, self.path = detail, path

    def __repr__(self):
        return '%s/%s/%s%s %s' % (self.contract, self.kind, self.label,
                                  '' if self.ok else ' FAILED', self.detail)


class Outcome(object):
    """Result of verify: status proved | failed | unsupported."""
    def __init__(self, contract):
        self.contract = contract
        self.obligations = []
        self.status = None
        self.reason = ''
        self.paths = 0
        self.shape_checks = 0
        self.time = 0.0
        self.opaque = False
        self.hints = []
        self.nonzero = 0
        self.labels = []

    def failed(self):
        return [o for o in self.obligations if not o.ok]


def subst_scalars(p, sub):
    if not sub:
        return p
    r = Poly()
    for m, c in p.t.items():
        fs = []
        for n, idx in m:
            if n in sub and not idx:
                c = c*sub[n].constval()
            else:
                fs.append((n, idx))
        r.add_raw(fs, c)
    return r


def with_units(a, want):
    """Axes of extent one carried without a segment, written with segment '1'."""
    st = a.struct()
    if len(st) != len(want) or not any(x == () and w == (('1',),) for x, w in zip(st, want)):
        return a
    if any(len(x) > 1 for x in st):
        return a
    segs, data = a.flat()
    new, mp, j = [], {}, 0
    for k, (x, w) in enumerate(zip(st, want)):
        if x == ():
            new.append((('1',),) if w == (('1',),) else ())
            if w != (('1',),):
                return a
        else:
            new.append(x)
            mp[j] = k
            j += 1
    out = {}
    for key, p in data.items():
        q = [0]*len(want)
        rn = {}
        for i, k in mp.items():
            q[k] = key[i]
            rn[('f', segs[i][key[i]], i)] = ('f', segs[i][key[i]], k)
        out[tuple(q)] = p.rename(rn)
    return Arr.make(tuple(new), out, a.dtype)


def drop_empty(a, empty):
    """The same array with the empty segments left out."""
    st = a.struct()
    if any(len(x) > 1 for x in st):
        return a
    segs, data = a.flat()
    new, j, back = [], 0, {}
    for k, x in enumerate(st):
        if x == ():
            new.append(())
            continue
        keep = [i for i, s in enumerate(x[0]) if s not in empty]
        back[j] = {i: n for n, i in enumerate(keep)}
        new.append((tuple(x[0][i] for i in keep),))
        j += 1
    out = {}
    for key, p in data.items():
        if all(key[i] in back[i] for i in range(j)):
            out[tuple(back[i][key[i]] for i in range(j))] = p
    return Arr.make(tuple(new), out, a.dtype)


def compare(sym, sp, sub=None):
    """Compare an Arr with a Spec. Yields (block label, ok, detail)."""
    if not isinstance(sym, Arr):
        if isinstance(sym, (int, float, SDim)):
            sym = Arr.of(sym)
        else:
            yield '', False, 'result is %s, not an array' % type(sym).__name__
            return
    facts = CTX.facts
    empty = symnp.zero_segs({s for ax in sp.axes for s in ax} | {s for ax in sym.struct() for seg in ax for s in seg})
    if empty:
        sp = Spec([[s for s in ax if s not in empty] for ax in sp.axes],
                  {tuple(sum(1 for s in ax[:k] if s not in empty) for ax, k in zip(sp.axes, key)): p
                   for key, p in sp.data.items()
                   if not any(ax[k] in empty for ax, k in zip(sp.axes, key))})
        sym = drop_empty(sym, empty)
    want = tuple((ax,) for ax in sp.axes)
    sym = with_units(sym, want)
    st = sym.struct()
    if st != want:
        yield 'shape', False, 'shape %s, expected %s' % (
            sym.shape, tuple(symnp.seg_len(ax)._norm() for ax in sp.axes))
        return
    yield 'shape', True, ''
    segs, data = sym.flat()
    keys = set(product(*[range(len(ax)) for ax in sp.axes]))
    for key in sorted(keys):
        p = symnp.use_facts(subst_scalars(data.get(key, Poly()), sub), facts, empty)
        q = symnp.use_facts(subst_scalars(sp.data.get(key, Poly()), sub), facts, empty)
        lab = ','.join(sp.axes[k][key[k]] for k in range(len(key)))
        d = p - q
        if d.iszero():
            yield lab, True, z3_equal(p, q)
        else:
            yield lab, False, 'code - expected = ' + d.text(6)


LINSTAT = {'queries': 0, 'time': 0.0, 'disagree': 0}
_LIN = {}


def z3_equal(p, q):
    """Re-decide equality of two normal forms in z3 linear real arithmetic, with
    each normalised monomial as an unknown."""
    key = (p, q)
    if key in _LIN:
        return _LIN[key]
    z3 = symnp._z3()
    t0 = time.time()
    atoms = {}

    def lin(r):
        e = []
        for m, c in r.t.items():
            if m not in atoms:
                atoms[m] = z3.Real('m%d' % len(atoms))
            e.append(z3.RealVal(str(c))*atoms[m])
        return z3.Sum(e) if e else z3.RealVal(0)
    s = z3.Solver()
    s.set('timeout', 20000)
    s.add(lin(p) != lin(q))
    r = str(s.check())
    LINSTAT['queries'] += 1
    LINSTAT['time'] += time.time() - t0
    if r != 'unsat':
        LINSTAT['disagree'] += 1
    _LIN[key] = r
    return r


def flatten(x):
    """Arrays inside nested containers of a result."""
    if isinstance(x, (Arr, numpy.ndarray)):
        yield x
    elif isinstance(x, (tuple, list)):
        for y in x:
            for z in flatten(y):
                yield z
    elif isinstance(x, dict):
        for y in x.values():
            for z in flatten(y):
                yield z
    elif hasattr(x, '__dict__') and not isinstance(x, (type, types.ModuleType, types.FunctionType)):
        for y in vars(x).values():
            for z in flatten(y):
                yield z


def genuine(e):
    """Exception raised by the program itself (raise, assert, extents that do not
    agree), as opposed to one coming out of the engine."""
    import linecache
    if isinstance(e, symnp.ShapeError):
        return True
    tb = e.__traceback__
    while tb is not None and tb.tb_next is not None:
        tb = tb.tb_next
    if tb is None:
        return False
    fn = tb.tb_frame.f_code.co_filename
    if not fn.startswith(loader.REPO + '/'):
        return False
    line = linecache.getline(fn, tb.tb_lineno).strip()
    return isinstance(e, AssertionError) or line.startswith('raise')


def verify(c, stubs=None, world=None, kinds=('post', 'frame', 'fresh'), integers=()):
    """Decide all obligations of contract c on the current source; integers: labels of
    the given arrays with integer elements (the others are float64)."""
    out = Outcome(c)
    t0 = time.time()
    state = {}

    def one():
        w = world() if world else loader.World()
        B = SymBackend(w, integers)
        m = w.load('cqcpy.' + c.module)
        for name, fn in (stubs or {}).items():
            mod, fname = name.split('.', 1)
            mm = w.load('cqcpy.' + mod)
            if hasattr(mm, fname):
                setattr(mm, fname, fn(getattr(mm, fname)))
        state['B'] = B
        mods = dict(w.mods)
        before, keep = loader.state(mods)
        r = c.run(B)
        after, _ = loader.state(mods)
        if after != before:
            # what a second call does is not covered by looking at one
            raise Unsupported('the call changes ' + ', '.join(
                sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k)))[:200])
        out.labels = [lab for lab, _ in B.inputs]
        return B, r
    try:
        runs = explore(one)
        if not runs:
            out.status, out.reason = 'unsupported', 'no feasible path'
            return out
        for (kind, val), info in runs:
            path = ' and '.join(('' if v else 'not ') + d for d, v in info['path'])
            out.paths += 1
            out.shape_checks += info['shape_checks'] + info['slice_checks']
            out.hints += [h for h in info['hints'] if h and h not in out.hints]
            if info['opaque']:
                out.opaque = True
            if kind == 'raise':
                if not genuine(val):
                    raise Unsupported('%s: %s' % (type(val).__name__, val))
                ok = c.raises is not None and c.raises(val, info)
                out.obligations.append(Obligation(
                    c.name, 'returns', 'no exception', ok,
                    '' if ok else '%s: %s' % (type(val).__name__, val), path, info['dims']))
                continue
            B, r = val
            if c.raises is not None:
                ok = c.raises(None, info)
                out.obligations.append(Obligation(c.name, 'returns', 'accepts', ok,
                                                  '' if ok else 'accepted inconsistent input', path, info['dims']))
                continue
            else:
                out.obligations.append(Obligation(c.name, 'returns', 'no exception', True, '', path))
            CTX.subst, CTX.facts, CTX.z3path = info['subst'], info['facts'], info['z3path']
            if 'post' in kinds:
                try:
                    posts = c.post(B, r)
                except (TypeError, ValueError) as e:
                    out.obligations.append(Obligation(c.name, 'post', 'result', False,
                                                      'unexpected result: %s' % e, path, info['dims']))
                    continue
                if not posts and not c.extra_post:
                    raise Unsupported('empty postcondition')
                for lab, arr, sp in posts:
                    if sp.data:
                        out.nonzero += 1
                    for blk, ok, det in compare(arr, sp, info['subst']):
                        out.obligations.append(Obligation(
                            c.name, 'post', lab + ('[' + blk + ']' if blk else ''), ok, det, path, info['dims']))
                if c.extra_post:
                    for lab, ok, det in c.extra_post(B, r):
                        out.obligations.append(Obligation(c.name, 'post', lab, ok, det, path, info['dims']))
            if 'frame' in kinds:
                for lab, a in B.inputs:
                    ok = a.buf.data == a.buf.snap
                    out.obligations.append(Obligation(c.name, 'frame', lab, ok,
                                                      '' if ok else 'input array modified', path, info['dims']))
                for lab, o, attrs in B.containers:
                    now = vars(o)
                    ok = set(now) == set(attrs) and all(now[k] is attrs[k] for k in attrs)
                    out.obligations.append(Obligation(c.name, 'frame', lab, ok,
                                                      '' if ok else 'input container modified', path, info['dims']))
                out.obligations.append(Obligation(c.name, 'frame', 'state outside the arguments', True, '', path))
            if 'fresh' in kinds and c.fresh:
                bad = [lab for lab, a in B.inputs for x in flatten(r) if x.buf is a.buf]
                out.obligations.append(Obligation(c.name, 'fresh', 'result', not bad,
                                                  'shares memory with ' + ', '.join(bad) if bad else '', path, info['dims']))
        out.status = 'proved' if not out.failed() else 'failed'
        if out.status == 'proved' and any(o.detail not in ('', 'unsat') for o in out.obligations):
            out.status, out.reason = 'unsupported', 'solver did not confirm an equality'
    except Unsupported as e:
        out.hints += [h for h in CTX.hints if h and h not in out.hints]
        out.status, out.reason = 'unsupported', '%s: %s' % (type(e).__name__, e)
        out.obligations = [o for o in out.obligations]
    except RecursionError as e:
        out.status, out.reason = 'unsupported', 'recursion: %s' % e
    except AttributeError as e:
        out.status, out.reason = 'unsupported', 'attribute: %s' % e
    finally:
        out.time = time.time() - t0
    return out


# ------------------------------------------------------------------ concrete runs

class Mismatch(object):
    def __init__(self, contract, label, config, detail):
        self.contract, self.label, self.config, self.detail = contract, label, config, detail


VALS = ('plain', 'zeros', 'plain', 'sparse', 'integers', 'scales')


def configs(c, seed, count, fixed=None):
    """Deterministic list of concrete configurations; fixed: extents to use."""
    rng = numpy.random.default_rng([seed & 0x7fffffff, sum(ord(x)*(k + 1) for k, x in enumerate(c.name))])
    out = []
    segs = list(c.segs)
    for k in range(count):
        if k % 4 == 3:
            dims = {s: int(rng.integers(1, c.maxdim + 2)) for s in segs}
        else:
            dims = {s: int(rng.integers(2, c.maxdim + 2)) for s in segs}
        if k == 0:
            # neighbouring extents differ
            for j, s in enumerate(segs):
                dims[s] = (3, 4, 2, 3)[j % 4] if c.maxdim >= 3 else (2, 3, 3, 2)[j % 4]
        if fixed:
            dims.update({s: n for s, n in fixed.items() if s in dims})
        what = ''
        if count >= 6 and k % 6 == 4 and segs and not fixed and not c.nonempty:
            # an empty range
            dims[segs[int(rng.integers(0, len(segs)))]] = 0
        if count >= 6 and k % 6 == 5 and c.vals is None and not fixed:
            what = 'twins'
            one = rng.uniform() < 0.4
            for s in segs:
                dims[s] = dims[segs[0] if one else [t for t in segs if t[0] == s[0]][0]]
        style = c.styles[k % len(c.styles)]
        vals = what or VALS[k % len(VALS)] if c.vals is None else c.vals[k % len(c.vals)]
        if style == 'integer':
            # all arrays, or some of them
            style = 'mixed' if (k//len(c.styles)) % 2 == 0 else style
            vals = 'mixed' if style == 'mixed' else 'integers'
        out.append({'dims': dims, 'style': style, 'vals': vals, 'seed': int(rng.integers(0, 2**31 - 1))})
        if k % 6 in (1, 2) and c.raises is None:
            # after another call, on other arrays or on the same ones with other values
            out[-1]['after'] = 'fresh' if k % 6 == 1 or c.module == 'integrals' else 'same'
    return out


def hinted_configs(c, seed, hints, dims=None):
    """Configurations in which the arrays that a condition of the code looks at
    vanish, agree, are tiny, or have one sign."""
    out = []
    if c.vals is not None and not c.forcing:
        return out
    if c.forcing:
        hints = [tuple(x if isinstance(x, str) and (x == 'is' or x in c.forcing) else
                       tuple(y for y in x if y in c.forcing) if isinstance(x, tuple) else None for x in h) for h in hints if h]
        hints = [tuple(x for x in h if x) for h in hints]
    found = []
    for h in hints:
        h = [['alias'] + list(x) for x in h[1:]] if h and h[0] == 'is' else [['same'] + list(h)]
        if all(1 < len(x) <= 7 for x in h) and h not in found:
            found.append(h)
    found = found[:6]
    kinds = []
    for groups in found:
        h = sorted(set(n for g in groups for n in g[1:]))
        kinds += [{'groups': groups}, {'zero': h}]
        if groups[0][0] == 'alias':
            continue
        kinds += [{'small': h, 'by': x} for x in (1e-13, 1e-3, 1e-5, 1e-6, 1e-7, 1e-8)]
        if len(h) > 1:
            kinds += [{'groups': groups, 'apart': x} for x in (5e-3, 5e-5, 5e-6, 5e-7, 5e-8)]
        if not c.forcing:
            kinds += [{'only': h, 'small': h, 'by': x} for x in (1e-4, 1e-6, 1e-8)]
        kinds += [{'positive': h}, {'negative': h}]
        if len(h) > 1:
            kinds += [{'zero': [n]} for n in h]
    if len(found) > 1:
        names = sorted(set(n for groups in found for g in groups for n in g[1:]))
        kinds = [{'groups': sum(found, [])}, {'zero': names}, {'positive': names},
                 {'negative': names}] + [{'small': names, 'by': x} for x in (1e-3, 1e-6, 1e-8)] + [
                     {'groups': sum(found, []), 'apart': x} for x in (5e-3, 5e-6, 5e-8)] + kinds
        kinds += [{'groups': sum([g for g in found if g is not x], [])} for x in found]
    for j, f in enumerate(kinds):
        for k, cf in enumerate(configs(c, seed + 31*j + 7, 3)):
            if 'groups' in f:
                for s in c.segs:
                    cf['dims'][s] = cf['dims'][[t for t in c.segs if k == 2 or t[0] == s[0]][0]]
            if dims:
                cf['dims'].update({s: n for s, n in dims.items() if s in cf['dims']})
            cf['force'] = f
            out.append(cf)
    return out


def wide_configs(c, seed, literals=(), top=70):
    """Configurations with one long axis, around the given numbers."""
    rng = numpy.random.default_rng([seed & 0x7fffffff, 77])
    out = []
    sizes = [5, 9, 17]
    for n in literals:
        sizes += [n + 1, n, 2*n + 1, n - 1]
    for n in sizes:
        if not 4 < n <= top:
            continue
        for s in c.segs:
            dims = {t: int(rng.integers(2, 4)) for t in c.segs}
            dims[s] = int(n)
            out.append({'dims': dims, 'style': c.styles[0], 'vals': 'plain' if c.vals is None else c.vals[0],
                        'seed': int(rng.integers(0, 2**31 - 1))})
    return out


def run_concrete(c, config, checks=('post', 'frame', 'fresh'), tol=1e-9):
    """Run the real code on one configuration. Returns list of (kind, label, detail)."""
    rng = numpy.random.default_rng(config['seed'])
    sc = {}
    for name in c.scalars:
        sc[name] = round(float(rng.uniform(-2, 2)), 3)
        if config['seed'] % 4 == 1:
            sc[name] = [0.0, 1.0, -1.0, 2.0, 0.5][config['seed']//4 % 5]
    B = NumBackend(rng, config['dims'], config['style'], sc, vals=config.get('vals', 'plain'),
                   force=config.get('force'))
    bad = []
    st = numpy.random.get_state()
    numpy.random.seed(config['seed'] % (2**32))
    earlier = []
    try:
        f = c.target(B)
        args, kw = c.inputs(B)
        if config.get('after'):
            B0 = NumBackend(numpy.random.default_rng(config['seed'] + 1), config['dims'], config['style'], dict(sc),
                            vals=config.get('vals', 'plain'), force=config.get('force'))
            args0, kw0 = c.inputs(B0)
            try:
                with numpy.errstate(all='ignore'):
                    r = c.callfn(B0, f, args0, kw0) if c.callfn else f(*args0, **kw0)
            except Exception as e:
                return [('returns', 'exception', '%s: %s' % (type(e).__name__, e))]
            if config['after'] == 'same' and len(B.inputs) == len(B0.inputs) and all(
                    x.shape == y.shape and x.dtype == y.dtype for (_, x), (_, y) in zip(B.inputs, B0.inputs)):
                for (_, x), (_, y) in zip(B.inputs, B0.inputs):
                    y[...] = x
                args, kw, B.inputs, B.containers = args0, kw0, B0.inputs, B0.containers
            elif config['after'] == 'fresh':
                earlier = [(x, x.copy()) for x in flatten(r) if isinstance(x, numpy.ndarray)]
        snap = [(lab, x, x.copy()) for lab, x in B.inputs]
        try:
            with numpy.errstate(all='ignore'):
                r = c.callfn(B, f, args, kw) if c.callfn else f(*args, **kw)
            if c.raises is not None:
                return [('returns', 'accepts', 'inconsistent input accepted')]
        except Exception as e:
            if c.raises is not None:
                return []
            return [('returns', 'exception', '%s: %s' % (type(e).__name__, e))]
        finally:
            numpy.random.set_state(st)
        if 'frame' in checks:
            for lab, x, y in snap:
                if x.shape != y.shape or not numpy.array_equal(x, y):
                    bad.append(('frame', lab, 'input array modified'))
            for lab, o, attrs in B.containers:
                now = vars(o)
                if set(now) != set(attrs) or any(now[k] is not attrs[k] for k in attrs):
                    bad.append(('frame', lab, 'input container modified'))
            if any(not numpy.array_equal(x, y, equal_nan=True) for x, y in earlier):
                bad.append(('frame', 'earlier result', 'what an earlier call returned is changed'))
        if 'fresh' in checks and c.fresh:
            for lab, x in B.inputs:
                for y in flatten(r):
                    if numpy.shares_memory(x, y):
                        bad.append(('fresh', lab, 'result shares memory with input'))
                        break
        if 'post' in checks:
            # values may have been modified by the call: evaluate on originals
            try:
                posts = c.post(B, r)
                extra = c.extra_post(B, r) if c.extra_post else []
            except Exception as e:
                return bad + [('post', 'result', 'unexpected result: %s: %s' % (type(e).__name__, e))]
            for lab, arr, sp in posts:
                want = B.eval_spec(sp)
                got = numpy.asarray(arr)
                if got.shape != want.shape:
                    bad.append(('post', lab, 'shape %s, expected %s' % (got.shape, want.shape)))
                    continue
                if got.dtype == object or not numpy.all(numpy.isfinite(got)):
                    if want.size:
                        bad.append(('post', lab, 'non-finite or non-numeric result'))
                    continue
                scale = 1.0 + (abs(want).max() if want.size else 0.0)
                err = abs(got - want).max() if want.size else 0.0
                if err > tol*scale or c.module != 'integrals' and err and B.beyond(sp, abs(got - want), abs(want), c):
                    k = numpy.unravel_index(abs(got - want).argmax(), want.shape) if want.ndim else ()
                    bad.append(('post', lab, 'entry %s: got %r, expected %r' % (
                        tuple(int(i) for i in k), complex(got[k]) if B.complex else float(got[k]),
                        complex(want[k]) if B.complex else float(want[k]))))
            for lab, ok, det in extra:
                if not ok:
                    bad.append(('post', lab, det))
    finally:
        numpy.random.set_state(st)
    return bad
