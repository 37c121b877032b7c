"""Units decided with the interpreter of pv/e2.py."""
import random
import time
import traceback
from .contract import Obligation, Outcome
from .symnp import Unsupported
from . import e2, loader
from .e2 import z3, isz, iv, rv, Arr, Obj, Num, PyExc, Dead

# seconds for one unit, and for all units of a check together
LIMIT = 150
BUDGET = [480.0]

BACKEND = 'z3 (integers, uninterpreted functions, prefix sums)'


class Ob(Obligation):
    __slots__ = ('backend',)

    def __init__(self, *a, **k):
        self.backend = k.pop('backend', BACKEND)
        Obligation.__init__(self, *a, **k)


class Proof(object):
    """Solver context, interpreter and the obligations of one unit."""
    def __init__(self, name, out, stubs=None, log=None, without=None):
        self.name, self.out = name, out
        self.ctx = e2.Ctx()
        self.it = e2.Interp(self.ctx, {})
        self.stubs = stubs or {}
        for k, v in self.stubs.items():
            if k != without:
                self.it.stubs[k] = v
        self.it.proof = self
        self.sizes = {}
        self.returned = 0
        self.raised = 0
        self.where = ''
        self.log = log
        self.must = {}          # cases that some path has to reach

    # -- inputs
    def int(self, name, lo=None, hi=None):
        v = z3.Int(name)
        self.sizes[name] = v
        if lo is not None:
            self.assume(v >= lo)
        if hi is not None:
            self.assume(v <= hi)
        return v

    def assume(self, f):
        self.ctx.base_facts.append(f)
        self.ctx.add(f)

    def bits(self, name, n, kind='ndarray'):
        """Arbitrary 0/1 array."""
        f = z3.Function(name, z3.IntSort(), z3.IntSort())
        self.ctx.bits[name] = True
        k0 = self.ctx.fresh('k')
        return Arr(self.ctx, kind, n, k0, f(k0)), f

    def counts(self, name, n, kind='ndarray'):
        """Arbitrary array of non-negative integers."""
        f = z3.Function(name, z3.IntSort(), z3.IntSort())
        self.ctx.hooks[name] = lambda ctx, t: [t >= 0]
        k0 = self.ctx.fresh('k')
        return Arr(self.ctx, kind, n, k0, f(k0)), f

    def reals(self, name, n, kind='ndarray'):
        """Array of numbers, of float or integer type."""
        f = z3.Function(name, z3.IntSort(), z3.RealSort())
        k0 = self.ctx.fresh('k')
        return Arr(self.ctx, kind, n, k0, f(k0), elem='?'), f

    # -- execution
    def run(self, call, post):
        """All paths of call(); post(value) states the obligations on each."""
        if self.ctx.solver.check() == z3.unsat:
            raise RuntimeError('%s: contradictory precondition' % self.name)

        def fn():
            try:
                v = call()
                if not self.it.untouched():
                    raise Unsupported('the call changes state outside its arguments')
            except PyExc as e:
                self.raised += 1
                m = getattr(e, 'model', None) or self.small_model()
                self.record('raises', 'no exception', False, str(e), self.dims(m))
                return
            self.returned += 1
            post(v)
        self.ctx.explore(fn)

    def alive(self):
        if not self.returned and not self.raised:
            raise RuntimeError('%s: no execution reaches the end' % self.name)
        if not self.out.failed():
            for k, v in self.must.items():
                if not v:
                    raise RuntimeError('%s: %s is reached by no path' % (self.name, k))

    # -- obligations
    def record(self, kind, label, ok, detail='', dims=None, backend=BACKEND):
        self.out.obligations.append(Ob(self.name, kind, self.where + label, ok, detail, self.path(), dims, backend=backend))
        return ok

    def path(self):
        c = []
        for r in self.ctx.runs:
            c += [str(x)[:160] for x in r.conds]
        return ' and '.join(c)[:2000]

    def small_model(self, *fs):
        """A model with sizes as small as possible."""
        for lim in (4, 6, 8, 12, 24, 60, 200):
            m = self.ctx.model(*(list(fs) + [v <= lim for v in self.sizes.values()]))
            if m is not None:
                return m
        return self.ctx.model(*fs)

    def dims(self, m):
        if m is None:
            return None
        out = {}
        for k, v in self.sizes.items():
            x = m.eval(v, model_completion=True)
            if z3.is_int_value(x):
                out[k] = x.as_long()
        return out

    def need(self, kind, label, f):
        if isinstance(f, bool):
            if f:
                return self.record(kind, label, True, 'by evaluation', backend='engine (path, extent and frame conditions)')
            return self.record(kind, label, False, 'false', self.dims(self.small_model()))
        r = self.ctx.check(z3.Not(f))
        if r == z3.unsat:
            return self.record(kind, label, True, 'valid')
        if r == z3.sat:
            return self.record(kind, label, False, 'fails: %s' % str(z3.simplify(f))[:400], self.dims(self.small_model(z3.Not(f))))
        return self.record(kind, label, False, 'unknown', None)

    def unchanged(self, label, a, k0, expr):
        """Array a still holds its original element term."""
        ok = not a.updates and not a.effects and a.k0.eq(k0) and (a.expr.eq(expr) if isz(expr) else a.expr == expr)
        if ok:
            return self.record('frame', label, True, 'not written', backend='engine (path, extent and frame conditions)')
        if a.effects:
            return self.record('frame', label, False, 'written in a loop', self.dims(self.small_model()))
        k = self.ctx.fresh('q')
        self.ctx.push()
        try:
            self.ctx.add(z3.And(k >= 0, k < iv(a.n)))
            return self.need('frame', label, rv(a.at(k)) == rv(z3.substitute(expr, (k0, k))))
        finally:
            self.ctx.pop()

    def pointwise(self, kind, label, a, n, spec):
        """Array a has length n and a[k] == spec(k) for all k."""
        if not isinstance(a, Arr):
            raise Unsupported('%s is not an array' % label)
        ok = self.need(kind, label + ' length', iv(a.n) == iv(n))
        k = self.ctx.fresh('q')
        self.ctx.push()
        try:
            self.ctx.add(z3.And(k >= 0, k < iv(n)))
            v, w = a.at(k), spec(k)
            f = iv(v) == iv(w) if e2.isint(v) and e2.isint(w) else rv(v) == rv(w)
            return self.need(kind, label, f) and ok
        finally:
            self.ctx.pop()


def earlier(call, *things):
    """A call made before the one that is judged: the same objects with other contents.
    What it returned is then changed, as a caller may do."""
    import numpy
    keep = []
    for x in things:
        if isinstance(x, list):
            keep.append((x, list(x)))
            x.reverse()
        else:
            keep.append((x, x.copy()))
            x[...] = x[tuple(slice(None, None, -1) for _ in x.shape)].copy()
            if x.dtype.kind == 'f':
                x *= 0.75
    try:
        for r in (lambda v: v if isinstance(v, tuple) else (v,))(call()):
            if isinstance(r, list):
                r.append(r[0] if r else None)
                r.reverse()
            elif isinstance(r, numpy.ndarray) and r.ndim:
                r[...] = 3
    except Exception:
        pass
    for x, y in reversed(keep):
        x[:] = y


def values(g, shape, mode=0):
    """Random numbers of different kinds, for runs of the real code."""
    import numpy
    x = g.uniform(-1, 1, shape)
    if mode == 1:
        return x*10.0**g.uniform(-10, 0, shape)
    if mode == 2:
        return x*(g.uniform(0, 1, shape) < 0.4)
    if mode == 3:
        return x*10.0**-g.integers(4, 15)
    if mode == 4:
        return numpy.asarray(g.choice([-1.0, -0.5, 0.0, 0.5, 1.0, 2.0], shape))
    if mode == 5:
        return -abs(x)
    if mode == 6:
        return abs(x)*20.0
    return x


class E2Unit(object):
    engine = 'interpreter'
    exact = False
    bounded = None
    without = None          # a function is never proved from its own contract
    maxsize = 60

    def __init__(self, name, funcs, body, configs, concrete, stub=None, bounded=None, log=None, maxsize=None):
        self.name, self.funcs, self.body = name, list(funcs), body
        self._configs, self._concrete = configs, concrete
        self.stub, self.log = stub, log
        if bounded:
            self.bounded = bounded
        if maxsize:
            self.maxsize = maxsize

    def feasible(self, dims):
        return all(abs(v) <= self.maxsize for v in dims.values())

    def prove(self, stubs=None):
        o = Outcome(self)
        p = Proof(self.name, o, stubs, self.log, self.without)
        t0 = time.time()
        p.ctx.deadline = t0 + max(0.0, min(LIMIT, BUDGET[0]))
        try:
            self.body(p)
            p.alive()
        except Unsupported as e:
            o.status, o.reason = 'unsupported', str(e)
        except (RecursionError, z3.Z3Exception, AttributeError, TypeError, KeyError, IndexError, AssertionError, ValueError) as e:
            o.status = 'unsupported'
            o.reason = 'engine: %r %s' % (e, traceback.format_exc(limit=-2)[-300:])
        except PyExc as e:
            o.status, o.reason = 'unsupported', 'exception outside the call under contract: %s' % e
        except Dead:
            o.status, o.reason = 'unsupported', 'infeasible'
        else:
            o.status = 'failed' if o.failed() else 'proved'
        BUDGET[0] -= time.time() - t0
        o.paths = p.ctx.paths
        if o.status == 'proved':
            o.nonzero = p.returned
            if self.log is not None:
                for k, v in p.it.calls.items():
                    self.log[k] = self.log.get(k, 0) + v
        return o

    def configs(self, seed, count, fixed=None):
        rng = random.Random('%s %s' % (self.name, seed))
        return [self._configs(rng, j, fixed) for j in range(count)]

    def wide(self, seed):
        """Sizes around the numbers written in the code."""
        rng = random.Random('%s wide %s' % (self.name, seed))
        out = []
        for k in loader.literals(self.funcs[0]):
            for n in (k, k + 1, 2*k + 1):
                if n <= 80:
                    out += [self._configs(rng, j, {'n': n, 'n0': n, 'n1': n, 'half': (n + 1)//2}) for j in (1, 2)]
                    out += [self._configs(rng, 1, {'n': n + 1, 'na': n, 'nb': m, 'half': n//2 + 1, 'no': n}) for m in (n, 1)]
        return out

    def concrete(self, config):
        try:
            return self._concrete(dict(config))
        except Exception as e:
            tb = e.__traceback__
            while tb is not None:
                if tb.tb_frame.f_code.co_filename.startswith(loader.REPO + '/'):
                    return [('raises', self.name, repr(e))]
                tb = tb.tb_next
            if isinstance(e, (AttributeError, TypeError, IndexError, KeyError, ValueError)):
                # the comparison could not handle what the code returned
                return [('post', self.name, 'unexpected result: %r' % e)]
            raise
