"""Symbolic interpreter for loops and scalars.

Works on the Python AST of the current source of /repo.  Integers are z3 terms,
arrays and lists have symbolic length (an element term in a bound position, plus
point updates), branches on symbolic conditions are explored on both sides, and a
loop over a sequence of symbolic length is executed once for an arbitrary element:
what the body does to objects created outside the loop is collected as effects
(append, add-to-element, write-to-element, add-to-scalar) indexed by the loop
variable.  A body that reads what it changes is out of reach (Unsupported), never
approximated.
"""
import ast
import builtins
import itertools
import types
import numpy
from fractions import Fraction
from .symnp import Unsupported, _z3, Z3STAT
from .poly import frac
from . import loader

import time as _time

z3 = _z3()


class PyExc(Exception):
    """An exception raised by the interpreted program."""
    def __init__(self, cls, msg=''):
        Exception.__init__(self, '%s: %s' % (getattr(cls, '__name__', cls), msg))
        self.cls, self.msg = cls, msg
        self.symbolic = False   # raised in some iteration of a symbolic loop


class Dead(Exception):
    """Infeasible path."""


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Continue(Exception):
    pass


class _Break(Exception):
    pass


class Poison(object):
    """Value of a variable after a symbolic loop assigned it."""
    def __init__(self, name):
        self.name = name


def isz(x):
    return isinstance(x, z3.ExprRef)


def isint(x):
    return (isinstance(x, int) and not isinstance(x, bool)) or (isz(x) and z3.is_int(x))


def isnum(x):
    return isinstance(x, (int, float, Fraction, Num)) or (isz(x) and z3.is_arith(x))


def rv(x):
    """z3 real term of a number."""
    if isinstance(x, Num):
        return x.z()
    if isz(x):
        return z3.ToReal(x) if z3.is_int(x) else x
    f = frac(x)
    return z3.RealVal(str(f))


def iv(x):
    if isz(x):
        return x
    return z3.IntVal(int(x))


class Num(object):
    """Sum of (rational, sign exponent, real factors)."""
    def __init__(self, terms):
        self.terms = terms

    @staticmethod
    def sign(e):
        return Num([(Fraction(1), e, ())])

    @staticmethod
    def of(x):
        if isinstance(x, Num):
            return x
        if isz(x):
            if z3.is_int(x) and not z3.is_int_value(x):
                return Num([(Fraction(1), 0, (z3.ToReal(x),))])
            if z3.is_int_value(x):
                return Num([(Fraction(x.as_long()), 0, ())])
            if z3.is_rational_value(x):
                return Num([(Fraction(x.numerator_as_long(), x.denominator_as_long()), 0, ())])
            return Num([(Fraction(1), 0, (x,))])
        return Num([(frac(x), 0, ())])

    def __add__(self, o):
        return Num(self.terms + Num.of(o).terms)

    def scale(self, c):
        return Num([(t[0]*c, t[1], t[2]) for t in self.terms])

    def __mul__(self, o):
        o = Num.of(o)
        out = []
        for c1, e1, f1 in self.terms:
            for c2, e2, f2 in o.terms:
                e = e2 if isinstance(e1, int) and e1 == 0 else (e1 if isinstance(e2, int) and e2 == 0 else e1 + e2)
                out.append((c1*c2, e, f1 + f2))
        return Num(out)

    def z(self):
        out = z3.RealVal(0)
        for c, e, fs in self.terms:
            t = z3.RealVal(str(c))
            for k, f in enumerate(fs):
                t = f if (k == 0 and c == 1) else t*f
            if isinstance(e, int):
                t = t if e % 2 == 0 else -t
            else:
                t = z3.If(e % 2 == 0, t, -t)
            out = t if z3.is_rational_value(out) and out.as_fraction() == 0 else out + t
        return out


class Binder(object):
    __slots__ = ('v', 'lo', 'hi', 'tag')

    def __init__(self, v, lo, hi, tag=None):
        self.v, self.lo, self.hi, self.tag = v, lo, hi, tag

    def guard(self):
        return z3.And(iv(self.lo) <= self.v, self.v < iv(self.hi))


class Seg(object):
    """payload for every value of the binders satisfying guard, in order."""
    __slots__ = ('binders', 'guard', 'payload')

    def __init__(self, binders, guard, payload):
        self.binders, self.guard, self.payload = binders, guard, payload


class Effect(object):
    __slots__ = ('obj', 'kind', 'data', 'binders', 'guard')

    def __init__(self, obj, kind, data, binders=(), guard=None):
        self.obj, self.kind, self.data = obj, kind, data
        self.binders, self.guard = list(binders), guard if guard is not None else z3.BoolVal(True)


class Arr(object):
    """One-dimensional array or list of numbers of symbolic length."""
    # elem: element type of an ndarray, 'F' float, 'I' integer, 'B' bool, '?' float or
    # integer (an input), None as its values
    elem = None

    def __init__(self, ctx, kind, n, k0, expr, updates=(), depth=None, elem=None):
        self.elem = elem
        self.ctx, self.kind, self.n, self.k0, self.expr = ctx, kind, n, k0, expr
        self.updates = list(updates)
        self.depth = ctx.depth if depth is None else depth
        self.effects = []
        self.parent = None
        self.ghost = None

    def base(self, k):
        e = self.expr
        if isinstance(e, Num):
            return subst(e, [(self.k0, iv(k))])
        if isz(e):
            return z3.substitute(e, (self.k0, iv(k)))
        return e

    def at(self, k):
        if self.effects:
            raise Unsupported('element of an array changed in a symbolic loop')
        v = self.base(k)
        for p, w in self.updates:
            c = same(p, k)
            if c is True:
                v = w
            elif c is False:
                pass
            else:
                v = ite(iv(k) == iv(p), w, v)
        return v

    def clone(self, kind=None, depth=None):
        if self.effects:
            raise Unsupported('copy of an array changed in a symbolic loop')
        return Arr(self.ctx, kind or self.kind, self.n, self.k0, self.expr, list(self.updates), depth, self.elem)


class Slice1(object):
    """View a[lo:hi]."""
    def __init__(self, arr, lo, hi):
        self.arr, self.lo, self.hi = arr, lo, hi


class PyList(object):
    """List of known length (possibly of symbolic values)."""
    def __init__(self, ctx, vals):
        self.ctx, self.vals, self.depth = ctx, list(vals), ctx.depth
        self.tail = []          # segments appended by symbolic loops


class SymRange(object):
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi


class SymList(object):
    """List built by a comprehension with a filter, or a contract's list."""
    def __init__(self, ctx, segs):
        self.ctx, self.segs, self.depth = ctx, list(segs), ctx.depth
        self.key = None


class Tensor(object):
    """Input array of rank > 1: uninterpreted function of its indices."""
    def __init__(self, name, dims, fn, pattern=None, bits=False):
        self.name, self.dims, self.fn = name, list(dims), fn
        self.pattern = pattern if pattern is not None else [('ax', k) for k in range(len(dims))]
        self.depth = 0

    def rank(self):
        return sum(1 for p in self.pattern if p[0] == 'ax')

    def shape(self):
        return tuple(self.dims[p[1]] for p in sorted((p for p in self.pattern if p[0] == 'ax'), key=lambda p: p[1]))

    def entry(self, idx):
        out = []
        for p in self.pattern:
            if p[0] == 'fix':
                out.append(iv(p[1]))
            else:
                out.append(iv(idx[p[1]]))
        return self.fn(*out)


class Obj(object):
    def __init__(self, ctx, cls, attrs):
        self.ctx, self.cls, self.attrs, self.depth = ctx, cls, attrs, ctx.depth
        self.ghost = None
        self.given = False      # an argument of the function under contract


class Ext(object):
    """Value a contract supplies its own meaning for."""
    depth = 0

    def attr(self, it, name):
        raise Unsupported('attribute %s of %s' % (name, type(self).__name__))

    def item(self, it, idx):
        raise Unsupported('subscript of %s' % type(self).__name__)

    def set_item(self, it, idx, v):
        raise Unsupported('item assignment on %s' % type(self).__name__)

    def apply(self, it, effs):
        raise Unsupported('effect on %s' % type(self).__name__)

    def subst(self, pairs):
        return self


class ClassVal(object):
    def __init__(self, name, ns, bases):
        self.name, self.ns, self.bases = name, ns, bases

    def find(self, attr):
        if attr in self.ns:
            return self.ns[attr]
        for b in self.bases:
            if isinstance(b, ClassVal):
                r = b.find(attr)
                if r is not None:
                    return r
        return None


class Func(object):
    def __init__(self, name, node, env, mod, defaults, kwdefaults):
        self.name, self.node, self.env, self.mod = name, node, env, mod
        self.defaults, self.kwdefaults = defaults, kwdefaults


class Bound(object):
    def __init__(self, self_, f):
        self.self_, self.f = self_, f


class Native(object):
    def __init__(self, name, f):
        self.name, self.f = name, f


class LoopAcc(object):
    """A local scalar while a symbolic loop accumulates into it."""
    def __init__(self, name, base, depth):
        self.name, self.base, self.depth = name, base, depth
        self.effects = []


class Opaque(object):
    """A value nothing is known about (text)."""
    def __init__(self, what):
        self.what = what


def same(a, b):
    """True/False if decidable by simplification, else None."""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    r = z3.simplify(iv(a) == iv(b))
    if z3.is_true(r):
        return True
    if z3.is_false(r):
        return False
    return None


def ite(c, a, b):
    """Merge two numbers."""
    if not isz(c):
        return a if c else b
    if isinstance(a, (int, Fraction, float)) and isinstance(b, (int, Fraction, float)) and a == b:
        return a
    ca, cb = const(a), const(b)
    if ca is not None and cb is not None and ca == -cb and ca != 0:
        return Num([(ca, z3.If(c, z3.IntVal(0), z3.IntVal(1)), ())])
    if isint(a) and isint(b):
        return z3.If(c, iv(a), iv(b))
    if isinstance(a, Num) and isinstance(b, Num) and len(a.terms) == len(b.terms) == 1:
        (x, e, f), (y, g, h) = a.terms[0], b.terms[0]
        if abs(x) == abs(y) and len(f) == len(h) and all(u.eq(w) for u, w in zip(f, h)):
            return Num([(abs(x), z3.If(c, iv(e) + int(x < 0), iv(g) + int(y < 0)), f)])
    if isnum(a) and isnum(b):
        return z3.If(c, rv(a), rv(b))
    raise Unsupported('merge of %r and %r' % (type(a), type(b)))


def const(x):
    if isinstance(x, bool):
        return None
    if isinstance(x, (int, float, Fraction)):
        return frac(x)
    if isz(x):
        if z3.is_int_value(x):
            return Fraction(x.as_long())
        if z3.is_rational_value(x):
            return Fraction(x.numerator_as_long(), x.denominator_as_long())
    return None


def subst(v, pairs, memo=None):
    """Substitute integer terms in a value; structured values are rebuilt."""
    if memo is None:
        memo = {}
    if isz(v):
        return z3.substitute(v, *pairs)
    if isinstance(v, Num):
        return Num([(c, z3.substitute(e, *pairs) if isz(e) else e, tuple(z3.substitute(f, *pairs) for f in fs))
                    for c, e, fs in v.terms])
    if v is None or isinstance(v, (bool, int, float, Fraction, str)):
        return v
    if isinstance(v, tuple):
        return tuple(subst(x, pairs, memo) for x in v)
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, Ext):
        return v.subst(pairs)
    if isinstance(v, Arr):
        r = Arr(v.ctx, v.kind, subst(v.n, pairs), v.k0, subst(v.expr, pairs),
                [(subst(p, pairs), subst(w, pairs)) for p, w in v.updates], v.depth, v.elem)
        r.effects = v.effects
        memo[id(v)] = r
        return r
    if isinstance(v, Obj):
        r = Obj(v.ctx, v.cls, {})
        r.depth = v.depth
        memo[id(v)] = r
        r.attrs = {k: subst(x, pairs, memo) for k, x in v.attrs.items()}
        r.ghost = subst_ghost(v.ghost, pairs)
        return r
    if isinstance(v, PyList):
        if v.tail:
            raise Unsupported('nested symbolic lists')
        r = PyList(v.ctx, [subst(x, pairs, memo) for x in v.vals])
        r.depth = v.depth
        return r
    if isinstance(v, (Tensor, ClassVal, Func, Native, Bound, Opaque, SymRange)):
        return v
    raise Unsupported('substitution in %r' % type(v))


def subst_ghost(g, pairs):
    if isinstance(g, (list, tuple)):
        return type(g)(subst_ghost(x, pairs) for x in g)
    if isz(g):
        return z3.substitute(g, *pairs)
    if isinstance(g, dict):
        return {k: subst_ghost(x, pairs) for k, x in g.items()}
    return g


def params(t, own):
    """Generated integer names (loop positions) a term depends on, apart from own."""
    out, seen, todo = [], set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and z3.is_int(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            if '!' in x.decl().name() and not any(x.eq(o) for o in own):
                out.append(x)
        todo += x.children()
    return sorted(out, key=lambda x: (int(x.decl().name().rsplit('!', 1)[1]), x.decl().name()))


class Run(object):
    def __init__(self, prefix):
        self.prefix, self.pos, self.dec, self.conds, self.effects = prefix, 0, [], [], []


class Ctx(object):
    """Path conditions, solver, theory instances, effect bookkeeping."""
    MAXPATHS = 3000

    def __init__(self, repo=None, timeout=8000):
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout)
        self.runs = []
        self.frames = []
        self.depth = 0
        self.counter = 0
        self.psums = []         # (k0, expr, function)
        self.sums = []          # (definition, constant)
        self.bits = {}          # function name -> True: values 0 or 1
        self.syms = {}          # function name -> list of index permutations leaving it equal
        self.inst = {}          # instantiated terms by scope
        self.scopes = [set()]
        self.reads = []
        self.obligations = []   # side conditions met on the way: (label, ok)
        self.queries = 0
        self.paths = 0
        self.base_facts = []    # facts about the names of the unit, valid on every path
        self.intervals = []     # (lo, hi), 0 <= lo <= hi: candidates for closed forms
        self.points = []        # positions of interest declared by the unit
        self.lens = []          # lengths taken of lists: (term, list, signature)
        self.places = []        # (list, signature, position, element)
        self.hooks = {}         # function decl name -> f(ctx, app) giving extra facts
        self.pathlog = []

    # -- names
    def fresh(self, stem, sort='Int'):
        self.counter += 1
        nm = '%s!%d' % (stem, self.counter)
        return z3.Int(nm) if sort == 'Int' else (z3.Real(nm) if sort == 'Real' else z3.Bool(nm))

    # -- solver
    def push(self):
        self.solver.push()
        self.scopes.append(set())

    def pop(self):
        self.solver.pop()
        self.scopes.pop()

    def add(self, f):
        self.instantiate(f)
        self.solver.add(f)

    def instantiate(self, *terms):
        """Add the defining facts of every known function application in terms."""
        seen = set()
        todo = [(t, 0) for t in terms]
        while todo:
            t, lvl = todo.pop()
            if not isz(t):
                continue
            i = t.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_quantifier(t):
                continue
            for c in t.children():
                todo.append((c, lvl))
            if not z3.is_app(t) or t.num_args() == 0:
                continue
            nm = t.decl().name()
            if nm not in self.bits and nm not in self.syms and nm not in self.hooks:
                continue
            if any(i in s for s in self.scopes):
                continue
            self.scopes[-1].add(i)
            self.keep.append(t)
            if nm in self.bits:
                self.solver.add(z3.Or(t == 0, t == 1))
            for perm in self.syms.get(nm, ()):
                a = [t.arg(k) for k in perm]
                u = t.decl()(*a)
                self.keep.append(u)
                self.solver.add(t == u)
            if nm in self.hooks and lvl < 2:
                for f in self.hooks[nm](self, t):
                    self.solver.add(f)
                    todo.append((f, lvl + 1))

    keep = []

    def check(self, *fs):
        t = _time.time()
        if self.deadline and t > self.deadline:
            raise Unsupported('time limit')
        self.push()
        try:
            for f in fs:
                self.add(f)
            r = self.solver.check()
        finally:
            self.pop()
            Z3STAT['time'] += _time.time() - t
            Z3STAT['queries'] += 1
        return r

    def model(self, *fs):
        self.push()
        try:
            for f in fs:
                self.add(f)
            if self.solver.check() == z3.sat:
                return self.solver.model()
        finally:
            self.pop()
        return None

    def proves(self, f):
        if isinstance(f, bool):
            return f
        s = z3.simplify(f)
        if z3.is_true(s):
            return True
        return self.check(z3.Not(f)) == z3.unsat

    def feasible(self, f):
        if isinstance(f, bool):
            return f
        s = z3.simplify(f)
        if z3.is_false(s):
            return False
        return self.check(f) != z3.unsat

    # -- branching
    def branch(self, c):
        if isinstance(c, bool):
            return c
        if not isz(c):
            raise Unsupported('condition %r' % (c,))
        s = z3.simplify(c)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        if not self.runs:
            raise Unsupported('branch outside exploration')
        run = self.runs[-1]
        if run.pos < len(run.prefix):
            choice, other = run.prefix[run.pos]
        else:
            ft = self.feasible(c)
            ff = self.feasible(z3.Not(c))
            if not ft and not ff:
                raise Dead()
            choice, other = (True, ff) if ft else (False, False)
            if ft != ff:
                # decided by what is known already: no fork, no new condition
                run.pos += 1
                run.prefix.append((choice, False))
                run.dec.append((choice, False))
                return choice
        run.pos += 1
        run.dec.append((choice, other))
        f = c if choice else z3.Not(c)
        if other or choice is False:
            run.conds.append(f)
            self.add(f)
        return choice

    deadline = None

    def explore(self, fn):
        """All feasible executions of fn: list of (result, conditions, effects)."""
        prefix, out = [], []
        while True:
            run = Run(list(prefix))
            self.runs.append(run)
            self.push()
            dead = False
            try:
                res = fn()
            except Dead:
                dead, res = True, None
            finally:
                self.pop()
                self.runs.pop()
            if not dead:
                out.append((res, run.conds, run.effects))
            self.paths += 1
            if len(out) > self.MAXPATHS:
                raise Unsupported('too many paths')
            dec = run.dec
            while dec and not (dec[-1][1] and dec[-1][0]):
                dec.pop()
            if not dec:
                return out
            prefix = dec[:-1] + [(False, True)]

    # -- sums and ranks
    def canonical(self, table, k0, expr, facts, ps):
        """Entry of table whose term equals expr at every position, with the free
        names ps in place of its own."""
        for ent in table:
            if len(ent[3]) != len(ps):
                continue
            e2 = z3.substitute(ent[1], *([(ent[0], k0)] + list(zip(ent[3], ps))))
            if e2.eq(expr):
                return ent
            if e2.sort() != expr.sort():
                continue
            if self.valid_generic(e2, expr, facts):
                return ent
        return None

    def valid_generic(self, a, b, facts=()):
        """a == b for arbitrary values of the free names, from facts alone."""
        s = z3.Solver()
        s.set('timeout', 4000)
        old, oldsc = self.solver, self.scopes
        self.solver, self.scopes = s, [set()]
        try:
            for f in facts:
                self.add(f)
            g = z3.Not(a == b) if (isz(a) or isz(b)) else z3.BoolVal(a != b)
            self.add(g)
            r = s.check() == z3.unsat
        finally:
            self.solver, self.scopes = old, oldsc
        Z3STAT['queries'] += 1
        return r

    def psum(self, k0, expr, t, n=None):
        """Sum of expr over positions below t <= n (integer valued).  Terms that agree
        at every position share one function; indicators of an interval are closed."""
        if not isz(expr):
            return expr*iv(t) if expr != 0 else z3.IntVal(0)
        expr = z3.simplify(expr)
        if z3.is_int_value(expr):
            return expr*iv(t)
        facts = self.base_facts + [k0 >= 0] + ([k0 < iv(n)] if n is not None else [])
        if self.valid_generic(expr, z3.IntVal(0), facts):
            return z3.IntVal(0)
        for lo, hi in self.intervals:
            if self.valid_generic(expr, z3.If(z3.And(lo <= k0, k0 < hi), z3.IntVal(1), z3.IntVal(0)), facts):
                t = iv(t)
                return z3.If(t <= lo, z3.IntVal(0), z3.If(t <= hi, t - lo, hi - lo))
        ps = params(expr, [k0])
        ent = self.canonical(self.psums, k0, expr, facts, ps)
        if ent is None:
            self.counter += 1
            nm = 'PSUM!%d' % self.counter
            fn = z3.Function(nm, *([z3.IntSort()]*(len(ps) + 2)))
            pos = self.valid_generic(expr >= 0, z3.BoolVal(True), facts)
            ent = (k0, expr, fn, ps, n if n is not None and not params(iv(n), []) else None, pos)
            self.psums.append(ent)

            def facts(ctx, app, ent=ent):
                m = app.num_args() - 1
                args = [app.arg(j) for j in range(m)]
                u = app.arg(m)
                v = z3.simplify(u - 1)
                b = z3.substitute(ent[1], *([(ent[0], v)] + list(zip(ent[3], args))))
                out = [ent[2](*(args + [z3.IntVal(0)])) == 0, z3.Implies(u >= 1, app == ent[2](*(args + [v])) + b)]
                if ent[4] is not None and ent[5]:
                    # terms are not negative: partial sums grow up to the whole
                    end = iv(ent[4])
                    whole = ent[2](*(args + [end]))
                    bu = z3.substitute(ent[1], *([(ent[0], u)] + list(zip(ent[3], args))))
                    out += [z3.Implies(z3.And(u >= 0, u <= end), z3.And(app >= 0, app <= whole)),
                            z3.Implies(z3.And(u >= 0, u < end), app + bu <= whole)]
                return out
            self.hooks[nm] = facts
        return ent[2](*(ps + [iv(t)]))

    def sum_range(self, arr, lo, hi):
        """Sum of the entries lo..hi-1 of an array."""
        if arr.effects:
            raise Unsupported('sum of an array changed in a symbolic loop')
        if isinstance(lo, int) and isinstance(hi, int) and hi - lo <= 64:
            tot = 0
            for k in range(lo, hi):
                tot = self.arith('+', tot, arr.at(k))
            return tot
        if isinstance(arr.expr, Num) or (isz(arr.expr) and not z3.is_int(arr.expr)):
            raise Unsupported('sum of reals over a symbolic range')
        lo, hi = iv(lo), iv(hi)
        tot = self.psum(arr.k0, arr.expr, hi, arr.n) - self.psum(arr.k0, arr.expr, lo, arr.n)
        done = []
        for p, w in arr.updates:
            v = arr.base(p)
            for q, x in done:
                v = ite(iv(q) == iv(p), x, v)
            inside = z3.And(lo <= iv(p), iv(p) < hi)
            if isinstance(v, Num) or isinstance(w, Num):
                raise Unsupported('signed values in an occupation array')
            tot = tot + z3.If(inside, iv(w) - iv(v), z3.IntVal(0))
            done.append((p, w))
        return z3.If(lo < hi, tot, z3.IntVal(0))

    def rank(self, k0, pred, k, n):
        """Number of positions below k with pred (position in the filtered list)."""
        c = z3.If(pred, z3.IntVal(1), z3.IntVal(0))
        return self.psum(k0, c, k, n)

    # -- arithmetic
    def arith(self, op, a, b):
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if isz(a) and z3.is_bool(a):
            a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
        if isz(b) and z3.is_bool(b):
            b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
        if not isnum(a) or not isnum(b):
            raise Unsupported('arithmetic %s on %s, %s' % (op, type(a).__name__, type(b).__name__))
        ca, cb = const(a), const(b)
        pyint = isinstance(a, int) and isinstance(b, int)
        if op == '+':
            if pyint:
                return a + b
            if ca == 0 and isint(a):
                return b
            if cb == 0 and isint(b):
                return a
            if isinstance(a, Num) or isinstance(b, Num):
                if ca == 0:
                    return b
                if cb == 0:
                    return a
                return Num.of(a) + Num.of(b)
            if isint(a) and isint(b):
                return z3.simplify(iv(a) + iv(b))
            if ca is not None and cb is not None:
                return ca + cb
            return rv(a) + rv(b)
        if op == '-':
            return self.arith('+', a, self.neg(b))
        if op == '*':
            if pyint:
                return a*b
            if ca is not None and cb is not None:
                return ca*cb
            if isinstance(a, Num) or isinstance(b, Num):
                return self.signed(a)*self.signed(b)
            if isint(a) and isint(b):
                if ca is not None or cb is not None:
                    return z3.simplify(iv(a)*iv(b))
                sa, sb = self.signed(a), self.signed(b)
                if any(t[2] for t in sa.terms + sb.terms):
                    if self.is01(a):
                        return z3.If(a == 1, b, z3.IntVal(0))
                    if self.is01(b):
                        return z3.If(b == 1, a, z3.IntVal(0))
                    raise Unsupported('product of integers')
                return sa*sb
            if isint(a) and ca is None:
                return self.signed(a)*Num.of(b)
            if isint(b) and cb is None:
                return self.signed(b)*Num.of(a)
            return rv(a)*rv(b)
        if op == '/':
            if cb is not None:
                if cb == 0:
                    raise PyExc(ZeroDivisionError)
                if ca is not None:
                    return ca/cb
                if isinstance(a, Num):
                    return a.scale(1/cb)
                return rv(a)/rv(b)
            if isinstance(a, Num):
                return a*(z3.RealVal(1)/rv(b))
            return rv(a)/rv(b)
        if op in ('//', '%'):
            if pyint:
                return a//b if op == '//' else a % b
            if isint(a) and isinstance(b, int) and b > 0:
                return z3.simplify(iv(a)/b) if op == '//' else z3.simplify(iv(a) % b)
            raise Unsupported(op)
        if op == '**':
            if pyint and b >= 0:
                return a**b
            if ca == -1 and isint(b):
                return Num.sign(iv(b))
            if isinstance(b, int) and 0 <= b <= 8:
                r = 1
                for _ in range(b):
                    r = self.arith('*', r, a)
                return r
            raise Unsupported('power')
        raise Unsupported(op)

    def is01(self, a):
        return isz(a) and self.proves(z3.Or(a == 0, a == 1))

    def signed(self, a):
        """Num of a number; integer terms known to be +1 or -1 become signs."""
        if isinstance(a, Num) or const(a) is not None:
            return Num.of(a)
        if isz(a) and z3.is_int(a) and self.proves(z3.Or(a == 1, a == -1)):
            return Num.sign(z3.If(a == 1, z3.IntVal(0), z3.IntVal(1)))
        return Num.of(a)

    def neg(self, a):
        if isinstance(a, Num):
            return a.scale(-1)
        if isz(a):
            return z3.simplify(-a) if z3.is_int(a) else -a
        return -a

    def compare(self, op, a, b):
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        ca, cb = const(a), const(b)
        if ca is not None and cb is not None:
            return {'<': ca < cb, '<=': ca <= cb, '>': ca > cb, '>=': ca >= cb, '==': ca == cb, '!=': ca != cb}[op]
        if not isnum(a) or not isnum(b):
            raise Unsupported('comparison of %s and %s' % (type(a).__name__, type(b).__name__))
        if isint(a) and isint(b):
            x, y = iv(a), iv(b)
        else:
            x, y = rv(a), rv(b)
        f = {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y, '==': x == y, '!=': x != y}[op]
        s = z3.simplify(f)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        return f

    # -- effects
    def effect(self, obj, kind, data):
        self.runs[-1].effects.append(Effect(obj, kind, data))

    def read(self, obj):
        if self.frames:
            for f in self.frames:
                f.add(id(obj))
            self.reads.append(obj)

    def oblige(self, label, ok):
        self.obligations.append((label, ok))


def arr_of(ctx, kind, vals):
    """Array of known length from a Python list of numbers."""
    k0 = ctx.fresh('k')
    e = None
    for j in reversed(range(len(vals))):
        e = vals[j] if e is None else ite(k0 == j, vals[j], e)
    return Arr(ctx, kind, len(vals), k0, 0 if e is None else e)


# ---------------------------------------------------------------- interpreter

BINOP = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**'}
CMP = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!='}


def stored(nodes):
    """Names a block of statements may bind."""
    out = set()

    def tgt(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                tgt(x)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            return
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp, ast.Lambda)):
            return
        if isinstance(n, ast.Assign):
            for t in n.targets:
                tgt(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            tgt(n.target)
        elif isinstance(n, ast.For):
            tgt(n.target)
        elif isinstance(n, ast.NamedExpr):
            tgt(n.target)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
        for c in ast.iter_child_nodes(n):
            walk(c)
    for n in nodes:
        walk(n)
    return out


class Module(object):
    def __init__(self, name, path):
        self.name, self.path = name, path
        with open(path) as f:
            self.src = f.read()
        self.tree = ast.parse(self.src, path)
        self.env = {}


class Interp(object):
    """One unit's execution environment."""
    def __init__(self, ctx, stubs=None):
        self.ctx = ctx
        self.stubs = stubs or {}
        self.mods = {}
        self.calls = {}
        self.nesting = 0
        self.initial = {}       # state of each module when loaded
        self.world = {}         # dotted names outside the package a contract gives meaning to

    # -- modules
    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        import os
        path = os.path.join(loader.REPO, *name.split('.')) + '.py'
        if not os.path.exists(path):
            raise Unsupported('module ' + name)
        m = Module(name, path)
        self.mods[name] = m
        self.block(m.tree.body, m.env, m)
        self.initial[name] = self.state(m)
        return m

    def state(self, m):
        """What calls can leave behind in a module."""
        seen = set()

        def see(x):
            if isinstance(x, (int, str, bool, float)):
                return x
            if id(x) in seen:
                return id(x)
            seen.add(id(x))
            if isinstance(x, dict):
                return (id(x),) + tuple((str(k), see(v)) for k, v in x.items())
            if isinstance(x, (list, tuple)):
                return (id(x),) + tuple(see(v) for v in x)
            if isinstance(x, PyList):
                return (id(x), len(x.tail)) + tuple(see(v) for v in x.vals)
            if isinstance(x, Arr):
                return (id(x), len(x.updates), len(x.effects), id(x.expr))
            if isinstance(x, Obj):
                return (id(x), see(x.attrs))
            if isinstance(x, Func):
                return (id(x), see(x.defaults), see(x.kwdefaults))
            if isinstance(x, ClassVal):
                return (id(x), see(vars(x)))
            return id(x)
        return {k: see(v) for k, v in m.env.items()}

    def untouched(self):
        return all(self.state(self.mods[k]) == s for k, s in self.initial.items())

    def get(self, module, func):
        m = self.load(module)
        cur = None
        for k, part in enumerate(func.split('.')):
            cur = m.env.get(part) if k == 0 else cur.find(part)
            if cur is None:
                raise Unsupported('%s.%s not found' % (module, func))
        return cur

    # -- statements
    def block(self, body, env, mod):
        for s in body:
            self.stmt(s, env, mod)

    def stmt(self, s, env, mod):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement ' + type(s).__name__)
        m(s, env, mod)

    def s_Expr(self, s, env, mod):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, env, mod)

    def s_Pass(self, s, env, mod):
        pass

    def s_Global(self, s, env, mod):
        raise Unsupported('global statement')

    def s_Import(self, s, env, mod):
        for a in s.names:
            env[(a.asname or a.name.split('.')[0])] = self.module_value(a.name if a.asname else a.name.split('.')[0])

    def s_ImportFrom(self, s, env, mod):
        base = s.module or ''
        if s.level:
            parts = mod.name.split('.')
            parts = parts[:len(parts) - s.level]
            base = '.'.join(parts + ([base] if base else []))
        for a in s.names:
            env[a.asname or a.name] = self.import_name(base, a.name)

    def module_value(self, name):
        if name == 'numpy':
            return Native('numpy', None)
        if name in ('math', 'itertools', 'functools', 'operator', 'copy'):
            return Native(name, None)
        if name.startswith('cqcpy.'):
            return self.load(name)
        return Native(name, None)

    def import_name(self, base, name):
        if base == 'cqcpy':
            return self.load('cqcpy.' + name)
        if base.startswith('cqcpy.'):
            return self.load(base).env[name]
        if base in ('numpy', 'math', 'itertools', 'functools', 'copy'):
            return self.native_attr(base, name)
        if base == '__future__':
            return None
        return self.native_attr(base, name)

    def s_FunctionDef(self, s, env, mod):
        if s.decorator_list:
            names = [d.id for d in s.decorator_list if isinstance(d, ast.Name)]
            if len(names) != len(s.decorator_list) or any(x not in ('staticmethod', 'property') for x in names):
                raise Unsupported('decorator')
        a = s.args
        f = Func(s.name, s, env, mod, [self.ev(d, env, mod) for d in a.defaults],
                 [None if d is None else self.ev(d, env, mod) for d in a.kw_defaults])
        f.static = any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in s.decorator_list)
        f.prop = any(isinstance(d, ast.Name) and d.id == 'property' for d in s.decorator_list)
        f.qual = s.name
        env[s.name] = f

    def s_ClassDef(self, s, env, mod):
        bases = [self.ev(b, env, mod) for b in s.bases]
        ns = ClassEnv(env)
        self.block(s.body, ns, mod)
        own = dict(ns)
        for k, v in own.items():
            if isinstance(v, Func):
                v.qual = s.name + '.' + k
                v.env = env
        env[s.name] = ClassVal(s.name, own, bases)

    def s_Return(self, s, env, mod):
        if getattr(self, 'loop_level', 0):
            raise Unsupported('return inside a symbolic loop')
        raise _Return(None if s.value is None else self.ev(s.value, env, mod))

    def s_Continue(self, s, env, mod):
        raise _Continue()

    def s_Break(self, s, env, mod):
        raise _Break()

    def s_Assert(self, s, env, mod):
        if not self.truth(self.ev(s.test, env, mod)):
            raise PyExc(AssertionError)

    def s_Raise(self, s, env, mod):
        if s.exc is None:
            raise Unsupported('bare raise')
        e = s.exc
        if isinstance(e, ast.Call):
            e = e.func
        v = self.ev(e, env, mod)
        if isinstance(v, type) and issubclass(v, BaseException):
            raise PyExc(v)
        raise PyExc(Exception)

    def s_Try(self, s, env, mod):
        try:
            try:
                self.block(s.body, env, mod)
            except PyExc as e:
                if e.symbolic:
                    raise Unsupported('exception leaving a symbolic loop inside try')
                for h in s.handlers:
                    if h.type is None:
                        kinds = (Exception,)
                    else:
                        k = self.ev(h.type, env, mod)
                        kinds = k if isinstance(k, tuple) else (k,)
                    if any(isinstance(k, type) and issubclass(e.cls, k) for k in kinds):
                        if h.name:
                            env[h.name] = Opaque('exception')
                        self.block(h.body, env, mod)
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env, mod)
        finally:
            if s.finalbody:
                self.block(s.finalbody, env, mod)

    def s_If(self, s, env, mod):
        if self.truth(self.ev(s.test, env, mod)):
            self.block(s.body, env, mod)
        else:
            self.block(s.orelse, env, mod)

    def s_While(self, s, env, mod):
        n = 0
        while True:
            c = self.ev(s.test, env, mod)
            if isz(c):
                r = self.counted(s, env, mod)
                if r is None:
                    raise Unsupported('while with a symbolic condition')
                name, lo, hi, body = r
                self.for_over(body, self.b_range(hi) if same(lo, 0) is True else SymRange(lo, hi), env, mod)
                env[name] = z3.simplify(z3.If(iv(lo) < iv(hi), iv(hi), iv(lo)))
                return
            if not self.truth(c):
                break
            try:
                self.block(s.body, env, mod)
            except _Continue:
                pass
            except _Break:
                return
            n += 1
            if n > 5000:
                raise Unsupported('long while loop')
        self.block(s.orelse, env, mod)

    def counted(self, s, env, mod):
        """A while loop that counts a variable up to a bound it does not change, as
        (variable, first, end, for loop)."""
        t = s.test
        if s.orelse or not isinstance(t, ast.Compare) or len(t.ops) != 1:
            return None
        left, op, right = t.left, type(t.ops[0]), t.comparators[0]
        if op in (ast.Gt, ast.GtE):
            left, op, right = right, {ast.Gt: ast.Lt, ast.GtE: ast.LtE}[op], left
        if op not in (ast.Lt, ast.LtE) or not isinstance(left, ast.Name):
            return None
        name, last, body = left.id, s.body[-1], s.body[:-1]
        one = None
        if isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name) \
                and last.target.id == name:
            one = last.value
        elif isinstance(last, ast.Assign) and len(last.targets) == 1 and isinstance(last.targets[0], ast.Name) \
                and last.targets[0].id == name and isinstance(last.value, ast.BinOp) and isinstance(last.value.op, ast.Add) \
                and isinstance(last.value.left, ast.Name) and last.value.left.id == name:
            one = last.value.right
        if not (isinstance(one, ast.Constant) and one.value == 1 and not isinstance(one.value, bool)):
            return None
        changed = stored(body)
        if name in changed or any(isinstance(x, (ast.Continue, ast.Break, ast.Return)) for b in body for x in ast.walk(b)):
            return None
        for x in ast.walk(right):
            if isinstance(x, ast.Name) and x.id in changed | {name}:
                return None
            if isinstance(x, ast.Name) and not isint(env.get(x.id)) and not (isinstance(right, ast.Call) and len(right.args) == 1
                                                                             and x in (right.func, right.args[0])):
                return None         # only integers: nothing the body could mutate
            if x is right and isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'len' and not x.keywords \
                    and len(x.args) == 1 and isinstance(x.args[0], ast.Name) and 'len' not in env:
                # evaluated in the body as well, so that a change of the list is noticed
                body = [ast.Expr(x)] + body
                continue
            if not isinstance(x, (ast.Name, ast.Constant, ast.BinOp, ast.operator, ast.expr_context, ast.UnaryOp, ast.unaryop)):
                return None
        lo, hi = env.get(name), self.ev(right, env, mod)
        if not isint(lo) or not isint(hi):
            return None
        if op is ast.LtE:
            hi = self.ctx.arith('+', hi, 1)
        loop = ast.For(target=ast.Name(id=name, ctx=ast.Store()), iter=ast.Constant(None), body=body or [ast.Pass()], orelse=[])
        return name, lo, hi, loop

    def s_Assign(self, s, env, mod):
        v = self.ev(s.value, env, mod)
        for t in s.targets:
            self.assign(t, v, env, mod)

    def s_AnnAssign(self, s, env, mod):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env, mod), env, mod)

    def s_Delete(self, s, env, mod):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.pop(t.id, None)
            else:
                raise Unsupported('del of an element')

    def s_AugAssign(self, s, env, mod):
        op = BINOP.get(type(s.op))
        if op is None:
            raise Unsupported('augmented ' + type(s.op).__name__)
        ctx = self.ctx
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup_raw(t.id, env, mod)
            v = self.ev(s.value, env, mod)
            if isinstance(cur, LoopAcc):
                if op in ('+', '-'):
                    ctx.effect(cur, 'acc', v if op == '+' else ctx.neg(v))
                    return
                if op == '*' and const(v) == -1:
                    ctx.effect(cur, 'flip', 1)
                    return
                raise Unsupported('loop-carried %s=' % op)
            if isinstance(cur, Poison):
                raise Unsupported('loop-carried variable ' + t.id)
            if isinstance(cur, (PyList, SymList)) and op == '+':
                self.extend(cur, v)
                return
            env[t.id] = self.binop(op, cur, v)
            return
        if isinstance(t, ast.Subscript):
            obj = self.ev(t.value, env, mod)
            idx = self.index_value(t.slice, env, mod)
            v = self.ev(s.value, env, mod)
            if isinstance(obj, Arr):
                k = self.norm_index(obj, idx)
                if obj.kind == 'ndarray' and self.elem_now(obj) in ('I', 'B', '?') and not isint(v):
                    if obj.depth < ctx.depth or obj.effects:
                        raise Unsupported('real number added to an element of an integer array')
                    obj.updates.append((k, self.stored(obj, ctx.arith(op, obj.at(k), v))))
                    return
                if obj.depth < ctx.depth:
                    if op not in ('+', '-'):
                        raise Unsupported('loop effect %s=' % op)
                    ctx.effect(obj, 'add', (k, v if op == '+' else ctx.neg(v)))
                else:
                    if obj.effects:
                        if op not in ('+', '-'):
                            raise Unsupported('update after a symbolic loop')
                        obj.effects.append(Effect(obj, 'add', (k, v if op == '+' else ctx.neg(v))))
                    else:
                        obj.updates.append((k, ctx.arith(op, obj.at(k), v)))
                return
            if isinstance(obj, PyList) and isinstance(idx, int):
                self.set_item(obj, idx, self.binop(op, self.item(obj, idx), v))
                return
            raise Unsupported('augmented assignment to an element of %s' % type(obj).__name__)
        if isinstance(t, ast.Attribute):
            obj = self.ev(t.value, env, mod)
            self.set_attr(obj, t.attr, self.binop(op, self.attr(obj, t.attr), self.ev(s.value, env, mod)))
            return
        raise Unsupported('augmented target')

    def assign(self, t, v, env, mod):
        if isinstance(t, ast.Name):
            cur = env.get(t.id) if not isinstance(env, ClassEnv) else None
            if isinstance(cur, LoopAcc):
                # plain assignment: the name is no accumulator in this iteration
                raise Unsupported('loop-carried variable ' + t.id)
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(t.elts))
            for x, w in zip(t.elts, vals):
                self.assign(x, w, env, mod)
        elif isinstance(t, ast.Attribute):
            self.set_attr(self.ev(t.value, env, mod), t.attr, v)
        elif isinstance(t, ast.Subscript):
            obj = self.ev(t.value, env, mod)
            self.set_item(obj, self.index_value(t.slice, env, mod), v)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, n):
        if isinstance(v, tuple):
            if len(v) != n:
                raise PyExc(ValueError, 'unpack')
            return list(v)
        if isinstance(v, PyList):
            if v.tail:
                r = self.settle_list(v)
                if r is not None:
                    return self.unpack(r, n)
                raise Unsupported('unpacking a symbolic list')
            if len(v.vals) != n:
                raise PyExc(ValueError, 'unpack')
            return list(v.vals)
        if isinstance(v, Arr) and isinstance(v.n, int):
            if v.n != n:
                raise PyExc(ValueError, 'unpack')
            return [v.at(k) for k in range(n)]
        if isinstance(v, SymList):
            r = self.settle_list(v)
            if r is not None:
                return self.unpack(r, n)
        if v is None:
            raise PyExc(TypeError, 'cannot unpack None')
        raise Unsupported('unpacking %s' % type(v).__name__)

    def set_attr(self, obj, name, v):
        if isinstance(obj, Obj):
            if obj.depth < self.ctx.depth:
                raise Unsupported('attribute of an outer object set in a symbolic loop')
            if obj.given:
                raise Unsupported('attribute of an argument set')
            obj.attrs[name] = v
            return
        raise Unsupported('attribute assignment on %s' % type(obj).__name__)

    def stored(self, obj, v):
        """The value an array holds after v is stored in it."""
        if obj.kind != 'ndarray' or obj.elem == 'F' or not isnum(v):
            return v
        return self.retyped(self.elem_now(obj), v)

    def retyped(self, elem, v):
        if isz(v) and z3.is_bool(v) or isinstance(v, bool):
            return self.arith_bool(v)
        if elem == 'B':
            return self.arith_bool(self.ctx.compare('!=', v, 0))
        if isint(v) or elem in (None, 'F'):
            return v
        c = const(v)
        if c is not None:
            t = int(c)
        else:
            r = rv(v)
            t = z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r))
        if elem == 'I':
            return t
        # float or integer: as the input
        return ite(z3.Bool('integer_input'), t, v)

    def elem_of(self, dtype, default=None):
        if dtype is None:
            return default
        nm = dtype if isinstance(dtype, str) else getattr(dtype, 'name', None) or getattr(dtype, 'what', None) \
            or getattr(dtype, '__name__', None)
        if not isinstance(nm, str):
            raise Unsupported('element type')
        if nm.startswith('dtype:'):
            return nm[6:] if nm[6:] != 'None' else None
        nm = nm.split('.')[-1].rstrip('_').lower()
        # shorter types do not hold every value
        if nm in ('int', 'int64', 'i8', 'l', 'intp'):
            return 'I'
        if nm in ('float', 'float64', 'd', 'f8', 'double'):
            return 'F'
        if nm.startswith('bool'):
            return 'B'
        raise Unsupported('element type ' + nm)

    def elem_now(self, a):
        """Element type of an array or slice."""
        if isinstance(a, Slice1):
            a = a.arr
        if a.elem is not None:
            return a.elem
        if a.effects:
            return None
        # the type is fixed once it has been looked at
        e = 'I' if all(isint(v) for v in [a.expr] + [w for _, w in a.updates]) else 'F'
        if a.kind == 'ndarray':
            a.elem = e
        return e

    def retype(self, a, dtype):
        """A new array of the given element type."""
        e = self.elem_of(dtype)
        if e is None or e == 'F' or e == a.elem:
            a.elem = e or a.elem
            return a
        if a.effects:
            raise Unsupported('conversion of an array changed in a symbolic loop')
        a.expr = self.retyped(e, a.expr)
        a.updates = [(p, self.retyped(e, w)) for p, w in a.updates]
        a.elem = e
        return a

    def set_item(self, obj, idx, v):
        ctx = self.ctx
        if isinstance(obj, Arr):
            k = self.norm_index(obj, idx)
            v = self.stored(obj, v)
            if obj.depth < ctx.depth:
                ctx.effect(obj, 'set', (k, v))
            elif obj.effects:
                obj.effects.append(Effect(obj, 'set', (k, v)))
            else:
                obj.updates.append((k, v))
            return
        if isinstance(obj, PyList):
            if obj.depth < ctx.depth or obj.tail:
                raise Unsupported('element of an outer list set in a symbolic loop')
            if not isinstance(idx, int):
                raise Unsupported('symbolic position in a list of known length')
            if not -len(obj.vals) <= idx < len(obj.vals):
                raise PyExc(IndexError)
            obj.vals[idx] = v
            return
        if isinstance(obj, Ext):
            obj.set_item(self, idx, v)
            return
        raise Unsupported('item assignment on %s' % type(obj).__name__)

    def norm_index(self, arr, idx):
        """Position meant by an index, which must be provably in range."""
        if isinstance(idx, tuple) and len(idx) == 1:
            idx = idx[0]
        if not isint(idx):
            raise Unsupported('index %s' % type(idx).__name__)
        ctx = self.ctx
        if isinstance(idx, int) and idx < 0:
            if isinstance(arr.n, int):
                if idx < -arr.n:
                    raise PyExc(IndexError)
                return arr.n + idx
            return z3.simplify(iv(arr.n) + idx)
        lo, hi = iv(idx) >= 0, iv(idx) < iv(arr.n)
        if not self.truth(hi):
            raise PyExc(IndexError)
        if not self.truth(lo):
            if self.truth(iv(idx) >= -iv(arr.n)):
                return z3.simplify(iv(idx) + iv(arr.n))
            raise PyExc(IndexError)
        return idx

    # -- loops
    def s_For(self, s, env, mod):
        if s.orelse and not any(isinstance(x, ast.Break) for b in s.body for x in ast.walk(b)):
            raise Unsupported('for-else')
        self.for_over(s, self.ev(s.iter, env, mod), env, mod)

    def for_over(self, s, it, env, mod):
        pieces = self.pieces(it)
        for pc in pieces:
            if pc[0] == 'c':
                stop = False
                for v in pc[1]:
                    self.assign(s.target, v, env, mod)
                    try:
                        self.block(s.body, env, mod)
                    except _Continue:
                        continue
                    except _Break:
                        stop = True
                        break
                if stop:
                    return
            else:
                if s.orelse:
                    raise Unsupported('for-else over a symbolic sequence')
                self.generic_loop(s, pc[1], env, mod)
        if s.orelse:
            self.block(s.orelse, env, mod)

    def generic_loop(self, s, seg, env, mod):
        ctx = self.ctx
        names = stored(s.body) | stored([ast.For(target=s.target, iter=s.iter, body=[], orelse=[])])
        aug = aug_only(s.body, names)
        saved = dict(env)
        accs = {}
        for nm in aug:
            v = env.get(nm)
            if isnum(v) and not isinstance(v, bool):
                accs[nm] = LoopAcc(nm, v, ctx.depth)
            elif isinstance(v, LoopAcc):
                accs[nm] = v            # accumulator of an enclosing loop
        frame = set()
        touched = []

        def body():
            env.clear()
            env.update(saved)
            for nm in names:
                if nm in accs:
                    env[nm] = accs[nm]
                elif nm in env and not isinstance(env[nm], (Func, ClassVal)):
                    if isinstance(env[nm], (PyList, SymList, Arr)) and nm in aug:
                        continue        # list += ... is an effect on the object
                    env[nm] = Poison(nm)
            for b in seg.binders:
                ctx.add(b.guard())
            ctx.add(seg.guard)
            if ctx.solver.check() == z3.unsat:
                raise Dead()
            self.assign(s.target, seg.payload, env, mod)
            try:
                self.block(s.body, env, mod)
            except _Continue:
                pass
            except _Break:
                raise Unsupported('break in a symbolic loop')
            except PyExc as e:
                self.escape(e)
            return True

        ctx.frames.append(frame)
        ctx.depth += 1
        self.loop_level = getattr(self, 'loop_level', 0) + 1
        try:
            results = ctx.explore(body)
        finally:
            ctx.frames.pop()
            ctx.depth -= 1
            self.loop_level -= 1
            env.clear()
            env.update(saved)
        per = {}
        for _, conds, effs in results:
            for e in effs:
                g = z3.And(*([seg.guard] + [b.guard() for b in seg.binders] + conds + [e.guard]))
                n = Effect(e.obj, e.kind, e.data, list(seg.binders) + e.binders, g)
                per.setdefault(id(e.obj), []).append(n)
                if id(e.obj) in frame and not isinstance(e.obj, LoopAcc):
                    raise Unsupported('a symbolic loop reads what it changes')
        for nm in names:
            if nm in accs:
                continue
            if isinstance(env.get(nm), (PyList, SymList, Arr)) and nm in aug:
                continue
            env[nm] = Poison(nm)
        for lst in per.values():
            self.apply(lst, seg)
        for nm, a in accs.items():
            if a.depth == ctx.depth:
                env[nm] = self.close_acc(a)
            else:
                env[nm] = a

    def escape(self, e):
        """An exception leaving the generic iteration: note a size that shows it."""
        if not e.symbolic:
            e.symbolic = True
            e.model = self.proof.small_model() if getattr(self, 'proof', None) else self.ctx.model()
        raise e

    def apply(self, effs, seg):
        """Effects of one loop on one object."""
        ctx = self.ctx
        obj = effs[0].obj
        if obj.depth < ctx.depth:
            ctx.runs[-1].effects.extend(effs)
            return
        if isinstance(obj, LoopAcc):
            obj.effects.extend(effs)
            return
        if isinstance(obj, PyList):
            for e in effs:
                if e.kind != 'append':
                    raise Unsupported('list effect ' + e.kind)
                obj.tail.append(Seg(e.binders, e.guard, e.data))
            return
        if isinstance(obj, SymList):
            for e in effs:
                if e.kind != 'append':
                    raise Unsupported('list effect ' + e.kind)
                obj.segs.append(Seg(e.binders, e.guard, e.data))
            return
        if isinstance(obj, Arr):
            # one write per iteration to the own element: a new element term
            if not obj.effects and all(len(e.binders) == 1 and e.binders[0].v.eq(effs[0].binders[0].v) for e in effs) \
                    and len({e.kind for e in effs}) == 1:
                b = effs[0].binders[0].v
                if all(same(e.data[0], b) is True for e in effs):
                    k0 = ctx.fresh('k')
                    old = obj.clone(depth=obj.depth)
                    cur = old.at(k0)
                    for e in effs:
                        g = z3.simplify(z3.substitute(e.guard, (b, k0)))
                        v = subst(e.data[1], [(b, k0)])
                        if e.kind == 'add':
                            v = ctx.arith('+', cur, v)
                        cur = ite(g, v, cur)
                    obj.k0, obj.expr, obj.updates = k0, cur, []
                    return
            obj.effects.extend(effs)
            return
        if isinstance(obj, Ext):
            obj.apply(self, effs)
            return
        raise Unsupported('effect on %s' % type(obj).__name__)

    def close_acc(self, a):
        ctx = self.ctx
        v = a.base
        for e in a.effects:
            if len(e.binders) != 1:
                raise Unsupported('accumulation over nested symbolic loops')
            b = e.binders[0]
            if e.kind == 'flip':
                t = self.count(b, e.guard, z3.IntVal(1))
                v = ctx.arith('*', v, Num.sign(t))
                continue
            if isint(e.data):
                v = ctx.arith('+', v, self.count(b, e.guard, iv(e.data)))
            else:
                v = ctx.arith('+', v, self.real_sum([b], e.guard, e.data))
        return v

    def count(self, b, guard, val, n=None):
        ctx = self.ctx
        n = b.hi if n is None else n
        lo, hi = iv(b.lo), iv(b.hi)
        # the range condition holds inside the range; drop it from the guard
        g = strip(guard, b)
        e = z3.If(g, val, z3.IntVal(0)) if g is not None else val
        t = ctx.psum(b.v, e, hi, n) - ctx.psum(b.v, e, lo, n)
        return z3.If(lo < hi, t, z3.IntVal(0))

    def real_sum(self, binders, guard, val):
        """Sum of reals over symbolic ranges: a constant shared by equal sums."""
        ctx = self.ctx
        v = rv(val)
        own = [b.v for b in binders]
        ps = params(z3.And(guard, v == 0), own)
        a = z3.If(guard, v, z3.RealVal(0))
        for bs, g, w, fn, qs in ctx.sums:
            if len(bs) != len(binders) or len(qs) != len(ps):
                continue
            for perm in itertools.permutations(own):
                sub = [(x.v, y) for x, y in zip(bs, perm)] + list(zip(qs, ps))
                b = z3.If(z3.substitute(g, *sub), z3.substitute(w, *sub), z3.RealVal(0))
                if a.eq(b) or ctx.valid_generic(a, b, ctx.base_facts):
                    return fn(*ps) if ps else fn
        ctx.counter += 1
        nm = 'SUM!%d' % ctx.counter
        fn = z3.Function(nm, *([z3.IntSort()]*len(ps) + [z3.RealSort()])) if ps else z3.Real(nm)
        ctx.sums.append((binders, guard, v, fn, ps))
        return fn(*ps) if ps else fn

    def pieces(self, it):
        """Iteration plan: ('c', values) and ('g', Seg) with fresh binders."""
        ctx = self.ctx
        if isinstance(it, (tuple, list)):
            return [('c', list(it))]
        if isinstance(it, range):
            return [('c', list(it))]
        if isinstance(it, str):
            return [('c', list(it))]
        if isinstance(it, dict):
            return [('c', list(it))]
        if isinstance(it, SymRange):
            b = Binder(ctx.fresh('i'), it.lo, it.hi)
            return [('g', Seg([b], z3.BoolVal(True), b.v))]
        if isinstance(it, Arr):
            ctx.read(it)
            if isinstance(it.n, int):
                return [('c', [it.at(k) for k in range(it.n)])]
            b = Binder(ctx.fresh('i'), 0, it.n)
            return [('g', Seg([b], z3.BoolVal(True), it.at(b.v)))]
        if isinstance(it, PyList):
            ctx.read(it)
            return [('c', list(it.vals))] + [('g', self.rename(x)) if x.binders else ('c', [x.payload]) for x in it.tail]
        if isinstance(it, SymList):
            ctx.read(it)
            return [('g', self.rename(x)) for x in it.segs]
        if isinstance(it, Lazy):
            return it.pieces(self)
        if isinstance(it, Abstract):
            ctx.read(it)
            b = Binder(ctx.fresh('i'), 0, it.n)
            return [('g', Seg([b], z3.BoolVal(True), it.at(b.v)))]
        if it is None:
            raise PyExc(TypeError, 'not iterable')
        raise Unsupported('iteration over %s' % type(it).__name__)

    def rename(self, seg):
        ctx = self.ctx
        pairs, bs = [], []
        for b in seg.binders:
            v = ctx.fresh('i')
            pairs.append((b.v, v))
        for b in seg.binders:
            v = [q for p, q in pairs if p.eq(b.v)][0]
            bs.append(Binder(v, subst(b.lo, pairs) if isz(b.lo) else b.lo, subst(b.hi, pairs) if isz(b.hi) else b.hi, b.tag))
        if not pairs:
            return seg
        return Seg(bs, z3.substitute(seg.guard, *pairs), subst(seg.payload, pairs))

    def extend(self, lst, v):
        ctx = self.ctx
        for pc in self.pieces(v):
            if pc[0] == 'c':
                for x in pc[1]:
                    self.append(lst, x)
            else:
                sg = pc[1]
                g = z3.And(sg.guard, *[b.guard() for b in sg.binders])
                if lst.depth < ctx.depth:
                    e = Effect(lst, 'append', sg.payload, sg.binders, g)
                    ctx.runs[-1].effects.append(e)
                elif isinstance(lst, PyList):
                    lst.tail.append(Seg(sg.binders, g, sg.payload))
                else:
                    lst.segs.append(Seg(sg.binders, g, sg.payload))

    def append(self, lst, v):
        if lst.depth < self.ctx.depth:
            self.ctx.effect(lst, 'append', v)
        elif isinstance(lst, PyList):
            if lst.tail:
                lst.tail.append(Seg([], z3.BoolVal(True), v))
            else:
                lst.vals.append(v)
        else:
            lst.segs.append(Seg([], z3.BoolVal(True), v))

    # -- expressions
    def ev(self, e, env, mod):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression ' + type(e).__name__)
        return m(e, env, mod)

    def e_Constant(self, e, env, mod):
        v = e.value
        if isinstance(v, float):
            return frac(v)
        return v

    def e_JoinedStr(self, e, env, mod):
        return Opaque('text')

    def lookup_raw(self, nm, env, mod):
        if nm in env:
            return env[nm]
        if isinstance(env, ClassEnv) and nm in env.outer:
            return env.outer[nm]
        c = env.get('__closure__') if '__closure__' in env else None
        while c is not None:
            if nm in c:
                return c[nm]
            c = c.get('__closure__')
        if nm in mod.env:
            return mod.env[nm]
        b = self.builtin(nm)
        if b is not None:
            return b
        if nm in ('True', 'False', 'None'):
            return {'True': True, 'False': False, 'None': None}[nm]
        if hasattr(builtins, nm):
            o = getattr(builtins, nm)
            if isinstance(o, type) and issubclass(o, BaseException):
                return o
            return Native('builtins.' + nm, None)
        raise PyExc(NameError, nm)

    def e_Name(self, e, env, mod):
        v = self.lookup_raw(e.id, env, mod)
        if isinstance(v, Poison):
            raise Unsupported('variable %s carried around a symbolic loop' % e.id)
        if isinstance(v, LoopAcc):
            raise Unsupported('accumulator %s read in its loop' % e.id)
        return v

    def e_Tuple(self, e, env, mod):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            raise Unsupported('starred')
        return tuple(self.ev(x, env, mod) for x in e.elts)

    def e_List(self, e, env, mod):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            lst = PyList(self.ctx, [])
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    self.extend(lst, self.ev(x.value, env, mod))
                else:
                    self.append(lst, self.ev(x, env, mod))
            return lst
        return PyList(self.ctx, [self.ev(x, env, mod) for x in e.elts])

    def e_Dict(self, e, env, mod):
        if any(k is None for k in e.keys):
            raise Unsupported('dict unpacking')
        ks = [self.ev(k, env, mod) for k in e.keys]
        if any(not isinstance(k, (int, str, tuple)) for k in ks):
            raise Unsupported('dict key')
        return dict(zip(ks, [self.ev(v, env, mod) for v in e.values]))

    def e_UnaryOp(self, e, env, mod):
        v = self.ev(e.operand, env, mod)
        if isinstance(e.op, ast.Not):
            if isz(v) and z3.is_bool(v):
                return z3.Not(v)
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, (Arr, Slice1)):
                return self.elementwise(lambda x: self.ctx.neg(x), [v])
            if not isnum(v):
                raise Unsupported('negation of %s' % type(v).__name__)
            return self.ctx.neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported('unary operator')

    def e_BinOp(self, e, env, mod):
        op = BINOP.get(type(e.op))
        a = self.ev(e.left, env, mod)
        b = self.ev(e.right, env, mod)
        if op is None:
            if isinstance(e.op, (ast.BitXor, ast.BitAnd, ast.BitOr)):
                return self.bitop(type(e.op).__name__, a, b)
            if isinstance(e.op, ast.MatMult) and isinstance(a, Ext):
                return self.call(self.native_attr('numpy', 'dot'), [a, b], {})
            raise Unsupported('operator ' + type(e.op).__name__)
        return self.binop(op, a, b)

    def bitop(self, op, a, b):
        if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
            return {'BitXor': a ^ b, 'BitAnd': a & b, 'BitOr': a | b}[op]
        if isz(a) and z3.is_bool(a) or isz(b) and z3.is_bool(b):
            x = a if isz(a) else z3.BoolVal(bool(a))
            y = b if isz(b) else z3.BoolVal(bool(b))
            return {'BitXor': z3.Xor(x, y), 'BitAnd': z3.And(x, y), 'BitOr': z3.Or(x, y)}[op]
        if isint(a) and isint(b) and op == 'BitAnd' and (b == 1 if isinstance(b, int) else False):
            return z3.simplify(iv(a) % 2)
        raise Unsupported('bit operation')

    def binop(self, op, a, b):
        ctx = self.ctx
        for x in (a, b):
            if isinstance(x, (Poison, LoopAcc)):
                raise Unsupported('loop-carried variable')
        if isinstance(a, (PyList, SymList, Arr)) and isinstance(b, (PyList, SymList, Arr)) and op == '+' and \
                getattr(a, 'kind', 'list') == 'list' and getattr(b, 'kind', 'list') == 'list':
            return self.concat(a, b)
        if isinstance(a, PyList) and op == '*' and isint(b):
            return self.repeat(a, b)
        if isinstance(b, PyList) and op == '*' and isint(a):
            return self.repeat(b, a)
        if isinstance(a, tuple) and isinstance(b, tuple) and op == '+':
            return a + b
        if isinstance(a, (Arr, Slice1)) or isinstance(b, (Arr, Slice1)):
            return self.elementwise(lambda x, y: ctx.arith(op, x, y), [a, b])
        if isinstance(a, str) or isinstance(a, Opaque):
            return Opaque('text')
        if a is None or b is None:
            raise PyExc(TypeError, 'arithmetic on None')
        return ctx.arith(op, a, b)

    def repeat(self, lst, n):
        ctx = self.ctx
        if isinstance(n, int):
            if lst.tail:
                raise Unsupported('repetition of a symbolic list')
            return PyList(ctx, lst.vals*max(n, 0))
        if lst.tail or len(lst.vals) != 1 or not isnum(lst.vals[0]):
            raise Unsupported('repetition of a list')
        ln = n
        if not ctx.proves(iv(n) >= 0):
            ln = z3.If(iv(n) > 0, iv(n), z3.IntVal(0))
        return Arr(ctx, 'list', ln, ctx.fresh('k'), lst.vals[0])

    def concat(self, a, b):
        ctx = self.ctx
        a, b = self.as_arr(a), self.as_arr(b)
        if isinstance(a, Arr) and isinstance(b, Arr):
            k0 = ctx.fresh('k')
            n1 = iv(a.n)
            e = ite(k0 < n1, a.at(k0), b.at(z3.simplify(k0 - n1)))
            return Arr(ctx, 'list', z3.simplify(n1 + iv(b.n)), k0, e)
        out = PyList(ctx, [])
        self.extend(out, a)
        self.extend(out, b)
        return out

    def positional(self, v):
        """A list that a loop filled with one element per position, as such."""
        ctx = self.ctx
        if isinstance(v, PyList) and not v.vals and v.tail:
            segs = v.tail
        elif isinstance(v, SymList) and v.segs:
            segs = v.segs
        else:
            return v
        if any(len(x.binders) != 1 or not x.binders[0].v.eq(segs[0].binders[0].v) for x in segs):
            return v
        b = segs[0].binders[0]
        if same(b.lo, 0) is not True or not isint(b.hi) or not all(same(x.binders[0].hi, b.hi) is True for x in segs):
            return v
        once = z3.Sum([z3.If(x.guard, z3.IntVal(1), z3.IntVal(0)) for x in segs]) == 1
        if not ctx.proves(z3.And(iv(b.hi) >= 0, z3.Implies(b.guard(), once))):
            return v
        ctx.read(v)
        if all(isnum(x.payload) for x in segs):
            e = segs[-1].payload
            for x in segs[-2::-1]:
                e = ite(x.guard, x.payload, e)
            return Arr(ctx, 'list', b.hi, b.v, e)
        if len(segs) == 1:
            return MapList(ctx, b.hi, b.v, segs[0].payload)
        return v

    def as_arr(self, v):
        v = self.positional(v)
        if isinstance(v, PyList) and not v.tail and v.vals and all(isnum(x) for x in v.vals):
            return arr_of(self.ctx, 'list', v.vals)
        return v

    def e_BoolOp(self, e, env, mod):
        ctx = self.ctx
        isand = isinstance(e.op, ast.And)
        acc = None
        pushed = 0
        v = None
        try:
            for k, x in enumerate(e.values):
                try:
                    v = self.ev(x, env, mod)
                except PyExc:
                    if pushed:
                        raise Unsupported('exception in a conditional operand')
                    raise
                last = k == len(e.values) - 1
                if isz(v) and z3.is_bool(v):
                    if not last and not ctx.feasible(v if isand else z3.Not(v)):
                        # the remaining operands are never evaluated
                        return not isand
                    acc = v if acc is None else (z3.And(acc, v) if isand else z3.Or(acc, v))
                    if not last:
                        ctx.push()
                        pushed += 1
                        ctx.add(v if isand else z3.Not(v))
                    continue
                t = v if acc is None and last else None
                if acc is not None:
                    t = self.truth(v)
                    if t == isand:
                        continue            # neutral
                    return False if isand else True
                if last:
                    return v
                if self.truth(v) != isand:
                    return v
            return acc if acc is not None else v
        finally:
            for _ in range(pushed):
                ctx.pop()

    def e_Compare(self, e, env, mod):
        left = self.ev(e.left, env, mod)
        acc = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, env, mod)
            c = self.cmp(op, left, right)
            if len(e.ops) == 1:
                return c
            if isinstance(c, bool):
                if not c:
                    return False
            else:
                acc = c if acc is None else z3.And(acc, c)
            left = right
        return True if acc is None else acc

    def cmp(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            if a is None or b is None:
                r = a is None and b is None
            elif a is b:
                r = True
            elif isinstance(a, bool) or isinstance(b, bool):
                r = False
            elif isinstance(a, (type, types.FunctionType)) or isinstance(b, (type, types.FunctionType)):
                r = False
            else:
                # two inputs of the function may well be one object
                raise Unsupported('identity of two objects')
            return r if isinstance(op, ast.Is) else not r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            if isinstance(op, ast.In):
                return r
            return z3.Not(r) if isz(r) else not r
        o = CMP.get(type(op))
        if isinstance(a, (Arr, Slice1)) or isinstance(b, (Arr, Slice1)):
            def f(x, y):
                c = self.ctx.compare(o, x, y)
                return c if isz(c) else z3.BoolVal(c)
            return self.elementwise(f, [a, b], boolean=True)
        if o in ('==', '!='):
            r = self.equal(a, b)
            if o == '==':
                return r
            return z3.Not(r) if isz(r) else not r
        if a is None or b is None:
            raise PyExc(TypeError)
        if isz(a) and z3.is_bool(a):
            a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
        if isz(b) and z3.is_bool(b):
            b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
        return self.ctx.compare(o, a, b)

    def equal(self, a, b):
        if isinstance(a, Obj) or isinstance(b, Obj):
            x, y = (a, b) if isinstance(a, Obj) else (b, a)
            f = x.cls.find('__eq__')
            if f is None:
                return a is b
            return self.call(Bound(x, f), [y], {})
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            acc = True
            for x, y in zip(a, b):
                r = self.equal(x, y)
                if isz(r):
                    acc = r if acc is True else z3.And(acc, r)
                elif not r:
                    return False
            return acc
        if a is None or b is None:
            return a is b
        if isinstance(a, str) or isinstance(b, str):
            if isinstance(a, (str, int)) and isinstance(b, (str, int)):
                return a == b
            raise Unsupported('comparison of text')
        if isinstance(a, (PyList,)) and isinstance(b, PyList) and not a.tail and not b.tail:
            return self.equal(tuple(a.vals), tuple(b.vals))
        if isz(a) and z3.is_bool(a) or isz(b) and z3.is_bool(b):
            x = a if isz(a) else z3.BoolVal(bool(a))
            y = b if isz(b) else z3.BoolVal(bool(b))
            return x == y
        return self.ctx.compare('==', a, b)

    def contains(self, seq, v):
        if isinstance(seq, dict):
            if isz(v):
                raise Unsupported('symbolic dict key')
            return v in seq
        if isinstance(seq, PyList) and not seq.tail:
            seq = tuple(seq.vals)
        if isinstance(seq, (tuple, range)):
            acc = []
            for x in seq:
                r = self.equal(x, v)
                if isz(r):
                    acc.append(r)
                elif r:
                    return True
            return z3.Or(*acc) if acc else False
        if isinstance(seq, Abstract):
            return seq.contains(self, v)
        if isinstance(seq, SymRange) and isint(v):
            return z3.And(iv(seq.lo) <= iv(v), iv(v) < iv(seq.hi))
        raise Unsupported('membership in %s' % type(seq).__name__)

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isz(v):
            if z3.is_bool(v):
                return self.ctx.branch(v)
            return self.ctx.branch(v != 0)
        if isinstance(v, (int, float, Fraction)):
            return v != 0
        if isinstance(v, (str, tuple, dict)):
            return bool(v)
        if isinstance(v, PyList) and not v.tail:
            return bool(v.vals)
        if isinstance(v, (Obj, Func, ClassVal, Native)):
            if isinstance(v, Obj) and (v.cls.find('__bool__') or v.cls.find('__len__')):
                raise Unsupported('truth of an object')
            return True
        if isinstance(v, Num):
            return self.ctx.branch(v.z() != 0)
        raise Unsupported('truth of %s' % type(v).__name__)

    def e_IfExp(self, e, env, mod):
        c = self.ev(e.test, env, mod)
        ctx = self.ctx
        if isz(c) and not z3.is_bool(c):
            c = c != 0
        if isz(c):
            s = z3.simplify(c)
            if z3.is_true(s):
                return self.ev(e.body, env, mod)
            if z3.is_false(s):
                return self.ev(e.orelse, env, mod)
            if ctx.proves(c):
                return self.ev(e.body, env, mod)
            if ctx.proves(z3.Not(c)):
                return self.ev(e.orelse, env, mod)
            if simple(e.body) and simple(e.orelse):
                vals = []
                for node, f in ((e.body, c), (e.orelse, z3.Not(c))):
                    ctx.push()
                    try:
                        ctx.add(f)
                        vals.append(self.ev(node, env, mod))
                    except PyExc:
                        vals.append(None)
                    finally:
                        ctx.pop()
                a, b = vals
                if isnum(a) and isnum(b) and not isinstance(a, bool) and not isinstance(b, bool):
                    return ite(c, a, b)
            return self.ev(e.body if ctx.branch(c) else e.orelse, env, mod)
        return self.ev(e.body if self.truth(c) else e.orelse, env, mod)

    def e_Lambda(self, e, env, mod):
        f = Func('<lambda>', e, env, mod, [self.ev(d, env, mod) for d in e.args.defaults], [])
        f.qual = '<lambda>'
        return f

    def e_NamedExpr(self, e, env, mod):
        v = self.ev(e.value, env, mod)
        self.assign(e.target, v, env, mod)
        return v

    def e_Attribute(self, e, env, mod):
        return self.attr(self.ev(e.value, env, mod), e.attr)

    def e_Starred(self, e, env, mod):
        raise Unsupported('starred')

    # -- comprehensions
    def e_ListComp(self, e, env, mod):
        return self.comp(e, env, mod)

    def e_GeneratorExp(self, e, env, mod):
        return self.comp(e, env, mod)

    def comp(self, e, env, mod):
        """List comprehension: for each clause either unrolled or generic."""
        ctx = self.ctx
        local = dict(env)
        plain = len(e.generators) == 1 and not e.generators[0].ifs
        if plain:
            it = self.ev(e.generators[0].iter, local, mod)
            ps = self.pieces(it)
            if len(ps) == 1 and ps[0][0] == 'g' and len(ps[0][1].binders) == 1:
                sg = ps[0][1]
                b = sg.binders[0]
                if z3.is_true(z3.simplify(sg.guard)) and same(b.lo, 0) is True:
                    # a list with one element per position
                    val = self.generic_value(lambda: self.comp_elt(e, e.generators[0].target, sg, local, mod), sg)
                    if isnum(val):
                        return Arr(ctx, 'list', b.hi, b.v, val)
                    if isz(val) and z3.is_bool(val):
                        return Arr(ctx, 'list', b.hi, b.v, z3.If(val, z3.IntVal(1), z3.IntVal(0)))
                    return MapList(ctx, b.hi, b.v, val)
            segs = self.comp_rec(e, 0, local, mod, ps)
        else:
            segs = self.comp_rec(e, 0, local, mod, None)
        if segs and all(x.binders for x in segs):
            return SymList(ctx, segs)
        out = PyList(ctx, [])
        for x in segs:
            if x.binders or out.tail:
                out.tail.append(x)
            else:
                out.vals.append(x.payload)
        return out

    def comp_elt(self, e, target, sg, local, mod):
        l2 = dict(local)
        self.assign(target, sg.payload, l2, mod)
        return self.ev(e.elt, l2, mod)

    def generic_value(self, fn, sg):
        """Value for an arbitrary position; numbers from several paths are merged."""
        ctx = self.ctx

        def run():
            for b in sg.binders:
                ctx.add(b.guard())
            ctx.add(sg.guard)
            try:
                return fn()
            except PyExc as ex:
                self.escape(ex)
        res = self.nested(run)
        if any(r[2] for r in res):
            raise Unsupported('comprehension with effects')
        if len(res) == 1:
            lower(res[0][0], ctx.depth)
            return res[0][0]
        if not res:
            return 0
        v = res[-1][0]
        for val, conds, _ in reversed(res[:-1]):
            v = ite(z3.And(*conds), val, v)
        return v

    def comp_rec(self, e, gi, local, mod, ps):
        """Segments of the elements produced by the clauses from gi on."""
        ctx = self.ctx
        if gi == len(e.generators):
            return [Seg([], z3.BoolVal(True), self.ev(e.elt, local, mod))]
        g = e.generators[gi]
        if ps is None:
            ps = self.pieces(self.ev(g.iter, local, mod))
        out = []

        def element(v):
            l2 = dict(local)
            self.assign(g.target, v, l2, mod)
            for c in g.ifs:
                if not self.truth(self.ev(c, l2, mod)):
                    return []
            return self.comp_rec(e, gi + 1, l2, mod, None)
        for pc in ps:
            if pc[0] == 'c':
                for v in pc[1]:
                    out += element(v)
                continue
            sg = pc[1]

            def run(sg=sg):
                for b in sg.binders:
                    ctx.add(b.guard())
                ctx.add(sg.guard)
                try:
                    return element(sg.payload)
                except PyExc as ex:
                    self.escape(ex)
            for segs, conds, effs in self.nested(run):
                if effs:
                    raise Unsupported('comprehension with effects')
                for x in segs:
                    gd = z3.And(*([sg.guard] + [b.guard() for b in sg.binders] + conds + [x.guard]))
                    lower(x.payload, ctx.depth)
                    out.append(Seg(list(sg.binders) + x.binders, gd, x.payload))
        return out

    def nested(self, run):
        ctx = self.ctx
        ctx.depth += 1
        ctx.frames.append(set())
        try:
            return ctx.explore(run)
        finally:
            ctx.frames.pop()
            ctx.depth -= 1

    # -- subscripts
    def index_value(self, s, env, mod):
        if isinstance(s, ast.Slice):
            f = lambda x: None if x is None else self.ev(x, env, mod)
            return slice(f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple):
            return tuple(self.index_value(x, env, mod) for x in s.elts)
        return self.ev(s, env, mod)

    def e_Subscript(self, e, env, mod):
        return self.item(self.ev(e.value, env, mod), self.index_value(e.slice, env, mod))

    def item(self, obj, idx):
        ctx = self.ctx
        if isinstance(obj, (tuple, str)):
            if isinstance(idx, slice):
                if any(isz(x) for x in (idx.start, idx.stop, idx.step)):
                    raise Unsupported('symbolic slice')
                return obj[idx]
            if not isinstance(idx, int):
                raise Unsupported('symbolic position in a tuple')
            try:
                return obj[idx]
            except IndexError:
                raise PyExc(IndexError)
        if isinstance(obj, dict):
            if isz(idx):
                raise Unsupported('symbolic dict key')
            try:
                return obj[idx]
            except KeyError:
                raise PyExc(KeyError)
        if isinstance(obj, PyList):
            ctx.read(obj)
            if isinstance(idx, int):
                if 0 <= idx < len(obj.vals) or (not obj.tail and -len(obj.vals) <= idx < len(obj.vals)):
                    return obj.vals[idx]
                if not obj.tail:
                    raise PyExc(IndexError)
            if isinstance(idx, slice) and not obj.tail and not any(isz(x) for x in (idx.start, idx.stop, idx.step)):
                return PyList(ctx, obj.vals[idx])
            if not obj.tail and isint(idx):
                a = self.as_arr(obj)
                if isinstance(a, Arr):
                    return self.item(a, idx)
            r = self.settle_list(obj) if obj.tail and not obj.vals else None
            if r is not None:
                return self.item(r, idx)
            return self.by_position(obj, idx)
        if isinstance(obj, Arr):
            ctx.read(obj)
            if isinstance(idx, slice):
                return self.slice1(obj, idx)
            return obj.at(self.norm_index(obj, idx))
        if isinstance(obj, Slice1):
            if isinstance(idx, slice):
                raise Unsupported('slice of a slice')
            if not isint(idx) or not ctx.proves(z3.And(iv(idx) >= 0, iv(idx) < iv(obj.hi) - iv(obj.lo))):
                raise Unsupported('position in a slice')
            return obj.arr.at(z3.simplify(iv(obj.lo) + iv(idx)))
        if isinstance(obj, MapList):
            k = self.norm_index(obj, idx)
            return obj.at(k)
        if isinstance(obj, Tensor):
            return self.tensor_item(obj, idx)
        if isinstance(obj, Ext):
            return obj.item(self, idx)
        if isinstance(obj, Abstract):
            ctx.read(obj)
            return obj.at(self.norm_index(obj, idx))
        if isinstance(obj, SymList):
            r = self.settle_list(obj)
            if r is not None:
                return self.item(r, idx)
            return self.by_position(obj, idx)
        if obj is None:
            raise PyExc(TypeError)
        raise Unsupported('subscript of %s' % type(obj).__name__)

    def by_position(self, obj, idx):
        if isint(idx):
            p = self.positional(obj)
            if p is not obj:
                return self.item(p, idx)
            for l, sig, r, v in self.ctx.places:
                if l is obj and sig == signature(obj) and isz(idx) and isz(r) and r.eq(idx):
                    self.ctx.read(obj)
                    return v
        raise Unsupported('position in a symbolic list')

    def slice1(self, a, s):
        ctx = self.ctx
        if s.step not in (None, 1):
            raise Unsupported('slice step')
        lo = 0 if s.start is None else s.start
        hi = a.n if s.stop is None else s.stop
        for x in (lo, hi):
            if not isint(x):
                raise Unsupported('slice bound')

        def clamp(x):
            if ctx.proves(z3.And(iv(x) >= 0, iv(x) <= iv(a.n))):
                return x
            y = z3.If(iv(x) < 0, iv(x) + iv(a.n), iv(x))
            return z3.simplify(z3.If(y < 0, z3.IntVal(0), z3.If(y > iv(a.n), iv(a.n), y)))
        return Slice1(a, clamp(lo), clamp(hi))

    def tensor_item(self, t, idx):
        if not isinstance(idx, tuple):
            idx = (idx,)
        ax = [p for p in t.pattern if p[0] == 'ax']
        if Ellipsis in [i for i in idx if not isz(i)]:
            raise Unsupported('ellipsis')
        if len(idx) > len(ax):
            raise PyExc(IndexError)
        idx = list(idx) + [slice(None)]*(len(ax) - len(idx))
        shape = t.shape()
        amap = {}
        na = 0
        for k, i in enumerate(idx):
            if isinstance(i, slice):
                if (i.start, i.stop, i.step) != (None, None, None):
                    raise Unsupported('tensor slice')
                amap[k] = ('ax', na)
                na += 1
            elif isint(i):
                n = shape[k]
                if not self.ctx.proves(z3.And(iv(i) >= 0, iv(i) < iv(n))):
                    if self.truth(iv(i) >= iv(n)):
                        raise PyExc(IndexError)
                    if self.truth(iv(i) < 0):
                        if not self.truth(iv(i) >= -iv(n)):
                            raise PyExc(IndexError)
                        i = z3.simplify(iv(i) + iv(n))
                amap[k] = ('fix', i)
            else:
                raise Unsupported('tensor index %s' % type(i).__name__)
        pat = [p if p[0] == 'fix' else amap[p[1]] for p in t.pattern]
        dims = [shape[k] for k in range(len(idx)) if amap[k][0] == 'ax']
        r = Tensor(t.name, dims, t.fn, pat)
        if na == 0:
            return r.entry(())
        return r

    # -- elementwise
    def elementwise(self, f, args, boolean=False):
        ctx = self.ctx
        arrs = [a for a in args if isinstance(a, (Arr, Slice1))]
        n = None
        for a in arrs:
            m = a.n if isinstance(a, Arr) else z3.simplify(iv(a.hi) - iv(a.lo))
            if n is None:
                n = m
            elif not ctx.proves(iv(n) == iv(m)):
                if self.truth(iv(n) != iv(m)):
                    raise PyExc(ValueError, 'shapes')
        for a in args:
            if not isinstance(a, (Arr, Slice1)) and not isnum(a):
                raise Unsupported('elementwise with %s' % type(a).__name__)
        k0 = ctx.fresh('k')
        # the result holds real numbers unless all operands hold integers
        elem = None
        if not boolean and any(self.elem_now(a) == '?' for a in arrs):
            elem = '?'
            if any(self.elem_now(a) == 'F' for a in arrs) or any(isinstance(a, (float, Fraction)) for a in args):
                elem = 'F'

        def val(a, k, base=False):
            if isinstance(a, Arr):
                ctx.read(a)
                return a.base(k) if base else a.at(k)
            if isinstance(a, Slice1):
                return a.arr.at(z3.simplify(iv(k) + iv(a.lo)))
            return a

        def num(v):
            if isz(v) and z3.is_bool(v):
                return z3.If(v, z3.IntVal(1), z3.IntVal(0))
            if isinstance(v, bool):
                return int(v)
            return v
        if any(isinstance(a, Slice1) for a in args) or any(isinstance(a, Arr) and a.effects for a in args):
            e = num(f(*[val(a, k0) for a in args]))
            return Arr(ctx, 'ndarray', n, k0, e, elem=elem)
        e = num(f(*[val(a, k0, True) for a in args]))
        ups = []
        for a in arrs:
            for p, _ in a.updates:
                ups.append((p, num(f(*[val(b, p) for b in args]))))
        return Arr(ctx, 'ndarray', n, k0, e, ups, elem=elem)

    # -- attributes
    def attr(self, obj, name):
        ctx = self.ctx
        if isinstance(obj, Obj):
            if name in obj.attrs:
                return obj.attrs[name]
            f = obj.cls.find(name)
            if f is None:
                if name == '__class__':
                    return obj.cls
                raise PyExc(AttributeError, name)
            if isinstance(f, Func):
                if getattr(f, 'static', False):
                    return f
                if getattr(f, 'prop', False):
                    return self.call(Bound(obj, f), [], {})
                return Bound(obj, f)
            return f
        if obj is None:
            raise PyExc(AttributeError, 'None has no %s' % name)
        if isinstance(obj, ClassVal):
            f = obj.find(name)
            if f is None:
                if name == '__name__':
                    return obj.name
                raise PyExc(AttributeError, name)
            return f
        if isinstance(obj, Module):
            if name in obj.env:
                return obj.env[name]
            raise PyExc(AttributeError, name)
        if isinstance(obj, Native):
            if obj.f is None:
                return self.native_attr(obj.name, name)
            raise Unsupported('attribute of ' + obj.name)
        if isinstance(obj, Arr):
            if name == 'shape' and obj.kind == 'ndarray':
                return (obj.n,)
            if name == 'size' and obj.kind == 'ndarray':
                return obj.n
            if name == 'ndim' and obj.kind == 'ndarray':
                return 1
            if name == 'dtype':
                return Opaque('dtype:%s' % self.elem_now(obj))
            if name == 'T':
                return obj
            return Native('arr.' + name, lambda *a, **k: self.arr_method(obj, name, a, k))
        if isinstance(obj, Slice1):
            if name == 'shape':
                return (z3.simplify(iv(obj.hi) - iv(obj.lo)),)
            return Native('slice.' + name, lambda *a, **k: self.slice_method(obj, name, a, k))
        if isinstance(obj, Tensor):
            if name == 'shape':
                return obj.shape()
            if name == 'ndim':
                return obj.rank()
            if name == 'copy':
                return Native('tensor.copy', lambda: Tensor(obj.name, obj.dims, obj.fn, obj.pattern))
            raise Unsupported('tensor attribute ' + name)
        if isinstance(obj, (PyList, SymList, MapList)):
            if not hasattr([], name):
                raise PyExc(AttributeError, 'a list has no %s' % name)
            return Native('list.' + name, lambda *a, **k: self.list_method(obj, name, a, k))
        if isinstance(obj, Ext):
            return obj.attr(self, name)
        if isinstance(obj, Abstract) and name in obj.fields:
            return obj.fields[name]
        if isinstance(obj, Abstract):
            return Native('abs.' + name, lambda *a, **k: obj.method(self, name, a, k))
        if isinstance(obj, str) and name in ('lower', 'upper', 'strip', 'startswith', 'endswith', 'title', 'casefold'):
            return Native('text.' + name, lambda *a: getattr(obj, name)(*a))
        if isinstance(obj, (str, Opaque)):
            return Native('text.' + name, lambda *a, **k: Opaque('text'))
        if isinstance(obj, dict) and name in ('items', 'keys', 'values', 'get'):
            return Native('dict', lambda *a: PyList(ctx, [x for x in getattr(obj, name)()]) if name != 'get' else obj.get(*a))
        if isz(obj) or isinstance(obj, (int, float, Fraction, Num)):
            if name == 'real':
                return obj
            if name == 'copy' or name == 'item':
                return Native('num', lambda *a: obj)
            if name == 'sum':
                return Native('num', lambda *a: obj)
            if not (hasattr(0, name) or hasattr(0.0, name) or hasattr(numpy.float64(0), name)):
                raise PyExc(AttributeError, 'a number has no %s' % name)
        if isinstance(obj, tuple) and not hasattr(obj, name):
            raise PyExc(AttributeError, 'a tuple has no %s' % name)
        raise Unsupported('attribute %s of %s' % (name, type(obj).__name__))

    def arr_method(self, a, name, args, kw):
        ctx = self.ctx
        ctx.read(a)
        if a.kind == 'list' and name in ('index', 'append', 'extend', 'copy'):
            if name == 'copy':
                return a.clone('list', ctx.depth)
            raise Unsupported('list.%s on a symbolic list' % name)
        if name == 'astype':
            return self.retype(a.clone('ndarray', ctx.depth), args[0] if args else kw.get('dtype'))
        if name == 'copy' or name == 'flatten' or name == 'ravel':
            return a.clone('ndarray', ctx.depth)
        if name == 'sum':
            return ctx.sum_range(a, 0, a.n)
        if name == 'nonzero':
            return self.nonzero(a)
        if name == 'tolist':
            return a.clone('list', ctx.depth)
        if name in ('conj', 'conjugate'):
            return a
        raise Unsupported('array method ' + name)

    def slice_method(self, s, name, args, kw):
        if name == 'sum':
            self.ctx.read(s.arr)
            return self.ctx.sum_range(s.arr, s.lo, s.hi)
        if name == 'copy':
            return self.elementwise(lambda x: x, [s])
        raise Unsupported('slice method ' + name)

    def list_method(self, l, name, args, kw):
        ctx = self.ctx
        if isinstance(l, MapList):
            raise Unsupported('method of a mapped list')
        if name == 'append':
            self.append(l, args[0])
            return None
        if name == 'extend':
            self.extend(l, args[0])
            return None
        if name == 'copy':
            ctx.read(l)
            if isinstance(l, PyList):
                r = PyList(ctx, l.vals)
                r.tail = list(l.tail)
                return r
            return SymList(ctx, l.segs)
        if name == 'index' and isinstance(l, PyList) and not l.tail:
            ctx.read(l)
            for k, x in enumerate(l.vals):
                if self.truth(self.equal(x, args[0])):
                    return k
            raise PyExc(ValueError)
        if name == 'insert' and isinstance(l, PyList) and isinstance(args[0], int) and args[0] == 0 and l.depth == ctx.depth:
            l.vals.insert(0, args[1])
            return None
        if name in ('sort', 'reverse', 'pop', 'insert', 'remove', 'index', 'count'):
            raise Unsupported('list.' + name)
        raise Unsupported('list.' + name)

    def nonzero(self, a):
        """Positions of the nonzero entries, when they are among the updates."""
        ctx = self.ctx
        a = self.as_arr(a)
        if isinstance(a, (list, tuple)):
            raise Unsupported('nonzero')
        if isinstance(a, PyList):
            raise Unsupported('nonzero of a list')
        if not isinstance(a, Arr):
            raise Unsupported('nonzero of %s' % type(a).__name__)
        if isinstance(a.n, int) and a.n <= 64:
            pos = [k for k in range(a.n) if self.truth(a.at(k))]
            return (PyList(ctx, pos),)
        facts = ctx.base_facts + [a.k0 >= 0, a.k0 < iv(a.n)]
        zero = (not isz(a.expr) and a.expr == 0) or (isz(a.expr) and ctx.valid_generic(a.expr, z3.IntVal(0), facts))
        if not zero:
            pred = a.expr != 0
            if a.updates:
                pred = a.at(a.k0) != 0
            k0 = ctx.fresh('i')
            b = Binder(k0, 0, a.n)
            l = SymList(ctx, [Seg([b], z3.And(b.guard(), z3.substitute(pred, (a.k0, k0))), k0)])
            return (self.settle_list(l) or l,)
        pts = []
        for p, _ in a.updates:
            if any(self.truth(iv(p) == iv(q)) for q in pts):
                continue
            if self.truth(ctx.compare('!=', a.at(p), 0)):
                pts.append(p)
        # order them
        out = []
        for p in pts:
            k = 0
            while k < len(out) and self.truth(iv(out[k]) < iv(p)):
                k += 1
            out.insert(k, p)
        return (PyList(ctx, out),)

    def settle_list(self, l):
        if isinstance(l, PyList):
            if l.vals or not l.tail:
                return None
            l = SymList(self.ctx, l.tail)
        return self.settle(l)

    def settle(self, l):
        """A filtered list of positions all of which are among the points the unit
        declared: the list of those that pass, in order."""
        ctx = self.ctx
        if not ctx.points or len(l.segs) != 1 or len(l.segs[0].binders) != 1:
            return None
        sg = l.segs[0]
        b = sg.binders[0]
        g = z3.And(b.guard(), sg.guard)
        if not ctx.proves(z3.Implies(g, z3.Or(*[b.v == q for q in ctx.points]))):
            return None
        pts = []
        for q in ctx.points:
            if any(self.truth(q == x) for x in pts):
                continue
            if self.truth(z3.simplify(z3.substitute(g, (b.v, q)))):
                pts.append(q)
        out = []
        for q in pts:
            k = 0
            while k < len(out) and self.truth(out[k] < q):
                k += 1
            out.insert(k, q)
        return PyList(ctx, [subst(sg.payload, [(b.v, q)]) for q in out])

    # -- calls
    def e_Call(self, e, env, mod):
        f = self.ev(e.func, env, mod)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += self.unpack_star(self.ev(a.value, env, mod))
            else:
                args.append(self.ev(a, env, mod))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                v = self.ev(k.value, env, mod)
                if not isinstance(v, dict):
                    raise Unsupported('** arguments')
                kw.update(v)
            else:
                kw[k.arg] = self.ev(k.value, env, mod)
        return self.call(f, args, kw)

    def unpack_star(self, v):
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, PyList) and not v.tail:
            return list(v.vals)
        raise Unsupported('starred argument')

    def call(self, f, args, kw):
        if isinstance(f, Native):
            if f.f is None:
                raise Unsupported('call of ' + f.name)
            try:
                return f.f(*args, **kw)
            except TypeError as ex:
                raise Unsupported('call of %s: %s' % (f.name, ex))
        if isinstance(f, Bound):
            return self.call_func(f.f, [f.self_] + list(args), kw)
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, ClassVal):
            o = Obj(self.ctx, f, {})
            init = f.find('__init__')
            if init is not None:
                self.call_func(init, [o] + list(args), kw)
            elif args or kw:
                raise PyExc(TypeError)
            return o
        if isinstance(f, type) and issubclass(f, BaseException):
            return f
        if isinstance(f, Obj):
            g = f.cls.find('__call__')
            if g is not None:
                return self.call_func(g, [f] + list(args), kw)
        raise Unsupported('call of %s' % type(f).__name__)

    def bind(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        if a.kwarg:
            raise Unsupported('** parameters')
        args = list(args)
        if len(args) > len(names):
            if not a.vararg:
                raise PyExc(TypeError, 'too many arguments')
            env[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg:
            env[a.vararg.arg] = ()
        for n, v in zip(names, args):
            env[n] = v
        kwn = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in env or (k not in names and k not in kwn):
                raise PyExc(TypeError, 'argument ' + k)
            env[k] = v
        off = len(names) - len(f.defaults)
        for j, n in enumerate(names):
            if n not in env:
                if j < off:
                    raise PyExc(TypeError, 'missing argument ' + n)
                env[n] = f.defaults[j - off]
        for n, d in zip(kwn, f.kwdefaults):
            if n not in env:
                env[n] = d
        return env

    def call_func(self, f, args, kw):
        q = '%s.%s' % (f.mod.name, getattr(f, 'qual', f.name))
        env = self.bind(f, args, kw)
        st = self.stubs.get(q)
        if st is not None:
            r = st(self, env)
            if r is not NotImplemented:
                self.calls[q] = self.calls.get(q, 0) + 1
                return r
        if self.nesting > 40:
            raise Unsupported('deep recursion')
        if f.env is not f.mod.env:
            env['__closure__'] = f.env
        if isinstance(f.node, ast.Lambda):
            return self.ev(f.node.body, env, f.mod)
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f.node)):
            raise Unsupported('generator function')
        self.nesting += 1
        saved = getattr(self, 'loop_level', 0)
        self.loop_level = 0
        try:
            self.block(f.node.body, env, f.mod)
        except _Return as r:
            return r.v
        finally:
            self.nesting -= 1
            self.loop_level = saved
        return None

    # -- library
    def builtin(self, nm):
        f = getattr(self, 'b_' + nm, None)
        return Native(nm, f) if f else None

    def b_complex(self, *a):
        raise Unsupported('complex number')

    def b_len(self, v):
        ctx = self.ctx
        v = self.positional(v)
        if isinstance(v, (tuple, str, dict)):
            return len(v)
        if isinstance(v, (Arr, MapList, Abstract)):
            return v.n
        if isinstance(v, PyList):
            ctx.read(v)
            if not v.tail:
                return len(v.vals)
            return self.list_len(v, v.tail, len(v.vals))
        if isinstance(v, SymList):
            ctx.read(v)
            return self.list_len(v, v.segs, 0)
        if isinstance(v, Slice1):
            return z3.simplify(iv(v.hi) - iv(v.lo))
        if isinstance(v, Tensor):
            return v.shape()[0]
        if isinstance(v, SymRange):
            return z3.If(iv(v.hi) > iv(v.lo), iv(v.hi) - iv(v.lo), z3.IntVal(0))
        raise Unsupported('len of %s' % type(v).__name__)

    def list_len(self, v, segs, n0):
        ctx = self.ctx
        n = z3.IntVal(n0)
        for s in segs:
            if not s.binders:
                n = n + 1
            elif len(s.binders) == 1:
                n = n + self.count(s.binders[0], s.guard, z3.IntVal(1))
            else:
                f = ctx.fresh('len')
                if ctx.runs:
                    ctx.add(f >= 0)
                n = n + f
        n = z3.simplify(n)
        ctx.lens.append((n, v, signature(v)))
        return n

    def b_range(self, *a):
        if all(isinstance(x, int) for x in a):
            return range(*a)
        if len(a) == 1:
            lo, hi = 0, a[0]
        elif len(a) == 2:
            lo, hi = a
        elif len(a) == 3 and a[2] == 1:
            lo, hi = a[:2]
        else:
            raise Unsupported('range step')
        if not isint(lo) or not isint(hi):
            raise Unsupported('range bounds')
        if len(a) == 1:
            for n, l, sig in self.ctx.lens:
                if isz(hi) and n.eq(hi) and sig == signature(l):
                    return Lazy('positions', (hi, l))
        return SymRange(lo, hi)

    def b_enumerate(self, v, start=0):
        return Lazy('enumerate', (v, start))

    def b_zip(self, *a):
        return Lazy('zip', a)

    def b_reversed(self, v):
        if isinstance(v, (tuple, range)):
            return tuple(reversed(v))
        if isinstance(v, PyList) and not v.tail:
            return PyList(self.ctx, v.vals[::-1])
        raise Unsupported('reversed')

    def b_abs(self, v):
        ctx = self.ctx
        if isinstance(v, (Arr, Slice1)):
            return self.elementwise(self.b_abs, [v])
        if isinstance(v, (int, float, Fraction)):
            return abs(v)
        c = ctx.compare('>=', v, 0)
        return ite(c, v, ctx.neg(v)) if isz(c) else (v if c else ctx.neg(v))

    def b_min(self, *a):
        return self.minmax('<=', a)

    def b_max(self, *a):
        return self.minmax('>=', a)

    def minmax(self, op, a):
        if len(a) == 1:
            a = self.unpack_star(a[0])
        r = a[0]
        for x in a[1:]:
            c = self.ctx.compare(op, r, x)
            r = ite(c, r, x) if isz(c) else (r if c else x)
        return r

    def b_sum(self, v, start=0):
        ctx = self.ctx
        if isinstance(v, Arr):
            return ctx.arith('+', start, ctx.sum_range(v, 0, v.n))
        if isinstance(v, Slice1):
            return ctx.arith('+', start, ctx.sum_range(v.arr, v.lo, v.hi))
        if isinstance(v, Lazy):
            raise Unsupported('sum of %s' % v.kind)
        if isinstance(v, (PyList, tuple)):
            vals = v if isinstance(v, tuple) else v.vals
            r = start
            for x in vals:
                r = self.binop('+', r, x)
            for s in getattr(v, 'tail', ()):
                r = ctx.arith('+', r, self.seg_sum(s))
            return r
        if isinstance(v, SymList):
            r = start
            for s in v.segs:
                r = ctx.arith('+', r, self.seg_sum(s))
            return r
        raise Unsupported('sum of %s' % type(v).__name__)

    def seg_sum(self, s):
        if len(s.binders) == 1 and isint(s.payload):
            return self.count(s.binders[0], s.guard, iv(s.payload))
        return self.real_sum(s.binders, s.guard, s.payload)

    def b_int(self, v):
        if isint(v) or isinstance(v, bool):
            return int(v) if isinstance(v, bool) else v
        if isz(v) and z3.is_bool(v):
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if isinstance(v, Fraction) and v.denominator == 1:
            return int(v)
        raise Unsupported('int()')

    def b_float(self, v):
        if isnum(v):
            return v
        raise Unsupported('float()')

    def b_bool(self, v):
        if isz(v) and z3.is_bool(v):
            return v
        return self.truth(v)

    def b_list(self, v=None):
        ctx = self.ctx
        if v is None:
            return PyList(ctx, [])
        if isinstance(v, Arr):
            return v.clone('list', ctx.depth)
        if isinstance(v, SymRange):
            if same(v.lo, 0) is True:
                k0 = ctx.fresh('k')
                return Arr(ctx, 'list', v.hi, k0, k0)
        out = PyList(ctx, [])
        self.extend(out, v)
        return out

    def b_tuple(self, v=()):
        if isinstance(v, tuple):
            return v
        if isinstance(v, PyList) and not v.tail:
            return tuple(v.vals)
        if isinstance(v, range):
            return tuple(v)
        raise Unsupported('tuple()')

    def b_sorted(self, v):
        ctx = self.ctx
        if isinstance(v, tuple):
            v = PyList(ctx, list(v))
        if isinstance(v, PyList) and not v.tail and all(isint(x) for x in v.vals):
            out = []
            for p in v.vals:
                k = 0
                while k < len(out) and self.truth(ctx.compare('<=', out[k], p)):
                    k += 1
                out.insert(k, p)
            return PyList(ctx, out)
        raise Unsupported('sorted')

    def b_isinstance(self, v, c):
        f = self.world.get('isinstance')
        if f is not None:
            return f(v, c)
        if isinstance(v, Obj) and isinstance(c, ClassVal):
            return v.cls is c
        raise Unsupported('isinstance')

    def b_any(self, v):
        return self.anyall(v, True)

    def b_all(self, v):
        return self.anyall(v, False)

    def anyall(self, v, isany):
        if isinstance(v, PyList) and not v.tail:
            acc = []
            for x in v.vals:
                if isz(x) and z3.is_bool(x):
                    acc.append(x)
                elif self.truth(x) == isany:
                    return isany
            if not acc:
                return not isany
            return z3.Or(*acc) if isany else z3.And(*acc)
        if isinstance(v, Arr):
            k = self.ctx.fresh('q')
            body = self.ctx.compare('!=', v.at(k), 0)
            body = body if isz(body) else z3.BoolVal(body)
            rng = z3.And(k >= 0, k < iv(v.n))
            return z3.Exists([k], z3.And(rng, body)) if isany else z3.ForAll([k], z3.Implies(rng, body))
        raise Unsupported('any/all')

    def b_print(self, *a, **k):
        return None

    def b_object(self):
        raise Unsupported('object()')

    def native_attr(self, base, name):
        full = base + '.' + name
        if full in self.world:
            return self.world[full]
        f = getattr(self, 'n_' + full.replace('.', '_'), None)
        if f is not None:
            return Native(full, f)
        if full in ('numpy.newaxis',):
            return None
        if full.split('.')[0] == 'numpy' and full.split('.')[-1] in (
                'float64', 'float32', 'float16', 'int64', 'int32', 'int16', 'int8', 'uint8', 'uint16', 'uint32', 'uint64',
                'intp', 'double', 'float_', 'int_', 'bool_') and hasattr(numpy, full.split('.')[-1]):
            return Opaque(full)
        if full in ('numpy.pi', 'math.pi'):
            raise Unsupported(full)
        return Native(full, None)

    def n_functools_reduce(self, f, v, *start):
        ps = self.pieces(v)
        if len(ps) != 1 or ps[0][0] != 'c':
            raise Unsupported('reduce over a symbolic sequence')
        vals = list(start) + list(ps[0][1])
        if not vals:
            raise PyExc(TypeError, 'reduce of nothing')
        r = vals[0]
        for x in vals[1:]:
            r = self.call(f, [r, x], {})
        return r

    def n_numpy_asarray(self, v, dtype=None):
        if isinstance(v, Arr) and v.kind == 'ndarray':
            if dtype is None or self.elem_of(dtype) == self.elem_now(v):
                return v
        return self.n_numpy_array(v, dtype)

    def n_numpy_array(self, v, dtype=None, copy=True):
        a = self.new_array(v)
        return self.retype(a, dtype) if dtype is not None else a

    def new_array(self, v):
        ctx = self.ctx
        v = self.positional(v)
        if isinstance(v, Arr):
            ctx.read(v)
            return v.clone('ndarray', ctx.depth)
        if isinstance(v, PyList) and not v.tail and all(isnum(x) for x in v.vals):
            return arr_of(ctx, 'ndarray', v.vals)
        if isinstance(v, tuple) and all(isnum(x) for x in v):
            return arr_of(ctx, 'ndarray', list(v))
        if isinstance(v, Slice1):
            return self.elementwise(lambda x: x, [v])
        if isinstance(v, SymRange):
            return self.new_array(self.b_list(v))
        raise Unsupported('array of %s' % type(v).__name__)

    def shape_of(self, s):
        if isinstance(s, tuple):
            if len(s) != 1:
                raise Unsupported('array rank')
            s = s[0]
        if not isint(s):
            raise Unsupported('array shape')
        return s

    def n_numpy_zeros(self, shape, dtype=None):
        return Arr(self.ctx, 'ndarray', self.shape_of(shape), self.ctx.fresh('k'), 0,
                   elem=self.elem_of(dtype, 'F'))

    def n_numpy_ones(self, shape, dtype=None):
        return Arr(self.ctx, 'ndarray', self.shape_of(shape), self.ctx.fresh('k'), 1,
                   elem=self.elem_of(dtype, 'F'))

    def n_numpy_empty(self, shape, dtype=None):
        return Arr(self.ctx, 'ndarray', self.shape_of(shape), self.ctx.fresh('k'), self.ctx.fresh('garbage', 'Real'),
                   elem=self.elem_of(dtype, 'F'))

    def n_numpy_zeros_like(self, a, dtype=None):
        if isinstance(a, Arr):
            e = self.elem_of(dtype) if dtype is not None else self.elem_now(a)
            return Arr(self.ctx, 'ndarray', a.n, self.ctx.fresh('k'), 0, elem=e)
        raise Unsupported('zeros_like')

    def n_numpy_empty_like(self, a, dtype=None):
        if isinstance(a, Arr):
            r = self.n_numpy_empty((a.n,))
            r.elem = self.elem_of(dtype) if dtype is not None else self.elem_now(a)
            return r
        raise Unsupported('empty_like')

    def n_numpy_copy(self, a):
        return self.n_numpy_array(a)

    def n_numpy_nonzero(self, a):
        return self.nonzero(a)

    def n_numpy_where(self, c, *ab):
        if not ab:
            return self.nonzero(c)
        if len(ab) == 2 and isinstance(c, Arr):
            return self.elementwise(lambda x, a, b: ite(x != 0 if isz(x) else bool(x), a, b), [c, ab[0], ab[1]])
        raise Unsupported('where')

    def n_numpy_flatnonzero(self, a):
        return self.nonzero(a)[0]

    def n_numpy_sum(self, a):
        if isinstance(a, (Arr, Slice1, PyList)):
            return self.b_sum(a)
        raise Unsupported('numpy.sum')

    def n_numpy_abs(self, a):
        return self.b_abs(self.as_arr(a))

    n_numpy_absolute = n_numpy_abs

    def n_numpy_count_nonzero(self, a):
        a = self.as_arr(a)
        if not isinstance(a, (Arr, Slice1)):
            raise Unsupported('count_nonzero')
        b = self.elementwise(lambda x: self.arith_bool(self.ctx.compare('!=', x, 0)), [a])
        return self.b_sum(b)

    def arith_bool(self, c):
        return z3.If(c, z3.IntVal(1), z3.IntVal(0)) if isz(c) else int(c)

    def n_numpy_arange(self, *a):
        return self.n_numpy_array(self.b_list(self.b_range(*a)))

    def n_numpy_minimum(self, a, b):
        return self.b_min(a, b)

    def n_numpy_maximum(self, a, b):
        return self.b_max(a, b)

    def n_numpy_concatenate(self, v, axis=0):
        vs = self.unpack_star(v)
        r = vs[0]
        for x in vs[1:]:
            r = self.concat(r, x)
        if isinstance(r, Arr):
            r.kind = 'ndarray'
            return r
        raise Unsupported('concatenate')

    def n_numpy_array_equal(self, a, b):
        ctx = self.ctx
        a, b = self.as_arr(a), self.as_arr(b)
        if not (isinstance(a, Arr) and isinstance(b, Arr)):
            raise Unsupported('array_equal')
        k = ctx.fresh('q')
        body = ctx.compare('==', a.at(k), b.at(k))
        body = body if isz(body) else z3.BoolVal(body)
        return z3.And(iv(a.n) == iv(b.n), z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < iv(a.n)), body)))

    def n_numpy_exp(self, x):
        return self.transc('EXP', x)

    def n_numpy_log(self, x):
        return self.transc('LOG', x)

    def n_numpy_log1p(self, x):
        if isinstance(x, Arr):
            return self.elementwise(self.n_numpy_log1p, [x])
        return self.transc('LOG', self.ctx.arith('+', 1, x))

    def n_numpy_expm1(self, x):
        return self.ctx.arith('-', self.transc('EXP', x), 1)

    n_math_exp = n_numpy_exp
    n_math_log = n_numpy_log
    n_math_log1p = n_numpy_log1p

    def transc(self, which, x):
        if isinstance(x, (Arr, Slice1)):
            return self.elementwise(lambda y: self.transc(which, y), [x])
        h = getattr(self, 'transcendental', None)
        if h is None:
            raise Unsupported(which)
        return h(which, rv(x))

    def n_itertools_combinations(self, v, r):
        if not isinstance(r, int):
            raise Unsupported('combinations')
        ctx = self.ctx
        segs = [self.pieces(v) for _ in range(r)]
        if any(len(p) != 1 for p in segs):
            raise Unsupported('combinations of a mixed list')
        if all(p[0][0] == 'c' for p in segs):
            import itertools
            return PyList(ctx, list(itertools.combinations(segs[0][0][1], r)))
        if any(p[0][0] != 'g' or len(p[0][1].binders) != 1 for p in segs):
            raise Unsupported('combinations')
        bs = [p[0][1].binders[0] for p in segs]
        g = z3.And(*[p[0][1].guard for p in segs] + [b.guard() for b in bs] +
                   [bs[k].v < bs[k + 1].v for k in range(r - 1)])
        return SymList(ctx, [Seg(bs, g, tuple(p[0][1].payload for p in segs))])

    def n_itertools_product(self, *vs, **kw):
        rep = kw.get('repeat', 1)
        ctx = self.ctx
        out = [([], [z3.BoolVal(True)], ())]
        for v in list(vs)*rep:
            ps = self.pieces(v)
            nxt = []
            for bs, g, pl in out:
                for p in ps:
                    if p[0] == 'c':
                        for x in p[1]:
                            nxt.append((bs, g, pl + (x,)))
                    else:
                        sg = self.rename(p[1]) if len(out) > 1 else p[1]
                        nxt.append((bs + sg.binders, g + [sg.guard] + [b.guard() for b in sg.binders], pl + (sg.payload,)))
            out = nxt
        if all(not bs for bs, _, _ in out):
            return PyList(ctx, [pl for _, _, pl in out])
        return SymList(ctx, [Seg(bs, z3.And(*g), pl) for bs, g, pl in out])

    def n_copy_copy(self, v):
        if isinstance(v, Arr):
            return v.clone(None, self.ctx.depth)
        raise Unsupported('copy.copy')

    n_copy_deepcopy = n_copy_copy

    def n_numpy_einsum(self, spec, *ops, **kw):
        """Contraction to a scalar of tensors and occupation vectors."""
        if kw or not isinstance(spec, str):
            raise Unsupported('einsum options')
        spec = spec.replace(' ', '')
        ins, _, out = spec.partition('->')
        ins = ins.split(',')
        if '->' not in spec:
            cnt = ''.join(ins)
            out = ''.join(sorted(c for c in set(cnt) if cnt.count(c) == 1))
        if out:
            raise Unsupported('einsum to an array')
        if len(ins) != len(ops):
            raise PyExc(ValueError)
        ctx = self.ctx
        labels = sorted(set(''.join(ins)))
        dims = {}
        arrs, tens = [], []
        for lab, op in zip(ins, ops):
            if isinstance(op, Tensor):
                if len(lab) != op.rank():
                    raise PyExc(ValueError)
                shp = op.shape()
                tens.append((lab, op))
            elif isinstance(op, Arr):
                ctx.read(op)
                if len(lab) != 1:
                    raise PyExc(ValueError)
                shp = (op.n,)
                arrs.append((lab, op))
            else:
                raise Unsupported('einsum operand %s' % type(op).__name__)
            for c, d in zip(lab, shp):
                if c in dims and not ctx.proves(iv(dims[c]) == iv(d)):
                    if self.truth(iv(dims[c]) != iv(d)):
                        raise PyExc(ValueError, 'einsum extents')
                dims.setdefault(c, d)
        # split every occupation vector into its base and its point changes
        total = Num([])
        work = [(Num.of(1), {}, [])]
        for lab, a in arrs:
            nxt = []
            for co, fixed, basis in work:
                if lab in fixed:
                    nxt.append((ctx.arith('*', co, rv(a.at(fixed[lab]))), fixed, basis))
                    continue
                nxt.append((co, fixed, basis + [(lab, a)]))
                done = []
                for p, w in a.updates:
                    old = a.base(p)
                    for q, x in done:
                        old = ite(iv(q) == iv(p), x, old)
                    done.append((p, w))
                    f2 = dict(fixed)
                    f2[lab] = iv(p)
                    d = ctx.arith('-', w, old)
                    if const(d) == 0:
                        continue
                    # vectors on the same label already taken generically
                    for l2, b2 in basis:
                        if l2 == lab:
                            d = ctx.arith('*', d, b2.base(p))
                    nxt.append((ctx.arith('*', co, rv(d) if not isinstance(d, Num) else d), f2,
                                [x for x in basis if x[0] != lab]))
            work = nxt
        for co, fixed, basis in work:
            free = [c for c in labels if c not in fixed]
            bs = {c: Binder(ctx.fresh('s'), 0, dims[c]) for c in free}
            pos = dict(fixed)
            pos.update({c: bs[c].v for c in free})
            val = z3.RealVal(1)
            for lab, t in tens:
                e = t.entry([pos[c] for c in lab])
                val = e if z3.is_rational_value(val) else val*e
            guard = z3.And(*[bs[c].guard() for c in free]) if free else z3.BoolVal(True)
            for lab, a in basis:
                if not ctx.is01_generic(a):
                    raise Unsupported('einsum weight that is not an occupation')
                guard = z3.And(guard, iv(a.base(bs[lab].v)) == 1)
            cst = const(co)
            if cst is None and isinstance(co, Num) and not co.terms:
                continue
            atom = val if not free else self.real_sum([bs[c] for c in free], guard, val)
            total = total + Num.of(co)*Num.of(atom)
        return total


class ClassEnv(dict):
    def __init__(self, outer):
        dict.__init__(self)
        self.outer = outer


class MapList(object):
    """List with one (structured) element per position."""
    def __init__(self, ctx, n, k0, payload):
        self.ctx, self.n, self.k0, self.payload, self.depth = ctx, n, k0, payload, ctx.depth

    def at(self, k):
        return subst(self.payload, [(self.k0, iv(k))])


class Abstract(object):
    """Sequence known only through a contract."""
    n = None
    fields = {}
    depth = 0

    def at(self, k):
        raise Unsupported('abstract sequence')

    def contains(self, it, v):
        raise Unsupported('membership in an abstract sequence')

    def method(self, it, name, args, kw):
        raise Unsupported('method %s of an abstract sequence' % name)


class Lazy(object):
    def __init__(self, kind, args):
        self.kind, self.args = kind, args

    def pieces(self, it):
        ctx = it.ctx
        if self.kind == 'positions':
            # range(len(l)): every position stands for the element it holds
            n, l = self.args
            out = []
            pos = 0
            for p in it.pieces(l):
                if p[0] == 'c':
                    out.append(('c', list(range(pos, pos + len(p[1])))))
                    pos += len(p[1])
                    continue
                sg = p[1]
                if not sg.binders or any(q[0] == 'c' and q[1] for q in it.pieces(l)[1:]):
                    raise Unsupported('positions of this list')
                ctx.counter += 1
                fn = z3.Function('pos!%d' % ctx.counter, *([z3.IntSort()]*(len(sg.binders) + 1)))
                r = fn(*[b.v for b in sg.binders])
                ctx.places.append((l, signature(l), r, sg.payload))
                own = [b.v for b in sg.binders]
                g = z3.And(sg.guard, *[b.guard() for b in sg.binders])

                def facts(ctx, t, own=own, g=g):
                    g = z3.substitute(g, *[(v, t.arg(k)) for k, v in enumerate(own)])
                    return [z3.Implies(g, z3.And(t >= 0, t < iv(n)))]
                ctx.hooks['pos!%d' % ctx.counter] = facts
                out.append(('g', Seg(sg.binders, sg.guard, r)))
            return out
        if self.kind == 'enumerate':
            v, start = self.args
            v = it.positional(v)
            ps = it.pieces(v)
            out = []
            pos = start
            for k, p in enumerate(ps):
                if p[0] == 'c':
                    vals = []
                    for x in p[1]:
                        vals.append((pos, x))
                        pos = ctx.arith('+', pos, 1)
                    out.append(('c', vals))
                    continue
                sg = p[1]
                if isinstance(v, (SymRange, Arr, Abstract, MapList)):
                    b = sg.binders[0]
                    r = ctx.arith('+', start, ctx.arith('-', b.v, b.lo))
                elif len(ps) == 1 and len(sg.binders) == 1:
                    b = sg.binders[0]
                    r = ctx.arith('+', start, it.count(Binder(b.v, b.lo, b.v), sg.guard, z3.IntVal(1), b.hi))
                else:
                    raise Unsupported('enumerate of a symbolic list')
                out.append(('g', Seg(sg.binders, sg.guard, (r, sg.payload))))
            return out
        if self.kind == 'zip':
            vs = [it.positional(v) for v in self.args]
            ps = [it.pieces(v) for v in vs]
            if all(len(p) == 1 and p[0][0] == 'c' for p in ps):
                return [('c', list(zip(*[p[0][1] for p in ps])))]
            if all(len(p) == 1 and p[0][0] == 'g' and len(p[0][1].binders) == 1 and
                   isinstance(v, (SymRange, Arr, Abstract, MapList)) for p, v in zip(ps, vs)):
                b = ps[0][0][1].binders[0]
                n = ctx.arith('-', b.hi, b.lo)
                pay = [ps[0][0][1].payload]
                for p in ps[1:]:
                    c = p[0][1].binders[0]
                    m = ctx.arith('-', c.hi, c.lo)
                    if not ctx.proves(iv(n) == iv(m)):
                        n = it.b_min(n, m)
                    pay.append(subst(p[0][1].payload, [(c.v, z3.simplify(b.v - iv(b.lo) + iv(c.lo)))]))
                nb = Binder(b.v, b.lo, ctx.arith('+', b.lo, n))
                return [('g', Seg([nb], z3.BoolVal(True), tuple(pay)))]
        raise Unsupported('%s of these sequences' % self.kind)


def signature(l):
    """Changes whenever the list does."""
    if isinstance(l, PyList):
        return (len(l.vals), len(l.tail))
    return (len(l.segs),)


def strip(guard, b):
    """Conjuncts of guard without the trivial ones."""
    out = []
    todo = [guard]
    while todo:
        g = todo.pop(0)
        if z3.is_and(g):
            todo = list(g.children()) + todo
            continue
        s = z3.simplify(g)
        if z3.is_true(s):
            continue
        out.append(g)
    if not out:
        return None
    return z3.And(*out) if len(out) > 1 else out[0]


def simple(node):
    """Expressions safe to evaluate on both sides of a conditional."""
    for x in ast.walk(node):
        if isinstance(x, (ast.Call, ast.NamedExpr, ast.Subscript, ast.Attribute, ast.ListComp, ast.Await, ast.Yield)):
            if isinstance(x, (ast.Subscript, ast.Attribute)):
                continue
            return False
    return True


def aug_only(body, names):
    """Names that the body changes only by augmented assignment."""
    aug, other = set(), set()

    def walk(n):
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
            aug.add(n.target.id)
            return
        if isinstance(n, (ast.Assign, ast.AnnAssign, ast.For, ast.NamedExpr)):
            probe = n if not isinstance(n, ast.For) else ast.For(target=n.target, iter=n.iter, body=[], orelse=[])
            for x in stored([probe]) if not isinstance(n, ast.NamedExpr) else {n.target.id}:
                other.add(x)
        for c in ast.iter_child_nodes(n):
            walk(c)
    for n in body:
        walk(n)
    return aug - other


def lower(v, depth):
    """Objects created for a comprehension element belong to the enclosing level."""
    if isinstance(v, tuple):
        for x in v:
            lower(x, depth)
    elif isinstance(v, (Arr, PyList, SymList)):
        v.depth = min(v.depth, depth)
        if isinstance(v, PyList):
            for x in v.vals:
                lower(x, depth)
    elif isinstance(v, Obj):
        v.depth = min(v.depth, depth)
        for x in v.attrs.values():
            lower(x, depth)


def _is01_generic(self, a):
    e = a.expr
    if not isz(e):
        return e in (0, 1)
    facts = self.base_facts + [a.k0 >= 0, a.k0 < iv(a.n)]
    return self.valid_generic(z3.Or(e == 0, e == 1), z3.BoolVal(True), facts)


Ctx.is01_generic = _is01_generic
