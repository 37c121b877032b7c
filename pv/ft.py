"""Contracts for the finite-temperature functions (P17, P18)."""
from decimal import Decimal, getcontext, localcontext
from fractions import Fraction
from .e2 import z3, iv, isz, isnum, rv, Arr, Num, Unsupported, const
from .e2unit import E2Unit, earlier
from . import loader

M = 'cqcpy.ft_utils'
BACK = 'z3 (nonlinear real arithmetic, exponential and logarithm by their defining bounds)'
OVERFLOW = 709


def real():
    return loader.real(M)


def rational_exp(c, up):
    """Rational bound of exp(c), c rational."""
    with localcontext() as ctx:
        ctx.prec = 40
        ctx.Emin, ctx.Emax = -10**8, 10**8
        v = (Decimal(c.numerator)/Decimal(c.denominator)).exp()
        e = v.adjusted()
        m = Fraction(v.scaleb(-e))
        m += Fraction(1, 10**30) if up else -Fraction(1, 10**30)
        return m*Fraction(10)**e


def constants(fs):
    """Rational constants occurring in the formulas."""
    out, seen, todo = set(), set(), list(fs)
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_rational_value(t) or z3.is_int_value(t):
            out.add(const(t))
        todo += t.children()
    return out


class Exp(object):
    """The exponential of X = beta (epsilon - mu) on one path: E = exp(X), and
    L = log(1 + E).  Other arguments are reduced to these or left arbitrary."""
    def __init__(self, p, beta, eps, mu):
        self.p, self.beta, self.eps, self.mu = p, beta, eps, mu
        self.X = z3.Real('X')
        self.E = z3.Real('E')
        self.L = z3.Real('L')
        self.term = beta*(eps - mu)
        p.assume(self.X == self.term)
        p.assume(self.E > 0)
        self.overflow = []
        p.it.transcendental = self.call

    def is_(self, x, want):
        d = z3.simplify(x - want, som=True)
        if z3.is_rational_value(d):
            return d.as_fraction() == 0
        return False

    def call(self, which, x):
        p = self.p
        if which == 'EXP':
            # conditions are polynomials; X abbreviates beta (epsilon - mu)
            if self.is_(x, self.term) or self.is_(x, self.X):
                p.need('post', 'exponential does not overflow', self.bound(self.X, x))
                return self.E
            if self.is_(x, -self.term) or self.is_(x, -self.X):
                p.need('post', 'exponential does not overflow', self.bound(-self.X, x))
                return 1/self.E
            c = const(z3.simplify(x))
            if c == 0:
                return z3.RealVal(1)
            raise Unsupported('exponential of another argument')
        for cand, val in ((1 + self.E, self.L), (1/(1 + self.E), -self.L), ((1 + self.E)/self.E, self.L - self.X),
                          (1 + 1/self.E, self.L - self.X), (self.E/(1 + self.E), self.X - self.L)):
            s = z3.Solver()
            s.set('timeout', 3000)
            s.add(self.E > 0, x != cand)
            if s.check() == z3.unsat:
                return val
        raise Unsupported('logarithm of another argument')

    def bound(self, y, x):
        return y <= OVERFLOW

    def facts(self):
        """Bounds of E and L that hold for the exponential and the logarithm, taken at
        the thresholds the path compares with."""
        X, E, L = self.X, self.E, self.L
        out = [E > 0, L > 0, L <= E, L >= E - E*E/2, L >= X, L - X <= 1/E, L - X >= 1/E - 1/(2*E*E)]
        cs = {Fraction(0)}
        for r in self.p.ctx.runs:
            cs |= {c for c in constants(r.conds) if abs(c) <= 5000}
        for c in sorted(cs | {-c for c in cs}):
            cv = z3.RealVal(str(c))
            out.append(z3.Implies(X <= cv, E <= z3.RealVal(str(rational_exp(c, True)))))
            out.append(z3.Implies(X >= cv, E >= z3.RealVal(str(rational_exp(c, False)))))
        return out

    def need(self, label, f):
        """Decide f on this path with the bounds; sizes are not involved."""
        p = self.p
        conds = [c for r in p.ctx.runs for c in r.conds]
        pairs = [(self.term, self.X)]
        conds = [z3.substitute(c, *pairs) for c in conds]
        f = z3.substitute(f, *pairs)
        s = z3.Solver()
        s.set('timeout', 30000)
        for g in p.ctx.base_facts + self.facts() + conds:
            s.add(g)
        s.add(z3.Not(f))
        r = s.check()
        from .symnp import Z3STAT
        Z3STAT['queries'] += 1
        if r == z3.unsat:
            return p.record('post', label, True, 'valid', backend=BACK)
        det = 'unknown' if r != z3.sat else 'fails with %s' % str(s.model())[:300]
        dims = None
        if r == z3.sat:
            x = s.model().eval(self.X, model_completion=True)
            try:
                x = x.as_fraction() if z3.is_rational_value(x) else x.approx(20).as_fraction()
                dims = {'x': float(x)}
            except Exception:
                dims = None
        return p.record('post', label, False, det, dims, backend=BACK)


def zabs(x):
    return z3.If(x >= 0, x, -x)


def inputs(p, positive):
    beta, eps, mu = z3.Real('beta'), z3.Real('epsilon'), z3.Real('mu')
    if positive:
        p.assume(beta > 0)
    return beta, eps, mu


def fermi_body(fname):
    def body(p):
        beta, eps, mu = inputs(p, False)
        x = Exp(p, beta, eps, mu)

        def post(v):
            if not isnum(v):
                raise Unsupported('result')
            v = rv(v)
            E = x.E
            num = z3.RealVal(1) if fname == 'fermi_function' else E
            x.need('relative error below 1e-12', z3.And((1 + E)*v - num <= num/10**12, num - (1 + E)*v <= num/10**12))
            x.need('between 0 and 1', z3.And(v >= 0, v <= 1))
        p.run(lambda: p.it.call(p.it.get(M, fname), [beta, eps, mu], {}), post)
    return body


def sum_body(p):
    beta, eps, mu = inputs(p, False)
    x = Exp(p, beta, eps, mu)

    def both():
        return tuple(p.it.call(p.it.get(M, f), [beta, eps, mu], {}) for f in ('fermi_function', 'vfermi_function'))

    def post(v):
        s = rv(v[0]) + rv(v[1]) - 1
        t = z3.RealVal('1/1000000000000')
        x.need('occupation and complement add up to 1', z3.And(s <= t, -s <= t))
    p.run(both, post)


def gp_body(fname):
    def body(p):
        beta, eps, mu = inputs(p, True)
        x = Exp(p, beta, eps, mu)
        X, E, L = x.X, x.E, x.L

        def post(v):
            if not isnum(v):
                raise Unsupported('result')
            v = rv(v)
            if fname == 'grand_potential0':
                scaled, spec = v*beta, X - L
            else:
                scaled, spec = v*beta*beta, (L - X) + X/(1 + E)
            # eliminate the energy difference: emm = X / beta
            w = z3.Real('W')
            sub = [(eps, mu + X/beta)]
            sc = z3.substitute(z3.substitute(scaled, (x.term, X)), *sub)
            sc = scale_out(sc, beta, mu, X)
            x.need('relative error below 1e-8', z3.And((sc - spec)*10**8 <= zabs(spec), (spec - sc)*10**8 <= zabs(spec)))
        p.run(lambda: p.it.call(p.it.get(M, fname), [beta, eps, mu], {}), post)
    return body


def scale_out(t, beta, mu, X):
    """The scaled result does not depend on beta and mu separately: checked by z3, then
    evaluated at beta = 1, mu = 0."""
    b2, m2 = z3.RealVal(1), z3.RealVal(0)
    u = z3.substitute(t, (beta, b2), (mu, m2))
    s = z3.Solver()
    s.set('timeout', 10000)
    s.add(beta > 0, t != u)
    if s.check() != z3.unsat:
        return t
    return z3.simplify(u)


# -- vectors

def vec_body(fname, scalars):
    """Each returned vector applies the named scalar function to each element of its
    energy vector."""
    def body(p):
        beta, mu = z3.Real('beta'), z3.Real('mu')
        F = {s: z3.Function(s, z3.RealSort(), z3.RealSort(), z3.RealSort(), z3.RealSort())
             for s in ('fermi_function', 'vfermi_function', 'grand_potential0', 'dgrand_potential0')}

        def stub(f):
            def g(it, env):
                vals = [env.get(k) for k in ('beta', 'epsilon', 'mu')]
                if any(v is None or not isnum(v) for v in vals):
                    vals = list(env.values())[:3]
                if any(not isnum(v) for v in vals):
                    return NotImplemented
                return f(*[rv(v) for v in vals])
            return g
        for s, f in F.items():
            p.it.stubs[M + '.' + s] = stub(f)
        arrs = []
        for j, s in enumerate(scalars):
            n = p.int('n%d' % j, 0)
            arrs.append((n,) + p.reals('e%d' % j, n))
        orig = [(a.k0, a.expr) for _, a, _ in arrs]

        def post(v):
            vs = v if isinstance(v, tuple) else (v,)
            p.need('post', 'number of vectors', len(vs) == len(arrs))
            if len(vs) != len(arrs):
                return
            for j, (r, s, (n, a, f)) in enumerate(zip(vs, scalars, arrs)):
                p.pointwise('post', 'element of vector %d' % j, r, n, lambda k: F[s](beta, f(k), mu))
                p.unchanged('energies %d' % j, a, *orig[j])
                p.need('frame', 'new vector %d' % j, all(r is not a2 for _, a2, _ in arrs))
        p.run(lambda: p.it.call(p.it.get(M, fname), [beta] + [a for _, a, _ in arrs] + [mu], {}), post)
    return body


# -- real code

def dec_ref(beta, eps, mu):
    """x, occupation, complement, grand potential and derivative with 60 digits."""
    with localcontext() as c:
        c.prec = 60
        c.Emin, c.Emax = -10**9, 10**9
        b, d = Decimal(beta), Decimal(eps) - Decimal(mu)
        x = b*d
        E = x.exp() if abs(x) < 10**7 else None
        if E is None:
            return x, None
        f, v = 1/(1 + E), E/(1 + E)
        if b == 0:
            return x, (f, v, None, None)
        y = 1/E
        if y < Decimal('1e-25'):
            l2 = y - y*y/2
        elif E < Decimal('1e-25'):
            l2 = E - E*E/2 - x
        else:
            l2 = (1 + y).ln()
        gp = -l2/b
        # with the leading terms cancelled where the occupation is close to one
        dg = (E - E*E/2 - x*v)/(b*b) if E < Decimal('1e-25') else l2/(b*b) + d*f/b
        return x, (f, v, gp, dg)


def points(cf):
    """Arguments spread over magnitudes, with the switch-over points and given x."""
    import random
    rng = random.Random(cf['seed'])
    out = []
    xs = [0.0, 1e-12, -1e-12]
    for t in (5, 10, 15, 18, 19, 20, 21, 25, 29, 30, 31, 35, 36, 37, 40, 100, 300, 690, 705, 720, 800, 5000):
        for s in (1, -1):
            for d in (0, 1e-9, -1e-9, 0.3, -0.4):
                xs.append(s*t + d)
    xs += [s*10**rng.uniform(-9, 0.5) for s in (1, -1) for _ in range(15)]
    for t in cf.get('near', ()):
        for s in (1, -1):
            xs += [s*t*d for d in (1, 1 + 1e-9, 1 - 1e-9, 0.97, 1.03, rng.uniform(0, 1), rng.uniform(1, 2))]
    fx = (cf.get('fixed') or {}).get('x')
    if fx is not None and abs(fx) < 1e6:
        xs += [fx, fx*0.999, fx*1.001, fx + 0.01, fx - 0.01]
    xs += [rng.uniform(-45, 45) for _ in range(60)] + [rng.uniform(-800, 800) for _ in range(20)]
    for x in xs:
        beta = rng.choice([1.0, rng.uniform(0.01, 50), 10**rng.uniform(-4, 4)])
        mu = rng.choice([0.0, 0.0, rng.uniform(-2, 2), rng.choice([-1, 1])*10**rng.uniform(0, 9)/beta])
        eps = mu + x/beta
        out.append((beta, eps, mu))
    return out


def ft_configs(name):
    def cfg(rng, j, fixed):
        near = sorted(abs(x) for x in loader.numbers(M + '.' + name) if 0 < abs(x) < 800)
        return {'seed': rng.randrange(10**6), 'fixed': fixed or {}, 'near': near[:20]}
    return cfg


def scalar_concrete(which):
    names = ['fermi_function', 'vfermi_function', 'grand_potential0', 'dgrand_potential0']
    idx = names.index(which)

    def run(cf):
        import warnings
        import numpy
        m = real()
        f = getattr(m, which)
        u = Decimal(2)**-52
        for beta, eps, mu in points(cf):
            sets = [(beta, eps, mu)]
            if idx < 2:
                sets.append((-beta, eps, mu))
            for b, e, q in sets:
                x, ref = dec_ref(b, e, q)
                with warnings.catch_warnings():
                    warnings.simplefilter('error')
                    try:
                        with numpy.errstate(over='raise', invalid='raise', divide='raise', under='ignore'):
                            v = float(f(b, e, q))
                    except (FloatingPointError, RuntimeWarning, OverflowError) as ex:
                        return [('post', 'no overflow', 'x=%s: %r' % (float(x), ex))]
                w = ref[idx]
                d = abs(Decimal(e) - Decimal(q))
                if idx < 2:
                    tol = Decimal('1e-12')*w + Decimal('1e-300')
                    if not 0 <= v <= 1:
                        return [('post', 'between 0 and 1', 'x=%s gave %r' % (float(x), v))]
                else:
                    # beyond |x| = 36 the rounding of the energy difference is larger than the result
                    tol = 64*u*(d + 1/Decimal(b)) if abs(x) < 36 else Decimal('1e-290')*(1 + 1/Decimal(b))
                    tol = Decimal('1e-8')*abs(w) + (tol if idx == 2 else tol/Decimal(b))
                if v != v or abs(Decimal(v) - w) > tol:
                    return [('post', 'accuracy', 'beta=%r epsilon=%r mu=%r gave %r, expected %r' % (b, e, q, v, float(w)))]
        return []
    return run


def sum_concrete(cf):
    m = real()
    for beta, eps, mu in points(cf):
        for b in (beta, -beta):
            s = m.fermi_function(b, eps, mu) + m.vfermi_function(b, eps, mu)
            if not abs(s - 1) <= 1e-12:
                return [('post', 'sum', 'beta=%r epsilon=%r mu=%r gave %r' % (b, eps, mu, s))]
    return []


def vec_configs(rng, j, fixed):
    few = [0, 1, 2, 3, 5, 9] if j % 3 == 0 else [3, 9, 24] if j % 3 == 1 else [2, 5, 40, 70, 300]
    return {'sizes': [(fixed or {}).get('n%d' % k, rng.choice(few)) for k in range(2)],
            'seed': rng.randrange(10**6), 'integer': j % 3 == 2, 'close': j % 3 == 1, 'gap': j//3}


def vec_concrete(fname, scalars):
    def run(cf):
        import numpy
        import random
        m = real()
        rng = random.Random(cf['seed'])
        es = [numpy.array([rng.choice([rng.uniform(-2, 2), rng.uniform(-80, 80), float(rng.randrange(-3, 4))])
                           for _ in range(cf['sizes'][k])]) for k in range(len(scalars))]
        if cf.get('integer'):
            es = [numpy.array([rng.randrange(-4, 5) for _ in e], dtype=int) for e in es]
        beta, mu = rng.choice([1.0, rng.uniform(0.1, 20)]), rng.uniform(-1, 1)
        if cf.get('close'):
            # levels close to one another, to those of the other spin and to mu
            gap = [1e-4, 1e-12, 0.0, 1e-9, 1e-6, 1e-2][cf['gap'] % 6]
            if 0 < gap < 1e-6:
                beta = 1000.0
            base = [rng.choice([mu, 0.0, rng.uniform(-2, 2), mu + rng.uniform(-5, 5)/beta]) for _ in range(12)]
            if rng.random() < 0.5:
                base = sorted(base)
            es = [numpy.array([base[i % max(1, min(12, len(e)//2))] + gap*rng.uniform(-1, 1) for i in range(len(e))]) for e in es]
        keep = [e.copy() for e in es]
        rtol = 1e-12 if 'fermi' in scalars[0] else 1e-8
        call = lambda: getattr(m, fname)(beta, *(es + [mu]))
        earlier(call, *es)
        r = call()
        r = r if isinstance(r, tuple) else (r,)
        if len(r) != len(es):
            return [('post', 'number of vectors', fname)]
        for v, e, k, s in zip(r, es, keep, scalars):
            if not numpy.array_equal(e, k):
                return [('frame', 'energies', fname)]
            want = numpy.array([getattr(m, s)(beta, x, mu) for x in e])
            if v is e or v.shape != e.shape or not numpy.allclose(v, want, rtol=rtol, atol=1e-300):
                return [('post', 'elements', '%s beta=%r mu=%r energies=%s' % (fname, beta, mu, list(e)))]
        return []
    return run


def U_scalar(name, body, log=None):
    return E2Unit(name, [M + '.' + name], body, ft_configs(name), scalar_concrete(name), maxsize=float('inf'))


def U_vec(name, scalars):
    return E2Unit(name, [M + '.' + name], vec_body(name, scalars), vec_configs, vec_concrete(name, scalars))


def P17(log):
    return [U_scalar('fermi_function', fermi_body('fermi_function')), U_scalar('vfermi_function', fermi_body('vfermi_function')),
            E2Unit('occupation plus complement', [M + '.fermi_function', M + '.vfermi_function'], sum_body, ft_configs('fermi_function'), sum_concrete,
                   maxsize=float('inf')),
            U_vec('ff', ['fermi_function']), U_vec('ffv', ['vfermi_function'])]


def P18(log):
    return [U_scalar(f, gp_body(f)) for f in ('grand_potential0', 'dgrand_potential0')] + [
        U_vec('GP0', ['grand_potential0']), U_vec('uGP0', ['grand_potential0']*2), U_vec('dGP0', ['dgrand_potential0'])]
