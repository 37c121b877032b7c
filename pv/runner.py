"""Decide one property: discharge the contracts, cross-check on the real code, write
evidence, print the verdict.

Exit 0: held.  Exit 1: VIOLATION line printed.  Exit 2: the check itself failed.
"""
import json
import os
import shutil
import signal
import sys
import time
import traceback
from . import contract as ct
from . import symnp, loader

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class E1Unit(object):
    """A contract on array code."""
    engine = 'symbolic arrays'
    bounded = None

    def __init__(self, c, kinds=('post',), checks=None, role='public', world=None, bounded=None):
        if bounded:
            self.bounded = bounded
        self.c, self.kinds, self.role = c, kinds, role
        self.checks = checks or kinds
        self.name = c.name
        self.world = world or c.world
        self.funcs = ['%s.%s' % (c.module, c.func)]

    def prove(self, stubs=None):
        o = ct.verify(self.c, stubs=stubs, kinds=self.kinds, world=self.world)
        if 'integer' not in self.c.styles or o.status != 'proved':
            return o
        # the same for arrays of which one, all but one or all have integer elements
        labels = [lab for lab in dict.fromkeys(o.labels)]
        sets = [labels] + [[x] for x in labels if len(labels) > 1]
        sets += [[y for y in labels if y != x] for x in labels if len(labels) > 2]
        if 'post' not in self.kinds:
            sets = sets[:1]
        for ints in sets:
            t = ct.verify(self.c, stubs=stubs, kinds=self.kinds, world=self.world, integers=ints)
            for x in t.obligations:
                x.path = ' and '.join([y for y in (x.path,) if y] + ['integer ' + ', '.join(ints)])
            o.obligations += t.obligations
            o.paths += t.paths
            o.hints += [h for h in t.hints if h not in o.hints]
            o.opaque = o.opaque or t.opaque
            if t.status != 'proved':
                o.status, o.reason = t.status, t.reason
                break
        return o

    def configs(self, seed, count, fixed=None):
        return ct.configs(self.c, seed, count, fixed)

    def wide(self, seed):
        return ct.wide_configs(self.c, seed, loader.literals(self.funcs[0]))

    def hinted(self, seed, hints):
        return ct.hinted_configs(self.c, seed, hints)

    def concrete(self, config):
        bad = ct.run_concrete(self.c, config, self.checks)
        if 'post' not in self.checks:
            # a frame property says nothing about a call that raises
            bad = [b for b in bad if b[0] in self.checks]
        return bad


class Suite(object):
    """What decides a property."""
    def __init__(self, prop, units, helpers=None, level='proof', assumptions=(), trusted=(), log=None):
        self.prop, self.units, self.helpers = prop, units, helpers or []
        self.level = level
        self.assumptions = list(assumptions)
        self.trusted = list(trusted)
        self.log = log if log is not None else {}


BASE_TRUST = [
    'CPython executes the unchanged source text of /repo; only the modules it imports are replaced (pv/loader.py)',
    'pv/symnp.py models the numpy operations used (extents, views, in-place writes, casts); cross-checked against real numpy on every run',
    'pv/poly.py normal form of tensor polynomials (index renaming, declared symmetries, rational coefficients)',
    'z3 4.x (python binding)',
]
FLOAT = 'real arithmetic: floating-point rounding is outside the contract; literals such as 0.5 are read as the rationals they denote'


def known_findings():
    p = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if line and line.startswith('{'):
                    out.append(json.loads(line))
    return out


def is_known(prop, unit, label):
    for k in known_findings():
        if k.get('property') == prop and k.get('unit') == unit and k.get('label') in (None, label):
            return k
    return None


def feasible_size(dims):
    """Can a call with these extents be run for real?"""
    n = max(dims.values()) if dims else 0
    return n <= 24


class TimeUp(BaseException):
    pass


def limited(seconds, fn, *args):
    """fn(*args), given up with TimeUp after so many seconds."""
    def ring(sig, frame):
        raise TimeUp()
    old = signal.signal(signal.SIGALRM, ring)
    signal.setitimer(signal.ITIMER_REAL, max(seconds, 0.01))
    try:
        return fn(*args)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


# seconds: one call of the real code, one symbolic execution, all symbolic executions
# and searches of a check
RUN_S, PROVE_S, TOTAL_S = 60, 240, 560


class Clock(object):
    def __init__(self, thorough):
        self.t0 = time.time()
        self.total = TOTAL_S*(4 if thorough else 1)
        self.slow = 0

    def left(self):
        return self.total - (time.time() - self.t0)

    def prove(self, u, *stubs):
        left = self.left()
        o = None
        if left > 5:
            try:
                o = limited(min(PROVE_S, left), u.prove, *stubs)
            except TimeUp:
                pass
        if o is None:
            o = ct.Outcome(u)
            o.status, o.reason = 'unsupported', 'time limit'
        return o

    def concrete(self, u, cf):
        """Failures of one call; a call that takes too long is no failure."""
        if self.slow > 3:
            return []
        try:
            return limited(RUN_S, u.concrete, cf)
        except TimeUp:
            self.slow += 1
            return []


def decide(suite, tier, seed):
    t0 = time.time()
    thorough = tier == 'thorough'
    clock = Clock(thorough)
    nbat = 24 if thorough else 6
    rep = {'functions': set(), 'obligations': 0, 'discharged': 0, 'by_backend': {}, 'bounded': [], 'paths': 0,
           'shape_checks': 0, 'runs': 0, 'helpers_in_line': [], 'spurious': [], 'nonzero': 0, 'units': 0}
    violations, known = [], []
    stubs = {}
    for h in suite.helpers:
        # helpers are listed callee first
        layered = stubs and h.engine == 'interpreter'
        o = clock.prove(h, stubs) if layered else clock.prove(h)
        if layered and o.status != 'proved':
            o = clock.prove(h)
        rep['paths'] += o.paths
        if o.status == 'proved':
            rep['functions'].update(h.funcs)
            if not any(u.funcs[0] == h.funcs[0] for u in suite.units):
                _count(rep, o)
            stubs[h.funcs[0]] = h.stub
        else:
            rep['helpers_in_line'].append(h.name + ': ' + (o.reason or str((o.failed() or [''])[0])[:200]))
    for u in suite.units:
        rep['units'] += 1
        bad = None
        cfgs = u.configs(seed, nbat)
        for cf in cfgs:
            b = clock.concrete(u, cf)
            rep['runs'] += 1
            if b:
                bad = (cf, b)
                break
        o = clock.prove(u, stubs) if stubs else clock.prove(u)
        if o.status != 'proved' and stubs:
            first, o = o, clock.prove(u)
            if o.status == 'unsupported' and first.status == 'failed':
                # the failure seen through the contracts still says where to look
                o = first
                o.opaque = True
            elif o.status == 'unsupported' and first.reason:
                o.reason = first.reason
        rep['paths'] += o.paths
        rep['shape_checks'] += o.shape_checks
        if bad is None and o.status == 'proved':
            if not o.obligations:
                raise RuntimeError('no obligations for ' + u.name)
            if u.bounded:
                rep['bounded'].append('%s: %s' % (u.name, u.bounded))
                continue
            rep['functions'].update(u.funcs)
            rep['nonzero'] += o.nonzero
            _count(rep, o)
            continue
        if bad is None and o.status == 'failed':
            # look for an input on the real code that shows the failure
            dims = [x.dims for x in o.failed() if x.dims]
            feasible = getattr(u, 'feasible', feasible_size)
            big = [d for d in dims if not feasible(d)]
            tries = []
            for d in dims[:8]:
                if feasible(d):
                    tries += u.configs(seed + 1, 12, fixed=d)
            tries += u.hinted(seed + 5, o.hints) if getattr(o, 'hints', None) and hasattr(u, 'hinted') else []
            tries += u.configs(seed + 2, 60 if not thorough else 200)
            tries += u.wide(seed + 4) if hasattr(u, 'wide') else []
            t1 = time.time()
            for cf in tries:
                if time.time() - t1 > min(240, max(2, clock.left())):
                    break
                b = clock.concrete(u, cf)
                rep['runs'] += 1
                if b:
                    bad = (cf, b)
                    break
            if bad is None:
                f = o.failed()[0]
                if not o.opaque and (big or getattr(u, 'exact', False)):
                    violations.append((u, None, f, o))
                    continue
                rep['spurious'].append('%s: %s' % (u.name, str(f)[:300]))
                rep['bounded'].append('%s: symbolic obligation not confirmed by any of %d runs of the real code'
                                      % (u.name, len(tries) + len(cfgs)))
                continue
        if bad is None:         # unsupported
            more = u.hinted(seed + 5, o.hints) if getattr(o, 'hints', None) and hasattr(u, 'hinted') else []
            more += u.configs(seed + 3, 40 if not thorough else 200)
            more += u.wide(seed + 4) if hasattr(u, 'wide') else []
            t1 = time.time()
            done = 0
            for cf in more:
                if time.time() - t1 > min(120, max(2, clock.left())):
                    break
                b = clock.concrete(u, cf)
                rep['runs'] += 1
                done += 1
                if b:
                    bad = (cf, b)
                    break
            if bad is None:
                rep['bounded'].append('%s: out of reach (%s); %d runs of the real code against the same postcondition'
                                      % (u.name, o.reason, done + len(cfgs)))
                continue
        k = is_known(suite.prop, u.name, bad[1][0][1])
        if k:
            known.append(k)
            continue
        violations.append((u, bad, None, o))
    return rep, violations, known, time.time() - t0


def _count(rep, o):
    for x in o.obligations:
        rep['obligations'] += 1
        if x.ok:
            rep['discharged'] += 1
            be = getattr(x, 'backend', None) or ('z3 (linear real arithmetic over normal forms)' if x.detail == 'unsat'
                                                 else 'engine (path, extent and frame conditions)')
            rep['by_backend'][be] = rep['by_backend'].get(be, 0) + 1


def write_replay(suite, n, v):
    d = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%d.json' % (suite.prop, n))
    u, bad, ob, o = v
    doc = {'property': suite.prop, 'unit': u.name, 'functions': u.funcs,
           'rerun': 'cd %s && /opt/venv/bin/python -m pv.replay %s' % (VERIF, path)}
    if bad is not None:
        cf, b = bad
        doc.update(config=cf, failures=[{'kind': x[0], 'what': x[1], 'detail': str(x[2])} for x in b[:10]])
    if ob is not None:
        doc.update(obligation=repr(ob), path=ob.path, verifier=ob.detail)
    elif o is not None and o.failed():
        doc.update(obligation=repr(o.failed()[0])[:2000])
    with open(path, 'w') as f:
        json.dump(doc, f, indent=1, default=str)
        f.write('\n')
    return path


def main(prop, suite_fn):
    seed = int(os.environ.get('VERIF_SEED', '0') or 0)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = time.time()
    try:
        rd = os.path.join(VERIF, 'evidence', 'replay')
        if os.path.isdir(rd):
            for fn in os.listdir(rd):
                if fn.startswith(prop + '-'):
                    os.remove(os.path.join(rd, fn))
        symnp._z3()
        suite = suite_fn()
        rep, violations, known, _ = decide(suite, tier, seed)
    except Exception:
        traceback.print_exc()
        print('ERROR property=%s the check could not be completed' % prop)
        return 2
    level = suite.level
    if rep['obligations'] == 0 and not violations:
        level = 'other'
    cov = {
        'obligations': rep['obligations'], 'discharged': rep['discharged'],
        'checker_cmd': 'cd /verif && VERIF_SEED=%d VERIF_TIER=%s /opt/venv/bin/python -m pv.check %s' % (seed, tier, prop),
        'trusted_base': suite.trusted,
        'functions_under_contract': sorted(rep['functions']),
        'discharged_by': rep['by_backend'],
        'solver_s': round(symnp.Z3STAT['time'] + ct.LINSTAT['time'], 3),
        'solver_queries': symnp.Z3STAT['queries'] + ct.LINSTAT['queries'],
        'symbolic_paths': rep['paths'], 'extent_conditions': rep['shape_checks'],
        'postconditions_nonzero': rep['nonzero'],
        'real_code_runs': rep['runs'],
        'bounded': rep['bounded'],
    }
    if rep['helpers_in_line']:
        cov['helpers_executed_in_line'] = rep['helpers_in_line']
    if suite.log:
        cov['calls_through_contracts'] = dict(suite.log)
    if level == 'other':
        cov['explanation'] = 'no obligation could be discharged symbolically on this tree; bounded runs only'
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': suite.assumptions, 'wall_s': round(time.time() - t0, 3), 'violations': len(violations)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k.get('what', k.get('unit'))))
    for n, v in enumerate(violations):
        path = write_replay(suite, n, v)
        u, bad, ob, o = v
        if bad is not None:
            print('%s: %s %s: %s' % (u.name, bad[1][0][0], bad[1][0][1], bad[1][0][2]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        else:
            print('%s: %r' % (u.name, ob))
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
    if violations:
        return 1
    print('%s held: %d obligations discharged on %d functions, %d bounded, %d runs of the real code, %.1fs'
          % (prop, rep['discharged'], len(rep['functions']), len(rep['bounded']), rep['runs'], time.time() - t0))
    for b in rep['bounded']:
        print('bounded: ' + b)
    return 0
