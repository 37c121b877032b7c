"""Which contracts decide which property."""
from .runner import E1Unit, Suite, BASE_TRUST, FLOAT

WICK = 'pv/wick.py derives the expected expressions from exp(-T) H exp(T) by Wick\'s theorem; compared with a brute-force Fock-space evaluation by pv/selftest.py'
SPIN = 'pv/spin.py spin integration of the spin-orbital expressions'
EINSUM = 'pyscf.lib.einsum computes the same contraction as numpy.einsum'


class HelperUnit(E1Unit):
    def __init__(self, h, log):
        E1Unit.__init__(self, h.contract(), ('post', 'frame'))
        self.stub = h.stub(log)


def helpers(prop, log):
    from . import cchelp
    t = cchelp.table()
    return [HelperUnit(t[n], log) for n in cchelp.USES.get(prop, ())]


def cc_suite(prop, extra_trust=()):
    def make():
        from . import cc
        log = {}
        units = [E1Unit(c, ('post',)) for c in getattr(cc, prop)()]
        return Suite(prop, units, helpers(prop, log), assumptions=[FLOAT, EINSUM],
                     trusted=BASE_TRUST + [WICK] + list(extra_trust), log=log)
    return make


AO2MO = ('the external integral engine returns sum G a* b c* d over the orbitals it is given (pv/ints.py); for molecules '
         'this is exercised on the installed engine in each run')


def block_suite(prop):
    def make():
        from . import blocks
        return Suite(prop, [E1Unit(c, ('post',)) for c in getattr(blocks, prop)()], assumptions=[FLOAT],
                     trusted=BASE_TRUST)
    return make


def int_suite(prop):
    def make():
        from . import ints
        units = [E1Unit(c, ('post',)) for c in getattr(ints, prop)()]
        if prop == 'P19':
            from . import kint
            units += kint.units()
        return Suite(prop, units, assumptions=[FLOAT, AO2MO], trusted=BASE_TRUST + (E2_TRUST[:2] if prop == 'P19' else []))
    return make


def frame_suite():
    from . import cc, blocks, ints, cchelp, kint
    log = {}
    cs = []
    for p in ('P01', 'P02', 'P03', 'P04', 'P05', 'P06', 'P07'):
        cs += getattr(cc, p)()
    for p in ('P09', 'P10', 'P11'):
        cs += [c for c in getattr(blocks, p)() if c.raises is None and 'round trip' not in c.name]
    cs += [c for c in ints.P19() if 'anti=False' not in c.name]
    cs += [c for c in ints.P20() if c.name.endswith('default')]
    t = cchelp.table()
    hs = [HelperUnit(t[n], log) for n in sorted(set(sum((list(cchelp.USES[p]) for p in cchelp.USES), [])))]
    return Suite('P08', [E1Unit(c, ('frame', 'fresh')) for c in cs] + kint.units(('frame',)), hs, assumptions=[FLOAT, EINSUM, AO2MO],
                 trusted=BASE_TRUST, log=log)


E2_TRUST = [
    'pv/e2.py interprets the syntax tree of the unchanged source text of /repo (parsed on each run); cross-checked against CPython by pv/selftest.py and on the real code in each run',
    'generic-iteration rule for loops: one arbitrary iteration is executed and its effects are quantified over the range; anything the rule does not cover is reported as out of reach',
    'prefix-sum lemmas of pv/e2.py (additivity, bounds, monotonicity, point update, position of the k-th set bit)',
    'z3 4.x (python binding)',
]
ORACLE = 'the concrete oracles in pv/ci.py and pv/ft.py used to replay counterexamples'
INTS = 'python integers are unbounded; occupation arrays hold 0 and 1 as preconditions of the contracts state'


def ci_suite(prop, mod='ci', assumptions=(INTS,), trusted=()):
    def make():
        import importlib
        m = importlib.import_module('pv.' + mod)
        log = {}
        hs = getattr(m, prop + '_helpers', None)
        return Suite(prop, getattr(m, prop)(log), hs(log) if hs else [], assumptions=list(assumptions),
                     trusted=E2_TRUST + [ORACLE] + list(trusted), log=log)
    return make


SLATER = 'the Slater-Condon rules (elements between determinants with 0, 1, 2 or more moved electrons); compared with the action of the operators in Fock space in each run'
COUNT = 'induction over the natural numbers for the count of occupied orbitals (its base and step are discharged in each run)'
LOOKUP = 'list.index returns the position of the equal element of a list without duplicates, or raises ValueError (determinant equality is under contract in P12)'
EXP = 'exp and log enter through exact identities and rational bounds at the thresholds of the code (pv/ft.py)'
FTFLOAT = 'accuracy is proved in real arithmetic; the floating-point evaluation is only sampled against 60-digit references'

E2_TECH = 'contracts on the real source; interpreter with symbolic sizes and quantified loop effects, z3'
E2_NOTE = ('All obligations are discharged for all sizes and all inputs meeting the precondition from the current source on each run; '
           'assumes the interpreter and its loop rule, cross-checked on the real code each run.')
FT_NOTE = ('Accuracy obligations are discharged in real arithmetic for all arguments from the current source on each run; '
           'floating-point rounding is sampled, not proved.')
TECH = {p: (E2_TECH, E2_NOTE) for p in ('P12', 'P13', 'P14', 'P15', 'P16', 'P22')}
TECH.update({p: ('contracts on the real source; per-path nonlinear real arithmetic (z3) with bounds for exp and log', FT_NOTE)
             for p in ('P17', 'P18')})

SUITES = {
    'P01': cc_suite('P01'), 'P02': cc_suite('P02', [SPIN]), 'P03': cc_suite('P03'), 'P04': cc_suite('P04', [SPIN]),
    'P05': cc_suite('P05'), 'P06': cc_suite('P06', [SPIN]), 'P07': cc_suite('P07', [SPIN]),
    'P08': frame_suite,
    'P09': block_suite('P09'), 'P10': block_suite('P10'), 'P11': block_suite('P11'), 'P21': block_suite('P21'),
    'P19': int_suite('P19'), 'P20': int_suite('P20'),
    'P12': ci_suite('P12'), 'P13': ci_suite('P13'), 'P22': ci_suite('P22'),
    'P14': ci_suite('P14', 'ciamp', [INTS, FLOAT], [COUNT, LOOKUP]),
    'P15': ci_suite('P15', 'ciham', [INTS, FLOAT], [SLATER]), 'P16': ci_suite('P16', 'ciham', [INTS, FLOAT], [LOOKUP]),
    'P17': ci_suite('P17', 'ft', [FTFLOAT], [EXP]), 'P18': ci_suite('P18', 'ft', [FTFLOAT], [EXP]),
}
