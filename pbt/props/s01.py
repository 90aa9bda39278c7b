"""S01: composition and molar mass of chemical formulas."""
from hypothesis import strategies as st

from auxi.tools.chemistry import stoichiometry as S
from pbt import formula as F
from pbt.atomic import MASS
from pbt.core import Facet, Violation, close, req, same

RULE = ('a generated formula counts as non-trivial when it nests a group, '
        'repeats an element, has a hydrate part or a phase, or (rejection '
        'facet) when it is one edit away from a valid formula.')
ASSUMPTIONS = [
    'formula strings are ASCII; multipliers are at most 300',
    'the atomic masses of pbt/atomic.py are the ones the library documents']


def label(f, counts):
    lab = []
    if any(k == 'g' for k, _, _ in f['parts']):
        lab.append('group')
    if f['dot'] is not None:
        lab.append('hydrate')
    if f['phase'] is not None:
        lab.append('phase')
    return '+'.join(lab) or None


def check_compose(case):
    f = case['formula']
    pad = case['pad']
    s = F.text(f)
    counts = F.count(f)
    expected = F.mass_of(counts)
    close(S.molar_mass(pad[0] + s + pad[1]), expected,
          'molar mass of %r' % s, 1e-11)
    for e in list(counts) + case['others']:
        n = counts.get(e, 0)
        close(S.stoichiometry_coefficient(s, e), n,
              'coefficient of %s in %r' % (e, s), 1e-12)
        if expected > 0:
            close(S.element_mass_fraction(s, e), n * MASS[e] / expected,
                  'mass fraction of %s in %r' % (e, s), 1e-11)
    es = case['others'] + sorted(counts) + case['others']
    got = S.stoichiometry_coefficients(pad[0] + s + pad[1], es)
    same([float(x) for x in got], [float(counts.get(e, 0)) for e in es],
         'coefficients of %s in %r' % (es, s))
    if expected > 0:
        fr = S.element_mass_fractions(s, es)
        same(len(fr), len(es), 'number of mass fractions')
        for x, e in zip(fr, es):
            close(x, counts.get(e, 0) * MASS[e] / expected,
                  'mass fractions[%s] of %r' % (e, s), 1e-11)
        every = sorted(counts)
        close(sum(S.element_mass_fractions(s, every)), 1.0,
              'sum of the element mass fractions of %r' % s, 1e-11)
    # asking again gives the same answer (results are not shared state)
    same(S.stoichiometry_coefficients(s, es), got, 'second evaluation')
    got = set(S.elements([s]))
    present = {e for e, n in counts.items() if n > 0}
    req(present <= got and got <= set(counts), 'elements of %r: %r', s, got)
    return label(f, counts)


def check_algebra(case):
    """Metamorphic: concatenation adds, grouping multiplies, order and phase
    do not matter."""
    a = dict(case['a'], dot=None, phase=None)
    b = dict(case['b'], dot=None, phase=None)
    n = case['n']
    ta, tb = F.text(a), F.text(b)
    ma, mb = S.molar_mass(ta), S.molar_mass(tb)
    close(S.molar_mass('(%s)(%s)' % (ta, tb)), ma + mb, 'concatenation', 1e-11)
    close(S.molar_mass(ta + tb if tb[0] == '(' or tb[0].isupper() else ta),
          ma + mb, 'juxtaposition', 1e-11)
    close(S.molar_mass('(%s)%d' % (ta, n)), n * ma, 'multiplier of %s' % ta,
          1e-11)
    close(S.molar_mass('%s.%d%s' % (ta, n, tb)), ma + n * mb,
          'hydrate %s.%d%s' % (ta, n, tb), 1e-11)
    close(S.molar_mass('%s.%s[X1]' % (ta, tb)), ma + mb,
          'hydrate with phase', 1e-11)
    close(S.molar_mass(tb + ta), ma + mb, 'order', 1e-11)
    close(S.molar_mass(ta + '[S1]'), ma, 'phase', 1e-11)
    union = set(S.elements([ta, tb + '[L]', ta]))
    ca, cb = F.count(a), F.count(b)
    same(union, set(ca) | set(cb), 'elements of %s and %s' % (ta, tb))
    return 'algebra' if len(ta) + len(tb) > 4 else None


def check_reject(case):
    """An arbitrary string is either a formula (then its composition is that
    of the independent parser) or is rejected."""
    s = case['s']
    try:
        counts = F.parse(s.strip())
    except F.Bad:
        counts = None
    if not s.strip():
        # nothing to weigh
        if s == '':
            close(S.molar_mass(s), 0.0, 'molar mass of nothing')
            close(S.molar_mass(None), 0.0, 'molar mass of None')
        return None
    try:
        got = S.molar_mass(s)
    except Exception:
        req(counts is None, 'valid formula %r was rejected', s)
        try:
            S.stoichiometry_coefficient(s, 'O')
            raise Violation('%r accepted for coefficients only' % s)
        except Violation:
            raise
        except Exception:
            return 'rejected'
    req(counts is not None, 'invalid formula %r was accepted: %r', s, got)
    close(got, F.mass_of(counts), 'molar mass of %r' % s, 1e-11)
    for e, n in counts.items():
        close(S.stoichiometry_coefficient(s, e), n, 'count of %s in %r'
              % (e, s))
    return 'accepted'


def check_element(case):
    """Every element of the periodic table the library offers."""
    e = case['e']
    n = case['n']
    close(S.molar_mass(e), MASS[e], 'molar mass of element %s' % e, 1e-12)
    close(S.molar_mass('%s%d' % (e, n)), n * MASS[e], 'molar mass of %s%d'
          % (e, n), 1e-12)
    close(S.element_mass_fraction(e, e), 1.0, 'mass fraction of itself')
    same(set(S.elements([e + 'O2'])), {e, 'O'}, 'elements')
    return e


def edit(draw):
    pass


@st.composite
def mutated(draw):
    s = F.text(draw(F.formulas(0, 2)))
    k = draw(st.integers(0, 3))
    for _ in range(k):
        i = draw(st.integers(0, len(s)))
        op = draw(st.integers(0, 2))
        c = draw(st.sampled_from('()[].0123456789HOFeSixaQz -'))
        if op == 0:
            s = s[:i] + c + s[i:]
        elif op == 1:
            s = s[:i] + s[i + 1:]
        else:
            s = s[:i] + c + s[i + 1:]
    return {'s': s}


FACETS = [
    Facet('compose', st.fixed_dictionaries({
        'formula': F.formulas(0, 3),
        'pad': st.lists(st.sampled_from(['', ' ', '  ', '\t']), min_size=2,
                        max_size=2),
        'others': st.lists(F.element, max_size=4)}),
        check_compose, quick=1200, thorough=30000),
    Facet('algebra', st.fixed_dictionaries({
        'a': F.formulas(1, 2, False, False),
        'b': F.formulas(1, 2, False, False),
        'n': st.integers(0, 40)}), check_algebra, quick=600, thorough=15000),
    Facet('reject', st.one_of(
        mutated(), mutated(),
        st.fixed_dictionaries({'s': st.text('()[].0123456789HOFeSiQ a',
                                            max_size=12)})),
        check_reject, quick=1200, thorough=30000),
    Facet('element', st.fixed_dictionaries({
        'e': st.sampled_from(list(MASS)), 'n': st.integers(1, 999)}),
        check_element, quick=500, thorough=3000,
        examples=[{'e': e, 'n': 1} for e in MASS]),
]
