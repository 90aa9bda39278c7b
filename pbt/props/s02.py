"""S02: amount/mass conversion and element-based compound conversion."""
import copy

from hypothesis import strategies as st

from auxi.tools.chemistry import stoichiometry as S
from pbt import formula as F
from pbt.atomic import MASS
from pbt.core import Facet, close, req, same

RULE = ('non-trivial: a quantity that is not 0 and (conversion) a source and '
        'target that are different compounds sharing the element, or '
        '(mixtures) at least two compounds.')
ASSUMPTIONS = ['quantities are finite, between 0 and 1e9',
               'compounds have a positive molar mass']

qty = st.one_of(st.sampled_from([0.0, 1.0, 1e-9, 2.5]),
                st.floats(0, 1e9, allow_nan=False).map(
                    lambda v: v if v > 1e-200 else 0.0),
                st.floats(1e-6, 1e3, allow_nan=False),
                st.integers(0, 1000))
comp = F.formulas(1, 2)
mixture = st.lists(st.tuples(comp, qty), min_size=1, max_size=6)


def check_amount(case):
    f, q = case['formula'], case['q']
    s = F.text(f)
    mm = F.mass_of(F.count(f))
    n = S.amount(s, q)
    m = S.mass(s, q)
    close(n, q / mm, 'amount of %r kg %s' % (q, s), 1e-11, 1e-300)
    close(m, q * mm, 'mass of %r kmol %s' % (q, s), 1e-11, 1e-300)
    close(S.mass(s, n), q, 'mass(amount(m)) of %s' % s, 1e-11, 1e-300)
    close(S.amount(s, m), q, 'amount(mass(n)) of %s' % s, 1e-11, 1e-300)
    close(S.mass(s, -q), -m, 'mass is odd', 1e-11, 1e-300)
    return 'amount' if q else None


def check_mixture(case):
    d = {}
    mm = {}
    for f, q in case['mix']:
        s = F.text(f)
        d[s] = q
        mm[s] = F.mass_of(F.count(f))
    before = copy.deepcopy(d)
    am = S.amounts(d)
    ms = S.masses(d)
    same(set(am), set(d), 'compounds of amounts()')
    same(set(ms), set(d), 'compounds of masses()')
    for s, q in d.items():
        close(am[s], q / mm[s], 'amounts[%s]' % s, 1e-11, 1e-300)
        close(ms[s], q * mm[s], 'masses[%s]' % s, 1e-11, 1e-300)
    back = S.masses(am)
    for s, q in d.items():
        close(back[s], q, 'masses(amounts)[%s]' % s, 1e-11, 1e-300)
    same(d, before, 'the given dictionary')
    req(am is not d and ms is not d, 'the result is the given dictionary')
    if sum(d.values()) > 0:
        na = sum(q / mm[s] for s, q in d.items())
        nm = sum(q * mm[s] for s, q in d.items())
        x = S.amount_fractions(d)
        w = S.mass_fractions(d)
        same(set(x), set(d), 'compounds of amount_fractions()')
        same(set(w), set(d), 'compounds of mass_fractions()')
        close(sum(x.values()), 1.0, 'sum of amount fractions')
        close(sum(w.values()), 1.0, 'sum of mass fractions')
        for s, q in d.items():
            close(x[s], q / mm[s] / na, 'amount fraction of %s' % s)
            close(w[s], q * mm[s] / nm, 'mass fraction of %s' % s)
        # amount fractions of masses -> mass fractions of those amounts
        w2 = S.mass_fractions(x)
        tot = sum(d.values())
        for s, q in d.items():
            close(w2[s], q / tot, 'mass fraction recovered for %s' % s, 1e-8)
        same(d, before, 'the given dictionary')
    return 'mixture' if len(d) > 1 and sum(1 for q in d.values() if q) > 1 \
        else None


def check_convert(case):
    a, b, q = case['a'], case['b'], case['q']
    e = case['e']
    ca, cb = F.count(a), F.count(b)
    shared = sorted(set(ca) & set(cb))
    if case['share'] and shared:
        e = shared[case['pick'] % len(shared)]
    elif case['share']:
        e = sorted(ca)[case['pick'] % len(ca)]
    sa, sb = F.text(a), F.text(b)
    ma, mb = F.mass_of(ca), F.mass_of(cb)
    # the same compounds on every element, in turn and back again
    for o in shared + shared[::-1]:
        if cb[o]:
            close(S.convert_compound(q, sa, sb, o),
                  q * (ca[o] / ma) * (mb / cb[o]),
                  'conversion of %r kg %s to %s on %s, in turn'
                  % (q, sa, sb, o), 1e-10, 1e-300)
    r = S.convert_compound(q, sa, sb, e)
    if cb.get(e, 0) == 0:
        close(r, 0.0, 'conversion of %s to %s, which has no %s' % (sa, sb, e))
        return 'target without element' if q else None
    # the element's mass is conserved
    expected = q * (ca.get(e, 0) / ma) * (mb / cb[e])
    close(r, expected, 'conversion of %r kg %s to %s on %s' % (q, sa, sb, e),
          1e-10, 1e-300)
    close(r * S.element_mass_fraction(sb, e),
          q * S.element_mass_fraction(sa, e), 'mass of %s' % e, 1e-10, 1e-300)
    if ca.get(e, 0):
        close(S.convert_compound(r, sb, sa, e), q,
              'there and back again: %s, %s on %s' % (sa, sb, e), 1e-10,
              1e-300)
        close(S.convert_compound(q, sa, sa, e), q, 'identity conversion',
              1e-12, 1e-300)
        # through the pure element
        close(S.convert_compound(S.convert_compound(q, sa, e, e), e, sb, e),
              r, 'conversion through the element', 1e-10, 1e-300)
    return 'convert' if q and sa != sb and ca.get(e, 0) else None


shared = st.sampled_from([
    ['Fe2O3', 'Fe3O4', 'FeO', 'Fe', 'FeSO4.7H2O', 'Fe2(SO4)3', 'FeTiO3'],
    ['CaCO3', 'CaO', 'Ca(OH)2', 'CaSO4.2H2O', 'Ca3(PO4)2', 'Ca'],
    ['SiO2', 'Si', 'SiC', 'MgSiO3', 'Al2Si2O5(OH)4', 'CaSiO3'],
    ['H2O', 'O2', 'CO2', 'CO', 'Al2O3', 'Al(OH)3']])


def check_series(case):
    """Conversions along a chain of real compounds, phases ignored."""
    base, i, j, k, q, ph = (case[x] for x in 'bijkqp')
    n = len(base)
    a, b, c = base[i % n], base[j % n], base[k % n]
    e = {'Fe2O3': 'Fe', 'CaCO3': 'Ca', 'SiO2': 'Si', 'H2O': 'O'}[base[0]]
    ab = S.convert_compound(q, a, b, e)
    ca, cb = F.parse(a), F.parse(b)
    close(ab, q * ca[e] / F.mass_of(ca) * F.mass_of(cb) / cb[e],
          '%r kg %s as %s' % (q, a, b), 1e-10, 1e-300)
    close(S.convert_compound(ab, b, c, e), S.convert_compound(q, a, c, e),
          'chain %s -> %s -> %s' % (a, b, c), 1e-10, 1e-300)
    close(S.convert_compound(q, a + '[%s]' % ph, b + '[%s]' % ph, e), ab,
          'phases in %s -> %s' % (a, b), 1e-12, 1e-300)
    close(S.convert_compound(2 * q, a, b, e), 2 * ab, 'linearity', 1e-11,
          1e-300)
    return 'series' if q and len({a, b, c}) > 1 else None


small = st.sampled_from(['Fe', 'O', 'Si', 'S', 'H', 'C', 'Ca', 'Cl'])
poor = st.fixed_dictionaries({
    'parts': st.lists(st.tuples(st.just('e'), small, F.numbers(1)).map(list),
                      min_size=1, max_size=3),
    'dot': st.one_of(st.none(), st.tuples(F.numbers(1), st.just(
        [['e', 'H', 2], ['e', 'O', None]])).map(list)),
    'phase': F.phase})

FACETS = [
    Facet('amount', st.fixed_dictionaries({'formula': comp, 'q': qty}),
          check_amount, quick=1000, thorough=15000),
    Facet('mixture', st.fixed_dictionaries({'mix': mixture}), check_mixture,
          quick=1000, thorough=15000),
    Facet('convert', st.fixed_dictionaries({
        'a': st.one_of(poor, comp), 'b': st.one_of(poor, comp), 'q': qty,
        'e': st.one_of(small, F.element), 'share': st.sampled_from([True, True, True, False]),
        'pick': st.integers(0, 5)}),
        check_convert, quick=1800, thorough=25000),
    Facet('series', st.fixed_dictionaries({
        'b': shared, 'i': st.integers(0, 6), 'j': st.integers(0, 6),
        'k': st.integers(0, 6), 'q': qty, 'p': st.sampled_from(
            ['S1', 'L', 'G', 'X2'])}), check_series, quick=1000,
        thorough=8000),
]
