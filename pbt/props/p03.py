"""P03: ideal gas properties follow the ideal gas law."""
from hypothesis import strategies as st

from auxi.tools.materialphysicalproperties import idealgas as I
from pbt import formula as F
from pbt import physref as P
from pbt.core import Facet, close, same

RULE = ('non-trivial: at least two compounds, and a temperature and pressure '
        'other than standard.')
ASSUMPTIONS = ['temperatures above 0 K']
GASES = ['N2', 'O2', 'CO', 'CO2', 'H2O', 'Ar', 'NH3', 'H2', 'CH4', 'SO2',
         'C2H6', 'He', 'Zn', 'H2S', 'C(CH3)4', 'CO2[G]', 'H2O[G1]']


@st.composite
def states(draw):
    return {'T': draw(st.one_of(P.fl(0.5, 5000.0), st.sampled_from(
        [273.15, 298.15, 293.15]))),
        'P': draw(P.logfl(1e-3, 1e9)),
        'f': draw(P.fl(0.1, 10.0)),
        'x': draw(P.composition(GASES, total=1.0)),
        'seq': draw(st.lists(st.tuples(
            st.sampled_from([1.0, 0.1, 0.4, 0.7, 2.0, 20.0]),
            st.sampled_from([1.0, 1.0, 0.01, 3.0])).map(list), max_size=5)),
        'own': draw(st.one_of(st.none(), F.formulas(1, 1, False, False)))}


def check(case):
    T, p, f = case['T'], case['P'], case['f']
    x = dict(case['x'])
    if case['own']:
        x = {k: v / 2 for k, v in x.items()}
        k = F.text(case['own'])
        x[k] = x.get(k, 0.0) + 0.5
    # composition of compounds, on a per mole basis
    mm = sum(v * P.M(k) for k, v in x.items())
    want = mm / 1000 * p / (P.R * T)
    kept = dict(x)
    got = I.RhoTPx()(T=T, P=p, x=x)
    close(got, want, 'density of the mixture')
    same(x, kept, 'composition afterwards')
    close(I.RhoTPx()(T=T, P=p, x=dict(reversed(list(x.items())))), want,
          'density, compounds listed in another order')
    tp = I.RhoTP(mm)
    close(tp(T=T, P=p), want, 'density at T and P')
    rt = I.RhoT(mm, p)
    close(rt(T=T), want, 'density at T')
    close(tp(T=T, P=p * f), want * f, 'density at another pressure')
    close(tp(T=T * f, P=p), want / f, 'density at another temperature')
    close(rt(T=T * f), want / f, 'density at another temperature')
    close(I.RhoT(mm * f, p)(T=T), want * f, 'density of another gas')
    same([I.RhoT(mm, 0.0)(T=T), tp(T=T, P=0.0), I.RhoTPx()(T=T, P=0.0, x=x)],
         [0.0] * 3, 'densities in a vacuum')
    # one model for many states, in any order
    txp, b = I.RhoTPx(), I.BetaT()
    for i, (a, q) in enumerate([[1.0, 1.0]] + case['seq'] + [[1.0, 1.0]]):
        what = ' of state %d of a sequence' % i
        close(tp(T=T * a, P=p * q), want * q / a, 'RhoTP density' + what)
        close(rt(T=T * a), want / a, 'RhoT density' + what)
        close(txp(T=T * a, P=p * q, x=x), want * q / a,
              'RhoTPx density' + what)
        one = next(iter(x))
        close(txp(T=T * a, P=p * q, x={one: 1.0}),
              P.M(one) / 1000 * p * q / (P.R * T * a),
              'density of one gas' + what)
        close(b(T=T * a), 1 / T / a, 'expansion coefficient' + what)
    close(I.BetaT()(T=T), 1 / T, 'thermal expansion coefficient')
    # beta is -d(ln rho)/dT
    h = 1e-4 * T
    close(-(rt(T=T + h) - rt(T=T - h)) / (2 * h) / rt(T=T), I.BetaT()(T=T),
          'thermal expansion from the density', rel=1e-6)
    for m, s, u in ((rt, 'rho', 'kg/m3'), (tp, 'rho', 'kg/m3'),
                    (I.BetaT(), 'beta', '1/K')):
        same((m.symbol, m.units), (s, u), 'symbol and units')
    return 'n %d' % len(x) if len(x) > 1 else None


FACETS = [Facet('state', states(), check, quick=1800, thorough=20000)]
