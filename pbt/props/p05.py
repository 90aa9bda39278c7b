"""P05: slag viscosities follow the Urbain and Riboud models."""
from hypothesis import strategies as st

from auxi.tools.materialphysicalproperties import slags as S
from pbt import physref as P
from pbt.core import Facet, close, req, same

RULE = 'non-trivial: a slag of at least three compounds.'
ASSUMPTIONS = [
    'slags of the Urbain model contain a modifier or amphoteric oxide: the '
    'model is not defined without', 'the coefficients are those the modules '
    'have at the pinned commit']
URBAIN = ['SiO2', 'P2O5', 'CaO', 'MgO', 'Na2O', 'K2O', 'CaF2', 'FeO', 'MnO',
          'TiO2', 'ZrO2', 'Al2O3', 'Fe2O3', 'B2O3']
RIBOUD = sorted(P.RIBOUD) + sorted(P.DOUBLE)
RIB_Y = [c for c in RIBOUD if '.' not in c]


@st.composite
def cases(draw):
    model = draw(st.sampled_from(['urbain', 'riboud']))
    mass = draw(st.booleans())
    if model == 'urbain':
        x = draw(P.composition(URBAIN, max_size=9))
        if not any(x.get(c, 0.0) for c in URBAIN[2:]):
            x[draw(st.sampled_from(URBAIN[2:]))] = draw(P.fl(0.05, 1.0))
        if draw(st.booleans()):
            x['Cr2O3'] = draw(P.fl(0.0, 0.2))
    else:
        x = draw(P.composition(RIB_Y if mass else RIBOUD, max_size=9))
        if draw(st.booleans()):
            x['Cr2O3'] = draw(P.fl(0.0, 0.2))
    return {'model': model, 'mass': mass, 'x': x,
            'T': draw(P.fl(600.0, 4500.0)),
            'seq': draw(st.lists(P.fl(600.0, 4500.0), max_size=3)), 'f': draw(P.logfl(1e-2, 1e2))}


def check(case):
    T, x = case['T'], case['x']
    urb = case['model'] == 'urbain'
    ref = P.urbain if urb else P.riboud
    if case['mass']:
        m = S.UrbainViscosityTy() if urb else S.RiboudViscosityTy()
        want = ref(T, P.amounts(x))
        tx = S.UrbainViscosityTx() if urb else S.RiboudViscosityTx()
        close(tx(T=T, x=P.amounts(x)), want,
              'viscosity from mole fractions', rel=1e-8)

        def mu(T, x):
            return m(T=T, y=x)
    else:
        m = S.UrbainViscosityTx() if urb else S.RiboudViscosityTx()
        want = ref(T, x)

        def mu(T, x):
            return m(T=T, x=x)
    kept = dict(x)
    close(mu(T, x), want, 'viscosity', rel=1e-8)
    same(x, kept, 'composition afterwards')
    for T2 in case['seq']:
        w2 = ref(T2, P.amounts(x) if case['mass'] else x)
        close(mu(T2, x), w2, 'viscosity at another temperature', rel=1e-8)
        y = dict(x, CaO=x.get('CaO', 0.0) + 0.2)
        w2 = ref(T2, P.amounts(y) if case['mass'] else y)
        close(mu(T2, y), w2, 'viscosity of another slag', rel=1e-8)
    close(mu(T, x), want, 'viscosity, asked again', rel=1e-8)
    close(mu(T, {k: v * case['f'] for k, v in x.items()}), want,
          'composition not normalised', rel=1e-8)
    close(mu(T, dict(reversed(list(x.items())))), want,
          'compounds in another order', rel=1e-8)
    close(mu(T, dict(x, NaCl=0.0)), want, 'with a compound not present',
          rel=1e-8)
    if not urb and not case['mass']:
        y = {}
        for k, v in x.items():
            n, v = (P.DOUBLE[k], 2 * v) if k in P.DOUBLE else (k, v)
            y[n] = y.get(n, 0.0) + v
        close(mu(T, y), want, 'as single cation oxides', rel=1e-8)
    same((m.symbol, m.units), ('mu', 'Pa.s'), 'symbol and units')
    req(want > 0, 'reference viscosity %r', want)
    return '%s %s %d' % (case['model'], 'mass' if case['mass'] else 'mole',
                         len(x)) if len(x) > 2 else None


FACETS = [Facet('slag', cases(), check, quick=2400, thorough=20000)]
