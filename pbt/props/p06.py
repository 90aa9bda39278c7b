"""P06: heat capacity and enthalpy of coal agree with each other."""
from hypothesis import strategies as st

from auxi.tools.materialphysicalproperties import coals as C
from pbt import physref as P
from pbt.core import Facet, close, req, same

RULE = 'non-trivial: coal of at least two elements.'
ASSUMPTIONS = ['mass fractions add up to one', 'temperatures from 150 K: '
               'below, the enthalpy vanishes in double precision differences']


@st.composite
def cases(draw):
    y = draw(P.composition(list('CHONS'), max_size=5, total=1.0))
    return {'y': dict({c: 0.0 for c in 'CHONS'}, **y),
            'y2': draw(P.composition(list('CHONS'), max_size=5, total=1.0)),
            'T': draw(P.fl(150.0, 5000.0)), 'T2': draw(P.fl(150.0, 5000.0))}


def check(case):
    y = {k: min(v, 1.0) for k, v in case['y'].items()}
    kw = {'y_' + k: v for k, v in y.items()}
    cp, h = C.DafCpTy(), C.DafHTy()
    T, T2 = case['T'], case['T2']
    close(cp(T=T, **kw), P.coal_Cp(T, y), 'heat capacity')
    close(h(T=T, **kw), P.coal_H(T, y), 'enthalpy')
    # the same models for another coal and temperature
    z = {k: min(case['y2'].get(k, 0.0), 1.0) for k in 'CHONS'}
    for yy, t in ((z, T), (z, T2), (y, T2), (y, T)):
        kk = {'y_' + k: v for k, v in yy.items()}
        close(cp(T=t, **kk), P.coal_Cp(t, yy), 'heat capacity, in turn')
        close(h(T=t, **kk), P.coal_H(t, yy), 'enthalpy, in turn')
    d = 1e-3 * T
    close((h(T=T + d, **kw) - h(T=T - d, **kw)) / (2 * d), cp(T=T, **kw),
          'heat capacity from the enthalpy', rel=1e-4)
    lo, hi = sorted([T, T2])
    dh = h(T=hi, **kw) - h(T=lo, **kw)
    ref = P.coal_H(hi, y)
    req(cp(T=lo, **kw) * (hi - lo) * (1 - 1e-9) - 1e-9 * ref <= dh <=
        cp(T=hi, **kw) * (hi - lo) * (1 + 1e-9) + 1e-9 * ref,
        'the enthalpy rises by %r from %r to %r K, not as the heat capacity',
        dh, lo, hi)
    # Dulong and Petit: 3R per mole of atoms
    lim = 3 * P.R / (P.coal_a(y) / 1000)
    req(0 < cp(T=T, **kw) < lim, 'heat capacity %r above its limit %r',
        cp(T=T, **kw), lim)
    same((cp.symbol, cp.units, h.symbol, h.units),
         ('Cp', 'J/kg/K', 'H', 'J/kg'), 'symbols and units')
    n = sum(1 for v in y.values() if v)
    return 'n %d' % n if n > 1 else None


FACETS = [Facet('coal', cases(), check, quick=1800, thorough=20000)]
