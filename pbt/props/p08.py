"""P08: shipped materials describe their data sets; derived properties agree.
"""
from cerberus import ValidationError
from hypothesis import strategies as st

from auxi.modelling.process.materials.core import Material
from auxi.tools.materialphysicalproperties import gases as G
from auxi.tools.materialphysicalproperties import liquids as L
from auxi.tools.materialphysicalproperties.core import StateOfMatter as S
from pbt import physref as P
from pbt.core import Facet, close, raises, req, same

RULE = ('non-trivial: a property of a shipped material between two rows of its '
        'data set, or a derived property of an own material.')
ASSUMPTIONS = ['shipped models may deviate from the data by the tolerance '
               'listed, 1.5 times what they do at the pinned commit, and '
               'between two rows by as much outside the values of these, and by '
               '0.3 times what the data varies around them']
SETS = {'Air': ('air', 'dataset-air-lienhard2018'),
        'Ar': ('argon', 'dataset-argon-lienhard2018'),
        'NH3': ('ammonia', 'dataset-ammonia-lienhard2018'),
        'CO2': ('carbon_dioxide', 'dataset-carbon-dioxide-lienhard2018'),
        'CO': ('carbon_monoxide', 'dataset-carbon-monoxide-lienhard2018'),
        'N2': ('nitrogen', 'dataset-nitrogen-lienhard2018'),
        'O2': ('oxygen', 'dataset-oxygen-lienhard2018'),
        'H2O': ('water_vapour', 'dataset-water-vapour-lienhard2018')}
TOL = {'Air': dict(rho=.032, Cp=.002, mu=.01, k=.01, nu=.035, alpha=.055),
       'Ar': dict(rho=.011, Cp=.002, mu=.006, k=.005, nu=.02, alpha=.016),
       'NH3': dict(rho=.002, Cp=.002, mu=.005, k=.003, nu=.006, alpha=.004),
       'CO2': dict(rho=.002, Cp=.003, mu=.002, k=.008, nu=.003, alpha=.008),
       'CO': dict(rho=.003, Cp=.002, mu=.005, k=.005, nu=.006, alpha=.006),
       'N2': dict(rho=.031, Cp=.006, mu=.024, k=.043, nu=.056, alpha=.073),
       'O2': dict(rho=.037, Cp=.003, mu=.012, k=.022, nu=.047, alpha=.058),
       'H2O': dict(rho=.024, Cp=.003, mu=.002, k=.004, nu=.024, alpha=.021),
       'water': dict(rho=.002, Cp=.003, mu=.014, k=.002, nu=.014,
                     alpha=.009, beta=.05)}
# gases described as ideal ones at 101325 Pa, and their molar masses [g/mol]
IDEAL = {'Air': 28.9645, 'Ar': 39.948, 'CO': 28.0101, 'N2': 28.01348,
         'O2': 31.9988, 'H2O': 18.01528}


def get(key):
    if key == 'water':
        return L.h2o, L.h2o_dataset
    a, n = SETS[key]
    same(G.materials[key] is getattr(G, a), True, 'table of gases')
    return getattr(G, a), getattr(G, a + '_datasets')[n]


@st.composite
def shipped(draw):
    k = draw(st.sampled_from(sorted(TOL)))
    return {'material': k, 'prop': draw(st.sampled_from(sorted(TOL[k]))),
            'row': draw(st.integers(0, 60)),
            'u': draw(st.one_of(P.fl(0.0, 1.0), st.sampled_from([0.0, 1.0]))),
            'out': draw(P.logfl(1e-3, 1e4))}


def check_shipped(case):
    key, prop = case['material'], case['prop']
    m, ds = get(key)
    rows = sorted(zip((float(t) for t in ds.data['T']),
                      (float(v) for v in ds.data[prop])))
    i = case['row'] % (len(rows) - 1)
    (t1, v1), (t2, v2) = rows[i], rows[i + 1]
    T = t1 + case['u'] * (t2 - t1)
    T = min(max(T, t1), t2)
    tol = TOL[key][prop]
    got = getattr(m, prop)(T=T)
    lo, hi = min(v1, v2), max(v1, v2)
    near = [v for _, v in rows[max(0, i - 1):i + 3]]
    slack = 0.3 * (max(near) - min(near)) if 0 < case['u'] < 1 else 0.0
    pad = tol * max(abs(lo), abs(hi)) + slack
    req(lo - pad <= got <= hi + pad, '%s of %s at %r K is %r, data %r to %r',
        prop, key, T, got, v1, v2)
    if case['u'] in (0.0, 1.0):
        v = v2 if case['u'] else v1
        close(got, v, '%s of %s at %r K' % (prop, key, T), rel=tol)
    close(m.nu(T=T), m.mu(T=T) / m.rho(T=T), 'kinematic viscosity',
          rel=1e-9 if key != 'water' else 0.03)
    close(m.alpha(T=T), m.k(T=T) / m.rho(T=T) / m.Cp(T=T),
          'thermal diffusivity')
    if key != 'water':
        close(m.beta(T=T), 1 / T, 'thermal expansion coefficient')
    same(m.name, ds.material, 'name of the material')
    if prop in ('Cp', 'mu', 'k') or key in ('NH3', 'CO2') and prop == 'rho':
        f = getattr(m, prop)
        same((f.material, f.symbol, f.datasets), (ds.material, prop, [ds.name]),
             'what the model of %s describes' % prop)
        if key != 'water':
            same((f.property, f.units), (ds.names_dict[prop],
                                         ds.units_dict[prop]),
                 'property and units of %s' % prop)
    if key in IDEAL:
        close(m.rho(T=T) * 8.314462618 * T, IDEAL[key] / 1000 * 101325.0,
              'density of an ideal gas of %r g/mol at %r K' % (IDEAL[key], T),
              rel=1e-5)
    same(m.mstate, S.liquid if key == 'water' else S.gas, 'state of matter')
    for q in ('Cp', 'mu', 'k'):
        raises('%s above the data' % q, ValidationError, getattr(m, q),
               T=rows[-1][0] + case['out'])
        raises('%s below the data' % q, ValidationError, getattr(m, q),
               T=rows[0][0] - case['out'])
    return '%s %s' % (key, prop)


PROPS = ['alpha', 'beta', 'Cp', 'k', 'mu', 'nu', 'rho']


class Prop:
    def __init__(self, c):
        self.c = c
        self.asked = []

    def __call__(self, **state):
        self.asked.append(dict(state))
        return self.c * sum(state.values())


@st.composite
def own(draw):
    return {'models': draw(st.dictionaries(st.sampled_from(PROPS),
                                           P.logfl(1e-6, 1e6), max_size=7)),
            'none': draw(st.booleans()),
            'state': draw(st.dictionaries(st.sampled_from(['T', 'P', 'a']),
                                          P.fl(1.0, 1000.0), min_size=1)),
            'mstate': draw(st.sampled_from([s.name for s in S]))}


def check_own(case):
    ms = {k: Prop(v) for k, v in case['models'].items()}
    arg = None if case['none'] and not ms else ms
    m = Material('Stuff', S[case['mstate']], arg, 'about')
    other = Material('Other', S.gas, {'rho': Prop(3.0)})
    same((m.name, m.description, m.mstate),
         ('Stuff', 'about', S[case['mstate']]), 'attributes')
    s = case['state']
    t = sum(s.values())
    c = case['models']
    for p in PROPS:
        fn = getattr(m, p)
        if p in c:
            close(fn(**s), c[p] * t, p)
        elif p == 'nu' and {'mu', 'rho'} <= set(c):
            close(fn(**s), c['mu'] / c['rho'], p)
        elif p == 'alpha' and {'k', 'rho', 'Cp'} <= set(c):
            close(fn(**s), c['k'] / c['rho'] / c['Cp'] / t, p)
        else:
            raises(p + ' without a model', NotImplementedError, fn, **s)
    for p, q in ms.items():
        for a in q.asked:
            same(a, s, 'state passed to the model of ' + p)
    close(other.rho(**s), 3.0 * t, 'density of another material')
    raises('Cp of another material', NotImplementedError, other.Cp, **s)
    return 'own ' + ('nu ' if 'nu' not in c else '') + \
        ('alpha' if 'alpha' not in c else '') if len(c) > 1 else None


BITS = {'solid': 1, 'liquid': 2, 'gas': 4, 'plasma': 8}


def check_states(case):
    names = sorted(case['names'], key=BITS.get)
    v = sum(BITS[n] for n in names)
    try:
        s = S['_'.join(names)] if names else S.unknown
    except KeyError:
        return None
    same(s.value, v, 'value of %s' % names)
    return '_'.join(names)


FACETS = [
    Facet('shipped', shipped(), check_shipped, quick=2100, thorough=15000),
    Facet('own', own(), check_own, quick=900, thorough=5000),
    Facet('states', st.fixed_dictionaries({'names': st.lists(
        st.sampled_from(sorted(BITS)), unique=True)}), check_states,
        quick=40, thorough=100),
]
