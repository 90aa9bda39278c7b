"""P04: gas mixture properties follow their mixing rules."""
from hypothesis import strategies as st

from auxi.tools.materialphysicalproperties import gases as G
from pbt import physref as P
from pbt.core import Facet, close, req, same

RULE = 'non-trivial: a mixture of at least two gases.'
ASSUMPTIONS = ['the mixture is of compounds; Air, which is in the table of '
               'gases, is a mixture itself and has no formula',
               'temperatures in the range common to the gas models']
MODELS = {'wilke': (G.WilkeMuTx, 'mu', P.wilke),
          'herning': (G.HerningZippererMuTx, 'mu', P.herning),
          'cp': (G.IdealCpTx, 'Cp', P.mixture_cp)}
MAT = {'Ar': 'argon', 'NH3': 'ammonia', 'CO2': 'carbon_dioxide',
       'CO': 'carbon_monoxide', 'N2': 'nitrogen', 'O2': 'oxygen',
       'H2O': 'water_vapour'}
# [K] ranges of the data sets
RANGE = {'Ar': (150, 700), 'NH3': (240, 473), 'CO2': (220, 600),
         'CO': (250, 1000), 'N2': (100, 1600), 'O2': (100, 1000),
         'H2O': (373.15, 1073.15)}


@st.composite
def cases(draw):
    x = draw(P.composition(sorted(MAT), max_size=7))
    lo = max(RANGE[k][0] for k in x)
    hi = min(RANGE[k][1] for k in x)
    return {'model': draw(st.sampled_from(sorted(MODELS))),
            'x': x, 'T': draw(P.fl(lo, hi)),
            'scale': draw(P.logfl(1e-3, 1e3)),
            'other': draw(st.dictionaries(st.sampled_from(
                ['SO2', 'dust', 'H2', 'tar']), P.fl(0.0, 1.0), max_size=2)),
            'seq': draw(st.lists(st.tuples(st.one_of(
                P.fl(lo, hi), st.sampled_from([float(lo), float(hi)])),
                st.booleans()).map(
                list), max_size=4)),
            'perm': draw(st.integers(0, 719))}


def check(case):
    cls, sym, ref = MODELS[case['model']]
    m, T, x = cls(), case['T'], case['x']
    pure = {k: getattr(getattr(G, MAT[k]), sym)(T=T) for k in x}
    t = sum(x.values())
    live = {k: v / t for k, v in x.items()}
    want = ref(live, pure)
    kept = dict(x)
    got = m(T=T, x=x)
    close(got, want, 'property of the mixture')
    same(x, kept, 'composition afterwards')
    close(m(T=T, x={k: v * case['scale'] for k, v in x.items()}), want,
          'composition not normalised')
    ks = list(x)
    k = case['perm'] % len(ks)
    close(m(T=T, x={c: x[c] for c in ks[k:] + ks[:k]}), want,
          'compounds in another order')
    more = dict(x, **case['other'])
    close(m(T=T, x=more), want, 'with compounds that are not described')
    same(more, dict(x, **case['other']), 'composition of more afterwards')
    for c in ks:
        close(m(T=T, x={c: 0.3}), pure[c], 'property of pure ' + c)
        close(getattr(G.materials[c], sym)(T=T), pure[c], c + ' in the table')
    for T2, mix in case['seq']:
        # the same model at other states
        c2 = x if mix else {ks[-1]: 1.0}
        p2 = {k: getattr(getattr(G, MAT[k]), sym)(T=T2) for k in c2}
        t2 = sum(c2.values())
        close(m(T=T2, x=c2), ref({k: v / t2 for k, v in c2.items()}, p2),
              'property at another state')
    close(m(T=T, x=x), want, 'property, asked again')
    if case['model'] != 'wilke':
        used = [pure[c] for c in ks if x[c] > 0]
        req(min(used) * (1 - 1e-9) <= got <= max(used) * (1 + 1e-9),
            'the property %r is not between those of the gases %r', got, used)
    same(m.symbol, sym, 'symbol')
    return '%s %d' % (case['model'], len(x)) if len(x) > 1 else None


FACETS = [Facet('mixture', cases(), check, quick=1200, thorough=20000)]
