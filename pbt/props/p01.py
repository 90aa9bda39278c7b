"""P01: property models evaluate valid states only."""
import os

from cerberus import ValidationError
from hypothesis import strategies as st

from auxi.tools.materialphysicalproperties import coals, gases, idealgas, slags
from auxi.tools.materialphysicalproperties.core import Model
from auxi.tools.materialphysicalproperties.polynomial import PolynomialModelT
from pbt import physref as P
from pbt.core import Facet, close, raises, req, same, scratch_dir

RULE = ('non-trivial: a state that the schema of the model does not allow was '
        'offered next to one that it allows.')
ASSUMPTIONS = [
    'a temperature of exactly 0 K is allowed by the schemas, but not '
    'evaluated', 'integers in place of floats are not offered: whether they '
    'are floats depends on the version of cerberus']

T = ('float', 0.0, None)
PX = {'T': T, 'x': ('dict',)}
TY = {'T': T, 'y': ('dict',)}
COAL = dict({'y_' + e: ('float', 0.0, 1.0) for e in 'CHONS'}, T=T)
MODELS = {
    'BetaT': (idealgas.BetaT, {'T': T}),
    'RhoT': (lambda: idealgas.RhoT(28.9, 1e5), {'T': T}),
    'RhoTP': (lambda: idealgas.RhoTP(28.9), {'T': T, 'P': T}),
    'RhoTPx': (idealgas.RhoTPx, dict(PX, P=T)),
    'WilkeMuTx': (gases.WilkeMuTx, PX),
    'HerningZippererMuTx': (gases.HerningZippererMuTx, PX),
    'IdealCpTx': (gases.IdealCpTx, PX),
    'UrbainViscosityTx': (slags.UrbainViscosityTx, PX),
    'UrbainViscosityTy': (slags.UrbainViscosityTy, TY),
    'RiboudViscosityTx': (slags.RiboudViscosityTx, PX),
    'RiboudViscosityTy': (slags.RiboudViscosityTy, TY),
    'DafCpTy': (coals.DafCpTy, COAL),
    'DafHTy': (coals.DafHTy, COAL),
}
GAS = ['N2', 'O2', 'CO', 'CO2']
SLAG = ['SiO2', 'CaO', 'MgO', 'Al2O3', 'FeO', 'Fe2O3', 'B2O3', 'P2O5']
WRONG = {'float': [None, 'hot', '300', [300.0], {'T': 300.0}, '', 'nan'],
         'dict': [None, 'SiO2', 1.0, ['N2', 1.0], [('N2', 1.0)], '']}


@st.composite
def value(draw, name, kind, slag):
    if kind[0] == 'dict':
        if slag:
            x = draw(P.composition(SLAG, zeros=False))
            x['CaO'] = 1.0
            return x
        return draw(P.composition(GAS, zeros=False))
    if name == 'P':
        return draw(P.fl(1.0, 1e7))
    if name.startswith('y_'):
        return draw(P.fl(0.01, 1.0))
    return draw(P.fl(300.0, 600.0))


@st.composite
def broken(draw, schema, valid):
    s = dict(valid)
    name = draw(st.sampled_from(sorted(schema)))
    kind = schema[name]
    how = draw(st.sampled_from(['drop', 'extra', 'type', 'range']))
    if how == 'drop':
        del s[name]
    elif how == 'extra':
        name = draw(st.sampled_from([n for n in ['P', 'x', 'y', 'T', 't',
                                                 'y_A', 'Tx']
                                     if n not in schema]))
        s[name] = draw(st.sampled_from([1.0, 300.0, None, {'N2': 1.0}]))
    elif how == 'range' and kind[0] == 'float':
        if kind[2] is not None and draw(st.booleans()):
            s[name] = kind[2] + draw(P.logfl(1e-6, 1e6))
        else:
            s[name] = kind[1] - draw(P.logfl(1e-6, 1e6))
    else:
        s[name] = draw(st.sampled_from(WRONG[kind[0]]))
    return [name, s]


@st.composite
def shipped(draw):
    n = draw(st.sampled_from(sorted(MODELS)))
    schema = MODELS[n][1]
    valid = {k: draw(value(k, v, 'Visc' in n)) for k, v in schema.items()}
    return {'model': n, 'valid': valid, 'bad': draw(st.lists(
        broken(schema, valid), min_size=1, max_size=4)),
        'reread': draw(st.booleans())}


def try_bad(m, bad, before, valid):
    for name, s in bad:
        copy = {k: dict(v) if isinstance(v, dict) else v
                for k, v in s.items()}
        for fn in (m, m.calculate):
            e = raises('%s of state %r' % (type(m).__name__, s),
                       ValidationError, fn, **s)
            req(str(name) in str(e), 'the message %r does not name %s', str(e),
                name)
        same(s, copy, 'rejected state afterwards')
        same(m(**valid), before, 'property after a rejected state')


def check_shipped(case):
    m = MODELS[case['model']][0]()
    valid = case['valid']
    copy = {k: dict(v) if isinstance(v, dict) else v
            for k, v in valid.items()}
    before = m(**valid)
    req(isinstance(before, float) and before > 0, 'property %r', before)
    same(m.calculate(**valid), before, 'calculate against calling')
    same(valid, copy, 'state afterwards')
    try_bad(m, case['bad'], before, valid)
    if case['reread']:
        with scratch_dir() as d:
            p = os.path.join(d, 'm.json')
            m.write(p)
            m2 = type(m).read(p)
        same(type(m2), type(m), 'type read')
        for a in ['material', 'property', 'symbol', 'display_symbol', 'units',
                  'references', 'datasets', 'state_schema']:
            same(getattr(m2, a), getattr(m, a), a + ' read')
        close(m2(**valid), before, 'property of the model read', rel=1e-13)
        try_bad(m2, case['bad'], before, valid)
    return case['model']


class Own(Model):
    def calculate(self, **state):
        super().calculate(**state)
        return sum(v for v in state.values() if isinstance(v, float))


class Own2(Own):
    pass


@st.composite
def own(draw):
    names = draw(st.lists(st.sampled_from(['T', 'P', 'x', 'y', 'rho', 'v',
                                           'theta']),
                          min_size=1, max_size=4, unique=True))
    schema = {}
    for n in names:
        if draw(st.integers(0, 3)) == 0:
            schema[n] = ['dict', None, None]
        else:
            lo = draw(P.fl(-500.0, 1000.0))
            schema[n] = ['float', lo, lo + draw(st.one_of(P.fl(1.0, 1e4),
                                                          P.fl(1.0, 10.0)))]
    valid = {}
    for n, (k, lo, hi) in schema.items():
        valid[n] = {'N2': 1.0} if k == 'dict' else draw(
            st.one_of(P.fl(lo, hi), st.sampled_from([lo, hi])))
    return {'schema': schema, 'valid': valid, 'bad': draw(st.lists(
        broken({k: tuple(v) for k, v in schema.items()}, valid), min_size=1,
        max_size=4)),
        'poly': draw(st.booleans())}


def check_own(case):
    sch = {}
    for n, (k, lo, hi) in case['schema'].items():
        sch[n] = {'type': k, 'required': True}
        if k == 'float':
            sch[n].update(min=lo, max=hi)
    m = Own('Stuff', 'Property', 's', 's', 'kg', sch, ['ref'], None)
    other = Own2('Other', 'Property', 's', 's', 'kg', {
        'q': {'type': 'float', 'required': True}}, None, None)
    want = sum(v for v in case['valid'].values() if isinstance(v, float))
    same(m(**case['valid']), want, 'property')
    try_bad(m, case['bad'], want, case['valid'])
    same(other(q=2.0), 2.0, 'property of another model')
    raises('another model', ValidationError, other, **case['valid'])
    e = raises('rejection', ValidationError, m, **case['bad'][0][1])
    req('Stuff' in str(e), 'the message does not name the material: %s', e)
    return 'own %d' % len(sch)


@st.composite
def limits(draw):
    lo = draw(P.fl(1.0, 1000.0))
    return {'lo': lo, 'width': draw(P.fl(1.0, 2000.0)),
            'n': draw(st.integers(3, 8)),
            'T': draw(P.fl(-0.5, 1.5)), 'reread': draw(st.booleans()),
            'order': draw(st.integers(0, 50))}


def check_limits(case):
    """A fitted model is limited to the temperatures of its data."""
    from auxi.tools.materialphysicalproperties.core import DataSet
    lo, w, n = case['lo'], case['width'], case['n']
    Ts = [lo + w * i / (n - 1) for i in range(n)]
    k = case['order'] % n
    Ts = Ts[k:] + Ts[:k]
    with scratch_dir() as d:
        p = os.path.join(d, 'ds.csv')
        with open(p, 'w') as f:
            f.write('M,Stuff\nD,d\nR,r\nTemperature,Q\nT,q\nK,-\nT,q\n')
            f.writelines('%r,%r\n' % (t, 2.0 * t) for t in Ts)
        m = PolynomialModelT.create(DataSet(p), 'q', 1)
        if case['reread']:
            p = os.path.join(d, 'm.json')
            m.write(p)
            m = PolynomialModelT.read(p)
    t = lo + w * case['T']
    if min(Ts) <= t <= max(Ts):
        close(m(T=t), 2 * t, 'property inside the range', rel=1e-6)
        where = 'inside'
    else:
        raises('T outside the data', ValidationError, m, T=t)
        where = 'outside'
    for t in (min(Ts), max(Ts)):
        close(m(T=t), 2 * t, 'property at the end of the range', rel=1e-6)
    raises('T above the data', ValidationError, m, T=max(Ts) * (1 + 1e-9))
    raises('T below the data', ValidationError, m, T=min(Ts) * (1 - 1e-9))
    return where


FACETS = [
    Facet('shipped', shipped(), check_shipped, quick=1500, thorough=12000),
    Facet('own', own(), check_own, quick=750, thorough=5000),
    Facet('limits', limits(), check_limits, quick=450, thorough=3000),
]
