"""P02: polynomial models are the least squares fit of their data."""
import os
import warnings

import numpy as np
from hypothesis import strategies as st

from auxi.tools.materialphysicalproperties.core import DataSet
from auxi.tools.materialphysicalproperties.polynomial import PolynomialModelT
from pbt import physref as P
from pbt.core import Facet, close, req, same, scratch_dir

RULE = ('non-trivial: a polynomial of at least degree one was fitted to '
        'scattered data, or evaluated from at least two coefficients.')
ASSUMPTIONS = ['fits up to degree 5 over at least 100 K, where least squares '
               'in double precision is meaningful']


@st.composite
def fits(draw):
    deg = draw(st.integers(0, 5))
    n = draw(st.integers(deg + 1, deg + 10))
    lo = draw(P.fl(1.0, 600.0))
    step = draw(P.fl(max(10.0, 100.0 / max(1, n - 1)), 150.0))
    jit = draw(st.lists(P.fl(-0.3, 0.3), min_size=n, max_size=n))
    Ts = [lo + step * (i + 1 + j) for i, j in enumerate(jit)]
    order = list(draw(st.permutations(range(n))))
    for i in draw(st.lists(st.integers(0, n - 1), max_size=3)):
        order.insert(i, order[-1 - i])  # measured more than once
    n = len(order)
    scale = draw(st.sampled_from([1.0, 1e-5, 1e4]))
    cs = draw(st.lists(P.fl(-1.0, 1.0), min_size=deg + 1, max_size=deg + 1))
    noise = draw(st.one_of(
        st.none(), st.lists(P.fl(-0.5, 0.5), min_size=n, max_size=n)))
    return {'deg': deg, 'T': [Ts[i] for i in order], 'scale': scale,
            'cs': cs, 'noise': noise,
            'symbol': draw(st.sampled_from(['rho', 'Cp', 'k', 'mu'])),
            'pos': draw(st.integers(0, 2)),
            'at': draw(st.lists(P.fl(0.0, 1.0), min_size=1, max_size=4)),
            'twice': draw(st.booleans())}


def write(case, path):
    Ts = case['T']
    a, b = min(Ts), max(Ts)

    def u(t):
        return (2 * t - a - b) / (b - a) if b > a else 0.0
    ys = []
    for i, t in enumerate(Ts):
        y = np.polynomial.chebyshev.chebval(u(t), case['cs'])
        if case['noise']:
            y += case['noise'][i]
        ys.append(float(y) * case['scale'])
    cols = [('T', Ts, 'Temperature', 'T', 'K'),
            ('a', [7.0] * len(Ts), 'Apples', 'A', 'each'),
            ('b', [float(i) for i in range(len(Ts))], 'Bees', 'B_b', 'b/h')]
    cols.insert(case['pos'], (case['symbol'], ys, 'Quality', '\\q', 'W/m'))
    with open(path, 'w') as f:
        f.write('Name,Stuff\nDescription,d\nReference,smith2006\n')
        for k in (2, 3, 4, 0):
            f.write(','.join(c[k] for c in cols) + '\n')
        for i in range(len(Ts)):
            f.write(','.join(repr(c[1][i]) for c in cols) + '\n')
    return Ts, ys, u


def check_fit(case):
    warnings.simplefilter('ignore')
    with scratch_dir() as d:
        p = os.path.join(d, 'dataset-stuff.csv')
        Ts, ys, u = write(case, p)
        ds = DataSet(p)
        m = PolynomialModelT.create(ds, case['symbol'], case['deg'])
        if case['twice']:
            PolynomialModelT.create(ds, 'b', 1)
        q = os.path.join(d, 'm.json')
        m.write(q)
        m2 = PolynomialModelT.read(q)
    for x, w in ((m, ''), (m2, ' read')):
        same(x.material, 'Stuff', 'material' + w)
        same(x.property, 'Quality', 'property' + w)
        same(x.symbol, case['symbol'], 'symbol' + w)
        same(x.display_symbol, '\\q', 'display symbol' + w)
        same(x.units, 'W/m', 'units' + w)
        same(x.datasets, ['dataset-stuff.csv'], 'datasets' + w)
        same(x.references, None, 'references' + w)
        same(x.state_schema, {'T': {'required': True, 'type': 'float',
                                    'min': min(Ts), 'max': max(Ts)}},
             'schema' + w)
    V = np.polynomial.chebyshev.chebvander([u(t) for t in Ts], case['deg'])
    c, *_ = np.linalg.lstsq(V, np.array(ys), rcond=None)
    tol = 1e-6 * max([abs(y) for y in ys] + [case['scale'] * 1e-3])
    a, b = min(Ts), max(Ts)
    # between the points only where these determine the polynomial well
    inner = [min(b, a + (b - a) * x) for x in case['at']] \
        if len(set(Ts)) > case['deg'] + 1 else []
    for t in Ts + inner:
        want = np.polynomial.chebyshev.chebval(u(t), c)
        close(m(T=t), want, 'fit at %r' % t, rel=1e-6, abs_=tol)
        close(m2(T=t), m(T=t), 'model read at %r' % t, rel=1e-14,
              abs_=tol * 1e-9)
        if not case['noise']:
            close(m(T=t), np.polynomial.chebyshev.chebval(u(t), case['cs'])
                  * case['scale'], 'exact data at %r' % t, rel=1e-5,
                  abs_=10 * tol)
    return 'deg %d%s' % (case['deg'], ' noisy' if case['noise'] else '') \
        if case['deg'] else None


@st.composite
def direct(draw):
    n = draw(st.integers(1, 9))
    T = draw(P.fl(1.0, 3000.0))
    cs = [draw(P.fl(-10, 10)) / T ** (n - 1 - i) for i in range(n)]
    return {'T': T, 'cs': cs, 'reread': draw(st.booleans()),
            'as': draw(st.sampled_from(['list', 'tuple', 'array']))}


def check_direct(case):
    cs = case['cs']
    arg = {'list': list, 'tuple': tuple, 'array': np.array}[case['as']](cs)
    m = PolynomialModelT('Stuff', 'Quality', 'q', 'q', '-', ['r'], ['d'], arg)
    if case['reread']:
        with scratch_dir() as d:
            q = os.path.join(d, 'm.json')
            m.write(q)
            m = PolynomialModelT.read(q)
    T = case['T']
    n = len(cs)
    terms = [c * T ** (n - 1 - i) for i, c in enumerate(cs)]
    tol = 1e-11 * max(map(abs, terms)) + 1e-290
    close(m(T=T), sum(terms), 'polynomial', rel=1e-12, abs_=tol)
    close(m.calculate(T=T), sum(terms), 'calculate', rel=1e-12, abs_=tol)
    same(m.references, ['r'], 'references')
    same(m.datasets, ['d'], 'datasets')
    req(list(arg) == cs, 'the coefficients passed changed')
    return 'n %d' % n if n > 1 else None


FACETS = [
    Facet('fit', fits(), check_fit, quick=1000, thorough=6000),
    Facet('direct', direct(), check_direct, quick=1000, thorough=6000),
]
