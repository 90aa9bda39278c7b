"""P07: data sets hold what their files say."""
import csv
import os

from hypothesis import strategies as st

from auxi.tools.materialphysicalproperties.core import DataSet
from pbt import physref as P
from pbt.core import Facet, close, close_list, req, same, scratch_dir

RULE = 'non-trivial: at least two columns and two rows of data.'
ASSUMPTIONS = ['ASCII text, unique column symbols', 'every column holds '
               'numbers, and cells without one are empty']
line = st.text(st.characters(min_codepoint=32, max_codepoint=126),
               min_size=1, max_size=30).filter(
    lambda s: s.strip())
words = st.text('abcXYZ0189 _-/', min_size=1, max_size=12)
symbol = st.one_of(st.sampled_from(['rho', 'Cp', 'mu', 'k', 'nu', 'alpha',
                                    'SiO2', 'FeO', 'x y', 'd,e', 'n#1',
                                    '#2', 'a;b', "w'", '100%', 'T ',
                                    'x|y', '1', 'NaN', 'date']),
                   st.text('abcdefgXYZ', min_size=2, max_size=5))


@st.composite
def sets(draw):
    syms = ['T'] + draw(st.lists(symbol, max_size=5, unique=True))
    syms = draw(st.permutations(syms))
    n = len(syms)
    rows = draw(st.lists(st.lists(st.one_of(
        P.fl(-1e6, 1e6), P.logfl(1e-12, 1e3)), min_size=n, max_size=n),
        min_size=1, max_size=8))
    if n > 1 and draw(st.integers(0, 3)) == 0:
        # cells without a value
        for r in rows:
            i = draw(st.integers(0, 2 * n))
            if i < n:
                r[i] = None
    return {'syms': list(syms), 'rows': rows,
            'head': [draw(line) for _ in range(3)],
            'names': [draw(line) for _ in syms],
            'disp': [draw(line) for _ in syms],
            'units': [draw(line) for _ in syms],
            'file': draw(st.sampled_from(['dataset-a.csv', 'b.csv',
                                          'data set.v2.csv', 'Data-B.CSV',
                                          'x', 'é.csv', '.csv',
                                          'dataset-Slag2.csv'])),
            'quoting': draw(st.sampled_from([csv.QUOTE_MINIMAL,
                                             csv.QUOTE_ALL]))}


def check(case):
    syms = case['syms']
    with scratch_dir() as d:
        p = os.path.join(d, case['file'])
        with open(p, 'w', newline='') as f:
            w = csv.writer(f, quoting=case['quoting'])
            for k, v in zip(['Name', 'Description', 'Reference'],
                            case['head']):
                w.writerow([k, v])
            for r in (case['names'], case['disp'], case['units'], syms):
                w.writerow(r)
            for r in case['rows']:
                w.writerow(['' if v is None else repr(v) for v in r])
        ds = DataSet(p)
    same(ds.name, case['file'], 'name')
    same([ds.material, ds.description, ds.reference], case['head'], 'header')
    same(ds.col_names, case['names'], 'column names')
    same(ds.col_display_symbols, case['disp'], 'display symbols')
    same(ds.col_units, case['units'], 'units')
    same(ds.col_symbols, syms, 'symbols')
    same(ds.names_dict, dict(zip(syms, case['names'])), 'names by symbol')
    same(ds.display_symbols_dict, dict(zip(syms, case['disp'])),
         'display symbols by symbol')
    same(ds.units_dict, dict(zip(syms, case['units'])), 'units by symbol')
    same(list(ds.data.columns), syms, 'data columns')
    for i, s in enumerate(syms):
        got, want = ds.data[s].tolist(), [r[i] for r in case['rows']]
        same([isinstance(v, float) and v != v for v in got],
             [v is None for v in want], 'cells without a value of ' + s)
        close_list([v for v in got if v == v],
                   [v for v in want if v is not None],
                   'data of ' + s, rel=1e-12, abs_=0.0)
    text = str(ds)
    for v in case['head'] + [str(case['names']), str(syms),
                             str(case['disp']), str(case['units']),
                             str(ds.data)]:
        req(v in text, 'the printed data set does not show %r', v)
    return 'c%d r%d' % (len(syms), len(case['rows'])) \
        if len(syms) > 1 and len(case['rows']) > 1 else None


@st.composite
def templates(draw):
    return {'material': draw(words), 'again': draw(st.booleans())}


def check_template(case):
    m = case['material'].replace('/', 'x')
    with scratch_dir() as d:
        for _ in range(1 + case['again']):
            DataSet.create_template(m, d)
        same(os.listdir(d), ['dataset-%s.csv' % m.lower()], 'files created')
        ds = DataSet(os.path.join(d, 'dataset-%s.csv' % m.lower()))
    same(ds.material, m, 'material')
    same(len(ds.data), 10, 'rows')
    same(len(ds.col_names), 4, 'columns')
    same(ds.col_symbols[0], 'T', 'first symbol')
    close_list(ds.data['T'], [100.0 + 50 * i for i in range(10)], 'T')
    for j, f in enumerate([lambda i: i, lambda i: 10 + i, lambda i: 100 + i]):
        close_list(ds.data[ds.col_symbols[j + 1]], [f(i) for i in range(10)],
                   'column %d' % (j + 1))
    close(len(set(ds.col_symbols)), 4, 'distinct symbols')
    return 'template'


FACETS = [
    Facet('file', sets(), check, quick=800, thorough=10000),
    Facet('template', templates(), check_template, quick=120, thorough=600),
]
