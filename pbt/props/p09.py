"""P09: plots show the data sets and the model, and nothing else."""
import os
import warnings
from contextlib import contextmanager

import matplotlib
matplotlib.use('Agg')
import matplotlib.figure  # noqa: E402
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402
from hypothesis import strategies as st  # noqa: E402

from auxi.tools.materialphysicalproperties import gases as G  # noqa: E402
from auxi.tools.materialphysicalproperties.core import DataSet  # noqa: E402
from auxi.tools.materialphysicalproperties.idealgas import RhoT  # noqa: E402
from auxi.tools.materialphysicalproperties.polynomial import (  # noqa: E402
    PolynomialModelT)
from auxi.tools.transportphenomena.heattransfer.naturalconvection import (
    IsothermalFlatSurface)  # noqa: E402
from pbt import physref as P  # noqa: E402
from pbt.core import Facet, close, req, same, scratch_dir  # noqa: E402
from pbt.props.p04 import RANGE  # noqa: E402

RULE = ('model plots: more than one plot was made, or more than one data set '
        'is shown; regions: at least one bound.')
ASSUMPTIONS = ['the drawing is judged by the lines and patches of the figure '
               'that is written, not by its pixels',
               'the data sets of a polynomial model include its own']


@contextmanager
def figures():
    """Records the axes of each figure that is written."""
    seen = []
    old = matplotlib.figure.Figure.savefig
    busy = []

    def savefig(self, *a, **kw):
        if not busy:
            seen.append([{
                'x': ax.get_xlabel(), 'y': ax.get_ylabel(),
                'title': ax.get_title(),
                'lines': [(str(ln.get_label()),
                           [float(v) for v in ln.get_xdata()],
                           [float(v) for v in ln.get_ydata()])
                          for ln in ax.lines]} for ax in self.axes])
        busy.append(1)
        try:
            return old(self, *a, **kw)
        finally:
            busy.pop()
    matplotlib.figure.Figure.savefig = savefig
    try:
        yield seen
    finally:
        matplotlib.figure.Figure.savefig = old


DISPLAY = {'rho': '\\rho', 'Cp': 'C_p', 'mu': '\\mu'}


@st.composite
def data(draw):
    n = draw(st.integers(2, 8))
    lo = draw(P.fl(10.0, 600.0))
    step = draw(P.fl(5.0, 150.0))
    order = list(draw(st.permutations(range(n))))
    for i in draw(st.lists(st.integers(0, n - 1), max_size=2)):
        order.append(i)  # measured more than once
    n = len(order)
    ys = draw(st.lists(P.fl(0.1, 9.0), min_size=n, max_size=n))
    if draw(st.booleans()):
        step, lo = float(round(step)), float(round(lo))
    return {'T': [lo + step * i for i in order], 'y': ys,
            'name': draw(st.sampled_from(['dataset-a', 'dataset-stuff-b99',
                                          'c', 'd.e-2000']))}


@st.composite
def cases(draw):
    dss = draw(st.lists(data(), min_size=1, max_size=3,
                        unique_by=lambda d: d['name']))
    return {'data': dss, 'symbol': draw(st.sampled_from(['rho', 'Cp', 'mu'])),
            'units': draw(st.sampled_from(['kg/m3', 'J/K', 'x'])),
            'own': draw(st.integers(0, 2)), 'deg': draw(st.integers(0, 1)),
            'mm': draw(P.fl(2.0, 200.0)), 'P': draw(P.fl(1e3, 1e6)),
            'plots': draw(st.lists(st.sampled_from(['poly', 'rho', 'read']),
                                   min_size=1, max_size=3))}


def load(d, c, case):
    sub = os.path.join(d, 's')
    os.makedirs(sub, exist_ok=True)
    p = os.path.join(sub, c['name'] + '.csv')
    s = case['symbol']
    with open(p, 'w') as f:
        f.write('Name,Stuff\nDescription,d\nReference,smith2006\n')
        f.write('Temperature,Quality,Density\nT,%s,\\rho\nK,%s,kg/m3\n'
                'T,%s,%s\n' % (DISPLAY[s], case['units'], s,
                               'rho' if s != 'rho' else 'other'))
        for i, t in enumerate(c['T']):
            f.write('%r,%r,%r\n' % (t, c['y'][i], c['y'][i] * 3))
    return DataSet(p)


def draw_and_check(m, dss, want, lo, hi, path, what, call):
    """want: [(label, xs, ys)] of the data, in any order."""
    with figures() as seen:
        call(path)
    with open(path, 'rb') as f:
        req(f.read(5) == b'%PDF-', '%s: not a PDF', what)
    axes = [a for fig in seen for a in fig if a['lines']]
    same(len(axes), 1, what + ': axes drawn on')
    ax = axes[0]
    req('T' in ax['x'] and 'K' in ax['x'], '%s: abscissa %r', what, ax['x'])
    req(m.units in ax['y'] and m.display_symbol in ax['y'],
        '%s: ordinate %r', what, ax['y'])
    req(m.display_symbol in ax['title'], '%s: title %r', what, ax['title'])
    lines = list(ax['lines'])
    for label, xs, ys in want:
        hit = [i for i, ln in enumerate(lines)
               if label in ln[0]
               and sorted(zip(ln[1], ln[2])) == sorted(zip(xs, ys))
               and len(ln[1]) == len(xs)]
        req(hit, '%s: no line of data set %s', what, label)
        del lines[hit[0]]
    # what remains is the model
    return lines


def check_model_line(line, f, lo, hi, what):
    label, xs, ys = line
    req('model' in label, '%s: line labelled %r', what, label)
    req(len(xs) >= 10 or lo == hi, '%s: %d points', what, len(xs))
    close(min(xs), lo, what + ': start of the curve', 1e-9)
    close(max(xs), hi, what + ': end of the curve', 1e-9)
    gap = max([b - a for a, b in zip(sorted(xs), sorted(xs)[1:])] or [0.0])
    req(gap <= 0.2 * (hi - lo) + 1e-9, '%s: a gap of %r in the curve', what,
        gap)
    for x, y in zip(xs, ys):
        close(y, f(min(max(x, lo), hi)), '%s: curve at %r' % (what, x), 1e-9)


def check_models(case):
    warnings.simplefilter('ignore')
    plt.close('all')
    s = case['symbol']
    with scratch_dir() as d:
        dss = {c['name']: load(d, c, case) for c in case['data']}
        own = case['data'][case['own'] % len(case['data'])]
        poly = PolynomialModelT.create(dss[own['name']], s, case['deg'])
        q = os.path.join(d, 'm.json')
        poly.write(q)
        for n, kind in enumerate(case['plots']):
            what = '%s plot %d' % (kind, n)
            path = os.path.join(d, '%d.pdf' % n)
            lo = min(min(c['T']) for c in case['data'])
            hi = max(max(c['T']) for c in case['data'])
            if kind == 'rho':
                m = RhoT(case['mm'], case['P'])
                if s != 'rho':
                    col = {c['name']: [y * 3 for y in c['y']]
                           for c in case['data']}
                else:
                    col = {c['name']: c['y'] for c in case['data']}
            else:
                m = poly if kind == 'poly' else PolynomialModelT.read(q)
                lo, hi = min(own['T']), max(own['T'])
                col = {c['name']: c['y'] for c in case['data']}
            want = [(c['name'], [float(t) for t in c['T']], col[c['name']])
                    for c in case['data']]
            before = [m(T=t) for t in (lo, hi)], str(m.state_schema)
            lines = draw_and_check(m, dss, want, lo, hi, path, what,
                                   lambda p: m.plot(dss, p))
            same(([m(T=t) for t in (lo, hi)], str(m.state_schema)), before,
                 what + ': model')
            same(len(lines), 1, what + ': curves')
            check_model_line(lines[0], lambda t: m(T=t), lo, hi, what)
    return 'plots%d' % len(case['plots']) \
        if len(case['plots']) + len(case['data']) > 2 else None


FILES = {'N2': 'nitrogen', 'O2': 'oxygen', 'CO2': 'carbon_dioxide',
         'CO': 'carbon_monoxide', 'Ar': 'argon', 'NH3': 'ammonia',
         'H2O': 'water_vapour'}


@st.composite
def mixture_cases(draw):
    ms = []
    for k in draw(st.lists(st.sampled_from(sorted(FILES)), min_size=1,
                           max_size=3, unique=True)):
        wide = [j for j in sorted(FILES) if RANGE[j][0] <= RANGE[k][0] and
                RANGE[j][1] >= min(RANGE[k][1], 1000.0)]
        x = draw(P.composition(wide, max_size=3))
        ms.append({'data': k, 'x': x})
    return {'mixtures': ms,
            'plots': draw(st.lists(st.sampled_from(['wilke', 'herning',
                                                    'cp']),
                                   min_size=1, max_size=2))}


MODELS = {'wilke': G.WilkeMuTx, 'herning': G.HerningZippererMuTx,
          'cp': G.IdealCpTx}


def check_mixtures(case):
    warnings.simplefilter('ignore')
    plt.close('all')
    xs, dss = {}, {}
    for i, c in enumerate(case['mixtures']):
        name = 'Mix%d%s' % (i, c['data'])
        xs[name] = dict(c['x'])
        ds = getattr(G, FILES[c['data']] + '_datasets')
        dss[name] = list(ds.values())[0]
    with scratch_dir() as d:
        for n, kind in enumerate(case['plots']):
            m = MODELS[kind]()
            what = '%s plot %d' % (kind, n)
            want = [(ds.name, [float(t) for t in ds.data['T']],
                     [float(y) for y in ds.data[m.symbol]])
                    for ds in dss.values()]
            lines = draw_and_check(
                m, dss, want, 0, 0, os.path.join(d, '%d.pdf' % n), what,
                lambda p: m.plot(xs, dss, p))
            same(len(lines), len(dss), what + ': curves')
            for name, ds in dss.items():
                hit = [ln for ln in lines if name in ln[0]]
                same(len(hit), 1, what + ': curve of ' + name)
                ts = [float(t) for t in ds.data['T']]
                check_model_line(
                    hit[0], lambda t: m(T=t, x=dict(xs[name])), min(ts),
                    min(max(ts), 1000.0), what)
            for c, name in zip(case['mixtures'], xs):
                same(xs[name], c['x'], 'composition passed')
    return 'mix%d' % len(dss) if len(dss) + len(case['plots']) > 2 else None


@st.composite
def region_cases(draw):
    rs = []
    for i in range(draw(st.integers(1, 3))):
        a, b = sorted(draw(st.lists(st.one_of(
            P.fl(-90.0, 90.0), st.integers(-90, 90).map(float)),
            min_size=2, max_size=2)))
        r, q = sorted(draw(st.lists(P.fl(3.0, 12.0), min_size=2, max_size=2)))
        rs.append({'theta': [a, b], 'Ra': [draw(st.sampled_from([r, None])),
                                           draw(st.sampled_from([q, None]))],
                   'incl': draw(st.lists(st.booleans(), min_size=4,
                                         max_size=4)),
                   'in': draw(st.booleans())})
    return {'regions': rs, 'all': draw(st.booleans())}


def check_regions(case):
    warnings.simplefilter('ignore')
    plt.close('all')
    todo = []
    if case['all']:
        s = IsothermalFlatSurface(None)
        s.plot_regions()
        todo = list(s.regions)
    else:
        for i, r in enumerate(case['regions']):
            g = IsothermalFlatSurface.Region(
                'r%d' % i, r['theta'][0], r['incl'][0], r['theta'][1],
                r['incl'][1], r['Ra'][0], r['incl'][2], r['Ra'][1],
                r['incl'][3], 'In_Eq_Region' if r['in'] else None)
            g.plot_region()
            todo.append(g)
    ax = plt.gca()
    boxes = []
    for p in ax.patches:
        x, y = p.get_xy()
        boxes.append((x, y, x + p.get_width(), y + p.get_height(),
                      tuple(p.get_facecolor())))
    texts = [(t.get_text(), t.xy) for t in ax.texts]
    same(len(boxes), len(todo), 'regions drawn')
    colours = {}
    for g in todo:
        lo = 3 if g.Ra_min is None else g.Ra_min
        hi = 12 if g.Ra_max is None else g.Ra_max
        want = (g.theta_min, lo, g.theta_max, hi)
        hit = [b for b in boxes
               if all(abs(u - v) < 1e-9 for u, v in zip(b, want))]
        req(hit, 'region %s: %r is not among the boxes %r', g.name, want,
            [b[:4] for b in boxes])
        boxes.remove(hit[0])
        if len(hit) == 1:
            colours.setdefault(g.description == 'In_Eq_Region',
                               set()).add(hit[0][4])
        req(any(t == g.name for t, _ in texts), 'region %s has no name',
            g.name)
    if len(colours) == 2:
        req(not colours[True] & colours[False], 'regions with an equation are '
            'coloured as those without')
    plt.close('all')
    return 'all' if case['all'] else 'region%d' % len(todo)


FACETS = [
    Facet('models', cases(), check_models, quick=50, thorough=600),
    Facet('mixtures', mixture_cases(), check_mixtures, quick=50,
          thorough=600),
    Facet('regions', region_cases(), check_regions, quick=100, thorough=1500)]
