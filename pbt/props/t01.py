"""T01: heat capacity, enthalpy, entropy and Gibbs energy of compounds."""
import math
import os
import warnings

from hypothesis import strategies as st

from auxi.tools.chemistry import thermochemistry as T
from pbt import formula as F
from pbt import thermoref as ref
from pbt.core import Facet, Violation, close, raises, req, same

RULE = ('non-trivial: a phase with more than one record, a term that '
        'integrates to a logarithm, magnetic data, or a temperature on a '
        'record boundary, below the first or above the last record; for '
        'shipped data every evaluated (compound, phase, T).')
ASSUMPTIONS = [
    'temperatures between 50 K and 6000 K',
    'records are contiguous for the generated compounds',
    'pbt/data/thermo.json is the data the library ships at the pinned commit']

DATA = ref.data()
_loaded = {}


def db(name):
    if name not in _loaded:
        path = os.path.join(os.path.dirname(T.__file__), 'data', name)
        old = dict(T.compounds)
        T.load_data_auxi(path)
        _loaded[name] = dict(T.compounds)
        T.compounds.clear()
        T.compounds.update(old)
    return _loaded[name]


EXPS = [0.0, 1.0, -2.0, 2.0, 3.0, -1.0, -3.0, 0.5, -0.5]

# near the exponents that integrate to a logarithm
ODD = [0.05, -0.05, -0.95, -1.05, 0.01, -0.99, 1.5, -1.5, -2.5]


def term(k):
    # coefficient scaled so that the term is of the order of 30 J/mol/K at
    # 1000 K
    return st.tuples(st.sampled_from(EXPS[:k]) if k < 9 else st.one_of(
        st.sampled_from(EXPS), st.sampled_from(ODD), st.integers(
            -350, 350).map(lambda i: i / 100.0)), st.floats(-1, 1).map(
        lambda x: round(x, 4))).map(
            lambda t: [t[1] * 30.0 * 1000.0 ** -t[0], t[0]])


@st.composite
def phases(draw, mag=True, n_exp=9):
    n = draw(st.one_of(st.integers(1, 4), st.integers(1, 4),
                       st.integers(1, 4), st.integers(9, 13)))
    t = 298.15
    recs = []
    wide = 1500 if n < 5 else 300
    for _ in range(n):
        t2 = round(t + draw(st.one_of(
            st.integers(1, wide).map(float), st.floats(0.5, wide),
            st.floats(0.005, 0.5))), 3)
        terms = draw(st.lists(term(n_exp), min_size=1, max_size=5))
        recs.append([t, t2, [30.0] + [x[0] for x in terms],
                     [0.0] + [x[1] for x in terms]])
        t = t2
    m = None
    if mag and draw(st.integers(0, 2)) == 0:
        m = [draw(st.floats(100, 1500)), draw(st.floats(0.0, 5)),
             draw(st.one_of(st.sampled_from([0.28, 0.4]),
                            st.floats(0.2, 1.0)))]
    return {'DHref': draw(st.floats(-1e6, 1e6)), 'Sref': draw(
        st.floats(0, 500)), 'recs': recs, 'mag': m}


@st.composite
def compound(draw):
    names = draw(st.lists(st.sampled_from(['S1', 'S2', 'L', 'G', 'S']),
                          min_size=1, max_size=3, unique=True))
    return {'formula': F.text(draw(F.formulas(1, 1, False, False))),
            'phases': {n: draw(phases()) for n in names},
            'keys': draw(st.integers(0, 2)),
            'symbol': draw(st.booleans()),
            'order': draw(st.booleans())}


def build(c):
    d = {'Formula': c['formula'], 'Phases': {}}
    for n, ph in c['phases'].items():
        recs = {}
        rs = ph['recs'][::-1] if c['order'] else ph['recs']
        for r in rs:
            key = r[1] if c['keys'] == 0 else str(r[1])
            if c['keys'] == 2 and r[1] == int(r[1]):
                key = str(int(r[1]))
            recs[key] = {'Tmin': r[0], 'Tmax': r[1] if c['keys'] else
                         str(r[1]), 'Terms': [
                             {'Coefficient': a, 'Exponent': b}
                             for a, b in zip(r[2], r[3])]}
        p = {'DHref': ph['DHref'], 'Sref': ph['Sref'], 'Cp_records': recs}
        if c['symbol']:
            p['Symbol'] = n
        if ph.get('mag'):
            p['magnetic'] = dict(zip(('Tc', 'beta0', 'p'), ph['mag']))
        d['Phases'][n] = p
    return T.Compound(d)


def temps(ph, spec):
    """Turns generated selectors into temperatures of interest."""
    bounds = [ph['recs'][0][0]] + [r[1] for r in ph['recs']]
    if ph.get('mag'):
        bounds.append(ph['mag'][0])
    bounds.append(298.15)
    out = []
    for kind, i, x in spec:
        b = bounds[i % len(bounds)]
        if kind == 0:
            out.append(b)
        elif kind == 1:
            out.append(b + x * 10 - 5)
        elif kind == 2:
            out.append(max(bounds) + x * 1000)
        elif kind == 3:
            out.append(60 + x * 230)
        else:
            out.append(min(bounds) + x * (max(bounds) - min(bounds)))
    return [max(50.0, t) for t in out]


specs = st.lists(st.tuples(st.integers(0, 4), st.integers(0, 6),
                           st.floats(0, 1)).map(list), min_size=1, max_size=6)


def verify(c, name, ph, t):
    """c: auxi compound; every property of one phase at one temperature."""
    hs_, ss_ = ref.scale(ph, t)
    what = '%s[%s] at %r K' % (c.formula, name, t)
    eh, es = ref.hs(ph, t)
    ec = ref.cp(ph, t)
    h, s, g, cp = (c.H(name, t), c.S(name, t), c.G(name, t), c.Cp(name, t))
    close(cp, ec, 'Cp of ' + what, 1e-10, 1e-9)
    close(h, eh, 'H of ' + what, 1e-10, hs_ * 1e-13 + 1e-7)
    close(s, es, 'S of ' + what, 1e-10, ss_ * 1e-13 + 1e-9)
    close(g, h - t * s, 'G = H - T S of ' + what, 1e-10,
          (hs_ + t * ss_) * 1e-13 + 1e-6)


_GX = None


def quad(f, a, b):
    """Gauss-Legendre, 24 points on pieces whose end points differ by at most
    a factor 1.3."""
    global _GX
    import numpy as np
    if _GX is None:
        _GX = np.polynomial.legendre.leggauss(24)
    n = max(1, int(abs(math.log(b / a)) / math.log(1.3)) + 1)
    tot = []
    for k in range(n):
        lo = a * (b / a) ** (k / n)
        hi = a * (b / a) ** ((k + 1) / n)
        m, w = (lo + hi) / 2, (hi - lo) / 2
        tot += [w * float(wi) * f(m + w * float(x))
                for x, wi in zip(*_GX)]
    return math.fsum(tot)


def check_model(case):
    c = build(case['c'])
    close(c.molar_mass, F.mass_of(F.parse(case['c']['formula'])) / 1000,
          'molar mass', 1e-11)
    same(list(c.get_phase_list()), sorted(case['c']['phases']), 'phase list')
    lab = set()
    for n, ph in case['c']['phases'].items():
        for t in temps(ph, case['T']):
            verify(c, n, ph, t)
            bs = [r[1] for r in ph['recs']]
            if t in bs or t == 298.15:
                lab.add('boundary')
            if t > max(bs):
                lab.add('extrapolated')
        if len(ph['recs']) > 1:
            lab.add('piecewise')
        if ph['mag']:
            lab.add('magnetic')
        if any(e in (-1.0,) for r in ph['recs'] for e in r[3]):
            lab.add('log')
    for f in (c.Cp, c.H, c.S, c.G):
        raises('unknown phase', Exception, f, 'NOPE', 500.0)
    return '+'.join(sorted(lab))


def check_calculus(case):
    """The four properties agree with each other by quadrature: H is the
    integral of Cp, S of Cp/T, and G of -S."""
    c = build(case['c'])
    name = sorted(case['c']['phases'])[0]
    ph = case['c']['phases'][name]
    ts = temps(ph, case['T'])
    if len(ts) < 2:
        return None
    lo, hi = min(ts), max(ts)
    if hi / lo < 1.001:
        return None
    cuts = {lo, hi} | {r[1] for r in ph['recs'] if lo < r[1] < hi}
    if ph['mag'] and lo < ph['mag'][0] < hi:
        cuts.add(ph['mag'][0])
    cuts = sorted(cuts)
    dH = dS = dG = 0.0
    for a, b in zip(cuts, cuts[1:]):
        dH += quad(lambda t: c.Cp(name, t), a, b)
        dS += quad(lambda t: c.Cp(name, t) / t, a, b)
        dG += quad(lambda t: -c.S(name, t), a, b)
    hs_, ss_ = ref.scale(ph, hi)
    what = '%s from %r to %r K' % (name, lo, hi)
    close(c.H(name, hi) - c.H(name, lo), dH, 'dH = int Cp dT, ' + what, 1e-7,
          hs_ * 1e-9)
    close(c.S(name, hi) - c.S(name, lo), dS, 'dS = int Cp/T dT, ' + what,
          1e-7, ss_ * 1e-9)
    close(c.G(name, hi) - c.G(name, lo), dG, 'dG = -int S dT, ' + what, 1e-7,
          (hs_ + hi * ss_) * 1e-9)
    # the reference state
    if not ph['mag']:
        close(c.H(name, 298.15), ph['DHref'], 'H at the reference T', 1e-12,
              hs_ * 1e-13)
        close(c.S(name, 298.15), ph['Sref'], 'S at the reference T', 1e-12,
              ss_ * 1e-13)
    return 'calculus%d' % len(cuts)


def check_shipped(case):
    name = case['db']
    snap = DATA[name]
    comps = db(name)
    same(sorted(comps), sorted(snap), 'compounds in the %s data' % name)
    fs = sorted(snap)
    f = fs[case['i'] % len(fs)]
    ph_names = sorted(snap[f]['phases'])
    p = ph_names[case['j'] % len(ph_names)]
    same(list(comps[f].get_phase_list()), ph_names, 'phases of ' + f)
    ph = snap[f]['phases'][p]
    mm = F.mass_of(F.parse(f)) / 1000
    old = dict(T.compounds)
    T.compounds.clear()
    T.compounds.update(comps)
    try:
        for t in temps(ph, case['T']):
            verify(comps[f], p, ph, t)
            tc = t - 273.15
            tk = tc + 273.15
            m = case['m']
            s = '%s[%s]' % (f, p)
            eh, es = ref.hs(ph, tk)
            hs_, ss_ = ref.scale(ph, tk)
            k = m / mm / 3.6e6
            close(T.Cp(s, tc, m), ref.cp(ph, tk) * k, 'Cp(%s, %r, %r)'
                  % (s, tc, m), 1e-9)
            close(T.H(s, tc, m), eh * k, 'H(%s, %r, %r)' % (s, tc, m), 1e-9,
                  hs_ * k * 1e-12 + 1e-300)
            close(T.S(s, tc, m), es * k, 'S(%s, %r, %r)' % (s, tc, m), 1e-9,
                  ss_ * k * 1e-12 + 1e-300)
            close(T.G(s, tc, m), (eh - tk * es) * k, 'G(%s, %r, %r)'
                  % (s, tc, m), 1e-9, (hs_ + tk * ss_) * k * 1e-12)
            if m == 1.0:
                close(T.H(s, tc), eh * k, 'H(%s, %r)' % (s, tc), 1e-9,
                      hs_ * k * 1e-12 + 1e-300)
                close(T.Cp(s, tc), ref.cp(ph, tk) * k, 'Cp default mass',
                      1e-9)
                close(T.S(s, tc), es * k, 'S default mass', 1e-9,
                      ss_ * k * 1e-12 + 1e-300)
                close(T.G(s, tc), (eh - tk * es) * k, 'G default mass', 1e-9,
                      (hs_ + tk * ss_) * k * 1e-12)
        raises('unknown phase', Exception, T.H, f + '[nope]', 25.0)
        raises('unknown phase', Exception, T.Cp, f + '[nope]', 25.0)
        raises('unknown compound', Exception, T.H, 'Zz9[S]', 25.0)
        close(T.molar_mass(f), mm, 'molar mass of ' + f, 1e-11)
    finally:
        T.compounds.clear()
        T.compounds.update(old)
    return name


FACETS = [
    Facet('model', st.fixed_dictionaries({'c': compound(), 'T': specs}),
          check_model, quick=900, thorough=25000),
    Facet('calculus', st.fixed_dictionaries({'c': compound(), 'T': specs}),
          check_calculus, quick=250, thorough=6000),
    Facet('shipped', st.fixed_dictionaries({
        'db': st.sampled_from(['rao', 'rao', 'nist']),
        'i': st.integers(0, 80), 'j': st.integers(0, 4), 'T': specs,
        'm': st.one_of(st.just(1.0), st.floats(1e-9, 1e4), st.integers(0, 9))}),
        check_shipped, quick=900, thorough=15000),
]
