"""Histories of operations on thermochemical packages and streams, against a
reference that keeps masses, temperature, pressure and enthalpy."""
import math
import os

import numpy
from hypothesis import strategies as st

from auxi.core.objects import Object
from auxi.modelling.process.materials import thermo
from pbt import thermoref as tr
from pbt.atomic import MASS
from pbt.core import Violation, close, raises, req, same, scratch_dir
from pbt.formula import parse
from pbt.packages import mass, names, fractions

ANY = (Exception,)
KEYS = ['Al2O3[S]', 'CaO[S]', 'Fe2O3[Salpha]', 'Fe3O4[Salpha]', 'FeO[S]',
        'MgO[S]', 'SiO2[S]', 'TiO2[Srutile]', 'C[Sgr]', 'H2[G]', 'O2[G]',
        'N2[G]', 'S[Smono]', 'CO[G]', 'CO2[G]', 'H2O[L]', 'H2O[G]',
        'Fe[Salpha]', 'Fe[L]', 'CaCO3[S]', 'CH4[G]']
COALKEYS = ['C[Sgr]', 'H2[G]', 'O2[G]', 'N2[G]', 'S[Smono]', 'Al2O3[S]',
            'CaO[S]', 'SiO2[S]', 'H2O[L]', 'Fe2O3[Salpha]']
DAF = {'C[Sgr]': 'C', 'H2[G]': 'H', 'O2[G]': 'O', 'N2[G]': 'N',
       'S[Smono]': 'S'}
DATA = tr.data()['rao']
COMP = {}
for _k in KEYS:
    _c = parse(_k.split('[')[0])
    COMP[_k] = _c, sum(MASS[e] * n for e, n in _c.items())
part = st.one_of(st.sampled_from([0.0, 1.0, 0.5]),
                 st.floats(1e-6, 0.9999), st.floats(1e-9, 1e-5))
temps = st.one_of(st.sampled_from([25.0, 0.0, 100.0, 500.0, 1000.0]),
                  st.floats(0.0, 1500.0), st.floats(0.0, 2200.0))
_cache = {}


def h(key, T):
    """[kWh/kg] enthalpy of a compound at T [C]"""
    r = _cache.get((key, T))
    if r is None:
        f, ph = key[:-1].split('[')
        r = tr.hs(DATA[f]['phases'][ph], T + 273.15)[0] / COMP[key][1] * \
            1000. / 3.6e6
        if len(_cache) > 20000:
            _cache.clear()
        _cache[(key, T)] = r
    return r


def cp(key, T):
    f, ph = key[:-1].split('[')
    return tr.cp(DATA[f]['phases'][ph], T + 273.15) / COMP[key][1] * \
        1000. / 3.6e6


def merrick(y, T):
    """[kWh/kg] Merrick's enthalpy of dry ash-free coal at T [K]."""
    a = 1.0 / sum(y[e] / MASS[e] for e in 'CHONS') / 1000.0

    def g0(z):
        return 1.0 / math.expm1(z)
    return 8.314462618 / a * (380. * g0(380. / T) + 3600. * g0(1800. / T)) / \
        3.6e6


OXIDES = {'C': ('CO2[G]', 'C'), 'H': ('H2O[L]', 'H'), 'S': ('SO2[G]', 'S')}


def burnt(key, m):
    """[kWh] enthalpy at 25 C of the combustion products of an element."""
    e = DAF[key]
    if e == 'O':
        return m * h('O2[G]', 25.0)
    if e == 'N':
        return m * h('N2[G]', 25.0)
    f = OXIDES[e][0]
    c, M = OXIDE[f]
    x = m / (c[e] * MASS[e] / M)
    fo, ph = f[:-1].split('[')
    return x * tr.hs(DATA[fo]['phases'][ph], 298.15)[0] / M * 1000. / 3.6e6


OXIDE = {}
for _f, _e in OXIDES.values():
    _c = parse(_f.split('[')[0])
    OXIDE[_f] = _c, sum(MASS[e] * n for e, n in _c.items())


class Ref:
    def __init__(self, mat, keys, m, T, P, coal=False, HHV=None):
        self.mat, self.keys, self.m = mat, keys, dict(zip(keys, m))
        self.T, self.P, self.coal, self.HHV = T, P, coal, HHV
        self.H = self.enthalpy(T)

    @property
    def mass(self):
        return math.fsum(self.m.values())

    def daf(self):
        return {DAF[k]: v for k, v in self.m.items() if k in DAF}

    def formation(self):
        """[kWh] enthalpy at 25 C of the dry ash-free part."""
        out = math.fsum(burnt(k, v) for k, v in self.m.items() if k in DAF)
        if self.HHV is None:
            return math.fsum(v * h(k, 25.0) for k, v in self.m.items()
                             if k in DAF)
        return self.HHV / 3.6 * self.mass + out

    def enthalpy(self, T):
        if self.mass == 0.0:
            return 0.0
        if not self.coal:
            return math.fsum(v * h(k, T) for k, v in self.m.items())
        H = math.fsum(v * h(k, T) for k, v in self.m.items() if k not in DAF)
        d = self.daf()
        tot = sum(d.values())
        if tot == 0.0:
            return H
        y = {e: d.get(e, 0.0) / tot for e in 'CHONS'}
        return H + tot * (merrick(y, T + 273.15) - merrick(y, 298.15)) + \
            self.formation()

    def scale(self):
        """Magnitude of the terms of the enthalpy."""
        s = math.fsum(abs(v * h(k, self.T)) for k, v in self.m.items())
        return s + (abs(self.HHV or 0.0) + 40.0) * self.mass * self.coal

    def heat(self):
        """[kWh/K] about the heat capacity"""
        return 2e-4 * self.mass if self.coal else \
            math.fsum(abs(v * cp(k, self.T)) for k, v in self.m.items())

    def copy(self, f=1.0):
        r = Ref.__new__(Ref)
        r.__dict__.update(self.__dict__)
        r.m = {k: v * f for k, v in self.m.items()}
        return r

    def again(self):
        self.H = self.enthalpy(self.T)
        return self

    def holds(self, other):
        return self.mat is other.mat or all(k in self.m for k in other.keys)

    def put(self, k, m):
        """Adds m of k, with its heating value."""
        old = self.mass
        self.m[k] += m
        if self.coal and self.HHV is not None and self.mass > 0.0:
            v = (m * h(k, 25.0) - burnt(k, m)) * 3.6 if k in DAF else 0.0
            self.HHV = (self.HHV * old + v) / self.mass
        return self


class Package:
    name = 'package'
    cls = thermo.MaterialPackage
    mass = staticmethod(lambda p: p.mass)
    H = staticmethod(lambda p: p.H)
    one = staticmethod(lambda p, k: p.get_compound_mass(k))
    amounts = staticmethod(lambda p: p.get_compound_amounts())
    amount1 = staticmethod(lambda p, k: p.get_compound_amount(k))
    amount = staticmethod(lambda p: p.amount)
    elements = staticmethod(lambda p, *a: p.get_element_masses(*a))
    eldict = staticmethod(lambda p: p.get_element_mass_dictionary())
    element = staticmethod(lambda p, e: p.get_element_mass(e))

    @staticmethod
    def set_H(p, H):
        p.H = H

    @staticmethod
    def create(m, *a, **k):
        return m.create_package(*a, **k)


class Stream(Package):
    name = 'stream'
    cls = thermo.MaterialStream
    mass = staticmethod(lambda p: p.mfr)
    H = staticmethod(lambda p: p.Hfr)
    one = staticmethod(lambda p, k: p.get_compound_mfr(k))
    amounts = staticmethod(lambda p: p.get_compound_afrs())
    amount1 = staticmethod(lambda p, k: p.get_compound_afr(k))
    amount = staticmethod(lambda p: p.afr)
    elements = staticmethod(lambda p, *a: p.get_element_mfrs(*a))
    eldict = staticmethod(lambda p: p.get_element_mfr_dictionary())
    element = staticmethod(lambda p, e: p.get_element_mfr(e))

    @staticmethod
    def set_H(p, H):
        p.Hfr = H

    @staticmethod
    def create(m, *a, **k):
        return m.create_stream(*a, **k)


def specs(coal=False, base=None):
    @st.composite
    def spec(draw):
        keys = draw(st.lists(st.sampled_from(COALKEYS if coal else KEYS),
                             min_size=1, max_size=6, unique=True))
        if base is not None:  # share most keys with another material
            keys = [k for k in base if draw(st.integers(0, 3))] + \
                [k for k in keys if k not in base][:draw(st.integers(0, 1))]
            if not keys or draw(st.integers(0, 2)) == 0:
                keys = list(base)
            keys = draw(st.permutations(keys))
        assays = draw(st.lists(names, min_size=1, max_size=3, unique=True))
        if draw(st.integers(0, 7)) == 7:  # made of other materials only
            assays = []
        cols = []
        for a in assays:
            fr = [draw(fractions) for _ in keys]
            if sum(fr) == 0.0:
                fr[0] = 1.0
            cols.append(fr)
        is_coal = coal and assays != [] and draw(st.sampled_from([True, True, False]))
        props = []
        if draw(st.booleans()):
            props.append(['Price[USD/kg]'] + [
                draw(st.floats(0.0, 1e4)) for _ in assays])
        if is_coal:
            props.append(['IsCoal'] + [1 for _ in assays])
            if draw(st.booleans()):
                props.append(['HHV[MJ/kg]'] + [
                    draw(st.floats(5.0, 40.0)) for _ in assays])
        return {'keys': keys, 'assays': assays, 'fr': cols, 'coal': is_coal,
                'props': props,
                'twin': draw(st.integers(0, 3)) == 3,
                'sep': draw(st.sampled_from([' ', '   ', '\t', ' \t '])),
                'end': draw(st.sampled_from(['', '\n', '\n\n']))}
    return spec()


def file_text(s):
    rows = [['Compound'] + s['assays']]
    for i, k in enumerate(s['keys']):
        rows.append([k] + [repr(c[i]) for c in s['fr']])
    if s['props']:
        rows.append(['#'])
        rows += [[p[0]] + [repr(x) for x in p[1:]] for p in s['props']]
    return '\n'.join(s['sep'].join(r) for r in rows) + s['end']


def load(s, d, i, description=None):
    if s['twin']:  # another material of the same name, from the same file
        i = 0
    path = os.path.join(d, 'material%d.txt' % i)
    with open(path, 'w') as f:
        f.write(file_text(s))
    return thermo.Material('Mat%d' % i, path, description)


def heating(s, a):
    for p in s['props']:
        if p[0] == 'HHV[MJ/kg]':
            return p[1 + a]
    return None


@st.composite
def materials(draw, coal):
    ms = [draw(specs(coal))]
    for _ in range(draw(st.integers(0, 2))):
        ms.append(draw(st.one_of(specs(coal), specs(coal, ms[0]['keys']))))
    return ms


pressures = st.one_of(st.sampled_from([1.0, 2.5]), st.floats(0.01, 100.0))


def histories(coal=False):
    ix = st.integers(0, 50)
    ops = [
        st.tuples(st.just('create'), ix, ix, mass, st.booleans(), temps,
                  pressures),
        st.tuples(st.just('empty'), ix, temps, pressures),
        st.tuples(st.just('add'), ix, ix),
        st.tuples(st.just('add'), ix, ix),
        st.tuples(st.just('add_key'), ix, ix, mass),
        st.tuples(st.just('add_key_T'), ix, ix, mass, temps),
        st.tuples(st.just('set_T'), ix, temps),
        st.tuples(st.just('set_H'), ix, temps),
        st.tuples(st.just('set_P'), ix, pressures),
        st.tuples(st.just('mul'), ix, st.one_of(part, st.floats(1e-9, 50.0))),
        st.tuples(st.just('clone'), ix),
        st.tuples(st.just('clear'), ix),
        st.tuples(st.just('extract'), ix, part),
        st.tuples(st.just('extract_key'), ix, ix, part),
        st.tuples(st.just('extract_all'), ix, ix),
        st.tuples(st.just('extract_mat'), ix, ix),
        st.tuples(st.just('reread'), ix),
        st.tuples(st.just('reject'), ix, ix),
    ]
    if coal:
        ops.append(st.tuples(st.just('set_HHV'), ix, st.floats(5.0, 40.0)))
    return st.fixed_dictionaries({
        'materials': materials(coal),
        'T0': temps,
        'ops': st.lists(st.one_of(*ops).map(list), min_size=1, max_size=10)})


def compare(kind, p, r, what, deep=True):
    req(type(p) is kind.cls, '%s: a %s became %r', what, kind.name, type(p))
    m = r.mass
    tol = 1e-9 * m + 1e-15
    same(list(p.material.compounds), list(r.keys), what + ': compounds')
    for k in r.keys:
        close(kind.one(p, k), r.m[k], '%s: mass of %s' % (what, k), 1e-9, tol)
    close(kind.mass(p), m, what + ': mass', 1e-9, tol)
    close(p.P, r.P, what + ': pressure', 1e-12)
    s = r.scale()
    close(kind.H(p), r.H, what + ': enthalpy', 1e-9,
          1e-8 * s + 1e-9 * r.heat() + 1e-15)
    if m > 0.0:
        close(p.T, r.T, what + ': temperature', 1e-9, 1e-9)
    same(bool(p.isCoal), bool(r.coal), what + ': coal')
    if r.coal and m > 0.0:
        if r.HHV is None:
            req(p.HHV is None, '%s: heating value %r', what, p.HHV)
        else:
            close(p.HHV, r.HHV, what + ': heating value', 1e-7, 1e-6)
    if not deep:
        return
    want, el = 0.0, {}
    got = list(kind.amounts(p))
    for k, g in zip(r.keys, got):
        c, M = COMP[k]
        n = r.m[k] / M
        want += n
        close(g, n, '%s: amount of %s' % (what, k), 1e-8, tol)
        close(kind.amount1(p, k), n, '%s: amount of %s' % (what, k), 1e-8,
              tol)
        for e, x in c.items():
            el[e] = el.get(e, 0.0) + n * x * MASS[e]
    close(kind.amount(p), want, what + ': amount', 1e-8, tol)
    order = sorted(el)
    same(list(p.material.elements), order, what + ': elements')
    for e, g in zip(order, kind.elements(p)):
        close(g, el[e], '%s: mass of element %s' % (what, e), 1e-8, tol)
        close(kind.element(p, e), el[e], '%s: mass of element %s'
              % (what, e), 1e-8, tol)
        close(kind.eldict(p)[e], el[e], '%s: mass of element %s'
              % (what, e), 1e-8, tol)
    same(len(kind.eldict(p)), len(el), what + ': elements')
    some = [order[-1], 'Xe', order[0]]
    for e, g in zip(some, list(kind.elements(p, some))):
        close(g, el.get(e, 0.0), '%s: mass of element %s' % (what, e), 1e-8,
              tol)
    close(kind.one(p, 'Xe[G]'), 0.0, what + ': mass of xenon')
    if m > 0.0:
        for k, g in zip(r.keys, list(p.get_assay())):
            close(g, r.m[k] / m, '%s: assay of %s' % (what, k), 1e-8, 1e-9)


GRID = [-20.0, 0.0, 25.0, 100.0, 200.0, 300.0, 450.0, 600.0, 750.0, 900.0,
        1100.0, 1300.0, 1500.0, 1600.0]


def reachable(r):
    """The enthalpy is that of just one temperature within the range."""
    if r.mass == 0.0:
        return True
    hs = [r.enthalpy(T) for T in GRID]
    return all(a + 1e-5 * r.mass < b for a, b in zip(hs, hs[1:])) and \
        hs[0] < r.H < hs[-1]


def sync(kind, p, r):
    """Takes over masses that were found right, to the last digit."""
    for k in r.keys:
        r.m[k] = float(kind.one(p, k))


def solved(kind, p, r, what):
    """p found its temperature from its enthalpy; take it over."""
    T = float(p.T)
    # The enthalpy functions of graphite and sulphur fall at low and at high
    # temperatures: a temperature outside the range may have the enthalpy too.
    if not -273.0 < T < 5000.0 and r.mass > 0.0:
        raise Violation('%s: temperature %r for an enthalpy of %r' % (
            what, T, r.H))
    if r.mass > 0.0:
        err = abs(r.enthalpy(T) - r.H)
        tol = 0.02 * max(r.heat(), 1e-4 * r.mass) + 1e-9 * r.scale()
        if not err <= tol:
            raise Violation('%s: temperature %r: enthalpy there is %r, not %r'
                            % (what, T, r.enthalpy(T), r.H))
    r.T = T
    return r


def run(kind, case):
    made = 0
    with scratch_dir() as d:
        specs_ = case['materials']
        mats = [load(s, d, i) for i, s in enumerate(specs_)]
        pkgs, refs = [], []

        def put(p, r):
            pkgs.append(p)
            refs.append(r)

        def create(i, a, m, norm, T, P):
            s = specs_[i]
            if not s['assays']:
                put(kind.create(mats[i], P=P, T=T),
                    Ref(mats[i], s['keys'], [0.0] * len(s['keys']), T, P))
                return
            a %= len(s['assays'])
            tot = sum(s['fr'][a]) if norm else 1.0
            put(kind.create(mats[i], s['assays'][a], m, P, T, norm),
                Ref(mats[i], s['keys'], [m * f / tot for f in s['fr'][a]],
                    T, P, s['coal'], heating(s, a)))

        # what is not given: no mass, 1 atm, 25 C, normalised
        for s, m in zip(specs_, mats):
            for a in [None] + s['assays'][:2]:
                p = kind.create(m, a)
                same((float(kind.mass(p)), p.P, p.T), (0.0, 1.0, 25.0),
                     '%s of nothing of %s: amount, pressure, temperature'
                     % (kind.name, a))
                if a is not None:
                    p = kind.create(m, a, 2.0)
                    close(kind.mass(p), 2.0, '%s of 2 of %s' % (
                        kind.name, a), 1e-9)
                    same((p.P, p.T), (1.0, 25.0), '%s of 2 of %s: pressure, '
                         'temperature' % (kind.name, a))
        create(0, 0, 100.0, True, case['T0'], 1.0)
        create(len(mats) - 1, 1, 10.0, True, 25.0, 2.0)
        for nr, op in enumerate(case['ops']):
            o = op[0]
            num = (float, numpy.float64, numpy.float32)[nr % 3]
            if num is numpy.float32:
                if o in ('add_key', 'add_key_T', 'mul'):
                    op = [float(num(x)) if isinstance(x, float) else x
                          for x in op]
                else:
                    num = float
            i = op[1] % len(pkgs)
            p, r = pkgs[i], refs[i]
            k = r.keys[op[2] % len(r.keys)] if len(op) > 2 and isinstance(
                op[2], int) else None
            what = '%s after %r' % (kind.name, op)
            sync(kind, p, r)
            if o == 'create':
                create(op[1] % len(mats), op[2], op[3], op[4], op[5], op[6])
            elif o == 'empty':
                i = op[1] % len(mats)
                put(kind.create(mats[i], P=op[3], T=op[2]),
                    Ref(mats[i], specs_[i]['keys'],
                        [0.0] * len(specs_[i]['keys']), op[2], op[3]))
            elif o == 'add':
                j = op[2] % len(pkgs)
                q, t = pkgs[j], refs[j]
                sync(kind, q, t)
                if not r.holds(t):
                    raises('adding a %s with other contents' % kind.name,
                           ANY, lambda: p + q)
                    continue
                if t.coal and not (r.coal and r.mat is t.mat) and (
                        t.mass > 0.0 or r.mat is not t.mat):
                    continue
                if r.coal and not t.coal and r.mat is t.mat and t.mass > 0:
                    continue
                if r.coal and (r.HHV is None) != (t.HHV is None) and \
                        t.mass > 0 and r.mass > 0:
                    continue
                w = r.copy()
                if r.mat is t.mat:
                    tot = r.mass + t.mass
                    for x in t.keys:
                        w.m[x] += t.m[x]
                    w.coal = r.coal or t.coal
                    if w.coal and tot > 0 and not (
                            r.HHV is None and t.HHV is None):
                        w.HHV = ((r.HHV or 0.0) * r.mass +
                                 (t.HHV or 0.0) * t.mass) / tot
                else:
                    for x in t.keys:
                        w.put(x, t.m[x])
                w.H = r.H + t.H
                if not reachable(w):
                    continue
                x = p + q
                put(x, solved(kind, x, w, what))
                made += r.mass > 0 and t.mass > 0
            elif o in ('add_key', 'add_key_T') and r.coal and \
                    r.HHV is not None and r.mass < 1e-6 * op[3]:
                continue  # nothing but rounding is left of the coal
            elif o == 'add_key':
                w = r.copy().put(k, op[3])
                w.H = r.H + op[3] * h(k, r.T)
                put(p + (k, num(op[3])), w)
                made += op[3] > 0
            elif o == 'add_key_T':
                w = r.copy().put(k, op[3])
                w.H = r.H + op[3] * h(k, op[4])
                if not reachable(w):
                    continue
                x = p + (k, num(op[3]), num(op[4]))
                put(x, solved(kind, x, w, what))
                made += op[3] > 0
            elif o == 'set_T':
                p.T = num(op[2])
                r.T = op[2]
                r.again()
                made += r.mass > 0
            elif o == 'set_H':
                if r.mass < 1e-9:
                    continue
                old, r.H = r.H, r.enthalpy(op[2])
                if not reachable(r):
                    r.H = old
                    continue
                kind.set_H(p, r.H)
                solved(kind, p, r, what)
                if not r.coal:
                    req(abs(r.T - op[2]) <= 0.05 or not -40.0 < r.T < 1700.0,
                        '%s: temperature %r, '
                        'expected %r', what, r.T, op[2])
                made += 1
            elif o == 'set_HHV':
                if not r.coal or r.mass <= 0.0 or not r.daf():
                    continue
                p.HHV = op[2]
                p.T = p.T
                r.HHV = op[2]
                r.again()
            elif o == 'set_P':
                p.P = op[2]
                r.P = op[2]
            elif o == 'mul':
                put(p * num(op[2]), r.copy(op[2]).again())
            elif o == 'clone':
                p.custom_properties['x'] = 1.0
                q = p.clone()
                same(q.custom_properties, {'x': 1.0}, 'custom properties')
                q.custom_properties['x'] = 2.0
                same(p.custom_properties, {'x': 1.0}, 'custom properties')
                put(q, r.copy())
            elif o == 'clear':
                p.clear()
                r.m = {x: 0.0 for x in r.keys}
                r.T, r.P, r.H = 25.0, 1.0, 0.0
            elif o == 'extract':
                if r.mass <= 0.0:
                    continue
                m = float(kind.mass(p)) * op[2]
                if nr % 3 == 2 and op[2] < 0.999:
                    m = float(numpy.float32(m))
                    op = ['extract', i, m / float(kind.mass(p))]
                    num = numpy.float32
                put(p.extract(num(m)), r.copy(op[2]).again())
                refs[i] = r.copy(1.0 - op[2]).again()
                made += 0.0 < op[2] < 1.0
            elif o in ('extract_key', 'extract_all'):
                m = float(kind.one(p, k))
                if o == 'extract_key':
                    m *= op[3]
                w = Ref(r.mat, r.keys, [0.0] * len(r.keys), r.T, r.P)
                w.m[k] = m
                put(p.extract((k, num(m)) if o == 'extract_key' else k), w.again())
                refs[i] = r.copy().put(k, -m)
                if o == 'extract_all':
                    refs[i].m[k] = 0.0
                refs[i].again()
                made += m > 0
            elif o == 'extract_mat':
                j = op[2] % len(mats)
                t = specs_[j]['keys']
                w = Ref(mats[j], t, [r.m.get(x, 0.0) for x in t], r.T, r.P)
                refs[i] = r.copy()
                for x in t:
                    if x in r.m:
                        refs[i].put(x, -r.m[x])
                        refs[i].m[x] = 0.0
                if any(x in r.m for x in t):
                    refs[i].again()
                put(p.extract(mats[j]), w)
                made += w.mass > 0
            elif o == 'reread':
                path = os.path.join(d, 'p.json')
                p.write(path)
                q = Object.read(path)
                w = r.copy()
                w.mat = q.material
                put(q, w)
            elif o == 'reject':
                reject(kind, p, r, op[2])
            for n, (q, t) in enumerate(zip(pkgs, refs)):
                compare(kind, q, t, '%s %d after %r' % (kind.name, n, op),
                        n in (op[1] % len(pkgs), len(pkgs) - 1))
        for m, s in zip(mats, specs_):
            for a, fr in zip(s['assays'], s['fr']):
                same([float(x) for x in m.raw_assays[a]], fr, 'assay ' + a)
                same([float(x) for x in m.converted_assays[a]], fr,
                     'assay ' + a)
    return made


def reject(kind, p, r, n):
    k = r.keys[0]
    bad = [lambda: p + 1.0, lambda: p + 'Fe', lambda: p * -1.0,
           lambda: p * 'a', lambda: p + (k, 1.0, 2.0, 3.0),
           lambda: p.extract(r.mass * 1.5 + 1.0),
           lambda: p.extract((k, r.m[k] * 1.5 + 1.0)),
           lambda: p.extract(None), lambda: p + ('Xe[G]', 1.0),
           lambda: p + ('Xe[G]', 1.0, 25.0), lambda: p.extract([1.0]),
           lambda: p + None, lambda: p * None, lambda: p + (k, 'x'),
           lambda: kind.cls(p.material.name, p.material.create_empty_assay()),
           lambda: kind.cls(p.material, 1.0)]
    raises('invalid operation %d' % (n % len(bad)), ANY, bad[n % len(bad)])
