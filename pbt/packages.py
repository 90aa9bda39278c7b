"""Histories of operations on material packages, against a reference of plain
dictionaries.  Shared by the checks of the chem, psd and slurry materials.

A kind adapts one module:  KEYS, module, file_text(spec), water (bool).
Reference package: {'mat': index, 'masses': {key: mass}, 'H2O', 'rho'}.
"""
import os

import numpy
from hypothesis import strategies as st

from auxi.core.objects import Object
from auxi.modelling.process.materials import chem, psd, slurry
from pbt.core import Violation, close, raises, req, same, scratch_dir

ANY = (Exception,)
fractions = st.one_of(st.sampled_from([0.0, 0.0, 0.25, 1.0, 0.5]),
                      st.floats(1e-6, 1.0), st.floats(1e-10, 1e-5))
mass = st.one_of(st.sampled_from([0.0, 1.0, 10.0, 1e6]),
                 st.floats(1e-3, 1e6), st.floats(1e-9, 1e-3))
part = st.one_of(st.sampled_from([0.0, 0.0, 1.0, 0.5]),
                 st.floats(1e-6, 0.999999), st.floats(0.99, 0.9999),
                 st.floats(1e-9, 1e-5))
names = st.sampled_from(['A', 'FeedB', 'mix-1', 'X_2', 'WetC', 'ore.3'])


class Chem:
    name = 'chem'
    module = chem
    water = False
    KEYS = ['Al2O3', 'CaO', 'Fe2O3', 'FeO', 'SiO2', 'C', 'H2', 'O2', 'N2',
            'Fe', 'H2O', 'TiO2', 'Ca(OH)2', 'CuSO4.5H2O', 'Al2Si2O5(OH)4',
            'CO', 'Co', 'No', 'NO', 'Fe2O3[S1]', 'Fe2O3[L]', 'SiO2[S2]']
    numpy = False

    @staticmethod
    def masses(p):
        return [p.get_compound_mass(k) for k in p.material.compounds]

    @staticmethod
    def keys(m):
        return m.compounds

    fraction = staticmethod(lambda p, k: p.get_compound_mass_fraction(k))
    all_of = staticmethod(lambda k: k)


class Psd:
    name = 'psd'
    module = psd
    water = False
    KEYS = [0.3072, 0.1086, 0.0384, 0.0136, 4.8e-3, 1.7e-3, 600e-6, 210e-6,
            75e-6, 1e-7, 0.0]
    numpy = True

    @staticmethod
    def masses(p):
        return [p.get_size_class_mass(k) for k in p.material.size_classes]

    @staticmethod
    def keys(m):
        return m.size_classes

    fraction = staticmethod(lambda p, k: p.get_size_class_mass_fraction(k))
    all_of = staticmethod(str)


class Slurry(Psd):
    name = 'slurry'
    module = slurry
    water = True


def specs(kind, base=None):
    @st.composite
    def spec(draw):
        keys = draw(st.lists(st.sampled_from(kind.KEYS), min_size=1,
                             max_size=6, unique=True))
        if base is not None:  # share most keys with another material
            keys = [k for k in base if draw(st.integers(0, 3))] + \
                [k for k in keys if k not in base][:draw(st.integers(0, 1))]
            if not keys or draw(st.integers(0, 2)) == 0:
                keys = list(base)
            if draw(st.booleans()):
                keys = draw(st.permutations(keys))
        if kind.numpy and draw(st.integers(0, 3)):
            keys = sorted(keys, reverse=True)
        assays = draw(st.lists(names, min_size=1, max_size=3, unique=True))
        if draw(st.integers(0, 7)) == 7:  # made of other materials only
            assays = []
        cols = []
        for a in assays:
            fr = [draw(fractions) for _ in keys]
            if sum(fr) == 0.0:
                fr[0] = 1.0
            cols.append(fr)
        s = {'keys': keys, 'assays': assays, 'fr': cols,
             'sep': draw(st.sampled_from([' ', '   ', '\t', ' \t ', '\t\t'])),
             'pad': draw(st.sampled_from(['', '  ', '\t'])),
             'end': draw(st.sampled_from(['', '\n', '\n\n', '\n \n'])),
             'gap': draw(st.sampled_from([None, None, 0, 1, 2])),
             'twin': draw(st.integers(0, 3)) == 3}
        if kind.water:
            s['rho'] = [draw(st.floats(0.5, 8.0)) for _ in assays]
            s['H2O'] = [draw(st.one_of(st.sampled_from([0.0, 1.0]),
                                       st.floats(0.0, 1.0))) for _ in assays]
            for i, w in enumerate(s['H2O']):
                if w == 1.0 and draw(st.booleans()):
                    cols[i] = [0.0] * len(keys)  # pure water
        return s
    return spec()


@st.composite
def materials(draw, kind):
    ms = [draw(specs(kind))]
    for _ in range(draw(st.integers(0, 2))):
        ms.append(draw(st.one_of(specs(kind), specs(kind, ms[0]['keys']))))
    return ms


def file_text(s):
    rows = [['Key'] + s['assays']]
    if 'rho' in s:
        rows.append(['solid_density'] + [repr(x) for x in s['rho']])
        rows.append(['H2O'] + [repr(x) for x in s['H2O']])
    for i, k in enumerate(s['keys']):
        rows.append([str(k)] + [repr(c[i]) for c in s['fr']])
        if i == s['gap']:
            rows.append([])
    return '\n'.join(s['pad'] + s['sep'].join(r) + s['pad']
                     for r in rows) + s['end']


def load(kind, s, d, i, description=None):
    if s['twin']:  # another material of the same name, from the same file
        i = 0
    path = os.path.join(d, 'material%d.txt' % i)
    with open(path, 'w') as f:
        f.write(file_text(s))
    return kind.module.Material('Mat%d' % i, path, description)


# place of the number in an operation
NUMBER = {'mul': 2, 'add_key': 3, 'add_to_key': 3, 'add_water': 2,
          'extract': 2, 'extract_key': 3, 'extract_water': 2}


def histories(kind):
    ix = st.integers(0, 50)
    ops = [
        st.tuples(st.just('create'), ix, ix, mass, st.booleans()),
        st.tuples(st.just('empty'), ix),
        st.tuples(st.just('add'), ix, ix),
        st.tuples(st.just('add'), ix, ix),
        st.tuples(st.just('add_key'), ix, ix, mass),
        st.tuples(st.just('mul'), ix, st.one_of(part, st.floats(1e-9, 50.0))),
        st.tuples(st.just('clone'), ix),
        st.tuples(st.just('clear'), ix),
        st.tuples(st.just('extract'), ix, part),
        st.tuples(st.just('extract_key'), ix, ix, part),
        st.tuples(st.just('extract_all'), ix, ix),
        st.tuples(st.just('reread'), ix),
        st.tuples(st.just('reject'), ix, ix),
    ]
    if kind.water:
        ops += [st.tuples(st.just('add_water'), ix, mass),
                st.tuples(st.just('extract_water'), ix, part)]
    else:
        ops += [st.tuples(st.just('add_to'), ix, ix),
                st.tuples(st.just('add_to_key'), ix, ix, mass)]
    return st.fixed_dictionaries({
        'materials': materials(kind),
        'ops': st.lists(st.one_of(*ops).map(list), min_size=1, max_size=14)})


class Ref:
    # What rounding may leave of something extracted completely.
    rest = 0.0

    def left(self, before):
        self.rest = 1e-14 * before.mass
        return self

    def __init__(self, mat, keys, masses, H2O=0.0, rho=1.0):
        self.mat, self.keys = mat, keys
        self.m = dict(zip(keys, masses))
        self.H2O, self.rho = H2O, rho

    def copy(self, f=1.0):
        return Ref(self.mat, self.keys, [self.m[k] * f for k in self.keys],
                   self.H2O * f, self.rho)

    @property
    def solids(self):
        return sum(self.m.values())

    @property
    def mass(self):
        return self.solids + self.H2O

    def holds(self, other):
        return self.mat is other.mat or all(k in self.m for k in other.keys)

    def plus(self, other):
        r = self.copy()
        for k, v in other.m.items():
            r.m[k] += v
        r.H2O += other.H2O
        if r.solids > 0.0:
            # the volumes of the solids add up
            r.rho = r.solids / (self.solids / self.rho +
                                other.solids / other.rho)
        return r


def compare(kind, p, r, what):
    tol = 1e-9 * (r.mass + 1e-30) + 1e-15 + r.rest
    got = kind.masses(p)
    same(list(kind.keys(p.material)), list(r.keys), what + ': keys')
    for k, g in zip(r.keys, got):
        close(g, r.m[k], '%s: mass of %s' % (what, k), 1e-9, tol)
    close(p.get_mass(), r.mass, what + ': mass', 1e-9, tol)
    if kind.water:
        close(p.H2O_mass, r.H2O, what + ': water', 1e-9, tol)
        close(p.get_solid_mass(), r.solids, what + ': solids', 1e-9, tol)
        close(p.solid_density, r.rho, what + ': solid density', 1e-8)
        vol = r.H2O + r.solids / r.rho
        close(p.get_volume(), vol, what + ': volume', 1e-8, 2 * tol)
        if r.mass > 0:
            close(p.get_density(), r.mass / vol, what + ': density', 1e-7)
            close(p.get_mass_fraction_solids(), r.solids / r.mass,
                  what + ': mass fraction of solids', 1e-8, 1e-9)
            close(p.get_volume_fraction_solids(), r.solids / r.rho / vol,
                  what + ': volume fraction of solids', 1e-7, 1e-8)
    rows = str(p).splitlines()
    wide = 24 if kind.water else 20
    printed = dict((x[:wide].strip(), x[wide:]) for x in rows[1:])
    same(printed['material'], r.mat.name, what + ': printed material')
    same(float(printed['mass']), float(p.get_mass()),
         what + ': printed mass')
    same([float(printed[str(k)]) for k in r.keys], list(map(float, got)),
         what + ': printed masses')
    same(len(rows), (10 if kind.water else 4) + len(r.keys),
         what + ': printed rows')
    if r.solids > 1e-9 * r.mass:
        tol = 1e-8 * r.mass / r.solids
        a = list(p.get_assay())
        for k, g in zip(r.keys, a):
            close(g, r.m[k] / r.solids, '%s: assay of %s' % (what, k), 1e-8,
                  tol)
            close(kind.fraction(p, k), r.m[k] / r.solids,
                  '%s: mass fraction of %s' % (what, k), 1e-8, tol)
        close(sum(a), 1.0, what + ': total of the assay')


def sync(kind, p, r):
    """Takes over masses that were found right, to the last digit."""
    r.rest = 0.0
    r.m = dict(zip(r.keys, map(float, kind.masses(p))))
    if kind.water:
        r.H2O = float(p.H2O_mass)


def run(kind, case, extra=None):
    """Plays a history; -> number of packages made from others."""
    mod = kind.module
    with scratch_dir() as d:
        mats = [load(kind, s, d, i) for i, s in enumerate(case['materials'])]
        refs = []  # Ref or None
        pkgs = []
        made = 0

        def put(p, r):
            pkgs.append(p)
            refs.append(r)
            req(type(p) is mod.MaterialPackage, 'a package became %r',
                type(p))

        def create(i, a, m, norm):
            s = case['materials'][i]
            if not s['assays']:
                put(mats[i].create_package(),
                    Ref(mats[i], s['keys'], [0.0] * len(s['keys'])))
                return
            a %= len(s['assays'])
            fr = s['fr'][a]
            tot = (sum(fr) if norm else 1.0) or 1.0
            w = s['H2O'][a] * m if kind.water else 0.0
            put(mats[i].create_package(s['assays'][a], m, norm),
                Ref(mats[i], s['keys'], [(m - w) * f / tot for f in fr], w,
                    s['rho'][a] if kind.water else 1.0))

        # nothing of anything, where no mass is given
        for m, s in zip(mats, case['materials']):
            for a in s['assays'][:2]:
                p = m.create_package(a)
                compare(kind, p, Ref(m, s['keys'], [0.0] * len(s['keys']), 0.0,
                                     float(p.solid_density) if kind.water
                                     else 1.0), 'package of nothing')
        create(0, 0, 100.0, True)
        create(len(mats) - 1, 1, 10.0, True)
        for nr, op in enumerate(case['ops']):
            o = op[0]
            i = op[1] % len(pkgs)
            # numpy numbers are numbers too, where the material takes them
            num = (float, numpy.float64, numpy.float32)[
                nr % 3 if kind.numpy else 0]
            if num is numpy.float32 and o in NUMBER and op[NUMBER[o]] < 1e30:
                op = list(op)
                if o in ('mul', 'add_key', 'add_to_key', 'add_water'):
                    op[NUMBER[o]] = float(num(op[NUMBER[o]]))
                elif o != 'extract' or not 0.0 < op[2] < 0.999:
                    num = float
            p, r = pkgs[i], refs[i]
            sync(kind, p, r)
            k = r.keys[op[2] % len(r.keys)] if len(op) > 2 and isinstance(
                op[2], int) else None
            if o == 'create':
                create(op[1] % len(mats), op[2], op[3], op[4])
            elif o == 'empty':
                i = op[1] % len(mats)
                put(mats[i].create_package(), Ref(
                    mats[i], case['materials'][i]['keys'],
                    [0.0] * len(case['materials'][i]['keys'])))
            elif o in ('add', 'add_to'):
                q, t = pkgs[op[2] % len(pkgs)], refs[op[2] % len(pkgs)]
                sync(kind, q, t)
                if not r.holds(t):
                    e = raises('adding a package with other contents', ANY,
                               (lambda: p + q) if o == 'add'
                               else (lambda: p.add_to(q)))
                    req(t.mat.name in str(e) and r.mat.name in str(e),
                        'adding a package with other contents: %s: %s',
                        type(e).__name__, e)
                elif o == 'add':
                    put(p + q, r.plus(t))
                    made += t.mass > 0 and r.mass > 0
                else:
                    p.add_to(q)
                    refs[i] = r.plus(t)
                    made += t.mass > 0 and r.mass > 0
            elif o in ('add_key', 'add_to_key'):
                t = r.copy()
                t.m[k] += op[3]
                if o == 'add_key':
                    put(p + (k, num(op[3])), t)
                else:
                    p.add_to((k, num(op[3])))
                    refs[i] = t
                made += op[3] > 0
            elif o == 'mul':
                put(p * num(op[2]), r.copy(op[2]))
            elif o == 'clone':
                put(p.clone(), r.copy())
            elif o == 'clear':
                p.clear()
                refs[i] = Ref(r.mat, r.keys, [0.0] * len(r.keys))
            elif o == 'extract':
                if r.mass <= 0.0:
                    continue
                m = float(p.get_mass()) * op[2]
                if num is numpy.float32:
                    m = float(num(m))
                    op[2] = m / float(p.get_mass())
                put(p.extract(num(m)), r.copy(op[2]))
                refs[i] = r.copy(1.0 - op[2]).left(r)
                made += 0.0 < op[2] < 1.0
            elif o == 'extract_key':
                if r.m[k] < 0.0:
                    continue
                m = float(kind.masses(p)[r.keys.index(k)]) * op[3]
                t = r.copy(0.0)
                t.m[k] = m
                put(p.extract((k, num(m))), t)
                refs[i] = r.copy().left(r)
                refs[i].m[k] -= m
                made += m > 0
            elif o == 'extract_all':
                t = r.copy(0.0)
                t.m[k] = r.m[k]
                put(p.extract(kind.all_of(k)), t)
                refs[i] = r.copy().left(r)
                refs[i].m[k] = 0.0
                made += r.m[k] > 0
            elif o == 'add_water':
                t = r.copy()
                t.H2O += op[2]
                put(p + ('H2O', num(op[2])), t)
                made += op[2] > 0
            elif o == 'extract_water':
                if r.H2O < 0.0:
                    continue
                m = float(p.H2O_mass) * op[2]
                t = r.copy(0.0)
                t.H2O = m
                put(p.extract(('H2O', num(m))), t)
                refs[i] = r.copy().left(r)
                refs[i].H2O -= m
                made += m > 0
            elif o == 'reread':
                path = os.path.join(d, 'p.json')
                p.write(path)
                q = Object.read(path)
                same(str(q), str(p), 'package read back')
                t = r.copy()
                t.mat = q.material
                put(q, t)
            elif o == 'reject':
                reject(kind, p, r, op[2])
            for n, (q, t) in enumerate(zip(pkgs, refs)):
                compare(kind, q, t, 'package %d after %r' % (n, op))
                if extra:
                    extra(q, t, 'package %d after %r' % (n, op))
        # the materials are as they were loaded
        for m, s in zip(mats, case['materials']):
            for a, fr in zip(s['assays'], s['fr']):
                same([float(x) for x in m.assays[a]], fr, 'assay ' + a)
    return made


def reject(kind, p, r, n):
    """Invalid operations are rejected; the caller checks nothing changed."""
    k = r.keys[0]
    args = ((3.0, 0.0) if kind.water else ()) + (
        r.mat.create_empty_assay(),)
    more = r.m[k] * 1.5 + 1.0
    absent = 'Xe' if kind is Chem else 0.777
    bad = [lambda: p + 1.0, lambda: p + 'Fe', lambda: p * -1.0,
           lambda: p * 'a', lambda: p + (k, 1.0, 2.0, 3.0),
           lambda: p.extract(r.mass * 1.5 + 1.0),
           lambda: p.extract((k, more)), lambda: p.extract(None),
           lambda: p.extract((absent, 1.0)), lambda: p + (absent, 1.0),
           lambda: p.extract(kind.all_of(absent)),
           lambda: p.extract([1.0]), lambda: p + None, lambda: p * None,
           lambda: type(p)(r.mat.name, *args),
           lambda: type(p)(r.mat, *(args[:-1] + (1.0,)))]
    if kind.water:
        bad += [lambda: p + ('H2', 1.0),
                lambda: p.extract(('H2O', r.H2O * 1.5 + 1.0)),
                lambda: p.extract(('foo', 0.0))]
    else:
        bad += [lambda: p.add_to(1.0), lambda: p.add_to((absent, 1.0)),
                lambda: p.add_to(None)]
    raises('invalid operation %d' % (n % len(bad)), ANY, bad[n % len(bad)])


def check_material(kind, case):
    """A material file holds the material; assays are added or rejected."""
    s = case['materials'][0]
    with scratch_dir() as d:
        m = load(kind, s, d, 0, case['desc'])
        same(m.name, 'Mat0', 'name')
        same(m.description, case['desc'], 'description')
        same(list(kind.keys(m)), s['keys'], 'keys')
        same(sorted(m.assays), sorted(s['assays']), 'assays')
        index = m.get_compound_index if kind is Chem \
            else m.get_size_class_index
        same([index(k) for k in s['keys']], list(range(len(s['keys']))),
             'indices')
        same(m.compound_count if kind is Chem else m.size_class_count,
             len(s['keys']), 'count')

        def contents():
            for j, (a, fr) in enumerate(zip(s['assays'], s['fr'])):
                same([float(x) for x in m.assays[a]], fr, 'assay ' + a)
                close(m.get_assay_total(a), sum(fr), 'total of ' + a)
                if kind.water:
                    same(m.solid_densities[a], s['rho'][j], 'density of ' + a)
                    same(m.H2O_fractions[a], s['H2O'][j], 'water of ' + a)
            # the printed table, where its columns are wide enough
            vals = [x for fr in s['fr'] for x in fr] + s['assays'] + list(
                s.get('rho', [])) + list(s.get('H2O', []))
            if max((len(str(x)) for x in vals), default=0) > 19:
                return
            rows = [x.split() for x in str(m).splitlines()]
            order = sorted(m.assays)
            head = 2
            same(rows[1][1:], order, 'printed assays')
            if kind.water:
                same([float(x) for x in rows[2][2:]],
                     [m.solid_densities[a] for a in order],
                     'printed densities')
                same([float(x) for x in rows[3][2:]],
                     [m.H2O_fractions[a] for a in order], 'printed water')
                head = 4
            for i, k in enumerate(s['keys']):
                same(rows[head + i][0], str(k), 'printed key')
                same([float(x) for x in rows[head + i][1:]],
                     [float(m.assays[a][i]) for a in order], 'printed row')
            same(len(rows), head + len(s['keys']), 'printed rows')
        contents()
        arr = (lambda x: numpy.array(x)) if kind.numpy else list
        e = m.create_empty_assay()
        same([float(x) for x in e], [0.0] * len(s['keys']), 'empty assay')
        req(all(isinstance(x, float) for x in e), 'empty assay of %r',
            type(e[0]))
        e[0] = 1.0
        same([float(x) for x in m.create_empty_assay()],
             [0.0] * len(s['keys']), 'second empty assay')
        new = case['new'][:len(s['keys'])]
        new += [0.5] * (len(s['keys']) - len(new))
        extra = (case['rho'], case['H2O']) if kind.water else ()
        bad = [lambda: m.add_assay('N', *extra + (arr(new + [1.0]),)),
               lambda: m.add_assay('N', *extra + (arr(new[1:]),)),
               lambda: m.add_assay('N', *extra + (tuple(new),)),
               lambda: m.add_assay('N', *extra + (None,))]
        if s['assays']:
            bad.append(lambda: m.add_assay(s['assays'][0],
                                           *extra + (arr(new),)))
        if kind.water:
            bad += [lambda: m.add_assay('N', 'x', 0.0, arr(new)),
                    lambda: m.add_assay('N', 2.0, None, arr(new))]
        for i, f in enumerate(bad):
            raises('invalid assay %d' % i, ANY, f)
            same(sorted(m.assays), sorted(s['assays']), 'assays')
            contents()
        m.add_assay('N', *extra + (arr(new),))
        s = dict(s, assays=s['assays'] + ['N'], fr=s['fr'] + [new])
        if kind.water:
            s['rho'] = s['rho'] + [case['rho']]
            s['H2O'] = s['H2O'] + [case['H2O']]
        contents()
        for j, (a, fr) in enumerate(zip(s['assays'], s['fr'])):
            for norm in (True, False):
                if norm and sum(fr) == 0.0 and not (
                        kind.water and s['H2O'][j] == 1.0):
                    continue
                p = m.create_package(a, case['mass'], norm)
                w = s['H2O'][j] * case['mass'] if kind.water else 0.0
                t = (sum(fr) if norm else 1.0) or 1.0
                compare(kind, p, Ref(m, s['keys'], [
                    (case['mass'] - w) * f / t for f in fr], w,
                    s['rho'][j] if kind.water else 1.0), 'package of ' + a)
                req(p.material is m, 'package of another material')
        contents()
        # written and read back
        path = os.path.join(d, 'm.json')
        m.write(path)
        old, m = m, Object.read(path)
        same(type(m), type(old), 'type read back')
        same((m.name, m.description), ('Mat0', case['desc']), 'read back')
        contents()
        raises('a file that does not exist', ANY, kind.module.Material,
               'x', os.path.join(d, 'absent.txt'))
        if kind.water:
            # the first rows of the table are those of density and water
            rows = file_text(dict(s, gap=None)).splitlines()
            path = os.path.join(d, 'wrong.txt')
            for i in (1, 2):
                with open(path, 'w') as f:
                    f.write('\n'.join(rows[:i] + rows[i + 1:]))
                raises('a file without row %d: %r' % (i, rows[i]), ANY,
                       kind.module.Material, 'x', path)
    return len(s['keys']) > 1


def material_cases(kind):
    return st.fixed_dictionaries({
        'materials': st.lists(specs(kind), min_size=1, max_size=1),
        'desc': st.sampled_from([None, '', 'some ore']),
        'new': st.lists(fractions, max_size=6),
        'rho': st.floats(0.5, 9.0), 'H2O': st.floats(0.0, 1.0),
        'mass': mass})
