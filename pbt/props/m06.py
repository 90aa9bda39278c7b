"""M06: thermochemical material files hold the material; assays can be used."""
import os

import numpy
from hypothesis import strategies as st

from auxi.core.objects import Object
from pbt import thermopkg as tp
from pbt.core import Facet, close, raises, req, same, scratch_dir
from pbt.packages import fractions, mass

RULE = 'non-trivial: a material of more than one compound.'
ASSUMPTIONS = ['the layout of the material files described in the module',
               'assay names of up to 15 characters']

cases = st.fixed_dictionaries({
    'spec': tp.specs(), 'desc': st.sampled_from([None, '', 'an ore']),
    'lead': st.sampled_from(['', ' ', '\t']),
    'short': st.sampled_from([None, '', 'X[S]', 'X[S] 0.5 0.5 0.5 0.5'[:4]]),
    'new': st.lists(fractions, max_size=6), 'mass': mass, 'T': tp.temps,
    'P': tp.pressures})


def text(case):
    lines = tp.file_text(case['spec']).split('\n')
    if case['short'] is not None:
        # incomplete lines do not count
        lines.insert(2, case['short'] if case['spec']['assays'] else '')
    return '\n'.join(case['lead'] + x for x in lines)


def check_file(case):
    s = case['spec']
    with scratch_dir() as d:
        path = os.path.join(d, 'm.txt')
        with open(path, 'w') as f:
            f.write(text(case))
        m = tp.thermo.Material('Ore', path, case['desc'])
        same((m.name, m.description), ('Ore', case['desc']), 'name')
        same(m.compounds, s['keys'], 'compounds')
        same(m.compound_count, len(s['keys']), 'compound count')
        same([m.get_compound_index(k) for k in s['keys']],
             list(range(len(s['keys']))), 'indices')
        el = sorted({e for k in s['keys'] for e in tp.COMP[k][0]})
        same(list(m.elements), el, 'elements')
        same(list(m.custom_properties), [p[0] for p in s['props']],
             'custom properties')
        s = dict(s, assays=list(s['assays']), fr=list(s['fr']))

        def contents():
            same(sorted(m.raw_assays), sorted(s['assays']), 'assays')
            same(sorted(m.converted_assays), sorted(s['assays']), 'assays')
            for j, (a, fr) in enumerate(zip(s['assays'], s['fr'])):
                for x in (m.raw_assays, m.converted_assays):
                    same([float(v) for v in x[a]], fr, 'assay ' + a)
                close(m.get_assay_total(a), sum(fr), 'total of ' + a)
                same(m.assay_custom_properties[a],
                     {p[0]: p[1 + j] for p in s['props'] if j + 1 < len(p)},
                     'properties of ' + a)

        def printed():
            req(m.name in str(m), 'the printed material has no name')
            rows = [x.split() for x in str(m).splitlines()]
            order = sorted(s['assays'])
            i = [n for n, x in enumerate(rows) if x[:1] == ['Compound']][0]
            same(rows[i][1:], [a[:15] for a in order], 'printed assays')
            want = [(k, [m.raw_assays[a][s['keys'].index(k)] for a in order])
                    for k in sorted(s['keys'])]
            want.append(('Total', [sum(m.raw_assays[a]) for a in order]))
            for r, (k, v) in zip(rows[i + 2:], want):
                same((r[0], len(r)), (k, len(v) + 1), 'printed row')
                for g, x in zip(r[1:], v):
                    if k == 'Total':  # the order of the sum shows in digits
                        close(float(g), x, 'printed total', 2e-8)
                    else:
                        same(g, '%.8e' % x, 'printed fraction of ' + k)
            rest = rows[i + 2 + len(want):]
            for p in s['props']:
                v = {a: '%.8e' % x for a, x in zip(s['assays'], p[1:])}
                req([p[0]] + [v.get(a, 'nan') for a in order] in rest,
                    'the printed material lacks %r: %r', p[0], rest)
        contents()
        printed()
        e = m.create_empty_assay()
        same(list(e), [0.0] * len(s['keys']), 'empty assay')
        e[0] = 1.0
        same(list(m.create_empty_assay()), [0.0] * len(s['keys']), 'empty')
        new = (case['new'] + [0.5] * 6)[:len(s['keys'])]
        arr = numpy.array
        for i, f in enumerate([
                lambda: m.add_assay((s['assays'] or ['N'])[0],
                                    arr(new) if s['assays'] else None),
                lambda: m.add_assay('N', arr(new + [1.0])),
                lambda: m.add_assay('N', arr(new[1:])),
                lambda: m.add_assay('N', list(new)),
                lambda: m.add_assay('N', None)]):
            raises('invalid assay %d' % i, (Exception,), f)
            contents()
        m.add_assay('N', arr(new))
        s['assays'].append('N')
        s['fr'].append(new)
        contents()
        printed()
        for kind in (tp.Package, tp.Stream):
            for a, fr in zip(s['assays'], s['fr']):
                for norm in (True, False):
                    if norm and sum(fr) == 0.0:
                        continue
                    t = sum(fr) if norm else 1.0
                    p = kind.create(m, a, case['mass'], case['P'], case['T'],
                                    norm)
                    tp.compare(kind, p, tp.Ref(
                        m, s['keys'], [case['mass'] * f / t for f in fr],
                        case['T'], case['P']), 'package of ' + a)
            p = kind.create(m)
            tp.compare(kind, p, tp.Ref(m, s['keys'], [0.0] * len(s['keys']),
                                       25.0, 1.0), 'empty package')
            same(p.T, 25.0, 'temperature of an empty package')
        contents()
        path = os.path.join(d, 'm.json')
        m.write(path)
        old, m = m, Object.read(path)
        same(type(m), type(old), 'type read back')
        same((m.name, m.description), ('Ore', case['desc']), 'read back')
        contents()
        raises('a file that does not exist', (Exception,), tp.thermo.Material,
               'x', os.path.join(d, 'absent.txt'))
    return len(s['keys']) > 1


def shown(p, r, kind):
    """The printed package."""
    out = {}
    lines = str(p).splitlines()
    for x in lines:
        w = x.split()
        if len(w) > 1:
            out.setdefault(w[0] if w[0] in p.material.compounds
                           else x[:20].strip(), w)
    return out


def check_print(case):
    s = case['spec']
    with scratch_dir() as d:
        m = tp.load(s, d, 0)
        for kind in (tp.Package, tp.Stream):
            if s['assays']:
                p = kind.create(m, s['assays'][0], case['mass'], case['P'],
                                case['T'])
                t = sum(s['fr'][0])
                r = tp.Ref(m, s['keys'], [case['mass'] * f / t
                                          for f in s['fr'][0]], case['T'],
                           case['P'])
            else:
                p = kind.create(m, P=case['P'], T=case['T'])
                r = tp.Ref(m, s['keys'], [0.0] * len(s['keys']), case['T'],
                           case['P'])
            if case['desc'] != '':
                p.custom_properties['Quality'] = case['mass']
            out = shown(p, r, kind)
            suffix = ' Flow Rate' if kind is tp.Stream else ''
            num = {'Mass' + suffix: r.mass, 'Pressure': r.P,
                   'Temperature': r.T, 'Enthalpy' + suffix: r.H,
                   'Amount' + suffix: sum(
                       v / tp.COMP[k][1] for k, v in r.m.items())}
            if case['desc'] != '':
                num['Quality'] = case['mass']
            else:
                req('Quality' not in out, 'a property it does not have')
            for k, v in num.items():
                vals = [float(x) for x in out[k] if _number(x)]
                same(len(vals), 1, 'printed ' + k)
                close(vals[0], v, 'printed ' + k, 1e-7, 1e-8 * r.scale())
            tot = num['Amount' + suffix]
            for k in s['keys']:
                v = [float(x) for x in out[k][1:]]
                want = [r.m[k], r.m[k] / r.mass,
                        r.m[k] / tp.COMP[k][1] / tot] if r.mass > 0 \
                    else [0.0] * 3
                for g, w in zip(v, want):
                    close(g, w, 'printed ' + k, 1e-7, 1e-14)
    return len(s['keys']) > 1 and case['mass'] > 0


def _number(x):
    try:
        float(x)
        return True
    except ValueError:
        return False


FACETS = [
    Facet('file', cases, check_file, quick=800, thorough=8000),
    Facet('print', cases, check_print, quick=400, thorough=3000),
]
