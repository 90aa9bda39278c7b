"""T02: thermochemical data files survive import, export and reloading."""
import io
import json
import os
import warnings
from contextlib import redirect_stdout

from hypothesis import strategies as st

from auxi.tools.chemistry import thermochemistry as T
from pbt import formula as F
from pbt.core import Facet, close, req, same, scratch_dir
from pbt.props import t01

RULE = ('non-trivial: at least two compounds or phases, or a phase with more '
        'than one record, went through a file and were evaluated afterwards.')
ASSUMPTIONS = t01.ASSUMPTIONS + [
    'FactSage files are laid out as the importer documents by its parsing: a '
    'title line with the formula, a table between two lines that start with '
    'an underscore, at most two terms per line']


class keep_loaded:
    def __enter__(self):
        self.old = dict(T.compounds)

    def __exit__(self, *a):
        T.compounds.clear()
        T.compounds.update(self.old)


def listing():
    out = io.StringIO()
    with redirect_stdout(out):
        T.list_compounds()
    return out.getvalue().splitlines()


def check_auxi(case):
    cs = {c['formula']: c for c in case['cs']}
    extra = {c['formula']: c for c in case['extra']}
    lab = 0
    with keep_loaded(), scratch_dir() as d1, scratch_dir() as d2:
        for c in cs.values():
            T.write_compound_to_auxi_file(d1, t01.build(c))
        # what a file is called does not matter
        names = sorted(os.listdir(d1))
        kept = {}
        for i, fn in enumerate(names):
            if case['rename'] >> i & 1:
                kept[fn] = 'Compound_%s.json' % ('x%d' % i if i else 'FeO-2')
                os.rename(os.path.join(d1, fn), os.path.join(d1, kept[fn]))
        for c in extra.values():
            T.write_compound_to_auxi_file(d2, t01.build(c))
        with open(os.path.join(d1, 'notes.json'), 'w') as f:
            f.write('not thermochemical data')
        with open(os.path.join(d1, 'Compound_X.txt'), 'w') as f:
            f.write('not thermochemical data')
        T.load_data_auxi(d2)
        same(sorted(T.compounds), sorted(extra), 'loaded compounds')
        T.load_data_auxi(d1)
        same(sorted(T.compounds), sorted(cs), 'loaded compounds')
        want = ['%s: %s' % (f, ', '.join(sorted(cs[f]['phases'])))
                for f in sorted(cs)]
        got = listing()
        same(got[1:], want, 'listing of the loaded compounds')
        for fml, c in cs.items():
            lc = T.compounds[fml]
            same(lc.formula, fml, 'formula')
            close(lc.molar_mass, F.mass_of(F.parse(fml)) / 1000, 'molar mass')
            same(list(lc.get_phase_list()), sorted(c['phases']), 'phases')
            same(lc.get_reference(), '', 'reference of ' + fml)
            for n, ph in c['phases'].items():
                lab += len(ph['recs'])
                for t in t01.temps(ph, case['T']):
                    t01.verify(lc, n, ph, t)
        # a second export of what was loaded is the same data
        with scratch_dir() as d3:
            for lc in list(T.compounds.values()):
                T.write_compound_to_auxi_file(d3, lc)
            same(sorted(os.listdir(d3)),
                 sorted('Compound_%s.json' % f for f in cs), 'exported files')
            for fn in os.listdir(d3):
                with open(os.path.join(d3, fn)) as f, \
                        open(os.path.join(d1, kept.get(fn, fn))) as g:
                    same(f.read(), g.read(), 'second export of ' + fn)
    return 'auxi' if lab > 1 else None


def number(x, how):
    """A number as data files hold it: as float, whole number or text."""
    if how == 1 and x == int(x):
        return int(x)
    return repr(x) if how == 2 else x


def plain_text(c, how):
    """The compound as a plain dictionary, as in the example data."""
    phs = {}
    for n, ph in c['phases'].items():
        recs = {}
        for i, r in enumerate(ph['recs'][::-1] if c['order'] else
                              ph['recs']):
            h = how[i % len(how)]
            key = str(int(r[1])) if c['keys'] and r[1] == int(r[1]) else \
                repr(r[1])
            recs[key] = {'Terms': [{'Coefficient': number(a, h),
                                    'Exponent': number(b, h)}
                                   for a, b in zip(r[2], r[3])],
                         'Tmin': number(r[0], h), 'Tmax': number(r[1], h)}
        h = how[0] if how[0] < 2 else 0
        phs[n] = {'Cp_records': recs, 'Sref': number(ph['Sref'], h),
                  'DHref': number(ph['DHref'], h)}
        if c['symbol']:
            phs[n]['Symbol'] = n
        if ph.get('mag'):
            phs[n]['magnetic'] = dict(zip(('Tc', 'beta0', 'p'), ph['mag']))
    d = {'Formula': c['formula'], 'Phases': phs}
    if c['order']:
        d['Reference'] = 'chase1998'
    return json.dumps(d)


def check_plain(case):
    cs = {c['formula']: c for c in case['cs']}
    n_rec = 0
    with keep_loaded(), scratch_dir() as d:
        for i, c in enumerate(cs.values()):
            if case['mixed'] and i % 2:
                T.write_compound_to_auxi_file(d, t01.build(c))
                continue
            with open(os.path.join(d, 'Compound_%d.json' % i), 'w') as f:
                f.write(plain_text(c, case['how']))
        T.load_data_auxi(d)
        same(sorted(T.compounds), sorted(cs), 'loaded compounds')
        with scratch_dir() as d2:
            for lc in T.compounds.values():
                T.write_compound_to_auxi_file(d2, lc)
            loaded = dict(T.compounds)
            T.load_data_auxi(d2)
            for source in (loaded, dict(T.compounds)):
                for i, (fml, c) in enumerate(cs.items()):
                    lc = source[fml]
                    same(list(lc.get_phase_list()), sorted(c['phases']),
                         'phases of ' + fml)
                    ref = T.get_datafile_references()['chase1998'] \
                        if c['order'] and not (case['mixed'] and i % 2) \
                        else ''
                    same(lc.get_reference(), ref, 'reference of ' + fml)
                    for n, ph in c['phases'].items():
                        n_rec += len(ph['recs'])
                        for t in t01.temps(ph, case['T']):
                            t01.verify(lc, n, ph, t)
    return 'plain' if n_rec > 2 else None


def fs_text(c):
    lines = ['%s %s %s' % (c['lead'], c['formula'], c['title'])]
    lines += c['pre']
    lines.append('_' * 40)
    pad = ' ' * c['pad']
    for n, ph in c['phases'].items():
        first = True
        for i, (r, split) in enumerate(zip(ph['recs'], ph['split'])):
            terms = list(zip(r[2], r[3]))
            k = 0
            while terms:
                take = 1 if (split >> k) & 1 else 2
                k += 1
                chunk, terms = terms[:take], terms[take:]
                cols = [n, str(i + 1)]
                if first:
                    cols += [repr(ph['DHref']), repr(ph['Sref'])]
                    first = False
                for a, b in chunk:
                    cols += [repr(a), repr(b)]
                lo = '298' if i == 0 else repr(r[0])
                cols += [lo, '-', repr(r[1])]
                lines.append((' ' + pad).join(cols) + pad)
                if c['blank']:
                    lines.append('')
    lines.append('_' * 40)
    lines += ['S9 1 1.0 2.0 3.0 4.0 298 - 500', 'trailer']
    return '\n'.join(lines) + '\n'


@st.composite
def fs_compound(draw):
    names = draw(st.lists(st.sampled_from(['S1', 'S2', 'L1', 'G1', 'Aq1']),
                          min_size=1, max_size=4, unique=True))
    phs = {}
    for n in names:
        ph = draw(t01.phases(mag=False, n_exp=6))
        ph['split'] = draw(st.lists(st.integers(0, 7), min_size=len(
            ph['recs']), max_size=len(ph['recs'])))
        phs[n] = ph
    return {'formula': F.text(draw(F.formulas(1, 1, False, False))),
            'phases': phs, 'lead': draw(st.sampled_from(['', 'COMPOUND'])),
            'title': draw(st.sampled_from(['Oxide', 'some text - here'])),
            'pre': draw(st.sampled_from([[], ['Name: x', ''], [' ref 298 ']])),
            'pad': draw(st.integers(0, 3)), 'blank': draw(st.booleans())}


def check_factsage(case):
    cs = {c['formula']: c for c in case['cs']}
    with keep_loaded(), scratch_dir() as d:
        for i, c in enumerate(cs.values()):
            with open(os.path.join(d, 'Compound_%d.txt' % i), 'w') as f:
                f.write(fs_text(c))
        with open(os.path.join(d, 'Other.txt'), 'w') as f:
            f.write('x')
        T.load_data_factsage(d)
        same(sorted(T.compounds), sorted(cs), 'imported compounds')
        # converted one by one, they are the compounds imported
        with scratch_dir() as d3:
            for i, c in enumerate(cs.values()):
                T.convert_fact_file_to_auxi_thermo_file(
                    os.path.join(d, 'Compound_%d.txt' % i),
                    os.path.join(d3, 'Compound_%d.json' % i))
            before = dict(T.compounds)
            T.load_data_auxi(d3)
            same(sorted(T.compounds), sorted(cs), 'converted compounds')
            for fml in cs:
                same(str(T.compounds[fml]), str(before[fml]),
                     'converted ' + fml)
            T.compounds.clear()
            T.compounds.update(before)
        n_rec = 0
        with scratch_dir() as d2:
            for lc in T.compounds.values():
                T.write_compound_to_auxi_file(d2, lc)
            imported = dict(T.compounds)
            T.load_data_auxi(d2)
            for source in (imported, dict(T.compounds)):
                for fml, c in cs.items():
                    lc = source[fml]
                    same(list(lc.get_phase_list()), sorted(c['phases']),
                         'phases of ' + fml)
                    for n, ph in c['phases'].items():
                        n_rec += len(ph['recs'])
                        for t in t01.temps(ph, case['T']):
                            t01.verify(lc, n, ph, t)
    return 'factsage' if n_rec > 2 else None


def check_missing(case):
    with keep_loaded(), scratch_dir() as d:
        for load in (T.load_data_auxi, T.load_data_factsage):
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                load(os.path.join(d, case['name']))
            req(len(w) >= 1, 'no warning about the missing folder')
            same(len(T.compounds), 0, 'compounds after a failed load')
            load(d)
            same(len(T.compounds), 0, 'compounds in an empty folder')
        T.load_data_auxi()
        same(sorted(T.compounds), sorted(t01.DATA['rao']),
             'compounds of the default data')
        refs = T.get_datafile_references()
        for f, c in T.compounds.items():
            same(c.get_reference(), refs[t01.DATA['rao'][f]['ref']],
                 'reference of ' + f)
    return 'missing'


FACETS = [
    Facet('auxi', st.fixed_dictionaries({
        'cs': st.lists(t01.compound(), min_size=1, max_size=3),
        'extra': st.lists(t01.compound(), min_size=1, max_size=2),
        'rename': st.sampled_from([0, 0, 1, 2, 5]),
        'T': t01.specs}), check_auxi, quick=120, thorough=3000),
    Facet('plain', st.fixed_dictionaries({
        'cs': st.lists(t01.compound(), min_size=1, max_size=3),
        'how': st.lists(st.integers(0, 2), min_size=1, max_size=3),
        'mixed': st.booleans(), 'T': t01.specs}), check_plain, quick=100,
        thorough=2500),
    Facet('factsage', st.fixed_dictionaries({
        'cs': st.lists(fs_compound(), min_size=1, max_size=3),
        'T': t01.specs}), check_factsage, quick=200, thorough=5000),
    Facet('missing', st.fixed_dictionaries({
        'name': st.text('abcxyz', min_size=1, max_size=5)}), check_missing,
        quick=5, thorough=20),
]
