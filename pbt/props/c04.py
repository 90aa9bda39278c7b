"""C04: bibliographies provide every entry of their file."""
import os

from hypothesis import strategies as st

from auxi.core.bibliography import Database, db
from pbt.core import Facet, raises, req, same, scratch_dir

RULE = 'non-trivial: at least two entries.'
ASSUMPTIONS = ['bibtex with braced values of plain words, unique keys']
SHIPPED = ['cengel2018', 'davidson1993', 'lienhard2015', 'lienhard2018',
           'nist2018-constants']
KINDS = ['article', 'book', 'misc', 'inproceedings', 'techreport', 'report',
         'online', 'phdthesis', 'Book', 'ARTICLE', 'dataset', 'patent']
word = st.text('abcdeXYZ019', min_size=1, max_size=8)
text = st.lists(word, min_size=1, max_size=5).map(' '.join)
key = st.builds(lambda a, b, c: a + b + c, st.text('abcxyzAB', min_size=1,
                                                   max_size=6),
                st.sampled_from(['', '-', '_', ':']),
                st.text('0123456789ab', max_size=4))


@st.composite
def cases(draw):
    es = draw(st.lists(st.fixed_dictionaries({
        'kind': st.sampled_from(KINDS), 'key': key,
        'fields': st.dictionaries(st.sampled_from(
            ['author', 'title', 'date', 'year', 'note', 'url', 'publisher',
             'edition', 'institution', 'location']), text, min_size=1,
            max_size=6)}),
        max_size=6, unique_by=lambda e: e['key']))
    if es and draw(st.booleans()):
        # a key that differs from another one in its case only
        e = draw(st.sampled_from(es))
        k = e['key'].swapcase()
        if all(o['key'] != k for o in es):
            es.append({'kind': draw(st.sampled_from(KINDS)), 'key': k,
                       'fields': {'title': draw(text)}})
    return {'entries': es,
        'sep': draw(st.sampled_from(['\n', '\n\n\n', '\n% a comment\n'])),
        'comma': draw(st.booleans())}


def check(case):
    out = []
    for e in case['entries']:
        fs = ',\n'.join('\t%s = {%s}' % f for f in e['fields'].items())
        out.append('@%s{%s,\n%s%s\n}\n' % (
            e['kind'], e['key'], fs, ',' if case['comma'] and fs else ''))
    with scratch_dir() as d:
        p = os.path.join(d, 'b.bib')
        with open(p, 'w') as f:
            f.write(case['sep'].join(out))
        b = Database(p)
    for e in case['entries']:
        try:
            got = b[e['key']]
        except KeyError:
            req(False, 'no entry %r', e['key'])
        want = dict(e['fields'], ID=e['key'], ENTRYTYPE=e['kind'].lower())
        same(got, want, 'entry ' + e['key'])
        req(e['key'] in str(b), 'the database does not list %s', e['key'])
    keys = set(e['key'] for e in case['entries'])
    raises('an entry that is not there', KeyError, lambda: b['nobody1900'])
    for k in sorted(keys):
        for o in (k.swapcase(), k.upper(), k.lower(), k + '1', k[:-1],
                  ' ' + k, k + ' '):
            if o not in keys:
                raises('key %r, which is not there' % o, KeyError,
                       lambda: b[o])
    for k in SHIPPED:
        same(db[k]['ID'], k, 'shipped entry')
        for f in ('title', 'author', 'date', 'url'):
            req(db[k].get(f) or f == 'url', 'no %s of %s', f, k)
    return 'n%d' % len(case['entries']) if len(case['entries']) > 1 else None


FACETS = [Facet('file', cases(), check, quick=200, thorough=3000)]
