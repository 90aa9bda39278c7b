"""C03: every format of a report shows the same cells."""
import csv
import io
import os
import re

from hypothesis import strategies as st

from auxi.core.reporting import Report, ReportFormat as RF
from pbt import ledger as led
from pbt.core import Facet, Violation, req, same, scratch_dir

RULE = ('non-trivial: a report on a ledger with at least one transaction, or '
        'a structure with at least one account added.')
ASSUMPTIONS = ['cells without line breaks or leading/trailing blanks in the '
               'facet that reads the plain text and LaTeX back',
               'the matplotlib and png formats are not drawn by any shipped '
               'report: the ones of a derived report are recorded']

KINDS = ['transaction_list', 'balance_sheet', 'income_statement', 'structure']
ascii_words = st.one_of(st.sampled_from(led.WORDS), st.text(
    'abcXYZ019.,;:()+-/"\'_&%#$', min_size=1, max_size=8))
free_words = st.one_of(ascii_words, st.text(st.characters(
    blacklist_characters='\r\x00', blacklist_categories=['Cs']), max_size=8))


def cases(words):
    return st.fixed_dictionaries({
        'kind': st.sampled_from(KINDS),
        'txs': st.lists(led.tx(words=words), max_size=5),
        'file': st.sampled_from(['name.v1', 'name', 'r.2016', 'a b', 'r.txt', 'r.',
                                 'r.csv.tex', '.r', 'é', '1', 'R']),
        'bulk': st.sampled_from([0] * 12 + [3, 45, 120, 260]),
        'accounts': st.lists(st.tuples(
            st.sampled_from(['Sales', 'Bank', 'Expense/W', 'Taxation']),
            words, st.one_of(st.none(), st.sampled_from(
                ['0010', '1e5', '7', 'A1'])),
            st.one_of(st.none(), words)).map(list), max_size=4)})


def bulk(g, kind, n):
    """Rows enough to fill pages."""
    top = 'Sales' if kind == 'income_statement' else 'Bank'
    for i in range(n):
        name = 'bulk%03d' % i
        if kind == 'transaction_list':
            g.create_transaction(name, None, led.moment(i % 20, None), 'Bank',
                                 'Sales', None, 1.0 + i)
        else:
            g.structure.get_account(top).create_account(name)
            if kind != 'structure':
                g.create_transaction(
                    name, None, led.moment(i % 20, None), 'Bank/' + name
                    if top == 'Bank' else 'Bank', 'Sales' if top == 'Bank'
                    else 'Sales/' + name, None, 1.0 + i)


def make(case):
    g = led.make(case)
    bulk(g, case['kind'], case['bulk'])
    if case['kind'] == 'structure':
        for parent, name, number, desc in case['accounts']:
            g.structure.get_account(parent).create_account(name, number, desc)
        return g.structure.report
    return getattr(g, case['kind'])


def label(case):
    key = 'accounts' if case['kind'] == 'structure' else 'txs'
    return case['kind'] if case[key] else None


def check_files(case):
    """A file holds what is printed without one; nothing else is touched."""
    fn = make(case)
    r, shown = led.printed(fn)
    same(r, None, 'result of printing')
    r, out = led.printed(fn, format=RF.string)
    same(out, '', 'printed when asked for a string')
    same(shown, r + '\n', 'printed report')
    for fmt, ext in ((RF.txt, 'txt'), (RF.csv, 'csv'), (RF.latex, 'tex')):
        _, text = led.printed(fn, format=fmt)
        with scratch_dir() as d:
            p = os.path.join(d, case['file'])
            with open(p + '.' + ext, 'w') as f:
                # an earlier report
                f.write('earlier,report\n' * 3000)
            r2, out = led.printed(fn, format=fmt, output_path=p)
            same(out, '', 'printed when writing a %s file' % ext)
            same(os.listdir(d), [case['file'] + '.' + ext], 'files written')
            with open(p + '.' + ext, newline='') as f:
                body = f.read()
        same(text, body + '\n', 'printed %s' % ext)
        if ext == 'txt':
            same(body, r, 'text file')
        if ext == 'csv':
            for row in csv.reader(io.StringIO(body, newline='')):
                req(len(row) == len(body.split('\n', 1)[0].split(',')),
                    'a csv row has %d cells', len(row))
    _, out = led.printed(fn, format=RF.printout)
    same(out, shown, 'default format')
    return label(case)


class OwnReport(Report):
    """A report as a user derives one."""

    def _generate_table_(self):
        return self.data_source

    def _render_matplotlib_(self, png=False):
        self.drawn = self.drawn + [png] if hasattr(self, 'drawn') else [png]


@st.composite
def tables(draw):
    n = draw(st.integers(1, 5))
    cell = st.one_of(ascii_words, st.integers(-10 ** 9, 10 ** 9), st.floats(
        -1e12, 1e12), st.sampled_from(['', '007', '1e5', '1.50', 0.1 + 0.2,
                                       1234567.891, 'nan', 'True']))
    return {'head': draw(st.lists(ascii_words, min_size=n, max_size=n)),
            'rows': draw(st.lists(st.lists(cell, min_size=n, max_size=n),
                                  max_size=8)),
            # Long tables: the same rows again and again.
            'times': draw(st.sampled_from([1] * 15 + [40, 150, 700])),
            'file': draw(st.sampled_from(['r', 'a b', 'r.x', 'r.', 'r.tex',
                                          ' r']))}


def check_own(case):
    data = [list(r) for r in case['rows']] * case['times']
    table = [list(case['head'])] + [list(r) for r in data]
    want = [[str(c).strip() for c in r] for r in table]
    text = OwnReport(table).render(RF.string)
    got = simple_cells(text)
    same(got, want, 'cells of the text')
    with scratch_dir() as d:
        p = os.path.join(d, case['file'])
        for fmt, ext, rd in ((RF.txt, 'txt', simple_cells),
                             (RF.csv, 'csv', csv_cells),
                             (RF.latex, 'tex', latex_cells)):
            _, shown = led.printed(OwnReport(table).render, format=fmt)
            r, out = led.printed(OwnReport(table, p).render, format=fmt)
            same((r, out), (None, ''), 'result of writing')
            with open(p + '.' + ext, newline='') as f:
                body = f.read()
            same(shown, body + '\n', 'printed ' + ext)
            same(rd(body), want, 'cells of the %s file' % ext)
        same(len(os.listdir(d)), 3, 'files written')
        for fmt, path, png in ((RF.matplotlib, None, False),
                               (RF.matplotlib, p, False),
                               (RF.png, None, False), (RF.png, p, True)):
            o = OwnReport(table, path)
            r, out = led.printed(o.render, format=fmt)
            same((r, out), (None, ''), 'result of drawing')
            same(o.drawn, [png], 'what is drawn')
    _, out = led.printed(OwnReport(table).render)
    same(out, text + '\n', 'default format')
    same(table[1:], data, 'the data after reporting')
    return 'numbers' if any(type(c) is not str for r in case['rows']
                            for c in r) else 'own'


def csv_cells(body):
    return [[c.strip() for c in r] for r in csv.reader(
        io.StringIO(body, newline=''))]


def simple_cells(text):
    """The cells of a 'simple' table."""
    lines = text.split('\n')
    dashes = lines[1]
    cols = [(m.start(), m.end()) for m in re.finditer(r'-+', dashes)]
    rows = []
    for i, l in enumerate(lines):
        if i == 1:
            continue
        for (a, b), nxt in zip(cols, cols[1:] + [(len(l) + 2, None)]):
            req(l[b:nxt[0]].strip() == '', 'a cell runs out of its column: '
                '%r', l)
        rows.append([l[a:b].strip() for a, b in cols])
    return rows


UNESC = {r'\&': '&', r'\%': '%', r'\_': '_', r'\#': '#', r'\$': '$'}


def latex_cells(text):
    lines = [l for l in text.split('\n') if not l.startswith('\\')]
    rows = []
    for l in lines:
        req(l.endswith('\\\\'), 'LaTeX row without end: %r', l)
        cells = re.split(r'(?<!\\)&', l[:-2])
        rows.append([re.sub(r'\\[&%_#$]', lambda m: UNESC[m.group()],
                            c.strip()) for c in cells])
    return rows


def check_cells(case):
    fn = make(case)
    want = [[c.strip() for c in r] for r in led.csv_rows(fn)]
    req(len(want) > 1, 'empty report')
    if case['bulk']:
        for i in range(case['bulk']):
            req(sum(any(c.split('/')[-1] == 'bulk%03d' % i for c in r)
                    for r in want) == 1, 'bulk%03d is not there once', i)
    got = simple_cells(fn(format=RF.string))
    if got != want:
        raise Violation('plain text shows %r, csv %r' % next(
            (g, w) for g, w in zip(got + [None], want + [None]) if g != w))
    _, tex = led.printed(fn, format=RF.latex)
    got = latex_cells(tex.rstrip('\n'))
    if got != want:
        raise Violation('LaTeX shows %r, csv %r' % next(
            (g, w) for g, w in zip(got + [None], want + [None]) if g != w))
    return label(case)


FACETS = [
    Facet('files', cases(free_words), check_files, quick=500, thorough=8000),
    Facet('own', tables(), check_own, quick=500, thorough=5000),
    Facet('cells', cases(ascii_words), check_cells, quick=800,
          thorough=10000),
]
