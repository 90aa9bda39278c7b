"""Generated chemical formulas, with their composition known by construction,
and an independent recogniser/counter for formula strings."""
from hypothesis import strategies as st

from pbt.atomic import MASS, SYMBOLS

COMMON = ['H', 'O', 'C', 'N', 'S', 'Fe', 'Si', 'Ca', 'Al', 'Mg', 'Cr', 'Co',
          'Cl', 'Na', 'Ti', 'Mn', 'Cu', 'P', 'F', 'K']

element = st.one_of(st.sampled_from(COMMON), st.sampled_from(SYMBOLS))


def numbers(lo=1):
    return st.one_of(st.none(), st.integers(lo, 4), st.integers(lo, 12),
                     st.integers(lo, 300))


def parts(lo=1, max_depth=3):
    el = st.tuples(st.just('e'), element, numbers(lo)).map(list)

    def level(d):
        if d == 0:
            return st.lists(el, min_size=1, max_size=4)
        grp = st.tuples(st.just('g'), level(d - 1), numbers(lo)).map(list)
        return st.lists(st.one_of(el, el, grp), min_size=1, max_size=4)
    return level(max_depth)


phase = st.one_of(
    st.none(), st.sampled_from(['S1', 'S2', 'L', 'G', 'S', 'aq', 'BETA']),
    st.text('ABCLGSabc0129', min_size=1, max_size=4))


def formulas(lo=1, depth=2, with_phase=True, with_dot=True):
    return st.fixed_dictionaries({
        'parts': parts(lo, depth),
        'dot': st.one_of(st.none(), st.none(), st.tuples(
            numbers(lo), parts(lo, 1)).map(list))
        if with_dot else st.none(),
        'phase': phase if with_phase else st.none()})


def _txt(ps):
    s = ''
    for kind, a, n in ps:
        s += (a if kind == 'e' else '(' + _txt(a) + ')')
        s += '' if n is None else str(n)
    return s


def text(f):
    s = _txt(f['parts'])
    if f['dot'] is not None:
        n, ps = f['dot']
        s += '.' + ('' if n is None else str(n)) + _txt(ps)
    if f['phase'] is not None:
        s += '[' + f['phase'] + ']'
    return s


def _cnt(ps, mult, out):
    for kind, a, n in ps:
        n = 1 if n is None else n
        if kind == 'e':
            out[a] = out.get(a, 0) + mult * n
        else:
            _cnt(a, mult * n, out)
    return out


def count(f):
    out = _cnt(f['parts'], 1, {})
    if f['dot'] is not None:
        n, ps = f['dot']
        _cnt(ps, 1 if n is None else n, out)
    return out


def mass_of(counts):
    return sum(MASS[e] * n for e, n in counts.items())


class Bad(ValueError):
    pass


def parse(s):
    """Composition of a formula string, or Bad.  Recursive descent."""
    import re
    n = len(s)

    def number(i):
        m = re.compile('[0-9]+').match(s, i)
        return (int(m.group()), m.end()) if m else (None, i)

    def group(i, out, collect):
        start = i
        while i < n:
            m = re.compile('[A-Z][a-z]*').match(s, i)
            if m:
                k, i = number(m.end())
                if m.group() not in MASS:
                    raise Bad(m.group())
                collect(out, {m.group(): 1 if k is None else k}, 1)
            elif s[i] == '(':
                inner = {}
                i = group(i + 1, inner, collect)
                if i >= n or s[i] != ')':
                    raise Bad('unclosed')
                k, i = number(i + 1)
                collect(out, inner, 1 if k is None else k)
            else:
                break
        if i == start:
            raise Bad('empty group')
        return i

    def collect(out, more, k):
        for e, v in more.items():
            out[e] = out.get(e, 0) + v * k

    out = {}
    i = group(0, out, collect)
    if i < n and s[i] == '.':
        k, i = number(i + 1)
        inner = {}
        i = group(i, inner, collect)
        collect(out, inner, 1 if k is None else k)
    if i < n and s[i] == '[':
        m = re.compile(r'\[[A-Za-z0-9]+\]').match(s, i)
        if not m:
            raise Bad('phase')
        i = m.end()
    if i != n:
        raise Bad('trailing')
    return out
