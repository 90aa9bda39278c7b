"""F01: the account tree of a general ledger structure."""
from hypothesis import strategies as st

from auxi.modelling.financial.des import (
    AccountType, GeneralLedgerAccount, GeneralLedgerStructure)
from pbt import ledger as led
from pbt.core import Facet, raises, req, same

RULE = ('non-trivial: a history with at least one account created below the '
        'top level, renamed or removed.')
ASSUMPTIONS = ['siblings have distinct, non-empty names without "/"']

NAMES = ['a', 'b', 'c', 'A', 'Sales', 'Default', 'x y', 'Cost of Sales',
         'a.b', 'é', 'a 2', 'Sales 2', 'Default2']
# ops address accounts by a number that is reduced modulo the accounts
ops = st.one_of(
    st.tuples(st.just('create'), st.integers(0, 200),
              st.sampled_from(NAMES), st.one_of(
                  st.none(), st.sampled_from(['01', '02', '10', '0000'])),
              st.one_of(st.none(), st.sampled_from(['d', '']))),
    st.tuples(st.just('create'), st.integers(21, 26),
              st.sampled_from(NAMES), st.just('5'), st.none()),
    st.tuples(st.just('batch'), st.integers(0, 200), st.lists(
        st.sampled_from(NAMES), min_size=2, max_size=4, unique=True)),
    st.tuples(st.just('batch'), st.integers(21, 30), st.lists(
        st.sampled_from(NAMES), min_size=2, max_size=4, unique=True)),
    st.tuples(st.just('rename'), st.integers(0, 200),
              st.sampled_from(NAMES)),
    st.tuples(st.just('rename'), st.integers(21, 40),
              st.sampled_from(NAMES)),
    st.tuples(st.just('remove'), st.integers(22, 40)),
    st.tuples(st.just('remove'), st.integers(22, 200)),
    st.tuples(st.just('wide'), st.integers(0, 24)),
    st.tuples(st.just('remove_missing'), st.integers(0, 200)),
    st.tuples(st.just('move'), st.integers(0, 200))).map(list)


class Node:
    def __init__(self, name, number, type_, desc, parent):
        self.name, self.number, self.type = name, number, type_
        self.desc, self.parent, self.kids = desc, parent, []

    @property
    def path(self):
        return self.name if self.parent is None else \
            self.parent.path + '/' + self.name


def walk(roots):
    for n in roots:
        yield n
        for k in walk(n.kids):
            yield k


def base():
    roots = [Node(n, num, t, None, None)
             for n, num, t in led.BASE_STRUCTURE]
    by = {n.name: n for n in roots}
    for p, n, num in led.BASE_SUB:
        by[p].kids.append(Node(n, num, by[p].type, None, by[p]))
    return roots


def compare(g, roots):
    nodes = list(walk(roots))
    known = {n.path for n in nodes}
    for n in nodes:
        p = n.path
        a = g.get_account(p)
        req(a is not None, 'account %s is not found', p)
        same((a.path, a.name, a.number, a.account_type, a.description),
             (p, n.name, n.number, AccountType[n.type], n.desc),
             'account %s' % p)
        req(g.get_account(p) is a, 'account %s: two lookups differ', p)
        d = g.get_account_descendants(a)
        same(sorted(x.path for x in d),
             sorted(k.path for k in walk(n.kids)), 'descendants of ' + p)
        same([x.name for x in a.accounts], [k.name for k in n.kids],
             'sub accounts of ' + p)
        for k in walk(n.kids):
            rel = k.path[len(p) + 1:]
            req(a.get_child_account(rel) is g.get_account(k.path),
                'account %s from %s', rel, p)
        for k in n.kids:
            req(a[k.name] is g.get_account(k.path), 'sub account by name')
        for bad in (p + '/', '/' + p, p.replace('/', '//'), ' ' + p, p + ' ',
                    p.lower(), p.replace('/', '.')):
            req(bad in known or g.get_account(bad) is None,
                'the path %r finds an account', bad)
        req(a['no such'] is None and a.get_child_account('no such') is None
            and a.get_child_account('no/such') is None
            and g.get_account(p + '/no such') is None
            and g.get_account(p + '/no such/x') is None,
            'a missing sub account of %s is found', p)
        # only the path that leads to an account finds it
        below = {k.name for k in walk(n.kids)}
        for name in sorted(below - {k.name for k in n.kids}) + sorted(
                ({k.name.upper() for k in n.kids} | {
                    k.name + ' ' for k in n.kids} | {
                    k.name[:-1] for k in n.kids})
                - {k.name for k in n.kids} - {''}):
            req(a[name] is None and a.get_child_account(name) is None
                and g.get_account(p + '/' + name) is None,
                'the account %s/%s that does not exist is found', p, name)
    for name in {k.name for k in nodes} - {n.name for n in roots}:
        req(g.get_account(name) is None and g[name] is None,
            'the account %s that does not exist is found', name)
    req(g.get_account('no such') is None and g.get_account('no/such') is None
        and g['no such'] is None, 'a missing account is found')
    same(sorted(a.name for a in g.accounts), sorted(n.name for n in roots),
         'top level accounts')
    for n in roots:
        req(g[n.name] is g.get_account(n.name), 'top level account by name')
    paths = [n.path for n in nodes]
    g.validate_account_names(paths)
    g.validate_account_names([])
    for bad in ('no such', paths[0] + '/no such', paths[-1] + 'x', ''):
        raises('validating %r' % bad, ValueError, g.validate_account_names,
               paths[:3] + [bad])
        raises('validating %r last' % bad, ValueError,
               g.validate_account_names, paths + [bad])
        raises('validating %r first' % bad, ValueError,
               g.validate_account_names, [bad] + paths[:3])


def apply(g, roots, op):
    nodes = list(walk(roots))
    n = nodes[op[1] % len(nodes)]
    a = g.get_account(n.path)
    sibs = [k.name for k in (roots if n.parent is None else n.parent.kids)]
    if op[0] == 'create':
        if op[2] in [k.name for k in n.kids]:
            return False
        new = a.create_account(op[2], op[3], op[4])
        k = Node(op[2], op[3], n.type, op[4], n)
        n.kids.append(k)
        same(new.path, k.path, 'path of a created account')
        return True
    if op[0] == 'batch':
        for name in op[2]:
            if name not in [k.name for k in n.kids]:
                a.create_account(name)
                n.kids.append(Node(name, None, n.type, None, n))
        return True
    if op[0] == 'wide':
        for i in range(25):
            if 'w%d' % i not in [k.name for k in n.kids]:
                a.create_account('w%d' % i, '%02d' % (25 - i))
                n.kids.append(Node('w%d' % i, '%02d' % (25 - i), n.type, None,
                                   n))
        return True
    if op[0] == 'rename':
        if op[2] in sibs:
            return False
        a.name = op[2]
        n.name = op[2]
        return True
    if op[0] == 'remove':
        if n.parent is None:
            return False
        g.get_account(n.parent.path).remove_account(n.name)
        n.parent.kids.remove(n)
        return True
    if op[0] == 'remove_missing':
        a.remove_account('no such')
    return False


cases = st.fixed_dictionaries({'ops': st.lists(ops, max_size=14),
                               'look': st.booleans()})


def check_tree(case):
    g = GeneralLedgerStructure('g')
    other = GeneralLedgerStructure('other')
    roots = base()
    same([(a.name, a.number, a.account_type.name) for a in g.accounts],
         led.BASE_STRUCTURE, 'accounts of a new structure')
    done = False
    for op in case['ops']:
        done |= apply(g, roots, op)
        if case['look']:
            compare(g, roots)
    compare(g, roots)
    same(sorted(a.path for t in other.accounts
                for a in [t] + other.get_account_descendants(t)),
         sorted(n.path for n in walk(base())), 'another structure')
    return 'edited' if done else None


def check_report(case):
    """The report lists every account once, with its type and description,
    income statement accounts first, in order of their numbers."""
    g = GeneralLedgerStructure('g')
    roots = base()
    done = False
    for op in case['ops']:
        done |= apply(g, roots, op)
        if case['look']:
            check_rows(led.csv_rows(g.report), roots)
    check_rows(led.csv_rows(g.report), roots)
    return 'edited' if done else None


def check_rows(rows, roots):
    same(rows[0], ['Type', 'Number', 'Name', 'Description'], 'header')

    def expect(nodes, parent):
        for n in sorted(nodes, key=lambda k: k.number or ''):
            yield (n, parent)
            for x in expect(n.kids, n):
                yield x
    order = list(expect([n for n in roots if n.number[0] == 'I'], None)) + \
        list(expect([n for n in roots if n.number[0] == 'B'], None))
    same(len(rows) - 1, len(order), 'accounts in the report')
    for r, (n, parent) in zip(rows[1:], order):
        want = [n.type, None, n.name, n.desc or '']
        same([r[0], r[2], r[3]], [n.type, n.name, n.desc or ''],
             'row of %s' % n.path)
        num = n.number or ''
        if parent is None:
            same(r[1], num, 'number of %s' % n.path)
        else:
            req(r[1].endswith((parent.number or '') + '/' + num),
                'number of %s: %r', n.path, r[1])


# ------------------------------------------------- accounts without structure
tree = st.recursive(
    st.fixed_dictionaries({'name': st.sampled_from(NAMES[:5])}),
    lambda c: st.fixed_dictionaries({
        'name': st.sampled_from(NAMES[:5]), 'kids': st.lists(
            c, max_size=3, unique_by=lambda k: k['name'])}), max_leaves=8)
loose = st.fixed_dictionaries({
    'tree': tree, 'type': st.sampled_from([t.name for t in AccountType]),
    'names': st.lists(st.sampled_from(['n1', 'n2', 'n3']), max_size=3),
    'prefix': st.sampled_from([None, 'P', 'P/Q'])})


def check_loose(case):
    """An account that stands alone keeps the paths below it current."""
    t = AccountType[case['type']]
    a = GeneralLedgerAccount(case['tree']['name'], account_type=t)

    def fill(acc, spec):
        for k in spec.get('kids', []):
            fill(acc.create_account(k['name']), k)
    fill(a, case['tree'])

    def verify(acc, spec, path):
        same((acc.path, acc.account_type), (path, t), 'account ' + path)
        for x, k in zip(acc.accounts, spec.get('kids', [])):
            verify(x, k, path + '/' + k['name'])
    path = a.name
    verify(a, case['tree'], path)
    if case['prefix']:
        a.set_parent_path(case['prefix'])
        path = case['prefix'] + '/' + path
        verify(a, case['tree'], path)
    for n in case['names']:
        a.name = n
        path = path.rpartition('/')
        path = path[0] + path[1] + n
        verify(a, case['tree'], path)
    return 'renamed' if case['names'] else None


FACETS = [
    Facet('tree', cases, check_tree, quick=1000, thorough=8000),
    Facet('report', cases, check_report, quick=600, thorough=5000),
    Facet('loose', loose, check_loose, quick=1200, thorough=8000),
]
