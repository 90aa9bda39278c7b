"""B02: the tree of entities, components and activities and its paths."""
from hypothesis import strategies as st

from auxi.core.time import TimePeriod
from auxi.modelling.business.basic import BasicActivity
from auxi.modelling.business.models import TimeBasedModel
from pbt import bizref as biz
from pbt import caltime as cal
from pbt.core import Facet, raises, req, same

RULE = ('non-trivial: a history that renames or removes something after '
        'something was created below it.')
ASSUMPTIONS = ['siblings have distinct names without "/"']

NAMES = ['A', 'B', 'Ops', 'x y', 'HeadOps', 'ops', 'Op', 'Ops2']
ix = st.one_of(st.integers(0, 100), st.integers(0, 6))
batch = st.lists(st.sampled_from(NAMES), min_size=2, max_size=4, unique=True)
ops = st.one_of(
    st.tuples(st.just('batch'), ix, batch),
    st.tuples(st.just('batch'), ix, batch),
    st.tuples(st.just('remove_part'), ix, st.integers(0, 3)),
    st.tuples(st.just('create'), ix, st.sampled_from(NAMES)),
    st.tuples(st.just('create'), ix, st.sampled_from(NAMES)),
    st.tuples(st.just('activity'), ix, st.sampled_from(NAMES)),
    st.tuples(st.just('rename'), ix, st.sampled_from(NAMES + ['New'])),
    st.tuples(st.just('remove'), ix, st.just('')),
    st.tuples(st.just('remove_missing'), ix, st.just('')),
    st.tuples(st.just('rename_activity'), ix, st.sampled_from(NAMES)),
    st.tuples(st.just('run'), ix, st.just(''))).map(list)
cases = st.fixed_dictionaries({'entities': st.lists(
    st.sampled_from(NAMES), max_size=3, unique=True), 'ops': st.lists(ops, max_size=16)})


class Node:
    def __init__(self, kind, name, parent, obj):
        self.kind, self.name, self.parent, self.obj = kind, name, parent, obj
        self.kids, self.acts = [], []
        self.desc = self.gls = None

    @property
    def path(self):
        return self.name if self.parent is None else \
            self.parent.path + '/' + self.name


def walk(n):
    yield n
    for k in n.kids:
        for x in walk(k):
            yield x


def compare(root):
    for n in walk(root):
        o = n.obj
        same((o.name, o.description), (n.name, n.desc),
             'name and description')
        if n.kind != 'model':
            same(o.path, n.path, 'path of a ' + n.kind)
        kids = o.entities if n.kind == 'model' else o.components
        req(len(kids) == len(n.kids) and all(
            a is k.obj for a, k in zip(kids, n.kids)),
            'children of %s: %r', n.path, [k.name for k in kids])
        for k in n.kids:
            req(o[k.name] is k.obj, 'child %s of %s by name', k.name, n.path)
            if n.kind == 'component':
                req(o.get_component(k.name) is k.obj, 'get_component')
            if n.kind != 'model':
                req(k.obj.gl is o.gl, 'ledger of %s', k.path)
        for name in ({k.name.lower() for k in n.kids} | {
                k.name[1:] for k in n.kids} | {k.path for k in n.kids} | {
                    k.desc for k in n.kids}) - {'', None}:
            if name not in [k.name for k in n.kids]:
                raises('child %s of %s that does not exist' % (name, n.path),
                       (IndexError, KeyError), lambda: o[name])
        raises('child of %s that does not exist' % n.path,
               (IndexError, KeyError), lambda: o['no such'])
        for name, a in n.acts:
            same(a.name, name, 'name of an activity')
            same(a.path, n.path + '/' + name, 'path of an activity')
            req(o(name) is next(x for m, x in n.acts if m == name),
                'activity by name')
            req(o.get_activity(name) is o(name), 'get_activity')
        if n.kind == 'component':
            have = {m for m, _ in n.acts}
            for bad in {a.path for _, a in n.acts} | {
                    a.description for _, a in n.acts} | {
                    m.upper() for m in have} | {'no such', n.name} - {None}:
                if bad not in have:
                    raises('activity %s of %s that does not exist' % (
                        bad, n.path), (IndexError, KeyError), o, bad)
        if n.kind == 'entity':
            req(n.gls is None or o.gl.structure is n.gls,
                'structure of the ledger of %s', n.path)
        if n.kind == 'component':
            req([a for _, a in n.acts] == o.activities, 'activities of %s',
                n.path)


def expected(entity):
    """Activities in order of execution: sub components first."""
    out = []

    def visit(n):
        for k in n.kids:
            visit(k)
        out.extend(n.path + '/' + name for name, _ in n.acts)
    for k in entity.kids:
        visit(k)
    return out


def verify_run(root):
    root.obj.run()
    for e in root.kids:
        same([t.source for t in e.obj.gl.transactions], expected(e) * 2,
             'sources of the transactions of ' + e.path)


def check_tree(case):
    model = TimeBasedModel('M', start_datetime=cal.dt(
        [2016, 2, 1, 0, 0, 0, 0]), period_duration=TimePeriod.month,
        period_count=2)
    root = Node('model', 'M', None, model)
    interesting = False
    for name in case['entities']:
        root.kids.append(Node('entity', name, root, model.create_entity(
            name, biz.structure())))
    for k in root.kids:
        req(all(k is j or k.obj.gl is not j.obj.gl for j in root.kids),
            'entities share a ledger')
    for op in case['ops']:
        nodes = list(walk(root))
        n = nodes[op[1] % len(nodes)]
        if op[0] == 'batch':
            # components with an activity each
            for name in op[2]:
                if n.kind != 'model' and name not in [
                        k.name for k in n.kids]:
                    k = Node('component', name, n,
                             n.obj.create_component(name))
                    n.kids.append(k)
                    a = BasicActivity('act', dt_account='Bank/Default',
                                      cr_account='Sales', amount=5)
                    k.obj.add_activity(a)
                    k.acts.append(('act', a))
        elif op[0] == 'create':
            if op[2] in [k.name for k in n.kids]:
                continue
            d = [None, '', 'About %d' % op[1], op[2].lower()] + NAMES
            d = d[op[1] % len(d)]
            if n.kind == 'model':
                gls = biz.structure()
                k = Node('entity', op[2], n, n.obj.create_entity(
                    op[2], gls, d) if op[1] % 2 else n.obj.create_entity(
                        op[2], gl_structure=gls, description=d))
                k.gls = gls
            else:
                k = Node('component', op[2], n, n.obj.create_component(
                    op[2], d) if op[1] % 2 else n.obj.create_component(
                        op[2], description=d))
            k.desc = d
            n.kids.append(k)
            same(k.obj.path, k.path, 'path of a new ' + k.kind)
        elif op[0] == 'activity' and n.kind == 'component':
            if op[2] in [m for m, _ in n.acts]:
                continue
            a = BasicActivity(op[2], dt_account='Bank/Default',
                              cr_account='Sales', amount=5,
                              description=([None] + NAMES)[
                                  op[1] % (1 + len(NAMES))])
            n.obj.add_activity(a)
            n.acts.append((op[2], a))
        elif op[0] == 'rename_activity' and n.acts:
            old, a = n.acts[0]
            if op[2] in [m for m, _ in n.acts]:
                continue
            a.name = op[2]
            n.acts[0] = (op[2], a)
        elif op[0] == 'rename':
            if n.parent and op[2] in [k.name for k in n.parent.kids]:
                continue
            n.obj.name = op[2]
            n.name = op[2]
            interesting |= bool(n.kids or n.acts)
        elif op[0] == 'remove' and n.parent is not None:
            p = n.parent
            (p.obj.remove_entity if p.kind == 'model'
             else p.obj.remove_component)(n.name)
            p.kids.remove(n)
            interesting = True
        elif op[0] == 'remove_part' and n.kids:
            k = n.kids[op[2] % len(n.kids)]
            (n.obj.remove_entity if n.kind == 'model'
             else n.obj.remove_component)(k.name)
            n.kids.remove(k)
            interesting = True
        elif op[0] == 'remove_missing':
            (n.obj.remove_entity if n.kind == 'model'
             else n.obj.remove_component)('no such')
        elif op[0] == 'run':
            verify_run(root)
        compare(root)
    verify_run(root)
    return 'edited' if interesting else None


FACETS = [Facet('tree', cases, check_tree, quick=3000, thorough=15000)]
