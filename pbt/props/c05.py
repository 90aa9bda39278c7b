"""C05: named objects, variables, process models and helpers keep their own
state and mean what they are given."""
import datetime as dt
import math
import os

from hypothesis import strategies as st

from auxi.core.helpers import get_date, get_path_relative_to_module
from auxi.core.objects import NamedObject
from auxi.modelling.core import Project, Variable, VariableGroup
from auxi.modelling.process.core import DynamicModel, Model, SteadyStateModel
from auxi.core.objects import Object
from pbt.core import Facet, raises, req, same, scratch_dir

RULE = ('models: at least two models and one value; dates: every valid date; '
        'paths: at least one component up.')
ASSUMPTIONS = ['POSIX paths without links']


class Furnace(SteadyStateModel):
    class Parameters(object):
        def __init__(self):
            self.a = 1.0
            self.b = []

    class InputVariables(object):
        def __init__(self):
            self.a = 2.0
            self.d = {}

    class OutputVariables(object):
        pass

    def run(self, streams):
        p, v = self.parameters, self.input_variables
        self.output_variables.total = v.a * p.a
        streams.setdefault('feed', p.a)
        streams['product'] = streams['feed'] * v.a
        return streams


class Tank(DynamicModel):
    class Parameters(object):
        def __init__(self):
            self.a = 5.0
            self.b = []


class Kiln(Furnace):
    pass


class LinedKiln(Kiln):
    class OutputVariables(object):
        def __init__(self):
            self.x = []


CLASSES = {'Kiln': Kiln, 'LinedKiln': LinedKiln,
           'Model': Model, 'SteadyStateModel': SteadyStateModel,
           'DynamicModel': DynamicModel, 'Furnace': Furnace, 'Tank': Tank}
FURNACES = ('Furnace', 'Kiln', 'LinedKiln')
PARTS = ['parameters', 'input_variables', 'output_variables']
TYPES = {'parameters': 'Parameters', 'input_variables': 'InputVariables',
         'output_variables': 'OutputVariables'}
name = st.text('abcXYZ é0"\\', max_size=6)
descr = st.one_of(st.none(), name)
value = st.one_of(st.none(), st.booleans(), st.integers(-10**20, 10**20),
                  st.floats(allow_nan=False), name,
                  st.lists(st.integers(0, 9), max_size=3),
                  st.dictionaries(name, st.integers(0, 9), max_size=3))


@st.composite
def model_cases(draw):
    ms = draw(st.lists(st.fixed_dictionaries({
        'cls': st.sampled_from(sorted(CLASSES)), 'name': name,
        'description': descr}), min_size=1, max_size=5))
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just('set'), st.integers(0, 4), st.sampled_from(PARTS),
                  st.sampled_from('abxyz'), value),
        st.tuples(st.just('append'), st.integers(0, 4), st.integers(0, 9)),
        st.tuples(st.just('rename'), st.integers(0, 4), name, descr),
        st.tuples(st.just('run'), st.integers(0, 4),
                  st.dictionaries(st.sampled_from(['feed', 'off', 'other']),
                                  st.integers(-9, 9), max_size=3)),
        st.tuples(st.just('write'), st.integers(0, 4))), max_size=12))
    return {'models': ms, 'ops': ops}


def initial(cls):
    if cls in FURNACES:
        return {'parameters': {'a': 1.0, 'b': []},
                'input_variables': {'a': 2.0, 'd': {}},
                'output_variables': {'x': []} if cls == 'LinedKiln' else {}}
    if cls == 'Tank':
        return {'parameters': {'a': 5.0, 'b': []}, 'input_variables': {},
                'output_variables': {}}
    return {p: {} for p in PARTS}


def check_models(case):
    objs, refs = [], []

    def compare(what):
        for o, r in zip(objs, refs):
            same((type(o).__name__, o.name, o.description),
                 (r['cls'], r['name'], r['description']), what)
            for p in PARTS:
                part = getattr(o, p)
                same(type(part).__qualname__.split('.')[-1], TYPES[p],
                     what + ': type of ' + p)
                req(type(part) is getattr(type(o), TYPES[p]),
                    '%s: %s is of another class', what, p)
                same(dict(vars(part)), r['parts'][p], what + ': ' + p)
        for p in PARTS:
            ids = set(id(getattr(o, p)) for o in objs)
            same(len(ids), len(objs), what + ': own ' + p)

    for m in case['models']:
        if m['description'] is None:
            o = CLASSES[m['cls']](m['name'])
        else:
            o = CLASSES[m['cls']](m['name'], m['description'])
        objs.append(o)
        refs.append({'cls': m['cls'], 'name': m['name'],
                     'description': m['description'],
                     'parts': initial(m['cls'])})
        compare('created')
    n = len(objs)
    sets = 0
    for op in case['ops']:
        i = op[1] % n
        o, r = objs[i], refs[i]
        if op[0] == 'set':
            setattr(getattr(o, op[2]), op[3], op[4])
            r['parts'][op[2]][op[3]] = op[4]
            sets += 1
        elif op[0] == 'append':
            if isinstance(r['parts']['parameters'].get('b'), list):
                o.parameters.b.append(op[2])
                b = r['parts']['parameters']['b']
                if o.parameters.b is not b:
                    b.append(op[2])
                sets += 1
        elif op[0] == 'rename':
            o.name, o.description = op[2], op[3]
            r['name'], r['description'] = op[2], op[3]
        elif op[0] == 'run':
            s = dict(op[2])
            res = None
            numbers = all(isinstance(r['parts'][p].get('a'), (int, float))
                          and math.isfinite(r['parts'][p]['a'])
                          for p in ('parameters', 'input_variables'))
            if r['cls'] in FURNACES and numbers:
                res = o.run(s)
                a, f = r['parts']['parameters']['a'], \
                    r['parts']['input_variables']['a']
                r['parts']['output_variables']['total'] = f * a
                feed = op[2].get('feed', a)
                same(res, dict(op[2], feed=feed, product=feed * f),
                     'streams of the run')
            elif r['cls'] not in FURNACES:
                o.run(s)
                same(s, dict(op[2]), 'streams of a model that does nothing')
        elif op[0] == 'write':
            with scratch_dir() as d:
                p = os.path.join(d, 'm.json')
                before = str(o)
                o.write(p)
                q = Object.read(p)
                same(str(q), before, 'model read back')
                same(str(o), before, 'model written')
                same(hash(q), hash(o), 'hash of the model read back')
            objs[i] = q
        compare(op[0])
    return 'models' if n > 1 and sets else None


@st.composite
def named_cases(draw):
    return {'items': draw(st.lists(st.fixed_dictionaries({
        'cls': st.sampled_from(['Project', 'Variable', 'VariableGroup',
                                'NamedObject']),
        'name': name, 'description': descr, 'value': value, 'units': descr,
        'category': descr, 'mode': st.sampled_from(['all', 'bare', 'kw'])}),
        min_size=1, max_size=4)),
        'new': draw(value)}


def check_named(case):
    made = []
    for c in case['items']:
        if c['cls'] in ('Project', 'NamedObject'):
            cls = Project if c['cls'] == 'Project' else NamedObject
            o = cls(c['name'], c['description']) if c['mode'] == 'all' else \
                cls(name=c['name'], description=c['description']) \
                if c['mode'] == 'kw' else cls(c['name'])
            want = {'name': c['name'], 'description':
                    None if c['mode'] == 'bare' else c['description']}
        else:
            cls = Variable if c['cls'] == 'Variable' else VariableGroup
            if c['mode'] == 'all':
                o = cls(c['name'], c['value'], c['units'], c['category'],
                        c['description'])
            elif c['mode'] == 'kw':
                o = cls(description=c['description'], category=c['category'],
                        units=c['units'], value=c['value'], name=c['name'])
            else:
                o = cls(c['name'], c['value'])
            want = {k: c[k] for k in ('name', 'value')}
            for k in ('units', 'category', 'description'):
                want[k] = None if c['mode'] == 'bare' else c[k]
        made.append((o, want, c))
        for o2, w2, _ in made:
            for k, v in w2.items():
                same(getattr(o2, k), v, '%s of a %s' % (k,
                                                        type(o2).__name__))
            if 'value' in w2:
                req(o2() is w2['value'] or o2() == w2['value'],
                    'value called: %r', o2())
    for i, (o, want, c) in enumerate(made):
        with scratch_dir() as d:
            p = os.path.join(d, 'o.json')
            o.write(p)
            q = Object.read(p)
        same(type(q), type(o), 'type read back')
        same(str(q), str(o), 'printed, read back')
        same(hash(q), hash(o), 'hash, read back')
        for k, v in want.items():
            same(getattr(q, k), v, k + ' read back')
        if 'value' in want:
            o.value = case['new']
            same(o(), case['new'], 'value called after a change')
            same(q(), want['value'], 'value of the copy after a change')
            for o2, w2, _ in made[i + 1:]:
                if 'value' in w2:
                    same(o2(), w2['value'], 'value of another')
    return case['items'][0]['cls']


@st.composite
def date_cases(draw):
    d = draw(st.dates(min_value=dt.date(1000, 1, 1)))
    return {'y': d.year, 'm': d.month, 'd': d.day,
            'secs': draw(st.one_of(st.integers(0, 86399),
                               st.sampled_from([0, 86399]))),
            'bad': draw(st.sampled_from(
                ['', 'x', '2016-13-01', '2016-02-30', '2015-02-29',
                 '01-31-2016', '2016/01/02', '2016-01', '2016-01-32',
                 '2016-01-02 10:00', '2100-02-29']))}


def check_dates(case):
    d = dt.date(case['y'], case['m'], case['d'])
    got = get_date('%04d-%02d-%02d' % (d.year, d.month, d.day))
    same(type(got), dt.date, 'type of a date from a text')
    same(got, d, 'date from a text')
    same(get_date('%d-%d-%d' % (d.year, d.month, d.day)), d,
         'date from a text without zeros')
    same(get_date(d), d, 'date from a date')
    t = dt.datetime(d.year, d.month, d.day) + dt.timedelta(
        seconds=case['secs'])
    same(get_date(t), t, 'date from a date with time')
    raises('date text %r' % case['bad'], Exception, get_date, case['bad'])
    return 'date'


part = st.sampled_from(['a', 'b.txt', 'c d', 'é', '..', '.', 'data', '.h'])


@st.composite
def path_cases(draw):
    return {'dirs': draw(st.lists(st.sampled_from(['p', 'q r', 'é', 'x.y']),
                                  max_size=4)),
            'file': draw(st.sampled_from(['m.py', 'mod', '__init__.py'])),
            'rel': draw(st.lists(part, min_size=1, max_size=6)),
            'absolute': draw(st.booleans()), 'slash': draw(st.booleans())}


def check_paths(case):
    def resolve(base, parts):
        out = list(base)
        for x in parts:
            if x == '..':
                del out[-1:]
            elif x not in ('', '.'):
                out.append(x)
        return '/' + '/'.join(out)
    rel = '/'.join(case['rel']) + ('/' if case['slash'] else '')
    mod = '/'.join([''] + case['dirs'] + [case['file']]) if \
        case['absolute'] else '/'.join(case['dirs'] + [case['file']])
    cwd = [c for c in os.getcwd().split('/') if c]
    base = case['dirs'] if case['absolute'] else cwd + case['dirs']
    same(get_path_relative_to_module(mod, rel), resolve(base, case['rel']),
         'path %r relative to %r' % (rel, mod))
    same(get_path_relative_to_module(mod, '/' + rel),
         resolve([], case['rel']), 'absolute path')
    return 'up' if '..' in case['rel'] else None


FACETS = [
    Facet('models', model_cases(), check_models, quick=150, thorough=3000),
    Facet('named', named_cases(), check_named, quick=100, thorough=2000),
    Facet('dates', date_cases(), check_dates, quick=150, thorough=3000),
    Facet('paths', path_cases(), check_paths, quick=150, thorough=3000)]
