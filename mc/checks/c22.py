"""
C22: every way of declaring the same field declares the same field: options by
keyword, by method or by hook, sources by name, position or keyword, forms as
classes, from fields or by name.
"""
import datetime
import itertools
import re

import pilo
from pilo import fields as pf
from pilo.source import DefaultSource, JsonSource

from .. import build, ref
from ..ref import ABSENT, F, FS

LEVEL = 'exploration'
RULE = (
    'one case per kind of field and set of base options; each spelling of the declaration is mapped on every '
    'value of the alphabet of the kind, as attribute, renamed and nested; distinct by (errors, value)'
)
ASSUMPTIONS = ['each declaration is a documented one: the keyword, fluent and hook forms of the same option']

D = datetime.date
DT = datetime.datetime


def kinds():
    """(name, specification, spellings (args, options) -> field, values)"""
    out = []

    def kind(name, spec, values, *makes):
        out.append((name, spec, values, makes))

    text = ['', 'a', 'ab', 'abc', 'abcd', 'b', 5, ['a', 'b'], {}]
    kind('String', F('String', 'a'), text,
         lambda a, o: pf.String(*a, **o), lambda a, o: pf.String(*a, length=None, **o))
    kind('String length', F('String', 'a', min_length=2, max_length=2), text,
         lambda a, o: pf.String(*a, length=2, **o),
         lambda a, o: pf.String(*a, length=(2, 2), **o),
         lambda a, o: pf.String(*a, length=[2, 2], **o),
         lambda a, o: pf.String(*a, min_length=2, max_length=2, **o))
    kind('String range', F('String', 'a', min_length=1, max_length=3), text,
         lambda a, o: pf.String(*a, length=(1, 3), **o),
         lambda a, o: pf.String(*a, min_length=1, max_length=3, **o))
    kind('String pattern', F('String', 'a', pattern='a.?$'), text,
         lambda a, o: pf.String(*a, pattern='a.?$', **o),
         lambda a, o: pf.String(*a, pattern=re.compile('a.?$'), **o))
    kind('String choices', F('String', 'a', choices=['a', 'abc'], alphabet='abc'), text,
         lambda a, o: pf.String(*a, choices=['a', 'abc'], alphabet='abc', **o),
         lambda a, o: pf.String(*a, choices=['a', 'abc'], alphabet=['a', 'b', 'c'], **o),
         lambda a, o: pf.String(*a, choices=['abc', 'a'], alphabet=set('abc'), **o))
    numbers = [0, 1, 2, 3, 4, -1, 2.0, 2.5, '2', '4', 'x', True, [2], '2.5']
    for name in ('Integer', 'Float', 'Decimal', 'Int'):
        cls = getattr(pf, name)
        real = 'Integer' if name == 'Int' else name
        kind(name, F(real, 'a'), numbers,
             lambda a, o, cls=cls: cls(*a, **o), lambda a, o, cls=cls: cls(*a, range=None, **o),
             lambda a, o, cls=cls: cls(*a, min_value=3, **o).min(None))
        kind(name + ' range', F(real, 'a', min_value=1, max_value=3), numbers,
             lambda a, o, cls=cls: cls(*a, range=(1, 3), **o),
             lambda a, o, cls=cls: cls(*a, range=[1, 3], **o),
             lambda a, o, cls=cls: cls(*a, min_value=1, max_value=3, **o),
             lambda a, o, cls=cls: cls(*a, **o).min(1).max(3),
             lambda a, o, cls=cls: cls(*a, **o).max(3).min(1),
             lambda a, o, cls=cls: cls(*a, **o).range(1, 3),
             lambda a, o, cls=cls: cls(*a, max_value=9, **o).range(1, 3),
             lambda a, o, cls=cls: cls(*a, max_value=3, **o).min(1))
        kind(name + ' min', F(real, 'a', min_value=0), numbers,
             lambda a, o, cls=cls: cls(*a, min_value=0, **o),
             lambda a, o, cls=cls: cls(*a, **o).min(0),
             lambda a, o, cls=cls: cls(*a, range=(0, None), **o),
             lambda a, o, cls=cls: cls(*a, **o).range(0, None))
    for name, conv, pattern in (('Integer', int, r'-?\d+'), ('Float', float, r'-?\d+(\.\d)?'), ('Int', int, r'-?\d+')):
        cls = getattr(pf, name)
        kind(name + ' pattern', F('Integer' if name == 'Int' else name, 'a', pattern=pattern, max_value=3), ['1', '-1z', '2.5', 'x', '4', ''],
             lambda a, o, cls=cls, p=pattern: cls(*a, max_value=3, **o).pattern(p),
             lambda a, o, cls=cls, p=pattern: cls(*a, **o).max(3).pattern(re.compile(p)))
    kind('Boolean', F('Boolean', 'a'), [True, False, 0, 1, 'True', 'f', 'x', 2.5, []],
         lambda a, o: pf.Boolean(*a, **o), lambda a, o: pf.Bool(*a, **o))
    days = ['2020-02-01', '2020-02-02', '2020-02-03', '02/02/2020', '2020-13-01', '', D(2020, 2, 2), 5]
    d1, d2 = D(2020, 2, 2), D(2020, 2, 3)
    for fmt in ('%Y-%m-%d', ['%Y-%m-%d', '%m/%d/%Y'], ('%m/%d/%Y', 'iso8601')):
        kind('Date {0}'.format(fmt), F('Date', 'a', format=fmt, after=d1, before=d2), days,
             lambda a, o, f=fmt: pf.Date(*a, format=f, after=d1, before=d2, **o),
             lambda a, o, f=fmt: pf.Date(*a, after=d1, before=d2, **o).format(f),
             lambda a, o, f=fmt: pf.Date(*a, format='%d', **o).format(f).after(d1).before(d2),
             lambda a, o, f=fmt: pf.Date(*a, format=f, **o).before(d2).after(d1),
             lambda a, o, f=fmt: pf.Date(*a, **o).between(d1, d2).format(f),
             lambda a, o, f=fmt: pf.Date(*a, before=d1, format=f, **o).between(d1, d2))
    t1, t2 = DT(2020, 2, 2, 1), DT(2020, 2, 2, 3)
    times = ['2020-02-02 00', '2020-02-02 01', '2020-02-02 03', '2020-02-02 04', 'x', t1, DT(2020, 2, 2, 2, 0, 1), 3]
    kind('Datetime', F('Datetime', 'a', format='%Y-%m-%d %H', after=t1, before=t2), times,
         lambda a, o: pf.Datetime(*a, format='%Y-%m-%d %H', after=t1, before=t2, **o),
         lambda a, o: pf.Datetime(*a, **o).format('%Y-%m-%d %H').between(t1, t2),
         lambda a, o: pf.Datetime(*a, format='%Y-%m-%d %H', before=t2, **o).after(t1),
         lambda a, o: pf.Datetime(*a, format='iso8601', after=t1, **o).before(t2).format('%Y-%m-%d %H'))
    h1, h2 = datetime.time(1), datetime.time(3)
    clock = [datetime.time(0), h1, h2, datetime.time(3, 0, 1), 5]
    kind('Time', F('Time', 'a', format='%H', after=h1, before=h2), clock,
         lambda a, o: pf.Time(*a, format='%H', after=h1, before=h2, **o),
         lambda a, o: pf.Time(*a, **o).format('%H').between(h1, h2),
         lambda a, o: pf.Time(*a, format='%H', before=h2, **o).after(h1),
         lambda a, o: pf.Time(*a, format='%M', after=h1, **o).before(h2).format('%H'))
    kind('Time text', F('Time', 'a', format='%H'), ['07', '24', '', 7],
         lambda a, o: pf.Time(*a, format='%H', **o), lambda a, o: pf.Time(*a, **o).format('%H'))
    kind('UUID', F('UUID', 'a'), ['12345678123456781234567812345678', '{12345678-1234-5678-1234-567812345678}', 'x', 3],
         lambda a, o: pf.UUID(*a, **o))
    kind('Field', F('Any', 'a'), [1, 'x', [1], {'k': None}],
         lambda a, o: pf.Field(*a, **o))

    item = F('Integer', max_value=5)

    def it():
        return pf.Integer(max_value=5)

    lists = [[], [1], [1, '2'], [1, 2, 3], [9], ['x', 1], {}, 's', [[1]], [None]]
    kind('List', F('List', 'a', field=item), lists,
         lambda a, o: pf.List(it(), *a, **o), lambda a, o: pf.List(*(a + [it()]), **o),
         lambda a, o: pf.List(*a, field=it(), **o), lambda a, o: pf.List(it(), *a, length=None, **o))
    kind('List sizes', F('List', 'a', field=item, min_length=1, max_length=2), lists,
         lambda a, o: pf.List(it(), *a, min_length=1, max_length=2, **o),
         lambda a, o: pf.List(it(), *a, length=(1, 2), **o),
         lambda a, o: pf.List(it(), *a, length=[1, 2], **o),
         lambda a, o: pf.List(it(), *a, **o).min(1).max(2),
         lambda a, o: pf.List(it(), *a, **o).range(1, 2),
         lambda a, o: pf.List(it(), *a, max_length=1, **o).max(2).min(1),
         lambda a, o: pf.List(*a, field=it(), length=(3, 4), **o).range(1, 2))
    kind('List or item', F('List', 'a', field=item, allow_field=True), lists + [1, 9],
         lambda a, o: pf.List(it(), *a, allow_field=True, **o),
         lambda a, o: pf.List(*a, field=it(), allow_field=True, **o))

    sub = FS(F('Integer', 'x', max_value=5), F('String', 'y', default='NONE'), name='Sub')

    def named():
        return type(pilo.Form)('Sub', (pilo.Form,), {'x': pf.Integer(max_value=5), 'y': pf.String(default=pilo.NONE)})

    def parts():
        return dict(x=pf.Integer(max_value=5), y=pf.String(default=pilo.NONE))

    def stated():
        class Sub(pilo.Form):
            x = pf.Integer(max_value=5)
            y = pf.String(optional=True)
        return Sub

    def inherited():
        class Base(pilo.Form):
            x = pf.String(choices=['never'])

        class Sub(Base):
            x = pf.Integer().range(None, 5)
            y = pf.String().options(default=pilo.NONE)
        return Sub

    forms = [{'x': 1}, {'x': 9, 'y': 'q'}, {}, {'x': '2', 'y': None, 'z': 1}, {'y': 3}, [], 's', {'x': 1, 'y': 'yy'}]
    anon = FS(*sub.fields, name=None)
    anon.name = None
    kind('SubForm', F('SubForm', 'a', form=anon), forms,
         lambda a, o: pf.SubForm(named(), *a, **o), lambda a, o: pf.SubForm(*(a + [stated()]), **o),
         lambda a, o: pf.SubForm(inherited(), *a, **o),
         lambda a, o: pf.SubForm(pilo.Form.from_fields(**parts()), *a, **o))
    kind('SubForm captures', F('SubForm', 'a', form=anon, unmapped='capture'), forms,
         lambda a, o: pf.SubForm(named(), *a, unmapped='capture', **o),
         lambda a, o: pf.SubForm(stated(), *a, **o).options(unmapped='capture'),
         lambda a, o: pf.SubForm(stated(), *a, reset=True, **o).options(unmapped='capture'),
         lambda a, o: pf.SubForm(inherited(), *a, **o).options(unmapped=pf.Field()),
         lambda a, o: pf.SubForm(named(), *a, **o).options(unmapped=(pf.String(), pf.Field()), reset=True))
    kind('List of forms', F('List', 'a', field=F('SubForm', form=anon)), [[f] for f in forms] + [[forms[0], forms[7]], {}],
         lambda a, o: pf.List(pf.SubForm(named()), *a, **o),
         lambda a, o: pf.List(named(), *a, **o),
         lambda a, o: pf.List(*(a + [stated()]), **o),
         lambda a, o: pf.List(*a, field=pf.SubForm(inherited()), **o),
         lambda a, o: pf.List(pf.SubForm.from_fields(**parts()), *a, **o))
    two = F('Tuple', 'a', fields=[item, F('String')])
    pairs = [[1, 'x'], [9, 'x'], [1], [], [1, 'x', 2], [None, 'x'], 's', {}, ['x', 5], (1, 'x')]
    kind('Tuple', two, pairs,
         lambda a, o: pf.Tuple(*(a + [it(), pf.String()]), **o),
         lambda a, o: pf.Tuple(*(a + [[it(), pf.String()]]), **o),
         lambda a, o: pf.Tuple(*(a + [(it(), pf.String())]), **o))
    kind('Tuple of one', F('Tuple', 'a', fields=[item]), [[1], [], [9], [1, 2]],
         lambda a, o: pf.Tuple(*(a + [[it()]]), **o),
         lambda a, o: pf.Tuple(*(a + [(it(),)]), **o))
    maps = [{}, {'k': 1}, {'k': 1, 'l': '2'}, {'k': 9}, {'kkk': 1, 'k': 2}, {'k': 1, 'l': 2, 'm': 3}, [], 's', {'k': None}]
    kind('Dict', F('Dict', 'a', key=F('String', max_length=2), value=item, required_keys=['k'], max_keys=2), maps,
         lambda a, o: pf.Dict(pf.String(max_length=2), it(), *a, required_keys=['k'], max_keys=2, **o),
         lambda a, o: pf.Dict(pf.String(length=(0, 2)), it(), *a, required_keys=('k',), max_keys=2, **o),
         lambda a, o: pf.Dict(pf.String(length=[None, 2]), it(), *a, required_keys=set('k'), max_keys=2, **o))
    types = [('one', FS(F('Integer', 'n'), name='One')), ('two', FS(F('String', 'n', default='NONE'), name='Two'))]

    def family(how):
        class Base(pilo.Form):
            kind = pf.Type.abstract()

        class One(Base):
            kind = pf.Type.constant('one') if how == 'constant' else pf.Type.instance('one')
            n = pf.Integer()

        class Two(Base):
            kind = (pf.Type(choices=['two'], default='two') if how == 'plain' else pf.Type.instance('two'))
            n = pf.String(default=pilo.NONE)
        family.kept.append((One, Two))
        return Base.kind
    family.kept = []
    kind('Poly', F('Poly', 'a', tag='kind', types=types),
         [{'kind': 'one', 'n': 1}, {'kind': 'one'}, {'kind': 'two', 'n': 1}, {'kind': 'two'}, {'kind': 'x'}, {}, {'kind': None}, 's'],
         lambda a, o: pf.PolymorphicSubForm(family('instance'), *a, **o),
         lambda a, o: pf.PolymorphicSubForm(family('constant'), *a, **o),
         lambda a, o: pf.PolymorphicSubForm(family('plain'), *a, reset=True, **o),
         lambda a, o: pf.PolymorphicSubForm(family('plain'), *a, unmapped='ignore', **o))
    return out


KINDS = kinds()

# Base options: what they mean, and the ways to say so; each is made from
# (make, args) as make(args, keywords of the constructor) and what follows
BASE = [
    ('none', {}, [{}], lambda f: f),
    ('default none', dict(default='NONE'), [{'optional': True}, {'default': pilo.NONE}],
     lambda f: f.options(optional=True)),
    ('default null', dict(default=('lit', None)), [{'default': None}, {'default': None, 'optional': True}],
     lambda f: f.options(default=None)),
    ('default value', dict(default=('lit', 'dflt')), [{'default': 'dflt'}, {'default': lambda: 'dflt'}],
     lambda f: f.options(default='dflt')),
    ('not nullable', dict(nullable=False), [{'nullable': False}], lambda f: f.options(nullable=False)),
    ('ignored', dict(ignores=[None], default=('lit', 7)), [{'ignore': None, 'default': 7}],
     lambda f: f.ignore(None).options(default=7)),
    ('translated', dict(translations='?'), [{'translate': '?'}], None),
    ('tagged', dict(tags=('t',)), [{'tags': 't'}], lambda f: f.tag('t')),
    ('tagged twice', dict(tags=('t', 'u')), [], lambda f: f.tag('u').tag(t=5)),
]


def cases(tier):
    for i in range(len(KINDS)):
        for j in range(len(BASE)):
            yield 'kind', i, j
    yield 'hooks', None, None
    yield 'default hook', None, None
    yield 'refused', None, None
    for shape in SHAPES:
        yield 'item hooks', shape, None
    yield 'names', None, None
    for i in range(len(CALLS)):
        yield 'calls', i, 2 if tier == 'quick' else 3


def bounds(tier):
    return {'kinds': len(KINDS), 'spellings': sum(len(k[3]) for k in KINDS), 'base options': len(BASE),
            'places': PLACES, 'histories of option calls': '{0} of {1}'.format(3 if tier == 'quick' else 4, [n for n, _, _ in CALLS])}


def translations(name, spec, values):
    """Some of values of the field to others of it, null included."""
    good = []
    for v in values:
        out, err, _ = ref.map_root(FS(spec.but(name='a', src='a')), {'a': v})
        v = out.get('a')
        if not err and v is not None and 'orm' not in name and name != 'Poly' and v not in good:
            good.append(v)
    if len(good) < 2:
        return {None: None, 'zz': 1}
    try:
        return {None: good[0], good[0]: good[1], good[-1]: None}
    except TypeError:
        return {None: good[1], 'zz': 1}


PLACES = ['attribute', 'renamed', 'by keyword', 'from fields', 'nested', 'clone', 'inherited', 'overriding']


def placed(place, make, base_kw, after):
    """-> (form class with the field as `a`, key in the document)"""
    args, key = [], 'a'
    if place == 'renamed':
        args, key = ['k'], 'k'
    kw = dict(base_kw)
    if place == 'by keyword':
        kw['src'], key = 'k', 'k'
    field = after(make(args, kw))
    other = pf.Field(default=pilo.NONE)
    if place == 'from fields':
        return pilo.Form.from_fields(a=field, o=other), key
    if place == 'clone':
        return type(pilo.Form)('Form', (pilo.Form,), {'a': field.clone(), 'o': other.clone()}), key
    if place == 'inherited':
        base = type(pilo.Form)('Base', (pilo.Form,), {'a': field})
        mid = type(pilo.Form)('Mid', (base,), {})
        return type(pilo.Form)('Form', (mid,), {'o': other}), key
    if place == 'overriding':
        base = type(pilo.Form)('Base', (pilo.Form,), {'a': pf.Integer('other', min_value=99), 'o': other})
        return type(pilo.Form)('Form', (base,), {'a': field}), key
    return type(pilo.Form)('Form', (pilo.Form,), {'a': field, 'o': other}), key


def run(case, rep):
    kind, i, j = case
    if kind == 'hooks':
        return hooks(rep)
    if kind == 'refused':
        return refused(rep)
    if kind == 'default hook':
        return default_hook(rep)
    if kind == 'item hooks':
        return item_hooks(rep, i)
    if kind == 'names':
        return names(rep)
    if kind == 'calls':
        return calls(rep, i, j)
    name, spec, values, makes = KINDS[i]
    bname, but, kws, after = BASE[j]
    if bname == 'translated':
        table = translations(name, spec, values)
        head = dict(list(table.items())[:1])
        but, kws = dict(translations=table), [{'translate': table}]
        after = lambda f: f.translate(table)
        ways = [({'translate': head}, lambda f: f.translate(table)), ({'translate': {'zz': 2}}, lambda f: f.translate(dict(table, zz=1)))]
        if 'zz' not in table:
            ways = ways[:1]
    else:
        ways = []
    ways += [(kw, lambda f: f) for kw in kws] + [({}, after)]
    for m, make in enumerate(makes):
        for w, (kw, last) in enumerate(ways):
            for place in PLACES:
                try:
                    cls, key = placed(place, make, kw, last)
                except Exception as ex:
                    rep.fail('{0!r} declaring {1} ({2}) with {3}'.format(ex, name, m, bname), sub=(name, m, w, place))
                    continue
                f = spec.but(name='a', src=key, **but)
                fs = FS(f, F('Any', 'o', default='NONE'), name=cls.__name__)
                for v in values + [ABSENT, None]:
                    doc = {'o': 1}
                    if v is not ABSENT:
                        doc[key] = v
                    one(rep, cls, fs, doc, place, (name, m, w, place, v))
                for tags in (['t'], set(['u', 't']), ['u'], ['z']):
                    one(rep, cls, fs, {key: values[1], 'o': 1}, 'attribute', (name, m, w, place, tags), tags=tags)
                rep.check(cls.a.has_tag('t') == ('t' in f.tags) and not cls.a.has_tag('z'), 'has_tag is wrong',
                          sub=(name, m, w, place))
    if len(rep.samples) < 2:
        rep.sample({'kind': name, 'options': bname, 'spellings': len(makes) * len(ways), 'values': repr(values)[:300]})


def one(rep, cls, fs, doc, place, sub, **kw):
    rep.eval()
    want, werr, _ = ref.map_root(fs, doc, **kw)
    prefix = ''
    try:
        if place == 'nested':
            holder = type(pilo.Form)('Holder', (pilo.Form,), {'h': pf.List(cls)})
            top = holder()
            err = top.map({'h': [doc]}, **kw)
            prefix = 'h[0].'
            form = top['h'][0] if 'h' in top and top['h'] else None
        else:
            form = cls()
            err = form.map(doc, **kw)
    except Exception as ex:
        rep.fail('{0!r} escaped, expected {1!r} {2!r}'.format(ex, want, werr), sub=sub)
        return
    got = build.errors_of(err)
    werr = [(c, prefix + w) for c, w in werr]
    rep.outcome((got, repr(want) if not werr else 0))
    rep.check(got == werr, 'errors {0!r}, expected {1!r}'.format(got, werr), sub=sub)
    if place == 'nested' and werr:
        rep.check(form is None, 'a form in spite of errors', sub=sub)
    else:
        rep.check(form is not None and build.same(form, want), 'value {0!r}, expected {1!r}'.format(form, want), sub=sub)


# Hooks: decorators in the class, on the field before, and attached

def first(hook):
    return pf.Integer() if hook == 'default' else pf.Integer(default=pilo.NONE)


def deco_before(hook, func):
    field = first(hook)
    getattr(field, hook)(func)
    return type(pilo.Form)('Form', (pilo.Form,), {'a': field, 'b': pf.Integer(default=4)})


def deco_in_class(hook, func):
    """As the documentation has it: the hook is named like the field."""
    scope = {'pf': pf, 'pilo': pilo, 'func': func, 'hook': hook, 'first': first}
    exec(
        'class Form(pilo.Form):\n'
        '    a = first(hook)\n'
        '    a = getattr(a, hook)(func)\n'
        '    b = pf.Integer(default=4)\n', scope)
    return scope['Form']


def deco_other_name(hook, func):
    """The hook has a name of its own, which is one more name of the field."""
    scope = {'pf': pf, 'pilo': pilo, 'func': func, 'hook': hook, 'first': first}
    exec(
        'class Form(pilo.Form):\n'
        '    a = first(hook)\n'
        '    b = pf.Integer(default=4)\n'
        '    getattr(a, hook)(func)\n', scope)
    return scope['Form']


def deco_later(hook, func):
    cls = type(pilo.Form)('Form', (pilo.Form,), {'a': first(hook), 'b': pf.Integer(default=4)})
    getattr(cls.a, hook)(func)
    return cls


def deco_derived(hook, func):
    base = type(pilo.Form)('Base', (pilo.Form,), {'a': first(hook), 'b': pf.Integer(default=4)})
    field = base.a.clone()
    getattr(field, hook)(func)
    return type(pilo.Form)('Form', (base,), {'a': field})


def hooks(rep):
    """Whichever way a hook is declared, its target is the form that is mapped."""
    docs = [{}, {'a': 1}, {'a': 2, 'b': 7}, {'a': None}, {'a': 'x'}]
    for hook in ('compute', 'parse', 'munge', 'filter', 'validate', 'resolve', 'default'):
        for how in (deco_before, deco_in_class, deco_other_name, deco_later, deco_derived):
            for nest in (False, True):
                seen = []
                func = {
                    'compute': lambda self: seen.append(self) or 41,
                    'parse': lambda self, path: seen.append(self) or 42,
                    'munge': lambda self, value: seen.append(self) or 43,
                    'filter': lambda self, value: bool(seen.append(self)),
                    'validate': lambda self, value: seen.append(self) or True,
                    'resolve': lambda self: seen.append(self),
                    'default': lambda self: seen.append(self) or 44,
                }[hook]
                cls = how(hook, func)
                rep.check([f.name for f in cls.fields] == ['a', 'b'], 'fields {0!r}'.format(cls.fields), sub=(hook, how))
                for doc in docs:
                    del seen[:]
                    form, top = cls(), None
                    rep.eval()
                    if nest:
                        top = type(pilo.Form)('Top', (pilo.Form,), {'s': pf.SubForm(cls)})()
                        err = top.map({'s': doc})
                        form = top.get('s')
                    else:
                        err = form.map(doc)
                    err = build.errors_of(err)
                    want, bad, runs = hooked(hook, doc)
                    rep.outcome((hook, err, repr(want)))
                    at = (hook, how.__name__, nest, doc)
                    rep.check(err == [('Invalid', '.'.join((['s'] if nest else []) + [x for x in [w] if x])) for w in bad],
                              'errors {0!r}, expected {1!r}'.format(err, bad), sub=at)
                    rep.check(len(seen) == runs and all(type(s) is cls for s in seen) and
                              (form is None or all(s is form for s in seen)),
                              'the hook ran for {0!r}, not {1} times for {2!r}'.format(seen, runs, form), sub=at)
                    if not bad:
                        rep.check(form == want, '{0!r}, expected {1!r}'.format(form, want), sub=at)


# Hooks of items: l is an item of a list, v a value and k a key of a mapping

SHAPES = [''.join(x) for n in (1, 2, 3) for x in itertools.product('lv', repeat=n)] + ['k', 'lk', 'vk', 'llk', 'vvk']


def shaped(shape):
    """-> (container with items of that shape, how to get at the innermost items)"""
    field = pf.String(default=pilo.NONE) if shape[-1] == 'k' else pf.Integer(default=pilo.NONE)
    for x in reversed(shape):
        if x == 'l':
            field = pf.List(field, default=pilo.NONE)
        elif x == 'v':
            field = pf.Dict(pf.String(), field, default=pilo.NONE)
        else:
            field = pf.Dict(field, pf.Integer(), default=pilo.NONE)
    return field


def innermost(field, shape):
    for x in shape:
        field = getattr(field, {'l': 'field', 'v': 'value_field', 'k': 'key_field'}[x])
    return field


def items_of(shape):
    """Values of that shape."""
    if not shape:
        return [1, 2, 'x']
    if shape == 'k':
        return [{}, {'1': 7}, {'1': 7, '2': 8}, {'': 5, '2': 'x'}]
    below = items_of(shape[1:])
    if shape[0] == 'l':
        return [[], below[:1], below[:2], below]
    return [{}, {'p': below[0]}, {'p': below[1], 'q': below[0]}, dict(('k%d' % i, v) for i, v in enumerate(below))]


GONE = object()


def leaf(hook, shape, value, where, errors, runs):
    """What becomes of an innermost item."""
    key = shape == 'k'
    if hook == 'parse':
        runs.append(value)
        return 42
    if not key and value == 'x':
        errors.append(('Invalid', where))
        return GONE
    runs.append(value)
    two = value == ('2' if key else 2)
    if hook == 'munge':
        return ('m' + value) if key else value + 100
    if hook == 'filter':
        return GONE if two else value
    if two and hook == 'validate':
        errors.append(('Invalid', where))
        return GONE
    return value


def mapped_items(hook, shape, value, where, errors, runs):
    if not shape:
        return leaf(hook, shape, value, where, errors, runs)
    if shape == 'k':
        out = {}
        for k, v in value.items():
            at = where + ('.' + k if k else '')
            if v == 'x':
                errors.append(('Invalid', at))
                continue
            key = leaf(hook, shape, k, where, errors, runs)
            if key is GONE:
                continue
            out[key] = v
        return out
    if value and shape[0] == 'l':
        out = [mapped_items(hook, shape[1:], v, '%s[%d]' % (where, i), errors, runs) for i, v in enumerate(value)]
        return [x for x in out if x is not GONE]
    if value:
        out = dict((k, mapped_items(hook, shape[1:], v, where + '.' + k, errors, runs)) for k, v in value.items())
        return dict((k, v) for k, v in out.items() if v is not GONE)
    return value


def item_in_class(shape, hook, func):
    """The hook is named like the field that holds the items."""
    scope = {'pf': pf, 'pilo': pilo, 'func': func, 'hook': hook, 'shaped': shaped, 'shape': shape, 'inner': innermost}
    exec(
        'class Form(pilo.Form):\n'
        '    a = shaped(shape)\n'
        '    a = getattr(inner(a, shape), hook)(func)\n'
        '    b = pf.Integer(default=4)\n', scope)
    return scope['Form']


def item_before(shape, hook, func):
    field = shaped(shape)
    getattr(innermost(field, shape), hook)(func)
    return type(pilo.Form)('Form', (pilo.Form,), {'a': field, 'b': pf.Integer(default=4)})


def item_alone(shape, hook, func):
    """On the items before they are those of a container."""
    field = shaped(shape)
    item = innermost(field, shape).clone()
    if getattr(item, hook)(func) is not item:
        return None
    holder = innermost(field, shape[:-1])
    setattr(holder, {'l': 'field', 'v': 'value_field', 'k': 'key_field'}[shape[-1]], item.attach(holder))
    return type(pilo.Form)('Form', (pilo.Form,), {'a': field, 'b': pf.Integer(default=4)})


def item_later(shape, hook, func):
    cls = type(pilo.Form)('Form', (pilo.Form,), {'a': shaped(shape), 'b': pf.Integer(default=4)})
    if getattr(innermost(cls.a, shape), hook)(func) is not cls.a:
        return None
    return cls


def item_cloned(shape, hook, func):
    """In a copy of the inherited field, under its name."""
    base = type(pilo.Form)('Base', (pilo.Form,), {'a': shaped(shape), 'b': pf.Integer(default=4)})
    copy_ = base.a.clone()
    return type(pilo.Form)('Form', (base,), {'a': getattr(innermost(copy_, shape), hook)(func)})


def item_elsewhere(shape, hook, func):
    """A copy has it, this one has not: judged as if there were no hook."""
    cls = type(pilo.Form)('Form', (pilo.Form,), {'a': shaped(shape), 'b': pf.Integer(default=4)})
    field = cls.a.clone()
    type(pilo.Form)('Other', (cls,), {'a': getattr(innermost(field, shape), hook)(func)})
    return cls


def item_copied(shape, hook, func):
    """A copy of a field that has it."""
    cls = item_before(shape, hook, func)
    return type(pilo.Form)('Form', (pilo.Form,), {'a': cls.a.clone(), 'b': cls.b.clone()})


def item_hooks(rep, shape):
    """A hook of an item is named like the field, and sees the form that is mapped."""
    values = items_of(shape)
    for hook in ('parse', 'munge', 'filter', 'validate'):
        if hook == 'parse' and shape[-1] == 'k':
            continue    # keys are not parsed
        for how in (item_in_class, item_before, item_alone, item_later, item_cloned, item_elsewhere, item_copied):
            seen = []
            two = '2' if shape[-1] == 'k' else 2

            def parse(self, path):
                seen.append(self)
                return 42

            def other(self, value):
                seen.append(self)
                if hook == 'munge':
                    return 'm' + value if shape[-1] == 'k' else value + 100
                if hook == 'validate' and value == two:
                    pilo.context.ctx.errors.invalid('two')
                return value != two

            cls = how(shape, hook, parse if hook == 'parse' else other)
            at = (shape, hook, how.__name__)
            if not rep.check(cls is not None, 'the hook does not give back the field', sub=at):
                continue
            if not rep.check([f.name for f in cls.fields] == ['a', 'b'] and all(
                    isinstance(f, pf.Dict if shape[0] in 'vk' else pf.List) for f in cls.fields[:1]),
                    'fields {0!r}'.format(cls.fields), sub=at):
                continue
            for nest in (False, True):
                for value in values:
                    del seen[:]
                    rep.eval()
                    errors, runs, form = [], [], cls()
                    want = mapped_items('none' if how is item_elsewhere else hook, shape, value,
                                        's.a' if nest else 'a', errors, runs)
                    if nest:
                        top = type(pilo.Form)('Top', (pilo.Form,), {'s': pf.SubForm(cls)})()
                        err = build.errors_of(top.map({'s': {'a': value}}))
                        form = top.get('s')
                    else:
                        err = build.errors_of(form.map({'a': value}))
                    rep.outcome((hook, err, repr(want)))
                    here = at + (nest, value)
                    rep.check(err == errors, 'errors {0!r}, expected {1!r}'.format(err, errors), sub=here)
                    rep.check(len(seen) == (0 if how is item_elsewhere else len(runs)) and all(type(s) is cls for s in seen) and
                              (form is None or all(s is form for s in seen)),
                              'the hook ran for {0!r}, not for {1!r}'.format(seen, runs), sub=here)
                    if not errors:
                        rep.check(form == {'a': want, 'b': 4}, '{0!r}, expected {1!r}'.format(form, want), sub=here)


def names(rep):
    """Everything that the package says it has can be imported, and all at once."""
    import importlib
    for name in ('pilo', 'pilo.fields', 'pilo.source', 'pilo.context'):
        rep.eval()
        module = importlib.import_module(name)
        said = getattr(module, '__all__', [])
        rep.outcome((name, len(said)))
        rep.check(not [n for n in said if not hasattr(module, n)], '{0} has not all of {1}'.format(name, said), sub=name)
        rep.check(len(set(said)) == len(said), 'named twice', sub=name)
        scope = {}
        try:
            exec('from {0} import *'.format(name), scope)
        except Exception as ex:
            rep.fail('from {0} import *: {1!r}'.format(name, ex), sub=name)
            continue
        rep.check(all(scope.get(n) is getattr(module, n) for n in said), 'from {0} import *'.format(name), sub=name)
    # every kind of field that forms are declared with is among those
    kinds = [n for n, c in vars(pf).items() if isinstance(c, type) and issubclass(c, pf.Field)]
    missing = [n for n in kinds if n not in pf.__all__]
    rep.sample({'fields': kinds, 'not exported': missing})


def hooked(hook, doc):
    """-> (form, places in error, times the hook runs)"""
    want = {'b': doc.get('b', 4)}
    v = doc.get('a', ABSENT)
    if hook == 'compute':
        return dict(want, a=41), [], 1
    if hook == 'resolve':
        # nothing resolved: the field is read from the form's own place, no number
        return want, [''], 1
    if hook == 'parse':
        if v is ABSENT:
            return want, [], 0
        return dict(want, a=None if v is None else 42), [], 0 if v is None else 1
    if hook == 'default':
        if v is ABSENT:
            return dict(want, a=44), [], 1
        return (dict(want, a=v), [], 0) if v != 'x' else (want, ['a'], 0)
    if v is ABSENT:
        return want, [], 0
    if v == 'x':
        return want, ['a'], 0
    if hook == 'munge':
        return dict(want, a=43), [], 1
    if hook == 'filter':
        return want, [], 1
    return dict(want, a=v), [], 1


def default_hook(rep):
    """A default that is a value, a callable, a type or a hook."""
    for ask in ('value', 'call', 'type', 'hook', 'hook over value', 'value over hook'):
        field = pf.List(pf.Integer())
        if ask == 'value':
            field.options(default=[])
        elif ask == 'call':
            field.options(default=lambda: [])
        elif ask == 'type':
            field.options(default=list)
        elif ask == 'value over hook':
            @field.default
            def dflt(self):
                return [1]
            field.options(default=[])
        else:
            @field.default
            def dflt(self):
                return []
        cls = type(pilo.Form)('Form', (pilo.Form,), {'a': field, 'b': pf.Field(default=1)})
        for doc in ({}, {'a': [1]}, {'a': None}, {'a': ['x']}):
            rep.eval()
            form = cls()
            err = build.errors_of(form.map(doc))
            rep.outcome((err, repr(form)))
            v = doc.get('a', [])
            bad = v == ['x']
            rep.check(err == ([('Invalid', 'a[0]')] if bad else []), 'errors {0!r}'.format(err), sub=(ask, doc))
            rep.check(form.get('a', ABSENT) == ([] if bad else v), '{0!r}'.format(form), sub=(ask, doc))


def refused(rep):
    """What declares no field is refused as it is declared, not as it is mapped."""
    nothing = {
        'List()': lambda: pf.List(),
        'List(5)': lambda: pf.List(5),
        'List("a")': lambda: pf.List('a'),
        'List(str)': lambda: pf.List(str),
        'SubForm()': lambda: pf.SubForm(),
        'SubForm("a")': lambda: pf.SubForm('a'),
        'SubForm(dict)': lambda: pf.SubForm(dict),
        'SubForm(Field())': lambda: pf.SubForm(pf.Field()),
        'Tuple(5)': lambda: pf.Tuple(5),
        'Tuple("a", 5)': lambda: pf.Tuple('a', 5),
        'Tuple({})': lambda: pf.Tuple({}),
        'Tuple(field, 5)': lambda: pf.Tuple(pf.Field(), 5),
        'Tuple([5])': lambda: pf.Tuple([5]),
        'Group(field)': lambda: pf.Group(pf.Field()),
        'Group([field])': lambda: pf.Group([pf.Field('a'), [pf.Field()]]),
        'Group(5)': lambda: pf.Group(5),
        'Group([[5]])': lambda: pf.Group([[pf.Field('a'), 5]]),
        'Group((1,))': lambda: pf.Group(('a',)),
        'Group((1, 2, 3))': lambda: pf.Group(('a', pf.Field(), 3)),
        'Group([(1, 2, 3)])': lambda: pf.Group(pf.Field('a'), [('a', pf.Field(), 3)]),
        'String(length=(1, 2, 3))': lambda: pf.String(length=(1, 2, 3)),
        'List(length=(1,))': lambda: pf.List(pf.Field(), length=(1,)),
        'Integer(range=(1,))': lambda: pf.Integer(range=(1,)),
        'String("a", "b")': lambda: pf.String('a', 'b'),
        'String(pattern="(")': lambda: pf.String(pattern='('),
        'capture("(")': lambda: pf.String().capture('('),
        'Integer().pattern("(")': lambda: pf.Integer().pattern('('),
        'unmapped': lambda: pf.Field(unmapped='capture'),
    }
    kinds = [
        ('Field', pf.Field), ('String', pf.String), ('Integer', pf.Integer), ('Float', pf.Float), ('Decimal', pf.Decimal),
        ('Boolean', pf.Boolean), ('Date', pf.Date), ('Time', pf.Time), ('Datetime', pf.Datetime), ('UUID', pf.UUID),
        ('List', lambda *a, **o: pf.List(pf.Field(), *a, **o)), ('Dict', lambda *a, **o: pf.Dict(pf.Field(), pf.Field(), *a, **o)),
        ('SubForm', lambda *a, **o: pf.SubForm(pilo.Form, *a, **o)), ('Tuple', lambda *a, **o: pf.Tuple([pf.Field()], **o)),
        ('Group', lambda *a, **o: pf.Group(**o)), ('Type', pf.Type), ('Code', pf.Code),
    ]
    for name, make in kinds:
        nothing[name + '(nonsense=1)'] = lambda make=make: make(nonsense=1)
        nothing[name + '(optinal=True)'] = lambda make=make: make(default=1, optinal=True)
        nothing[name + '().options(nonsense=1)'] = lambda make=make: make().options(nonsense=1)
        for hook in ('compute', 'resolve', 'parse', 'munge', 'filter', 'validate', 'default'):
            right = 1 + (hook in ('parse', 'munge', 'filter', 'validate'))
            for n, func in enumerate((lambda: 1, lambda self: 1, lambda self, value: 1, lambda self, path: 1,
                                      lambda self, value, more: 1)):
                args = func.__code__.co_varnames[:func.__code__.co_argcount]
                good = len(args) == right and (right == 1 or (args[1] == 'path') == (hook == 'parse'))
                at = '{0}().{1}(lambda {2})'.format(name, hook, ', '.join(args))
                if name == 'Group' and hook == 'default':
                    continue    # has one, an empty list
                if not good:
                    nothing[at] = lambda make=make, hook=hook, func=func: getattr(make(), hook)(func)
                    continue
                rep.eval()
                field = make()
                rep.check(getattr(field, hook)(func) is field, at + ' does not give the field', sub=at)
    for at, make in nothing.items():
        rep.eval()
        try:
            got = make()
        except Exception as ex:
            rep.outcome((at, type(ex).__name__))
            rep.check(isinstance(ex, TypeError) or not at.startswith('Tuple(') or '=' in at,
                      '{0} raised {1!r}'.format(at, ex), sub=at)
            continue
        rep.fail('{0} declares {1!r}'.format(at, got), sub=at)
    for field in (pf.Field(), pf.List(pf.Field()), pf.SubForm(pilo.Form)):
        rep.check(not field.is_attached, 'attached before it is declared', sub=repr(field))
        cls = type(pilo.Form)('Form', (pilo.Form,), {'f': field})
        rep.check(field.is_attached and field.parent is cls and field.name == 'f', 'not attached', sub=repr(field))


# Histories of calls that set options: each changes what it names, and no more

def opt(**kw):
    def model(o):
        for k, v in kw.items():
            o[k] = v
        if 'default' in kw and kw['default'] == ('lit', None):
            o['nullable'] = True
    return model


def more(k, *vs):
    def model(o):
        o[k] = tuple(o[k]) + tuple(v for v in vs if v not in o[k])
    return model


def table(new):
    def model(o):
        o['translations'] = dict(list(o['translations'].items()) + list(new.items()))
    return model


CALLS = [
    ('default=5', lambda f: f.options(default=5), opt(default=('lit', 5))),
    ('default=None', lambda f: f.options(default=None), opt(default=('lit', None))),
    ('default=NONE', lambda f: f.options(default=pilo.NONE), opt(default='NONE')),
    ('optional=True', lambda f: f.options(optional=True), opt(default='NONE')),
    ('optional=False', lambda f: f.options(optional=False), opt()),
    ('nullable=True', lambda f: f.options(nullable=True), opt(nullable=True)),
    ('nullable=False', lambda f: f.options(nullable=False), opt(nullable=False)),
    ('tag t', lambda f: f.tag('t'), more('tags', 't')),
    ('tags=u', lambda f: f.options(tags='u'), more('tags', 'u')),
    ('ignore 1', lambda f: f.ignore(1), more('ignores', 1)),
    ('ignore=2', lambda f: f.options(ignore=2), more('ignores', 2)),
    ('translate 3', lambda f: f.translate({3: 4, 4: 3}), table({3: 4, 4: 3})),
    ('translate=', lambda f: f.options(translate={3: 2, 6: None}), table({3: 2, 6: None})),
    ('both', lambda f: f.options(optional=True, default=6, nullable=False), opt(default=('lit', 6), nullable=False)),
    ('clone', lambda f: f.clone(), opt()),
    ('nothing', lambda f: f.options(), opt()),
]


def calls(rep, first, n):
    for rest in itertools.product(range(len(CALLS)), repeat=n):
        for short in (rest[:0],) + (rest[:1], rest) if not any(rest) else (rest,):
            history(rep, (first,) + short)


def history(rep, picks):
    field = pf.Integer()
    o = {'default': ref.UNSET, 'nullable': ref.UNSET, 'tags': (), 'ignores': (), 'translations': {}}
    for i in picks:
        got = CALLS[i][1](field)
        field = got
        CALLS[i][2](o)
    cls = type(pilo.Form)('Called', (pilo.Form,), {'a': field, 'z': pf.Integer(default=0)})
    kw = dict((k, v) for k, v in o.items() if v is not ref.UNSET and v != () and v != {})
    if kw.get('default') == ('lit', None):
        # to the reference null as the default makes a field nullable, here that depends on the order
        kw['default'] = ('hook', None)
    if 'ignores' in kw:
        kw['ignores'] = list(kw['ignores'])
    fs = FS(F('Integer', 'a', **kw), F('Integer', 'z', default=('lit', 0)), name='Called')
    sub = [CALLS[i][0] for i in picks]
    for v in (ABSENT, None, 1, 2, 3, 4, 6, 'x'):
        one(rep, cls, fs, {} if v is ABSENT else {'a': v}, 'attribute', (sub, v))
    for tags in (['t'], ['u'], ['t', 'u']):
        one(rep, cls, fs, {'a': 5}, 'attribute', (sub, tags), tags=tags)
