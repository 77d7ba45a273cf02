"""
C11: the same document gives the same form and the same errors whatever kind
of source carries it; only what a source says it does (renames, ignores, adds
a location, converts leniently or strictly) makes a difference.
"""
import collections
import copy
import itertools
import json

import pilo
from pilo.source import DefaultSource, JsonSource, MountSource, UnionSource

from .. import build, ref
from ..ref import F, FS, ABSENT

LEVEL = 'exploration'
RULE = (
    'one case per (form, values of its first two fields); each is run on every combination of '
    'values for the other fields, through every kind of source; distinct by (errors, value)'
)
ASSUMPTIONS = [
    'a union lists the keys of a mapping in no particular order, so order is not compared there',
]


class Map(collections.abc.Mapping):
    """A mapping that is no dict."""

    def __init__(self, items):
        self.items_ = items

    def __getitem__(self, k):
        return self.items_[k]

    def __iter__(self):
        return iter(self.items_)

    def __len__(self):
        return len(self.items_)


class Seq(collections.abc.Sequence):
    """A sequence that is no list."""

    def __init__(self, items):
        self.items_ = items

    def __getitem__(self, i):
        return self.items_[i]

    def __len__(self):
        return len(self.items_)


def wrap(v):
    if isinstance(v, dict):
        return Map(collections.OrderedDict((k, wrap(x)) for k, x in v.items()))
    if isinstance(v, list):
        return Seq([wrap(x) for x in v])
    return v


def tuples(v):
    if isinstance(v, dict):
        return collections.OrderedDict((k, tuples(x)) for k, x in v.items())
    if isinstance(v, list):
        return tuple(tuples(x) for x in v)
    return v


SUB = FS(F('Integer', 'x', max_value=5), F('String', 'y', default='NONE'), name='Sub')
A = FS(
    F('Integer', 'a', max_value=9),
    F('SubForm', 'b', form=SUB),
    F('List', 'c', field=F('Integer'), default='NONE', max_length=2),
    F('Dict', 'd', key=F('String', max_length=2), value=F('Float'), default=('lit', None)),
    name='A',
)
B = FS(
    F('String', 'a', default=('lit', 'dflt'), ignores=['']),
    F('Boolean', 'b', src='bb'),
    F('List', 'c', field=F('SubForm', form=SUB)),
    F('Tuple', 'd', fields=[F('String'), F('List', field=F('Integer'), allow_field=True)], default='NONE'),
    name='B',
)
C = FS(
    F('Decimal', 'a', default='NONE', min_value=1),
    F('Group', 'g', fields=[('^p(.*)$', F('Integer')), ('q', F('Boolean'))]),
    F('Integer', 'deep', src='b.x', default='NONE'),
    F('Integer', 'deeper', src='b.y.z', default='NONE'),
    F('Any', 'n', default='NONE'),
    name='C',
)
CARD = FS(F('Integer', 'n', max_value=5), name='Card')
CASH = FS(F('SubForm', 's', form=SUB, default='NONE'), name='Cash')
TYPES = [('card', CARD), ('cash', CASH)]
D = FS(
    F('Poly', 'a', tag='kind', types=TYPES),
    F('List', 'l', field=F('Poly', tag='kind', types=TYPES), default='NONE'),
    F('Dict', 'd', key=F('String'), value=F('Poly', tag='kind', types=TYPES, default='NONE'), default='NONE'),
    name='D',
)
POOL = {
    'D': [
        ('a', [{'kind': 'card', 'n': 1}, {'kind': 'card', 'n': 9}, {'kind': 'cash'}, {'kind': 'cash', 's': {'x': 'q'}},
               {'kind': 'nope'}, {}, {'kind': None}, {'kind': 5}, None, ABSENT, 5, 'card']),
        ('l', [[], [{'kind': 'cash', 's': {'x': 1}}, {'kind': 'card', 'n': 2}], [{'kind': 'card'}, None, {}], {}, ABSENT]),
        ('d', [{}, {'p': {'kind': 'card', 'n': 3}, 'q': {'kind': None}}, {'p': {'n': 1}, 'q': {'kind': 'cash'}}, ABSENT]),
        ('z', [ABSENT, {'kind': 'card'}]),
    ],
    'A': [
        ('a', [1, 12, '3', 2.0, None, ABSENT, 'z', True, [1]]),
        ('b', [{'x': 1}, {'x': 9, 'y': 'k'}, {'x': '2', 'y': None}, {}, {'y': 3}, None, ABSENT, [], 's']),
        ('c', [[], [1], [1, 'x'], [1, 2, 3], [None], None, ABSENT, {}, 'ab', [[1]]]),
        ('d', [{}, {'k': 1}, {'k': 'x'}, {'kkk': 1.5}, None, ABSENT, [], {'k': None, 'l': '2'}]),
    ],
    'B': [
        ('a', ['s', '', 5, None, ABSENT, ['s']]),
        ('bb', [True, 'false', 0, 'zz', None, ABSENT, 1.5, 'T']),
        ('c', [[], [{'x': 1}], [{'x': 1}, {'y': 'q'}, {'x': 2, 'y': 'r'}], [None], [1], {}, None, ABSENT]),
        ('d', [['s', 1], ['s', [1, 2]], ['s'], [1, 'x'], [], None, ABSENT, {}]),
    ],
    'C': [
        ('a', ['1.5', 0.5, 3, 'x', None, ABSENT]),
        ('p1', [1, 'x', None, ABSENT]),
        ('q', [True, 'x', ABSENT]),
        ('b', [{'x': 4}, {}, None, ABSENT, 5, {'x': None}, {'x': 1, 'y': {'z': 6}}, {'y': {'z': 'q'}}]),
    ],
}
FORMS = {'A': A, 'B': B, 'C': C, 'D': D}


def cases(tier):
    for name in ('A', 'B', 'C', 'D'):
        pool = POOL[name]
        for u in pool[0][1]:
            for v in pool[1][1]:
                yield name, u, v
    for v in POSITIONAL:
        yield 'positional', v, None
    yield 'malformed', None, None
    yield 'placeless', None, None
    yield 'calls', None, None


def bounds(tier):
    return {'forms': sorted(FORMS), 'values per field': '4..10', 'kinds of source': sorted(KINDS),
            'positional documents': 'lists of 0..5 items over 7 values'}


def reorder(errors):
    return sorted(errors)


# kind: (source of a document, flavor, change of location, ordered)

def plain(src):
    return src, 'plain', lambda s: s


KINDS = collections.OrderedDict([
    ('dict', lambda d: (d, 'plain', None)),
    ('DefaultSource', lambda d: (DefaultSource(d), 'plain', None)),
    ('located', lambda d: (DefaultSource(d, location='L'), 'plain', 'L:')),
    ('mappings', lambda d: (DefaultSource(wrap(d)), 'plain', None)),
    ('tuples', lambda d: (tuples(d), 'plain', None)),
    ('JsonSource', lambda d: (JsonSource(json.dumps(d)), 'json', None)),
    ('strict', lambda d: (JsonSource(json.dumps(d), strict=True), 'strict', None)),
    ('located json', lambda d: (JsonSource(json.dumps(d), location='doc.json'), 'json', 'doc.json:')),
    ('json bytes', lambda d: (JsonSource(json.dumps(d).encode('utf-8'), encoding='utf-8'), 'json', None)),
    ('json utf-16', lambda d: (JsonSource(json.dumps(d, indent=1).encode('utf-16'), 'utf-16', True), 'strict', None)),
    ('renamed', lambda d: (DefaultSource(
        dict((k.upper(), v) for k, v in d.items()), aliases=dict((k, k.upper()) for k in d)), 'plain', None)),
    # aliases are of the root only, whatever is below has its own keys
    ('renamed root', lambda d: (DefaultSource(
        dict((k.upper(), v) for k, v in d.items()), aliases=dict(
            [(k, k.upper()) for k in d] + [('x', 'y'), ('y', 'x'), ('k', 'l'), ('kind', 'n'), ('n', 's'), ('s', 'kind')])),
        'plain', None)),
    ('union', lambda d: (UnionSource([d]), 'plain', None)),
    ('union with nothing', lambda d: (UnionSource([{}, d, {}], merge='combine'), 'plain', None)),
    ('union json', lambda d: (UnionSource([JsonSource(json.dumps(d), strict=True)]), 'strict', None)),
    ('ignoring', lambda d: (DefaultSource(
        dict(d, nope=1, zz={'x': 1}), ignores=['nope', 'zz.x', 'zz']), 'plain', None)),
])


def real(cls, src):
    form = cls()
    errors = form.map(src)
    return form, build.errors_of(errors)


def decide(rep, cls, fs, doc, kind, want, werr, make=None):
    src, flavor, prefix = (make or KINDS[kind])(copy.deepcopy(doc))
    rep.eval()
    try:
        form, err = real(cls, src)
    except Exception as ex:
        rep.fail('{0!r} escaped, expected {1!r} {2!r}'.format(ex, want, werr), sub=(fs, doc, kind))
        return
    werr = [(c, (prefix or '') + w) for c, w in werr]
    same_err = sorted(err) == sorted(werr) if 'union' in kind else err == werr
    rep.check(same_err, 'errors {0!r}, expected {1!r}'.format(err, werr), sub=(fs, doc, kind))
    if same_err:
        if 'union' in kind and 'g' in form:
            form['g'] = sorted(form['g'], key=lambda t: t[0])
            want = ref.RForm(want)
            want.cls = fs.name
            want['g'] = sorted(want['g'], key=lambda t: t[0])
        rep.check(build.same(form, want), 'value {0!r}, expected {1!r}'.format(form, want), sub=(fs, doc, kind))


def run(case, rep):
    name, u, v = case
    if name == 'positional':
        return positional(u, rep)
    if name == 'malformed':
        return malformed(rep)
    if name == 'placeless':
        return placeless(rep)
    if name == 'calls':
        return calls(rep)
    fs = FORMS[name]
    b = build.Builder()
    cls = b.form(fs)
    holder = type(pilo.Form)('Holder', (pilo.Form,), {'h': pilo.fields.SubForm(cls, 'm')})
    (k1, _), (k2, _), (k3, p3), (k4, p4) = POOL[name]
    for w in p3:
        for x in p4:
            doc = dict((k, val) for k, val in ((k1, u), (k2, v), (k3, w), (k4, x)) if val is not ABSENT)
            want = dict((fl, ref.map_root(fs, doc, fl)[:2]) for fl in ('plain', 'json', 'strict'))
            rep.outcome((want['plain'][1], repr(want['plain'][0]) if not want['plain'][1] else 0))
            for kind in KINDS:
                flavor = KINDS[kind]({})[1]
                decide(rep, cls, fs, doc, kind, *want[flavor])
            if w is p3[0] or x is p4[0]:
                captured(rep, cls, fs, doc)
            mounted(rep, holder, cls, fs, doc, want)
            constructed(rep, cls, fs, doc, *want['plain'])
            ambient(rep, cls, fs, doc, *want['plain'])
            ignored(rep, cls, fs, doc)
    if rep.counts['evaluations'] % 7 == 0:
        rep.sample({'form': name, 'document': repr(doc), 'sources': list(KINDS), 'errors': repr(want['plain'][1])})


# keys that no field of the forms maps
REST = {'q1': 5, 'q2': [1, {'a': 2}], 'q3': {'k': None}, 'q4': None, 'q5': 'text'}


def captured(rep, cls, fs, doc):
    """What no field maps is the same from every kind of source as well."""
    doc = dict(doc, **REST)
    for kind in ('dict', 'DefaultSource', 'mappings', 'JsonSource', 'json utf-16', 'renamed', 'union', 'ignoring'):
        src, flavor, _ = KINDS[kind](copy.deepcopy(doc))
        env = ref.Env(flavor)
        want = ref.map_form(fs, doc, [], env, unmapped='capture')
        rep.eval()
        try:
            form = cls()
            err = build.errors_of(form.map(src, unmapped='capture'))
        except Exception as ex:
            rep.fail('{0!r} escaped'.format(ex), sub=(fs, doc, kind))
            continue
        rep.check(bool(err) == bool(env.errors), 'captured: errors {0!r}, expected {1!r}'.format(err, env.errors),
                  sub=(fs, doc, kind))
        if not err and not env.errors:
            for extra in set(form) | set(want):
                if extra == 'g' or kind in ('union', 'mappings') and extra in ('q2', 'q3') or extra in want and isinstance(
                        want[extra], (dict, list)) and extra not in REST:
                    # decided above, or handed out as the part of the union
                    continue
                rep.check(extra in form and extra in want and build.same(form[extra], want[extra]),
                          'captured: {0!r}, expected {1!r}'.format(form, want), sub=(fs, doc, kind, extra))


def mounted(rep, holder, cls, fs, doc, want):
    """Mounted at m: as on its own, its locations below @m."""
    for flavor, at, src in (
            ('plain', '', copy.deepcopy(doc)), ('json', '', JsonSource(json.dumps(doc))),
            ('plain', ':L', DefaultSource(copy.deepcopy(doc), location='L')),
            ('json', ':f.json', JsonSource(json.dumps(doc), location='f.json'))):
        rep.eval()
        value, werr = want[flavor]
        form, err = real(holder, MountSource(m=src, other={'a': 7, 'x': 7}))
        werr = [(c, '@m' + at + ':' + w) for c, w in werr]
        rep.check(err == werr, 'mounted: errors {0!r}, expected {1!r}'.format(err, werr), sub=(fs, doc, flavor))
        if not werr:
            rep.check('h' in form and build.same(form['h'], value), lambda: 'mounted: value {0!r}, expected {1!r}'.format(
                form, value), sub=(fs, doc, flavor))
        else:
            rep.check('h' not in form, 'mounted: a value in spite of errors', sub=(fs, doc, flavor))


def constructed(rep, cls, fs, doc, want, werr):
    """Form(doc), Form(**doc) and Form(source): the value or all its errors."""
    for how in (lambda: cls(doc), lambda: cls(**doc), lambda: cls(DefaultSource(doc))):
        rep.eval()
        try:
            got, err = how(), []
        except pilo.fields.FormError as ex:
            got, err = None, build.errors_of(ex.field_errors)
        if not doc and got == {}:
            continue    # a form of nothing is not mapped
        rep.check(err == werr, 'constructor: {0!r}, expected {1!r}'.format(err, werr), sub=(fs, doc))
        if not err and not werr:
            rep.check(build.same(got, want), 'constructor: {0!r}, expected {1!r}'.format(got, want), sub=(fs, doc))


def ambient(rep, cls, fs, doc, want, werr):
    """A source of the context is the source of map() without one."""
    rep.eval()
    collected = pilo.fields.CollectErrors()
    with pilo.ctx(src=DefaultSource({'k': doc}), errors=collected):
        with pilo.ctx(src='k'):
            form = cls()
            err = build.errors_of(form.map())
    werr = [(c, ref.loc(['k', w]) if not w.startswith('[') else 'k' + w) for c, w in werr]
    rep.check(err == werr, 'ambient: errors {0!r}, expected {1!r}'.format(err, werr), sub=(fs, doc))
    rep.check(build.errors_of(collected) == werr, 'ambient: the errors around did not collect them', sub=(fs, doc))
    if not werr:
        rep.check(build.same(form, want), 'ambient: {0!r}, expected {1!r}'.format(form, want), sub=(fs, doc))
    rep.check(build.fresh_context(), 'context left behind', sub=(fs, doc))


def ignored(rep, cls, fs, doc):
    """What is ignored is as if it were not in the document."""
    for where in (['a'], ['b.x'], ['b'], ['a', 'c'], ['b.y'], ['b.y.z', 'd'], ['d.k'], ['p1'],
                  ['q', 'd.kkk'], ['d.p', 'a.n'], ['d.q'], ['q1', 'q3'], ['q4', 'q2', 'a']):
        rep.eval()
        if where[0] in REST:
            doc = dict(doc, **REST)
        less = copy.deepcopy(doc)
        for w in where:
            node, keys = less, w.split('.')
            for k in keys[:-1]:
                node = node.get(k) if isinstance(node, dict) else None
            if isinstance(node, dict):
                node.pop(keys[-1], None)
        if where[0] in REST:
            env = ref.Env()
            want, werr = ref.map_form(fs, less, [], env, unmapped='capture'), env.errors
            form = cls()
            err = build.errors_of(form.map(DefaultSource(doc, ignores=where), unmapped='capture'))
        else:
            want, werr = ref.map_root(fs, less)[:2]
            form, err = real(cls, DefaultSource(doc, ignores=where))
        rep.check(err == werr, 'ignoring {2}: errors {0!r}, expected {1!r}'.format(err, werr, where), sub=(fs, doc))
        rep.check(build.same(form, want), 'ignoring {2}: {0!r}, expected {1!r}'.format(form, want, where), sub=(fs, doc))


# Lists as documents: the fields in the order they are declared

ROW = FS(
    F('Integer', 'one', max_value=5),
    F('String', 'two', src='second', default='NONE'),
    F('Any', 'three', default=('lit', 3)),
    F('List', 'four', field=F('Integer'), default='NONE'),
    name='Row',
)
ITEMS = [None, 1, 7, 'x', [1], ['x'], {'one': 1}]
POSITIONAL = [()] + [(i,) for i in range(len(ITEMS))]


def positional(first, rep):
    b = build.Builder()
    cls = b.form(ROW)
    top = 0 if not first else 5
    for n in range(len(first), top + 1):
        for rest in itertools.product(ITEMS, repeat=n - len(first)):
            row = [ITEMS[i] for i in first] + list(rest)
            if n == 5 and rest[-1] != 1:
                continue
            doc = dict(zip(('one', 'second', 'three', 'four'), row))
            want, werr = ref.map_root(ROW, doc)[:2]
            rep.outcome((werr, repr(want) if not werr else 0))
            for how in ('list', 'tuple'):
                rep.eval()
                src = list(row) if how == 'list' else tuple(row)
                form, err = real(cls, src)
                rep.check(err == werr, 'errors {0!r}, expected {1!r}'.format(err, werr), sub=row)
                rep.check(build.same(form, want), '{0!r}, expected {1!r}'.format(form, want), sub=row)
                try:
                    got, err = cls(src), []
                except pilo.fields.FormError as ex:
                    got, err = None, build.errors_of(ex.field_errors)
                rep.check(err == werr, 'constructor: {0!r}, expected {1!r}'.format(err, werr), sub=row)
                if not err:
                    rep.check(build.same(got, want), 'constructor: {0!r}, not {1!r}'.format(got, want), sub=row)


# Text that is no document, and fields that have no key but a position

MALFORMED = [
    ('', {}), ('{', {}), ('{"one": 1,}', {}), ("{'one': 1}", {}), ('{"one": 01}', {}), ('{"one": 1} 2', {}), ('nul', {}),
    ('\ufeff{"one": 1}', {}), (b'{"one": "\xff"}', {'encoding': 'utf-8'}), (b'{"one": 1}\xff', {'encoding': 'ascii'}),
    (b'{\x00"', {'encoding': 'utf-16'}), (u'{"one": 1}'.encode('utf-8-sig'), {'encoding': 'utf-8'}),
    (b'\xe9', {'encoding': 'ascii'}), (b'{"\xe9": 1}', {'encoding': 'utf-8'}),
]
READABLE = [
    ('{"one": 1, "one": 2}', {}, {'one': 2}), (' {"one" : 3 } \n', {}, {'one': 3}), (b'{"one": 1}', {}, {'one': 1}),
    (u'{"three": "\u00e9", "one": 1}'.encode('latin-1'), {'encoding': 'latin-1'}, {'one': 1, 'three': u'\u00e9'}),
    (u'{"three": "\u00e9\u20ac", "one": 1}'.encode('utf-8'), {'encoding': 'utf-8'}, {'one': 1, 'three': u'\u00e9\u20ac'}),
    (u'{"three": "\u00e9", "one": 1}', {'encoding': 'ascii'}, {'one': 1, 'three': u'\u00e9'}),
    (u'{"three": "\\u00e9", "one": 1}', {}, {'one': 1, 'three': u'\u00e9'}),
]


def malformed(rep):
    for text, kw in MALFORMED:
        for strict in (False, True):
            rep.eval()
            try:
                form = build.Builder().form(ROW)()
                got = form.map(JsonSource(text, strict=strict, **kw)), form
            except ValueError as ex:
                got = type(ex).__name__
            rep.outcome((repr(text), repr(got)))
            rep.check(isinstance(got, str), 'read {0!r} as {1!r}'.format(text, got), sub=(text, kw))
    for text, kw, doc in READABLE:
        for strict in (False, True):
            rep.eval()
            b = build.Builder()
            cls = b.form(ROW)
            want, werr = ref.map_root(ROW, doc, 'strict' if strict else 'json')[:2]
            form, err = real(cls, JsonSource(text, strict=strict, **kw))
            rep.check(err == werr and build.same(form, want), 'read {0!r} as {1!r} {2!r}'.format(text, form, err), sub=(text, kw))


def placeless(rep):
    """A field that is not read has its position in a list nonetheless."""
    pf = pilo.fields
    for at in range(4):
        for kind in ('computed', 'group', 'flat'):
            names = ['a', 'b', 'c']
            names.insert(at, 'p')
            fields = {}
            for n in names:
                if n != 'p':
                    fields[n] = pf.Field(default=pilo.NONE)
                elif kind == 'computed':
                    fields[n] = pf.Integer(None)
                    fields[n].compute(lambda self: 9)
                elif kind == 'group':
                    fields[n] = pf.Integer(None, default=9)
                    fields[n].compute(lambda self: pilo.NONE)
                else:
                    fields[n] = pf.Integer(None)
                    fields[n].resolve(lambda self: None)
                    fields[n].parse(lambda self, path: 9)
            cls = type(pilo.Form)('Placeless', (pilo.Form,), fields)
            for n in range(5):
                for make in (list, tuple):
                    row = make(range(10, 10 + n))
                    want = dict(zip(names, row))
                    want['p'] = 9
                    rep.eval()
                    form = cls()
                    err = form.map(row)
                    rep.outcome((at, kind, n, repr(form)))
                    rep.check(not err and dict(form) == want, '{0!r} read as {1!r} {2!r}, expected {3!r}'.format(
                        row, form, err, want), sub=(at, kind))


class Thing(object):

    attr = 6

    def five(self):
        return 5

    def deep(self):
        return {'x': 1, 'y': {'x': 2}}

    def nothing(self):
        return None


CALLED = [
    # source, value or nothing
    ('t.five()', 5), ('t.attr', 6), ('t.deep()', {'x': 1, 'y': {'x': 2}}), ('t.nothing()', None), ('t.zz()', pilo.NONE),
    ('t.zz', pilo.NONE), ('zz()', pilo.NONE), ('zz.five()', pilo.NONE), ('g()', 4), ('f()', 3), ('h.f()', 8), ('h.g()', 7),
    ('s.upper()', 'AB'), ('s.upper', pilo.NONE), ('s.real', pilo.NONE), ('i.real', pilo.NONE), ('i.bit_length()', 3),
    ('h.keys', pilo.NONE), ('h.get', pilo.NONE), ('h.items', pilo.NONE), ('l.index', pilo.NONE), ('l.copy()', [1, 2]),
    ('h.e.copy()', {'x': 3}), ('e.copy()', pilo.NONE), ('keys', pilo.NONE), ('values', 9), ('()', pilo.NONE), ('', pilo.NONE),
    ('h.()', pilo.NONE),
]


def calls(rep):
    """What a source ending in () leads to, and that nothing else is called."""
    doc = {'t': Thing(), 's': 'ab', 'i': 5, 'l': [1, 2], 'f()': 3, 'g': lambda: 4, 'values': 9,
           'h': {'f()': 8, 'g': lambda: 7, 'e': {'x': 3}}}
    pf = pilo.fields
    for key, want in CALLED:
        last = key.rsplit('.', 1)
        for how in ('dict', 'aliased', 'ignored', 'ignored bare', 'boxed', 'list', 'group', 'mounted', 'nested'):
            field = pf.Field(key, default=pilo.NONE, nullable=True)
            cls = type(pilo.Form)('Called', (pilo.Form,), {'x': field, 'z': pf.Field('i')})
            src, expected, unbox = doc, want, lambda form: form
            if how == 'aliased':
                src = pilo.source.DefaultSource(doc, aliases={'other': 'g'})
            elif how == 'ignored':
                src = pilo.source.DefaultSource(doc, ignores=[key])
                expected = pilo.NONE
            elif how == 'ignored bare':
                if not key.endswith('()') or '.' in key:
                    continue
                src = pilo.source.DefaultSource(doc, ignores=[key[:-2]])
                expected = want if key in doc else want
            elif how == 'boxed':
                cls, src = type(pilo.Form)('Box', (pilo.Form,), {'b': pf.SubForm(cls)}), {'b': doc}
                unbox = lambda form: form['b']
            elif how == 'list':
                cls, src = type(pilo.Form)('Box', (pilo.Form,), {'b': pf.List(pf.SubForm(cls))}), {'b': [doc, doc]}
                unbox = lambda form: form['b'][1]
            elif how == 'mounted':
                cls, src = type(pilo.Form)('Box', (pilo.Form,), {'b': pf.SubForm(cls)}), pilo.source.MountSource(b=doc)
                unbox = lambda form: form['b']
            elif how == 'group':
                continue
            elif how == 'nested':
                if not isinstance(want, dict):
                    continue
                cls = type(pilo.Form)('Called', (pilo.Form,), {
                    'x': pf.SubForm(pilo.Form.from_fields(x=pf.Integer()), key), 'z': pf.Field('i')})
                expected = {'x': want['x']}
            rep.eval()
            form = cls()
            err = build.errors_of(form.map(src))
            got = unbox(form)
            rep.outcome((key, how, repr(got.get('x'))))
            rep.check(err == [] and got.get('x', pilo.NONE) == expected and got.get('z') == 5,
                      lambda: '{0} of a document {1} is {2!r} {3!r}, expected {4!r}'.format(key, how, got, err, expected), sub=(key, how))
