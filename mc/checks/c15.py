"""
C15: tags select fields: mapping, filtering and munging touch exactly the
fields they are for, at every depth, and never the form they start from.
"""
import collections
import copy
import datetime
import decimal
import itertools
import time
import uuid

import pilo

from .. import build, ref
from ..ref import F, FS

LEVEL = 'exploration'
RULE = (
    'one case per (assignment of tags to the fields of the nested forms); each is mapped with '
    'every selection of tags and then filtered, munged, copied and flattened in every way; '
    'distinct by (operation, result)'
)
ASSUMPTIONS = ['forms are reached through forms, lists, tuples and dicts']

TAGS = [(), ('x',), ('y',), ('x', 'y')]
SELECT = [None, ['x'], ['y'], ['x', 'y'], ['none']]
FILTER = [(), ('x',), ('y',), ('x', 'y'), ('none',)]


def schema(tp, tq, tl, td, tr, ts, tt=()):
    leaf = FS(F('Integer', 'r', tags=tr), F('Integer', 's', default=('lit', 4), tags=ts), name='Leaf')
    mid = FS(F('SubForm', 'leaf', form=leaf, default='NONE', tags=tq), F('Integer', 'm', tags=ts), name='Mid')
    return FS(
        F('Integer', 'p', tags=tp),
        F('SubForm', 'q', form=mid, default='NONE', tags=tq),
        F('List', 'l', field=F('SubForm', form=leaf), default='NONE', tags=tl),
        F('Dict', 'd', key=F('String'), value=F('List', field=F('SubForm', form=leaf)), default='NONE', tags=td),
        F('Dict', 'o', key=F('String'), value=F('Any'), default='NONE', tags=tp),
        F('Tuple', 't', fields=[F('Integer'), F('SubForm', form=leaf)], default=('lit', None), tags=tt),
        name='Root',
    )


DOCS = [
    {'p': 1, 'q': {'leaf': {'r': 1, 's': 2}, 'm': 3}, 'l': [{'r': 5}, {'r': 6, 's': 7}],
     'd': {'k': [{'r': 8}], 'n': []}, 't': [1, {'r': 9}],
     'o': {'none': None, 'zero': 0, 'list': [None, 1, []], 'dict': {'n': None}}},
    {'p': 2, 'q': {'m': 1}},
    {'p': 'bad', 'q': {'leaf': {'r': 'bad'}, 'm': 'bad'}, 'l': [{'r': 1}, {}], 'd': {'k': [{'r': 'bad'}]}},
    {},
]


def cases(tier):
    few = TAGS if tier != 'quick' else TAGS[:3]
    for combo in itertools.product(few, repeat=6):
        yield combo
    for tr, ts, tt in itertools.product(TAGS, repeat=3):
        yield ((), ('x',), ('y',), ('x', 'y'), tr, ts, tt)
    yield 'odd',
    yield 'whole',


def bounds(tier):
    return {'fields': 10, 'tags': 2, 'forms': 3, 'depth of forms': 3, 'documents': len(DOCS),
            'selections': len(SELECT), 'filters': 2 * len(FILTER), 'munging functions': len(MUNGE)}


def plus(form, field, value):
    return value + 1 if isinstance(value, int) else value


MUNGE = {
    'same': lambda form, field, value: value,
    'plus': plus,
    'fill': lambda form, field, value: 0 if value is pilo.NONE else value,
    'drop r': lambda form, field, value: pilo.NONE if field.name == 'r' else value,
    'null q': lambda form, field, value: None if field.name == 'q' else value,
    'empty l': lambda form, field, value: [] if field.name == 'l' else value,
    'sub': lambda form, field, value: dict(value) if field.name == 'leaf' and value is not pilo.NONE else value,
}
M_MUNGE = {
    'same': lambda f, v: v,
    'plus': lambda f, v: v + 1 if isinstance(v, int) else v,
    'fill': lambda f, v: 0 if v is ref.NONE else v,
    'drop r': lambda f, v: ref.NONE if f.name == 'r' else v,
    'null q': lambda f, v: None if f.name == 'q' else v,
    'empty l': lambda f, v: [] if f.name == 'l' else v,
    'sub': lambda f, v: dict(v) if f.name == 'leaf' and v is not ref.NONE else v,
}


def m_munge(fs, form, func):
    out = ref.RForm()
    out.cls = fs.name
    for f in fs.fields:
        v = func(f, form.get(f.name, ref.NONE))
        if v is not ref.NONE:
            out[f.name] = m_value(f, v, func)
    return out


def m_value(f, v, func):
    if isinstance(v, ref.RForm):
        return m_munge(f.o['form'], v, func)
    if isinstance(v, list):
        return [m_value(f.o['field'], x, func) for x in v] if f.kind == 'List' else v
    if isinstance(v, tuple):
        return tuple(m_value(g, x, func) for g, x in zip(f.o['fields'], v))
    if isinstance(v, dict) and f.kind == 'Dict':
        return dict((k, m_value(f.o['value'], x, func)) for k, x in v.items())
    return v


def m_flatten(fs, form, path=()):
    for f in fs.fields:
        if f.name not in form:
            continue
        v = form[f.name]
        if isinstance(v, ref.RForm):
            for item in m_flatten(f.o['form'], v, path + (f.name,)):
                yield item
        else:
            yield path + (f.name,), v


def snapshot(v):
    if isinstance(v, pilo.Form):
        return type(v), sorted((k, snapshot(x)) for k, x in v.items())
    if isinstance(v, dict):
        return dict, sorted((k, snapshot(x)) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return type(v), [snapshot(x) for x in v]
    return v


ODD = [0, '', False, None, 1, (), ('x',), 'x', u'\xe9', 1.5]


def odd(rep):
    """A tag can be anything."""
    pf = pilo.fields
    for mine, other in itertools.product(ODD, repeat=2):
        for both in (False, True):
            cls = type(pilo.Form)('Odd', (pilo.Form,), {
                'a': pf.Integer().tag(*([mine, other] if both else [mine])), 'b': pf.Integer().tag(other), 'c': pf.Integer(),
            })
            for asked in itertools.chain([(t,) for t in ODD], [(mine, 'none'), (other, 'none'), ('none', 'never')]):
                keep = [n for n, have in (('a', [mine] + ([other] if both else [])), ('b', [other]), ('c', []))
                        if any(t in asked for t in have)]
                full = cls(a=1, b=2, c=3)
                rep.eval()
                form = cls()
                form.map({'a': 1, 'b': 2, 'c': 3}, tags=list(asked))
                got = {'map': sorted(form), 'filter': sorted(full.filter(*asked)),
                       'inv': sorted(full.filter(*asked, inv=True))}
                want = {'map': keep, 'filter': keep, 'inv': [n for n in 'abc' if n not in keep]}
                rep.outcome((mine, other, both, asked, repr(got)))
                rep.check(got == want, 'with the tags {0!r}: {1!r}, expected {2!r}'.format(asked, got, want),
                          sub=(mine, other, both))


Named = collections.namedtuple('Named', 'a b')


class Items(list):
    pass


# values that are handed on as they are, not rebuilt
WHOLE = [time.gmtime(0), Named(1, 2), Items([1, 2]), collections.OrderedDict([('z', 1), ('a', 2)]),
         collections.defaultdict(list, k=[1]), {1, 2}, frozenset([1]), 'text', b'bytes', bytearray(b'x'), range(3), object(),
         ValueError, len, uuid.UUID(int=1), datetime.date(2020, 1, 1), decimal.Decimal('1.0'), float('inf'), (), [], {}, None, 0]


def whole(rep):
    cls = type(pilo.Form)('Whole', (pilo.Form,), {
        'v': pilo.fields.Field().tag('t'), 'l': pilo.fields.Field().tag('t'), 'w': pilo.fields.Field(),
    })
    for value in WHOLE:
        form = cls()
        form['v'], form['l'], form['w'] = value, [value, (value, {'k': value})], value
        for name, got in (('filter', form.filter('t')), ('inverted', form.filter('none', inv=True)),
                          ('munge', form.munge(lambda form, field, value: value)), ('copy', form.copy())):
            rep.eval()
            rep.outcome((name, repr(got)[:60]))
            want = {'v': value, 'l': [value, (value, {'k': value})]}
            if name != 'filter':
                want['w'] = value
            ok = sorted(got) == sorted(want) and all(handed(got[k], want[k]) for k in want)
            rep.check(ok, '{0} of {1!r} gives {2!r}'.format(name, form, got), sub=(name, repr(value)))
        flat = list(form.flatten())
        rep.check([[f.name for f in p] for p, _ in flat] == [['v'], ['l'], ['w']] and flat[0][1] is value, 'flat: {0!r}'.format(flat))


def handed(a, b):
    if type(b) in (list, tuple):
        return type(a) is type(b) and len(a) == len(b) and all(map(handed, a, b))
    if type(b) is dict:
        return type(a) is dict and sorted(a) == sorted(b) and all(handed(a[k], b[k]) for k in b)
    return a is b


def run(combo, rep):
    if combo == ('whole',):
        return whole(rep)
    if combo == ('odd',):
        return odd(rep)
    fs = schema(*combo)
    b = build.Builder()
    cls = b.form(fs)
    for doc in DOCS:
        for sel in SELECT:
            # tags given to map are for this form, those of the context for all
            build.compare(rep, b, fs, doc, tags=sel)
            if sel and doc is not DOCS[2]:
                build.compare(rep, b, fs, doc, tags=set(sel))
            if sel:
                build.compare(rep, b, fs, doc, ctx={'tags': sel})
        want, werr, _ = ref.map_root(fs, doc)
        if werr and doc is not DOCS[2]:
            continue
        form = cls()
        form.map(copy.deepcopy(doc))
        derived(rep, combo, fs, form, want)
        if doc is DOCS[0]:
            form.map({'extra': 1, 'p': 9}, unmapped='capture')
            want = ref.map_form(fs, {'p': 9, 'extra': 1}, [], ref.Env(), unmapped='capture', into=want)
            derived(rep, combo, fs, form, want)
            # forms that hold nothing, which other fields follow
            for n in (0, 1):
                for root in (form, want):
                    if n:
                        root['q'].clear()
                        root['d']['k'][0].clear()
                    else:
                        root['q']['leaf'].clear()
                derived(rep, combo, fs, form, want)
    if len(rep.samples) < 2:
        rep.sample({'form': repr(fs), 'documents': len(DOCS), 'selections': SELECT})


def derived(rep, combo, fs, form, want):
    before = snapshot(form)

    def same(what, got, expected, strict=True):
        rep.eval()
        rep.outcome((what, repr(got)))
        rep.check(build.same(got, expected), lambda: '{0}: {1!r}, expected {2!r}'.format(what, got, expected),
                  sub=(combo, want))
        rep.check(snapshot(form) == before, lambda: '{0} changed its form from {1!r} to {2!r}'.format(
            what, before, form), sub=(combo, want))

    for tags in FILTER:
        for inv in (False, True):
            def keep(f, v, tags=tags, inv=inv):
                hit = bool(set(tags) & set(f.tags)) != inv
                return v if hit else ref.NONE
            got = form.filter(*tags, inv=inv) if inv else form.filter(*tags)
            same('filter{0} inv={1}'.format(tags, inv), got, m_munge(fs, want, keep))
    for name, func in MUNGE.items():
        calls, m_calls = [], []

        def real(form, field, value):
            calls.append((field.name, value is pilo.NONE))
            return func(form, field, value)

        def model(f, v, name=name):
            m_calls.append((f.name, v is ref.NONE))
            return M_MUNGE[name](f, v)
        same('munge ' + name, form.munge(real), m_munge(fs, want, model))
        rep.check(sorted(calls) == sorted(m_calls), lambda: 'munge {0} visited {1}, expected {2}'.format(
            name, calls, m_calls), sub=(combo, want))
    rep.eval()
    flat = [(tuple(f.name for f in path), v) for path, v in form.flatten()]
    expected = list(m_flatten(fs, want))
    rep.check([p for p, _ in flat] == [p for p, _ in expected], 'flatten: {0!r}, expected {1!r}'.format(flat, expected),
              sub=(combo, want))
    rep.check(all(map(build.same, [v for _, v in flat], [v for _, v in expected])), 'flatten: {0!r}, expected {1!r}'.format(
        flat, expected), sub=(combo, want))
    other = form.copy()
    same('copy', other, want)
    rep.check(type(other) is type(form) and other is not form, 'copy is not another form', sub=combo)
    other['p'] = 'changed'
    other['new'] = 1
    other.pop('q', None)
    same('changing a copy', form, want)
