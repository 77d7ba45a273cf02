"""
C23: a form is itself a document: whatever is mapped from a form is what would
be mapped from a plain mapping that holds the same, and the form is not
changed, read or mapped again by that.
"""
import copy
import itertools
import json

import pilo
from pilo import fields as pf
from pilo.source import DefaultSource, JsonSource, MountSource, UnionSource

from .. import build, ref
from ..ref import ABSENT, F, FS

LEVEL = 'exploration'
RULE = (
    'one case per (form that becomes the document, way it came by its values, value of its first field); each is '
    'run on all values of its other fields, mapped by every other form in every way; distinct by (errors, value)'
)
ASSUMPTIONS = ['attributes that a form has besides its fields (properties, methods called as name()) are not read']

LEAF = FS(F('Integer', 'x', max_value=5), F('String', 'y', default='NONE', tags=('t',)), F('Integer', 'z', default=('hook', 4)),
          name='Leaf')
TYPES = [('card', FS(F('Integer', 'n', max_value=5), name='Card')), ('cash', FS(F('SubForm', 's', form=LEAF, default='NONE'), name='Cash'))]
ONE = FS(
    F('SubForm', 'a', form=LEAF, default='NONE', tags=('t',)),
    F('Integer', 'b', tags=('t',)),
    F('String', 'c', src='cc', default='NONE'),
    F('List', 'l', field=F('SubForm', form=LEAF), default='NONE'),
    name='One',
)
TWO = FS(
    F('Poly', 'a', tag='kind', types=TYPES, default='NONE', tags=('t',)),
    F('Dict', 'b', key=F('String'), value=F('SubForm', form=LEAF), default=('lit', None), tags=('t',)),
    F('Tuple', 'c', src='cc', fields=[F('SubForm', form=LEAF), F('String')], default='NONE'),
    F('Integer', 'l', default=('call', 3)),
    name='Two',
)
leaf = [{'x': 1}, {'x': 2, 'y': 'k'}, {'x': 9}, {'y': 'k', 'z': 5}]
POOL = {
    'One': [('a', leaf + [None, ABSENT]), ('b', [1, 'q', ABSENT]), ('cc', ['v', ABSENT, None]),
            ('l', [[], leaf[:2], leaf[2:], ABSENT]), ('e', [ABSENT, 1])],
    'Two': [('a', [{'kind': 'card', 'n': 1}, {'kind': 'cash'}, {'kind': 'cash', 's': leaf[0]}, {'kind': 'no'}, None, ABSENT]),
            ('b', [{}, {'p': leaf[0], 'q': leaf[1]}, {'p': leaf[2]}, ABSENT]), ('cc', [[leaf[0], 's'], [leaf[1], 5], ABSENT]),
            ('l', [4, ABSENT]), ('e', [ABSENT, {'x': 3}])],
}
FIRST = {'One': ONE, 'Two': TWO}
MODES = ['mapped', 'tagged', 'captured', 'set', 'empty']

WORDS = ['copy', 'map', 'filter', 'fields', 'items', 'keys', 'has', 'get', 'munge', 'flatten', 'ctx', 'update', 'pop',
         'from_fields', 'values', 'clear']


def opt(kind, name, **kw):
    return F(kind, name, default=('lit', 'absent'), **kw)


SECOND = [
    ONE, TWO, LEAF,
    FS(*[opt('Any', 'f_' + w, src=w) for w in WORDS], name='Words'),
    FS(*[opt('Any', 'f_%d' % i, src='{0}.{1}'.format(a, b)) for i, (a, b) in enumerate(
        itertools.product('abl', ['x', 'y', 'map', 'copy', 'fields', 'kind']))], name='Dotted'),
    FS(*[opt('Any', n) for n in ('a', 'b', 'c', 'cc', 'l', 'e', 'x', 'zz')], name='Loose'),
    FS(*[opt('Integer', n) for n in ('a', 'b', 'c', 'l', 'e')], name='Numbers'),
    FS(opt('SubForm', 'a', form=FS(*([opt('Any', n) for n in ('x', 'y', 'z', 'n', 's', 'kind')] +
                                     [opt('Any', 'f_map', src='map'), opt('Any', 'f_fields', src='fields')]), name='Bits')),
       opt('Dict', 'b', key=F('String'), value=F('SubForm', form=LEAF)),
       opt('List', 'l', field=F('SubForm', form=FS(opt('String', 'y'), opt('Any', 'z'), name='Y'))),
       opt('Group', 'g', fields=[('^(a|b|x)$', F('Any')), ('copy', F('Any'))]), name='Deep'),
    FS(F('Dict', 'all', src=None, key=F('String'), value=F('Any')), F('SubForm', 'again', src=None, form=FS(
        opt('Any', 'b'), opt('Any', 'clear_', src='clear'), name='Again')), name='Whole'),
    FS(F('Poly', 'a', tag='kind', types=TYPES, default='NONE'), F('List', 'l', field=F('Poly', tag='kind', types=TYPES),
                                                                    default='NONE'), name='Typed'),
    FS(F('Integer', 'b', default='NONE'), name='Keeping'),
]


def cases(tier):
    for name in ('One', 'Two'):
        for mode in MODES:
            for v in POOL[name][0][1]:
                yield name, mode, v


def bounds(tier):
    return {'forms that become documents': 2, 'how they came by their values': MODES, 'values per field': '2..6',
            'forms that are mapped from them': len(SECOND), 'ways': len(WAYS) + 1}


def plain(v):
    if isinstance(v, dict):
        return dict((k, plain(x)) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return type(v)(plain(x) for x in v)
    if isinstance(v, build.Match):
        return v.groupdict() or v.groups()
    return v


def fill(cls, mode, doc):
    form = cls()
    if mode == 'mapped':
        form.map(doc)
    elif mode == 'tagged':
        form.map(doc, tags=['t'])
    elif mode == 'captured':
        form.map(doc, unmapped='capture')
    elif mode == 'set':
        form.map(doc)
        form.b = 7
        form['l'] = [{'x': 1}]
        form.pop('a', None)
        form['extra'] = cls()
    return form


def direct(cls, src, **kw):
    form = cls()
    return form, build.errors_of(form.map(src, **kw))


def made(cls, src):
    try:
        return cls(src), []
    except pf.FormError as ex:
        return None, build.errors_of(ex.field_errors)


# name: (how to map, where that is)
WAYS = {
    'map': (direct, lambda w: w),
    'constructor': (made, lambda w: w),
    'source': (lambda cls, form: direct(cls, DefaultSource(form)), lambda w: w),
    'copy': (lambda cls, form: direct(cls, form.copy()), lambda w: w),
    'located': (lambda cls, form: direct(cls, DefaultSource(form, location='L')), lambda w: 'L:' + w),
    'deepcopy': (lambda cls, form: direct(cls, copy.deepcopy(form)), lambda w: w),
}


def below(prefix):
    return lambda w: prefix + ('.' + w if w and not w.startswith('[') else w)


def nested(key, cls, wrap):
    """-> way to map a form that is an item of something"""
    holder = type(pilo.Form)('Holder', (pilo.Form,), {'h': wrap(pf.SubForm(cls))})

    def how(cls, form):
        top, err = direct(holder, {'h': key(form)})
        return (top.get('h') or [None])[0] if wrap is not same else top.get('h'), err
    return how


def same(x):
    return x


def run(case, rep):
    name, mode, first = case
    b = build.Builder()
    cls = b.form(FIRST[name])
    seconds = [(fs, b.form(fs)) for fs in SECOND]
    nests = dict((fs.name, [
        (nested(same, c, same), below('h')), (nested(lambda form: [form], c, pf.List), below('h[0]')),
    ]) for fs, c in seconds)
    pool = POOL[name]
    docs = 0
    for rest in itertools.product(*[vs for _, vs in pool[1:]]):
        doc = dict((k, v) for (k, _), v in zip(pool, (first,) + rest) if v is not ABSENT)
        form = fill(cls, mode, doc)
        kept, held = copy.deepcopy(plain(form)), dict(form)
        for fs, second in seconds:
            want, werr, _ = ref.map_root(fs, form)
            rep.outcome((fs.name, werr, repr(plain(want)) if not werr else 0))
            at = (name, mode, doc, fs.name)
            for way, (how, where) in WAYS.items():
                judge(rep, how, where, second, form, want, werr, at + (way,))
            for i, (how, where) in enumerate(nests[fs.name]):
                judge(rep, how, where, second, form, want, werr, at + ('nested', i), partial=False)
            if fs.name not in ('Dotted', 'Deep', 'Whole') and not werr:
                united(rep, second, form, kept, at)
        once_more(rep, b, FIRST[name], cls, form, doc, mode)
        captured(rep, dict((fs.name, c) for fs, c in seconds)['Keeping'], form, kept)
        serialized(rep, seconds, form, kept)
        rep.check(plain(form) == kept and list(form) == list(kept) and all(form[k] is held[k] for k in held),
                  'the form is {0!r}, it was {1!r}'.format(form, kept), sub=(name, mode, doc))
        rep.check(build.fresh_context(), 'context left behind', sub=(name, mode, doc))
        docs += 1
    rep.sample({'form': name, 'mode': mode, 'documents': docs, 'last': repr(form), 'mapped by': [fs.name for fs in SECOND]})


def judge(rep, how, where, cls, form, want, werr, at, partial=True):
    rep.eval()
    werr = [(c, where(w)) for c, w in werr]
    try:
        got, err = how(cls, form)
    except Exception as ex:
        rep.fail('{0!r} escaped, expected {1!r} {2!r}'.format(ex, want, werr), sub=at)
        return
    rep.check(err == werr, 'errors {0!r}, expected {1!r}'.format(err, werr), sub=at)
    if got is None:
        rep.check(bool(werr) or not form and not want, 'no form in spite of no errors', sub=at)
    elif not werr or partial:
        rep.check(plain(got) == plain(want), '{0!r}, expected {1!r}'.format(got, want), sub=at)
        if at[-1] == 'map':
            rep.check(build.same(got, want), '{0!r}, expected {1!r}'.format(got, want), sub=at)


def united(rep, cls, form, kept, at):
    """In a union with nothing, and mounted."""
    rep.eval()
    want = direct(cls, UnionSource([kept]))
    got = direct(cls, UnionSource([form]))
    rep.check(plain(got[0]) == plain(want[0]) and sorted(got[1]) == sorted(want[1]), 'union: {0!r}, expected {1!r}'.format(
        got, want), sub=at)
    holder = type(pilo.Form)('Holder', (pilo.Form,), {'h': pf.SubForm(cls, 'm')})
    want = direct(holder, MountSource(m=kept))
    got = direct(holder, MountSource(m=form))
    rep.check(plain(got[0]) == plain(want[0]) and got[1] == want[1], 'mounted: {0!r}, expected {1!r}'.format(
        got, want), sub=at)


def once_more(rep, b, fs, cls, form, doc, mode):
    """What mapped without error maps once more to the same."""
    want, werr, _ = ref.map_root(fs, doc)
    if mode != 'mapped' or werr:
        return
    rep.eval()
    names = type(pilo.Form)('Named', (cls,), {'c': cls.c.clone()})
    names.c.src = 'c'
    got, err = direct(names, form)
    rep.check(not err and plain(got) == plain(form), 'mapped once more: {0!r} {1!r}, not {2!r}'.format(got, err, form),
              sub=doc)


def captured(rep, cls, form, kept):
    """Everything else is kept as it is."""
    rep.eval()
    got, err = direct(cls, form, unmapped='capture')
    bad = not isinstance(kept.get('b', 0), int) if 'b' in kept and kept['b'] is not None else False
    rep.check(bool(err) == bad, 'capturing a form: errors {0!r}'.format(err), sub=kept)
    want = dict(kept)
    if bad:
        return
    rep.check(plain(got) == want, 'captured {0!r} of {1!r}'.format(got, want), sub=kept)


def serialized(rep, seconds, form, kept):
    """As JSON it is the mapping that it is."""
    text = json.dumps(form)
    rep.check(json.loads(text) == json.loads(json.dumps(kept)), 'as JSON {0}'.format(text), sub=kept)
    for fs, second in seconds[:3]:
        rep.eval()
        want, werr, _ = ref.map_root(fs, json.loads(text), 'json')
        got, err = direct(second, JsonSource(text))
        rep.check(err == werr and build.same(got, want), 'from JSON: {0!r} {1!r}, expected {2!r} {3!r}'.format(
            got, err, want, werr), sub=kept)
