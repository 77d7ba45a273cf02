"""
C19: mapping is a function of form and document: it changes neither, and what
was mapped before with the same classes or sources makes no difference.
"""
import copy
import itertools
import json

import pilo
from pilo import fields as pf
from pilo.fields import FormError
from pilo.source import DefaultSource, JsonSource, MountSource, UnionSource

from .. import build, ref
from ..ref import F, FS
from . import c08

LEVEL = 'exploration'
RULE = (
    'one case per (form, kind of source, first two steps of a history); each continues with every '
    'step: a document mapped by the same classes, a source mapped again, a mapping that fails, a '
    'value changed by its user; distinct by (step, errors, value)'
)
ASSUMPTIONS = ['a plain Field hands out what the document holds and a literal default is one object, by reference']

FORMS = [
    (c08.ORDER, [
        c08.ORDER_DOC,
        {'id': 2, 'address': {'street': 't', 'zip_code': '99'}, 'items': [{'name': 'z'}], 'attrs': {'q': 7}},
        {'id': 0, 'address': {'street': 5}, 'items': [{'name': 'toolong'}, {}], 'attrs': {'long key': 1, 'a': 'x'}},
        {'id': 3, 'note': '', 'address': {}, 'items': []},
        {},
    ]),
    (c08.PAY, [
        c08.PAY_DOC,
        {'pay': {'kind': 'cash', 'amount': 3}, 'all': []},
        {'pay': {'kind': 'card', 'number': '12', 'month': 13}, 'all': [{'kind': 'no'}, {}, 5]},
        {'pay': {'kind': None}, 'all': [{'kind': 'cash', 'amount': 'x'}], 'tree': {'v': 1, 'kids': [{}]}},
        {'all': {}},
    ]),
    (c08.DICTS, [
        c08.DICTS_DOC,
        {'by': {}, 'deep': {'k': [[5], []]}},
        {'by': {'k': {'xs': [{'p': 'x'}]}}, 'deep': {'m': [[9]], 'n': 'x'}, 'u': 'no', 'd': '2020'},
        {'by': {'k': None}, 'deep': {}},
    ]),
    (c08.ENVELOPE, [
        c08.ENVELOPE_DOC,
        {'id': 1, 'body': {'v': 2, 'w': 'y'}},
        {'id': 'x', 'body': {'w': 5}, 'l1': {}, 'title': 3},
        {'l9': {'v': 4}, 'body': None},
    ]),
    (FS(
        F('List', 'l', field=F('Integer', ignores=[7], default='NONE'), min_length=1, translations={}),
        F('Group', 'g', fields=[('^g', F('List', field=F('String')))]),
        F('String', 's', translations={'a': 'b'}, choices=['c'], default=('hook', 'c')),
        F('Tuple', 't', fields=[F('Integer'), F('Dict', key=F('String'), value=F('Integer'))], default='NONE'),
        name='Mixed'), [
        {'l': [1, 7, 2], 'g1': ['x'], 's': 'a', 't': [1, {'k': 2}]},
        {'l': [7], 'g1': [], 'g2': ['y', 'z'], 's': 'c'},
        {'l': [], 'g1': [5], 's': 'b', 't': [1]},
        {},
    ]),
]
KINDS = ['dict', 'json', 'union', 'mount', 'source']


def source(kind, doc):
    if kind == 'dict':
        return doc
    if kind == 'source':
        return DefaultSource(doc)
    if kind == 'json':
        return JsonSource(json.dumps(doc))
    if kind == 'union':
        return UnionSource([doc, {'zzz': 1}])
    return MountSource(m=doc)


def steps(n):
    out = []
    for i in range(n):
        out.append(('map', i))
        out.append(('raise', i))
        out.append(('break', i))
        out.append(('spoil', i))
        out.append(('within', i))
        out.append(('change', i))
    return out


def cases(tier):
    for n, (fs, docs) in enumerate(FORMS):
        for kind in KINDS:
            for a in steps(len(docs)):
                if tier == 'quick':
                    yield n, kind, [a]
                else:
                    for b in steps(len(docs)):
                        yield n, kind, [a, b]


    for kind in TEXTS:
        yield 'text', kind, None


def bounds(tier):
    return {'forms': len(FORMS), 'documents per form': '4..5', 'sources': KINDS, 'history': 3 if tier == 'quick' else 4,
            'steps': 'map, map with errors raised, map broken off by a hook, map and spoil the value, '
                     'map while hooks of the fields map the same source again (first, last), '
                     'map while the document is another, and is changed in place (first, last)'}


# What is read from one text is nothing to what is read from it again.

TEXT = '{"f": {"k": [1, {"q": []}], "": {}}, "l": [[1], {"a": {}}, []], "d": {"x": [2], "y": {"z": [3]}}, "r": [4, {"s": 5}]}'
TEXTS = {
    'text': lambda: JsonSource(TEXT),
    'bytes': lambda: JsonSource(TEXT.encode('utf-8'), encoding='utf-8'),
    'utf-16': lambda: JsonSource(TEXT.encode('utf-16'), encoding='utf-16'),
    'strict': lambda: JsonSource(TEXT, strict=True),
    'located': lambda: JsonSource(TEXT, location='here'),
    'mount': lambda: MountSource(m=JsonSource(TEXT)),
}


def texts(kind, rep):
    cls = type(pilo.Form)('Text', (pilo.Form,), {
        'f': pf.Field(), 'l': pf.List(pf.Field()), 'd': pf.Dict(pf.String(), pf.Field())})
    holder = type(pilo.Form)('Holder', (pilo.Form,), {'m': pf.SubForm(cls, unmapped='capture')})
    want = json.loads(TEXT)
    others = sorted(TEXTS)
    for hist in itertools.product(others, ('keep', 'spoil'), others, ('keep', 'spoil')):
        rep.eval()
        held = []
        for k, what in [(kind, 'spoil'), hist[:2], hist[2:], (kind, 'keep')]:
            form = (holder if k == 'mount' else cls)()
            errors = form.map(TEXTS[k](), unmapped='ignore' if k == 'mount' else 'capture')
            value = form.get('m') if k == 'mount' else form
            if not rep.check(not errors and value == want, lambda: 'the text gives {0!r} {1!r}, expected {2!r}'.format(
                    value, errors, want), sub=(kind, hist)):
                return
            if what == 'spoil':
                spoil(value)
            else:
                held.append(value)
            rep.outcome((kind, k, what))
        rep.check(all(v == want for v in held), 'a value that was kept changed', sub=(kind, hist))


class Broken(Exception):
    pass


def again_hook(field, inner):
    """The field, with a hook that maps the document of the mapping again."""
    name = field.name

    def filter(self, value):
        src = inner['src']
        if src is not None:
            inner['src'] = None
            try:
                form = inner['cls']()
                inner['got'].append((name, build.errors_of(form.map(src))))
            finally:
                inner['src'] = src
        return True
    field.filter(filter)
    return field


def morph(v, into):
    """Make `v` equal to `into`, in place as far as that goes."""
    keys = list(into) if isinstance(into, dict) else range(len(into))
    if isinstance(v, dict):
        for k in [k for k in v if k not in into]:
            del v[k]
    else:
        del v[len(into):]
        v.extend([None] * (len(into) - len(v)))
    for k in keys:
        old = v.get(k) if isinstance(v, dict) else v[k]
        if type(old) is type(into[k]) and isinstance(old, (dict, list)):
            morph(old, into[k])
        else:
            v[k] = copy.deepcopy(into[k])


def spoil(v):
    """What a user may do to what was mapped."""
    if isinstance(v, pilo.Form):
        for k in list(v):
            spoil(v[k])
        v['spoiled'] = 1
        v.pop(sorted(v)[0])
    elif isinstance(v, dict):
        for x in v.values():
            spoil(x)
        v['spoiled'] = 1
    elif isinstance(v, list):
        for x in v:
            spoil(x)
        v.append('spoiled')
    elif isinstance(v, tuple):
        for x in v:
            spoil(x)


def run(case, rep):
    n, kind, first = case
    if n == 'text':
        return texts(kind, rep)
    fs, docs = FORMS[n]
    flavor = 'json' if kind == 'json' else 'plain'
    todo = steps(len(docs))
    # one set of classes for all of the histories
    b = build.Builder()
    cls = b.form(fs)
    saw = pf.Field(default=None)
    breaking = type(pilo.Form)('Breaking', (cls,), {'zz': saw})

    def compute(self):
        raise Broken()
    saw.compute(compute)
    inner = {'src': None, 'got': None}
    again = type(pilo.Form)(cls.__name__, (cls,), dict((f.name, again_hook(f.clone(), inner)) for f in cls.fields))
    holder = type(pilo.Form)('Holder', (pilo.Form,), {'m': pf.SubForm(cls)})
    inner['cls'] = holder if kind == 'mount' else cls
    reholder = type(pilo.Form)('Holder', (pilo.Form,), {'m': pf.SubForm(again)})
    breaker = type(pilo.Form)('Holder', (pilo.Form,), {'m': pf.SubForm(breaking)})
    for rest in itertools.product([s for s in todo if s[0] not in ('within', 'change')], todo):
        hist = first + list(rest)
        mine = copy.deepcopy(docs)
        srcs = [source(kind, d) for d in mine]
        for step, (what, i) in enumerate(hist):
            rep.eval()
            now = docs[i]
            if what == 'change' and kind != 'json':
                now = docs[(i + 1) % len(docs)]
                morph(mine[i], now)
            want, werr, _ = ref.map_root(fs, now, flavor)
            form = (holder if kind == 'mount' else cls)()
            if what == 'within':
                form = (reholder if kind == 'mount' else again)()
                inner['src'], inner['got'] = srcs[i], []
            if what == 'break':
                try:
                    (breaker if kind == 'mount' else breaking)().map(srcs[i])
                    rep.fail('the hook did not run', sub=(case, hist))
                except Broken:
                    pass
                continue
            if what == 'raise':
                try:
                    form.map(srcs[i], error='raise')
                    err = []
                except FormError as ex:
                    err = build.errors_of(ex.field_errors)
                prefix = '@m:' if kind == 'mount' else ''
                ok = bool(err) == bool(werr) and (not err or kind == 'union' or err[0] == (werr[0][0], prefix + werr[0][1]))
            else:
                err = build.errors_of(form.map(srcs[i]))
                if kind == 'mount':
                    ok = err == [(c, '@m:' + w) for c, w in werr]
                elif kind == 'union':
                    ok = sorted(err) == sorted(werr)
                else:
                    ok = err == werr
            rep.outcome((what, i, n, err))
            if what == 'within':
                if kind == 'union':
                    bad = [e for e in inner['got'] if sorted(e[1]) != sorted(err)]
                else:
                    bad = [e for e in inner['got'] if e[1] != err]
                rep.check(not bad, lambda: 'step {0}: mapped by a hook of {1} the source gave errors {2!r}, expected {3!r}'.format(
                    step, bad[0][0], bad[0][1], err), sub=(case, hist))
                if werr == []:
                    rep.check(len(inner['got']) > 0, 'no hook ran', sub=(case, hist))
                inner['src'] = None
            rep.check(ok, 'step {0}: errors {1!r}, expected {2!r}'.format(step, err, werr), sub=(case, hist))
            if what != 'raise' and not (kind == 'mount' and werr):
                value = form['m'] if kind == 'mount' else form
                if kind == 'union':
                    value, want = tidy(value), tidy(want)
                rep.check(build.same(value, want), lambda: 'step {0}: {1!r}, expected {2!r}'.format(step, value, want),
                          sub=(case, hist))
            if what == 'spoil':
                spoil(form)
            if what == 'change':
                morph(mine[i], docs[i])
            if not rep.check(mine == docs, lambda: 'step {0} changed the document to {1!r}'.format(step, mine),
                             sub=(case, hist)):
                return
        if not rep.check(build.fresh_context(), 'context left behind', sub=(case, hist)):
            return
    if len(rep.samples) < 2:
        rep.sample({'form': fs.name, 'source': kind, 'history': repr(hist)})


def tidy(form):
    """Without the order of groups, which a union does not keep."""
    for k in ('links', 'g'):
        if isinstance(form.get(k), list):
            form[k] = sorted(form[k], key=lambda t: t[0])
    return form
