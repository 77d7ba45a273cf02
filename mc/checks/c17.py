"""
C17: a group collects exactly the keys that its patterns match, each with the
field of the first pattern that does, in the order of the document.
"""
import itertools
import re

import pilo
from pilo import fields as pf
from pilo.source import JsonSource, UnionSource

from .. import build, ref
from ..ref import F, FS, ABSENT

LEVEL = 'exploration'
RULE = (
    'one case per (list of patterns and fields, way to declare them, options); each is run on '
    'every document over the key alphabet, in every order of two keys, from every kind of '
    'source; distinct by (errors, value)'
)
ASSUMPTIONS = ['the keys of the document are text', 'a union has no order of keys, so there items are compared as a set']

ITEMS = [
    ('k1', F('Integer', max_value=5)),
    ('k2', F('String', default='NONE', ignores=['x'])),
    ('^k(?P<n>.)$', F('Integer')),
    ('^k(.)(.)?', F('Any')),
    ('^.*z', F('List', field=F('Integer'))),
    ('(?=s)', F('SubForm', form=FS(F('Integer', 'x'), name='Sub'))),
    ('other', F('Boolean', hooks={'munge': 'wrap'})),
    ('(z|1|un)', F('Any')),
    ('^kz$', F('Integer', hooks={'munge': 'NONE'}, default='NONE')),
]
KEYS = [
    ('k1', [ABSENT, 1, 9, 'x', None]),
    ('k2', [ABSENT, 'x', 2]),
    ('K1', [ABSENT, 3]),
    ('kz', [ABSENT, [1], ['q']]),
    ('s', [ABSENT, {'x': 1}, {}]),
    ('other', [ABSENT, True, 'w']),
    ('unrelated', [ABSENT, 5]),
]
STYLES = ['tuples', 'list', 'nested', 'bare']
OPTIONS = [{}, {'default': ('lit', None)}, {'default': 'NONE'}, {'hooks': {'munge': 'wrap'}},
           {'hooks': {'filter': 'truthy'}, 'default': ('lit', 'none of it')}, {'nullable': False}]


def cases(tier):
    most = 3 if tier == 'quick' else 4
    for n in range(1, most + 1):
        for pick in itertools.permutations(range(len(ITEMS)), n):
            if n >= 3 and pick[0] > pick[1] and tier == 'quick':
                continue
            yield pick, STYLES[sum(pick) % 3], 0
    for pick in itertools.permutations(range(len(ITEMS)), 2):
        for style in STYLES:
            yield pick, style, 0
        for o in range(len(OPTIONS)):
            yield pick, 'tuples', o


def bounds(tier):
    return {'patterns': '1..{0} of {1}'.format(3 if tier == 'quick' else 4, len(ITEMS)), 'documents per case': 5 * 3 * 2 * 3 * 3 * 3 * 2,
            'ways to declare': STYLES, 'options': len(OPTIONS)}


def declare(b, spec, style, opts):
    pairs = []
    for src, f in spec.o['fields']:
        field = b.field(f)
        if style == 'bare':
            # a field that says itself which key it is for
            field.src = re.compile(src) if src.startswith(('^', '(')) else src
            pairs.append(field)
        else:
            pairs.append((re.compile(src) if src.startswith(('^', '(')) else src, field))
    if style == 'list':
        pairs = [pairs]
    elif style == 'nested':
        pairs = [pairs[0], [pairs[1:2], pairs[2:]]] if len(pairs) > 1 else [[pairs]]
    options = {}
    if spec.default == 'NONE':
        options['default'] = pilo.NONE
    elif spec.default is not ref.UNSET:
        options['default'] = spec.default[1]
    if spec.nullable is not ref.UNSET:
        options['nullable'] = spec.nullable
    if len(spec.o['fields'][0][0]) % 2:
        group = pf.Group(*pairs, **options)
    else:
        group = pf.Group(*pairs).options(**options)
    b.hook(spec, group)
    return group


def bare_ok(spec):
    return all(not src.startswith(('^', '(')) for src, _ in spec.o['fields'])


def run(case, rep):
    pick, style, o = case
    spec = F('Group', 'g', fields=[ITEMS[i] for i in pick], **OPTIONS[o])
    if style == 'bare' and not bare_ok(spec):
        style = 'tuples'
    b = build.Builder()
    fs = FS(F('Integer', 'k1', default='NONE', hooks={'compute': ('val', 0)}), spec, F('Any', 'other', default='NONE'),
            name='Grouped')
    meta = type(pilo.Form)
    cls = meta('Grouped', (pilo.Form,), {
        'k1': b.field(fs.fields[0]), 'g': declare(b, spec, style, o), 'other': b.field(fs.fields[2]),
    })
    b.forms[id(fs)] = cls, fs
    outer = FS(F('List', 'l', field=F('SubForm', form=fs)), name='Outer')
    few = [(k, v[:2]) for k, v in KEYS]
    for n, vals in enumerate(itertools.product(*[v for _, v in KEYS])):
        doc = dict((k, v) for (k, _), v in zip(KEYS, vals) if v is not ABSENT)
        build.compare(rep, b, fs, doc)
        if all(v in f[1] for v, f in zip(vals, few)):
            back = dict(reversed(list(doc.items())))
            build.compare(rep, b, fs, back)
            build.compare(rep, b, fs, doc, 'json')
            build.compare(rep, b, fs, back, 'json')
            build.compare(rep, b, outer, {'l': [{}, doc]})
            united(rep, cls, fs, doc, case)


def united(rep, cls, fs, doc, case):
    rep.eval()
    want, werr, _ = ref.map_root(fs, doc)
    form = cls()
    keys = list(doc)
    half = [dict((k, doc[k]) for k in keys[::2]), dict((k, doc[k]) for k in keys[1::2])]
    err = build.errors_of(form.map(UnionSource(half)))
    rep.check(sorted(err) == sorted(werr), 'union: errors {0!r}, expected {1!r}'.format(err, werr), sub=(case, doc))
    if not err and not werr and isinstance(want.get('g'), list) and isinstance(form.get('g'), list) \
            and want['g'][:1] != ['w']:
        a = sorted(form['g'], key=lambda t: t[0])
        b = sorted(want['g'], key=lambda t: t[0])
        rep.check(build.same(a, b), 'union: {0!r}, expected {1!r}'.format(a, b), sub=(case, doc))
