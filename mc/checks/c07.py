"""
C07: lists, tuples and mappings keep every valid item in order, drop those
without a value, locate every bad one, and honour their size constraints.
"""
import itertools

from .. import build
from ..ref import F, FS

LEVEL = 'exploration'
RULE = (
    'one case per (container, constraints, item field); each is run on every sequence / '
    'mapping over the item alphabet up to the length bound and on every wrong shape; '
    'distinct by (errors, value)'
)
ASSUMPTIONS = [
    'a field for keys is given the key as it is (its constraints apply to it, it does not '
    'convert it), so key fields here are of the type the keys have',
]

INNER = [
    F('Integer', max_value=5),
    F('Integer', max_value=5, default='NONE'),
    F('Integer', default=('lit', 9), ignores=[1]),
    F('Integer', nullable=False),
    F('String', max_length=2),
    F('String', max_length=2, ignores=['a'], translations={'bb': 'cc'}),
    F('Boolean', default=('lit', None)),
    F('Any', default=('lit', None), ignores=['a', 7]),
    F('Any'),
    F('Any', default='NONE', hooks={'munge': 'wrap'}),
    F('Any', hooks={'filter': 'truthy'}, default='NONE'),
    F('Integer', hooks={'munge': 'NONE'}, default='NONE'),
    F('Integer', hooks={'munge': 'ERROR'}),
    F('Integer', hooks={'munge': ('val', None)}, nullable=False),
    F('Integer', hooks={'validate': 'err'}),
    F('Integer', hooks={'compute': ('val', 4)}),
]
DEEP = [
    F('List', field=F('Integer', max_value=5)),
    F('List', field=F('Integer', max_value=5), min_length=1, max_length=1),
    F('List', field=F('Integer', max_value=5), allow_field=True),
    F('Tuple', fields=[F('Integer')]),
    F('Dict', key=F('String', max_length=1), value=F('Integer', max_value=5)),
    F('SubForm', form=FS(F('Integer', 'a', max_value=5), F('Integer', 'b', default='NONE'), name='Sub')),
    F('SubForm', form=FS(F('Integer', 'a', max_value=5), name='Sub'), default='NONE', unmapped='capture'),
]
SIMPLE = [None, 1, 7, '5', 'a', 'bb', 'ccc', 0]
NESTED = [None, 1, 'ab', [], [1], [9], [1, 'x'], [[1]], {}, {'a': 1}, {'a': 9, 'b': 2}, {'cc': 1}]
SIZES = [{}, {'length': (1, 2)}, {'length': (2, 2)}, {'min_length': 1}, {'max_length': 1},
         {'min_length': 2, 'max_length': 3}, {'min_length': 0, 'max_length': 0}]
WRONG = [None, True, 1, 1.5, '', 'a', 'ab', '1']
KEYS = [
    F('String'), F('String', max_length=1), F('String', choices=['a', 'b']),
    F('String', translations={'a': 'b', 'b': 'a'}), F('String', translations={'bb': 'a'}, ignores=['a'], default='NONE'),
    F('String', hooks={'munge': ('val', 'k')}), F('String', hooks={'filter': ('val', False)}, default='NONE'),
    F('String', hooks={'munge': 'NONE'}, default=('lit', 'dk')), F('Any'),
    F('String', hooks={'validate': 'err'}), F('String', hooks={'munge': 'ERROR'}),
]
DICTS = [
    {}, {'required_keys': ['a']}, {'required_keys': ('a', 'bb')}, {'required_keys': {'a', 'b'}},
    {'max_keys': 0}, {'max_keys': 1}, {'max_keys': 1, 'required_keys': ['a', 'bb']}, {'max_keys': 1, 'required_keys': ['a']}, {'max_keys': 2, 'required_keys': ['k']}, {'required_keys': []},
    {'required_keys': [1, None]}, {'required_keys': [1, 'a'], 'max_keys': 1},
]
OPT = [{}, {'default': 'NONE'}, {'default': ('lit', [])}, {'default': ('lit', None)}, {'nullable': False},
       {'ignores': [[], {}]}]


def cases(tier):
    full = tier != 'quick'
    for item in INNER + DEEP:
        for o in SIZES:
            for allow in (False, True):
                for via in (None, 'methods'):
                    for opt in OPT if full or not o else OPT[:1]:
                        kw = dict(o, **opt)
                        if allow:
                            kw['allow_field'] = True
                        if via:
                            kw['via'] = via
                        if via and not o:
                            continue
                        yield 'seq', F('List', 'f', field=item, **kw)
    for n in (1, 2, 3):
        pool = INNER[:6] + DEEP[:1]
        for items in itertools.product(pool, repeat=n):
            if n == 3 and not full and len(set(map(id, items))) < 3:
                continue
            for opt in OPT if n == 1 or full else OPT[:1]:
                yield 'seq', F('Tuple', 'f', fields=list(items), **opt)
    for item in INNER + DEEP:
        for key in KEYS:
            for o in DICTS:
                for kf in ({}, {'hooks': {'key_filter': 'truthy'}}, {'hooks': {'key_filter': ('val', False)}}):
                    if o and kf and not full:
                        continue
                    for opt in OPT if full or not (o or kf) else OPT[:1]:
                        kw = dict(o, **opt)
                        kw.update(kf)
                        yield 'map', F('Dict', 'f', key=key, value=item, **kw)


def bounds(tier):
    return {'items per container': '0..3 over {0} simple or {1} nested values'.format(len(SIMPLE), len(NESTED)),
            'item fields': len(INNER + DEEP), 'key fields': len(KEYS), 'mapping constraints': len(DICTS)}


def is_deep(f):
    if f.kind == 'List':
        return f.o['field'].kind in ('List', 'Tuple', 'Dict', 'SubForm')
    if f.kind == 'Tuple':
        return any(i.kind == 'List' for i in f.o['fields'])
    return f.o['value'].kind in ('List', 'Tuple', 'Dict', 'SubForm')


def run(case, rep):
    shape, f = case
    fs = FS(F('Any', 'before', default='NONE'), f, F('Any', 'z', default='NONE'))
    b = build.Builder()
    alpha = NESTED if is_deep(f) else SIMPLE
    build.compare(rep, b, fs, {'z': 1})
    for v in WRONG:
        for flavor in ('plain', 'json', 'union'):
            build.compare(rep, b, fs, {'f': v}, flavor)
    if shape == 'seq':
        for n in range(4):
            for seq in itertools.product(alpha[:6] if n == 3 else alpha, repeat=n):
                build.compare(rep, b, fs, {'f': list(seq)})
                if n <= 1:
                    build.compare(rep, b, fs, {'f': list(seq)}, 'json')
                if n <= 2:
                    build.compare(rep, b, fs, {'f': list(seq)}, 'union')
                    build.compare(rep, b, fs, {'f': tuple(seq)})
        build.compare(rep, b, fs, {'f': {}})
        build.compare(rep, b, fs, {'f': {'a': 1}})
        build.compare(rep, b, fs, {'f': [1] * 12 + ['bad']})
    else:
        for n in range(3):
            for keys in itertools.permutations(('a', 'bb', 'c'), n):
                for vals in itertools.product(alpha[:5] if n == 2 else alpha, repeat=n):
                    build.compare(rep, b, fs, {'f': dict(zip(keys, vals))})
        build.compare(rep, b, fs, {'f': {'a': alpha[1], '': alpha[2]}})
        build.compare(rep, b, fs, {'f': {'a': alpha[1], 'b': alpha[1], 'c': alpha[1]}}, 'json')
        build.compare(rep, b, fs, {'f': []})
        build.compare(rep, b, fs, {'f': [1]})
        if f.o['key'].kind == 'Any':
            build.compare(rep, b, fs, {'f': {1: alpha[1], (1, 2): alpha[3], 1.5: 'a'}})
