"""
C08: whatever the document holds, mapping it yields either the complete value
or exactly its errors, each at its location, however the errors are reported.
"""
import copy
import itertools

import pilo
from pilo.source import SourceError

from .. import build, ref
from ..ref import F, FS, ABSENT, Bad

LEVEL = 'exploration'
RULE = (
    'one case per (form, set of document positions that are replaced); each replaces those '
    'positions by every combination of the replacement alphabet; distinct by (errors, value)'
)
ASSUMPTIONS = []

ITEM = FS(F('String', 'name', max_length=5), F('Integer', 'n', default='NONE'), name='Item')
ADDRESS = FS(
    F('String', 'street'),
    F('String', 'zip', src='zip_code', pattern=r'^\d{2}$'),
    F('Tuple', 'geo', fields=[F('Float'), F('Float')], default=('lit', None)),
    name='Address',
)
CARD = FS(F('String', 'number', length=4), F('Integer', 'month', range=(1, 12)), name='Card')
CASH = FS(F('Decimal', 'amount', min_value=1), name='Cash')
NODE2 = FS(F('Integer', 'v'), name='Node2')
NODE1 = FS(F('Integer', 'v'), F('List', 'kids', field=F('SubForm', form=NODE2), default='NONE'), name='Node1')

ORDER = FS(
    F('Integer', 'id', min_value=1),
    F('String', 'note', default=('lit', None), ignores=['']),
    F('SubForm', 'address', form=ADDRESS),
    F('List', 'items', field=F('SubForm', form=ITEM), min_length=1),
    F('Dict', 'attrs', key=F('String', max_length=3), value=F('Integer'), default='NONE'),
    name='Order',
)
ORDER_DOC = {
    'id': 1, 'note': 'x', 'address': {'street': 's', 'zip_code': '12', 'geo': [1.0, 2.0]},
    'items': [{'name': 'a', 'n': 1}, {'name': 'b'}], 'attrs': {'a': 1, 'b': 2},
}
PAY = FS(
    F('Poly', 'pay', tag='kind', types=[('card', CARD), ('cash', CASH)]),
    F('List', 'all', field=F('Poly', tag='kind', types=[('card', CARD), ('cash', CASH)])),
    F('SubForm', 'tree', form=NODE1, default='NONE'),
    name='Pay',
)
PAY.fields[1].o['field'].o['types'] = PAY.fields[0].o['types']
PAY_DOC = {
    'pay': {'kind': 'card', 'number': '1234', 'month': 1},
    'all': [{'kind': 'cash', 'amount': '2.5'}, {'kind': 'card', 'number': '1234', 'month': 12}],
    'tree': {'v': 1, 'kids': [{'v': 2}, {'v': 3}]},
}
DICTS = FS(
    F('Dict', 'by', key=F('String'), value=F('SubForm', form=FS(
        F('List', 'xs', field=F('Dict', key=F('String'), value=F('Integer'))),
        F('Boolean', 'on', default=('lit', False)), name='By'))),
    F('Dict', 'deep', key=F('String'), value=F('List', field=F('List', field=F('Integer', max_value=5)))),
    F('UUID', 'u', default='NONE'),
    F('Date', 'd', format='%Y-%m-%d', default='NONE'),
    name='Dicts',
)
DICTS_DOC = {
    'by': {'k': {'xs': [{'p': 1}, {'q': 2}], 'on': True}, 'l': {'xs': []}},
    'deep': {'m': [[1], [2, 3]], 'n': []},
    'u': '12345678-1234-5678-1234-567812345678', 'd': '2020-01-02',
}
ENVELOPE = FS(
    F('SubForm', 'head', src=None, form=FS(F('Integer', 'id'), F('Integer', 'rev', default='NONE'), name='Head')),
    F('SubForm', 'body', form=FS(F('SubForm', 'flat', src=None, form=NODE2), F('String', 'w'), name='Body')),
    F('Group', 'links', fields=[('^l(.)$', F('SubForm', form=NODE2)), ('title', F('String'))]),
    name='Envelope',
)
ENVELOPE_DOC = {'id': 3, 'rev': 1, 'body': {'v': 1, 'w': 'x'}, 'l1': {'v': 1}, 'l2': {'v': 2}, 'title': 't'}
# several fields of one place
SHARED = FS(
    F('Integer', 'n'), F('Integer', 'm', src='n'), F('Any', 's', src='n', default='NONE'),
    F('List', 'l', field=F('SubForm', form=NODE2), default='NONE'), F('List', 'k', src='l', field=F('SubForm', form=NODE2)),
    F('Integer', 'v', src='l.x', default='NONE'),
    name='Shared',
)
SHARED_DOC = {'n': 1, 'l': [{'v': 1}, {'v': 2}]}
FORMS = [(ORDER, ORDER_DOC), (PAY, PAY_DOC), (DICTS, DICTS_DOC), (ENVELOPE, ENVELOPE_DOC), (SHARED, SHARED_DOC)]

REPLACE = [
    ABSENT, None, True, False, 0, -1, 99, 1.5, 1e400, float('nan'), 10 ** 400, '', 'a', 'abcdefgh', '12', '1234',
    'card', 'items', [], {}, [1], [None], [[]], [{}], {'a': 1}, {'v': 'x'}, {'kind': 'card'},
    {'kind': 'nope'}, {'kind': None}, ['a', 'b'], [1, 2], {'a': {}}, '\u00e9\U0001f600', '{0}', '%s',
]
FEW = [ABSENT, None, 1, 'x', [], {}, {'v': 'x'}]
MID = FEW + [99, '', [None], {'kind': 'cash'}, 'abcdefgh', {'a': 'x'}]


def positions(doc, at=()):
    yield at
    items = doc.items() if isinstance(doc, dict) else enumerate(doc) if isinstance(doc, list) else ()
    for k, v in items:
        for p in positions(v, at + (k,)):
            yield p


def replaced(doc, subs):
    """`subs` is [(position, replacement)], deepest first."""
    doc = copy.deepcopy(doc)
    for at, v in subs:
        if not at:
            doc = v
            continue
        node = doc
        try:
            for k in at[:-1]:
                node = node[k]
            if v is ABSENT:
                del node[at[-1]]
            else:
                node[at[-1]] = copy.deepcopy(v)
        except (KeyError, IndexError, TypeError):
            return None  # an outer replacement took the position away
    return doc


def cases(tier):
    for n, (fs, doc) in enumerate(FORMS):
        yield n, (), []
        ps = [p for p in positions(doc) if p]
        for p in ps:
            yield n, (p,), REPLACE
        for pair in itertools.combinations(ps, 2):
            yield n, pair, MID if tier == 'quick' else REPLACE
        if tier != 'quick':
            for three in itertools.combinations(ps, 3):
                yield n, three, FEW
    yield 'roots'
    for name in sorted(LONG):
        yield 'long', name


def bounds(tier):
    return {'forms': [f.name for f, _ in FORMS], 'replacements': len(REPLACE),
            'positions replaced at once': '1 of {0} values, 2 of {1}{2}'.format(
                len(REPLACE), len(MID if tier == 'quick' else REPLACE),
                '' if tier == 'quick' else ', 3 of {0}'.format(len(FEW)))}


def run(case, rep):
    if case == 'roots':
        return roots(rep)
    if case[0] == 'long':
        return long(case[1], rep)
    n, where, values = case
    fs, doc = FORMS[n]
    b = build.Builder()
    where = sorted(where, key=len, reverse=True)
    alpha = [values] * len(where)
    cls = b.form(fs)
    for vals in itertools.product(*alpha):
        d = replaced(doc, list(zip(where, vals)))
        if d is None:
            continue
        if not build.compare(rep, b, fs, d):
            continue
        if len(where) <= 1:
            try:
                build.compare(rep, b, fs, d, 'json')
                build.compare(rep, b, fs, d, 'strict')
            except (TypeError, ValueError):
                pass
            modes(rep, b, fs, cls, d)
    # unknown keys never matter
    if len(where) == 1:
        at = where[0]
        node = doc
        for k in at:
            node = node[k]
        if isinstance(node, dict) and at[:1] != ('attrs',) and 'm' not in node and 'p' not in node \
                and 'q' not in node and 'k' not in node:
            d = replaced(doc, [(at, dict(node, unknown_key={'a': []}))])
            want = ref.map_root(fs, doc)[0]
            rep.eval()
            rep.check(build.same(cls(d), want), 'an unknown key changes the value', sub=d)


def modes(rep, b, fs, cls, d):
    """The same errors whether collected, raised or raised by the constructor."""
    want, werr, _ = ref.map_root(fs, d)
    rep.eval()
    try:
        form = cls(d)
        raised = []
    except pilo.fields.FormError as ex:
        raised = build.errors_of(ex.field_errors)
        for e in ex.field_errors:
            rep.check(str(e) in str(ex), 'the message of FormError omits {0}'.format(e), sub=d)
            rep.check(isinstance(e, ValueError), 'a field error is a ValueError', sub=d)
        rep.check(isinstance(ex, ValueError), 'FormError is a ValueError', sub=d)
    rep.check(raised == werr, 'constructor raised {0}, expected {1}'.format(raised, werr), sub=(fs, d))
    form = cls()
    try:
        back = form.map(d, error='raise')
        raised = []
        rep.check(back is form, 'map(error="raise") returns the form')
        rep.check(build.same(form, want), 'value differs when errors are raised', sub=d)
    except pilo.fields.FormError as ex:
        raised = build.errors_of(ex.field_errors)
    rep.check(
        bool(raised) == bool(werr) and raised[:1] == werr[:1],
        'error="raise" raised {0}, expected {1} first'.format(raised, werr), sub=(fs, d))
    own_classes(rep, cls, d, werr)
    rep.check(build.fresh_context(), 'context left behind', sub=d)


class Gone(pilo.Missing):
    pass


class Wrong(pilo.Invalid):
    pass


class Plain(ValueError):
    pass


class Lost(Plain):
    def __init__(self, field):
        Plain.__init__(self, field)
        self.at = str(field.ctx.src_path)


class Off(Plain):
    def __init__(self, field, violation):
        Plain.__init__(self, field, violation)
        self.at = str(field.ctx.src_path)


def own_classes(rep, cls, d, werr):
    """Errors of the classes that the context names: same places, same way out."""
    rep.eval()
    with pilo.ctx(Missing=Gone, Invalid=Wrong):
        errors = cls().map(d)
        rep.check([(type(e), str(e.path)) for e in errors] == [(Gone if c == 'Missing' else Wrong, w) for c, w in werr],
                  lambda: 'errors of own classes are {0!r}, expected {1!r}'.format(errors, werr), sub=d)
        try:
            cls(d)
            raised = []
        except pilo.fields.FormError as ex:
            raised = build.errors_of(ex.field_errors)
        rep.check([w for _, w in raised] == [w for _, w in werr], 'own classes raised as {0!r}'.format(raised), sub=d)
    with pilo.ctx(Missing=Lost, Invalid=Off):
        errors = cls().map(d)
        want = [(Lost if c == 'Missing' else Off, w) for c, w in werr]
        rep.check([(type(e), e.at) for e in errors] == want,
                  lambda: 'errors of foreign classes are {0!r}, expected {1!r}'.format(errors, want), sub=d)
        for how in (lambda: cls(d), lambda: cls().map(d, error='raise')):
            try:
                how()
                got = []
            except Plain as ex:
                got = [(type(ex), ex.at)]
            except Exception as ex:
                got = ex
            rep.check(got == want[:1], lambda: 'foreign classes raised as {0!r}, expected {1!r}'.format(got, want[:1]), sub=d)


def roots(rep):
    """The root of a document: a mapping, or the failure is a declared one."""
    for fs, _ in FORMS:
        b = build.Builder()
        cls = b.form(fs)
        for flavor in ('plain', 'json'):
            for v in (None, True, 1, 1.5, '', 'ab', [], [1], ['a', 'b'], {}, {'id': 1}):
                rep.eval()
                if flavor == 'plain' and isinstance(v, (dict, list)) or flavor == 'json' and isinstance(v, dict):
                    continue
                src = pilo.source.DefaultSource(v) if flavor == 'plain' else build.source(v, 'json')
                form = cls()
                try:
                    errors = form.map(src)
                    got = 'mapped', len(errors)
                except (SourceError, ValueError) as ex:
                    got = type(ex).__name__
                rep.outcome((flavor, got))
                rep.check(got in ('SourceError', 'FormError'),
                          'a root that is not a mapping gave {0}'.format(got), sub=(flavor, v))
                rep.check(build.fresh_context(), 'context left behind', sub=v)
        for v in (1, 'ab', 1.5, object(), {1, 2}):
            rep.eval()
            try:
                cls().map(v)
                rep.fail('mapped a root of type {0}'.format(type(v)))
            except ValueError:
                pass


# Containers of many items, each of them bad in turn
LENGTHS = (9, 10, 11, 12, 99, 101, 102)
LONG_SUB = FS(F('Integer', 'n', max_value=999), F('List', 'k', field=F('Integer'), default='NONE'), name='LongSub')
LONG = {
    'list': (F('List', 'f', field=F('Integer')), lambda n: [list(range(n))]),
    'lists': (F('List', 'f', field=F('List', field=F('Integer'))),
              lambda n: [[[1] * (i % 13) for i in range(n)]]),
    'forms': (F('List', 'f', field=F('SubForm', form=LONG_SUB)),
              lambda n: [[{'n': i, 'k': [i]} for i in range(n)], [{'k': list(range(n))}, {'n': 1, 'k': ['x'] * n}]]),
    'dict': (F('Dict', 'f', key=F('String'), value=F('Integer')), lambda n: [dict(('k%d' % i, i) for i in range(n))]),
    'dict of lists': (F('Dict', 'f', key=F('String'), value=F('List', field=F('Integer'))),
                      lambda n: [{'a': list(range(n)), 'b': ['x'] * n, 'c': []}]),
}


def long(name, rep):
    """The location of what is wrong, however many items there are before it."""
    field, make = LONG[name]
    fs = FS(field)
    b = build.Builder()
    for n in LENGTHS:
        for value in make(n):
            for flavor in ('plain', 'json', 'union'):
                build.compare(rep, b, fs, {'f': value}, flavor)
                if isinstance(value, list) and len(value) == n:
                    spots = sorted(set(range(min(n, 13))) | {n - 3, n - 2, n - 1})
                    for i in spots:
                        for bad in ('x', None, {'n': 'x'}, [1, 'x']):
                            build.compare(rep, b, fs, {'f': value[:i] + [bad] + value[i + 1:]}, flavor)
                        build.compare(rep, b, fs, {'f': value[:i] + ['x', 'y'] + value[i + 1:]}, flavor)
