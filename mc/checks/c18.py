"""
C18: a field may be derived from others (format, compute, default, munge,
filter, validate) and its value does not depend on the order in which the
fields are declared, nor on how deep the form is nested.
"""
import itertools
import json
import re

import pilo
from pilo import fields as pf
from pilo.source import DefaultSource, JsonSource, MountSource, UnionSource

from .. import build
from ..ref import ABSENT

LEVEL = 'exploration'
RULE = (
    'one case per (set of fields, order of their declaration, place of the form); each is run on '
    'every document over the value alphabet; distinct by (errors, value)'
)
ASSUMPTIONS = [
    'compute, munge, filter, validate and default hooks that refer to a field get a value from it '
    '(a field in error or without a value is only referred to by format)',
    'the error of a field that others refer to may be listed once per reference, so errors are compared as a set',
]


class Leaf(pilo.Form):

    tail = pf.String().format('{z}.', z='z')
    z = pf.Integer(max_value=5)


def f_x():
    return pf.Integer('ex', max_value=9)


def f_y():
    return pf.String(default='dy')


def f_sub():
    return pf.SubForm(Leaf)


def f_fmt():
    return pf.String().format('{a}/{b}', a='x', b='sub.z')


def f_fy():
    return pf.String().format('[{y}]', y='y')


def f_tag():
    return pf.String(max_length=8).format('<{y}>', y='fmt')


def f_opt():
    return pf.Integer(default=pilo.NONE)


def f_ofmt():
    return pf.String().format('{o}', o='opt')


def f_comp():
    field = pf.Integer()

    @field.compute
    def comp(self):
        return self.x + 1
    return field


def f_chain():
    field = pf.Field()

    @field.compute
    def chain(self):
        return self.comp * 10 + len(self.y)
    return field


def f_munged():
    field = pf.Integer(default=pilo.NONE)

    @field.munge
    def munged(self, value):
        return value + self.comp
    return field


def f_dflt():
    field = pf.Integer()

    @field.default
    def dflt(self):
        return self.chain + 1
    return field


def f_valid():
    field = pf.Integer(default=pilo.NONE)

    @field.validate
    def valid(self, value):
        if value > self.x:
            pilo.ctx.errors.invalid('more than x')
            return False
        return True
    return field


def f_filt():
    field = pf.String(default='filtered')

    @field.filter
    def filt(self, value):
        return value != self.y
    return field


def f_deep():
    field = pf.Field()

    @field.compute
    def deep(self):
        return [self.sub.z, self.sub.tail, self.sub['z']]
    return field


MAKE = dict((k[2:], v) for k, v in globals().items() if k.startswith('f_'))
SETS = [
    ('x', 'y', 'sub', 'fmt', 'tag'),
    ('x', 'y', 'comp', 'chain', 'munged'),
    ('x', 'y', 'comp', 'chain', 'dflt'),
    ('x', 'y', 'valid', 'filt', 'comp'),
    ('x', 'sub', 'deep', 'comp', 'munged'),
    ('opt', 'ofmt', 'y', 'filt'),
    ('y', 'fy', 'filt', 'opt'),
]
MORE = [
    ('x', 'y', 'comp', 'chain', 'munged', 'dflt'),
    ('x', 'y', 'sub', 'fmt', 'tag', 'deep'),
    ('x', 'y', 'comp', 'chain', 'valid', 'filt', 'munged'),
]
PLACES = ['root', 'list', 'deep', 'json']
VALUES = {
    'ex': [1, 3, '2'],
    'y': [ABSENT, 'yy', ''],
    'sub': [{'z': 1}, {'z': 4, 'tail': 'ignored'}],
    'munged': [ABSENT, 5, 'bad'],
    'dflt': [ABSENT, 7],
    'valid': [ABSENT, 1, 3, 'bad'],
    'filt': [ABSENT, 'dy', 'yy', 'q', 4],
    'opt': [ABSENT, 4, 'bad', 6],
    'fmt': [ABSENT, 'ignored'],
    'comp': [ABSENT],
}
FAILING = {
    'ex': [ABSENT, 'bad', 12],
    'sub': [ABSENT, {}, {'z': 9}, None, {'z': 3}, 5],
}


def cases(tier):
    for names in SETS + (MORE if tier != 'quick' else []):
        for order in itertools.permutations(names):
            for place in PLACES:
                yield order, place
    for names in [('x', 'sub', 'fmt', 'tag'), ('x', 'sub', 'fmt', 'y')]:
        for order in itertools.permutations(names):
            for place in PLACES:
                yield order, place + ' failing'
    for how in ('form', 'list', 'dict', 'poly'):
        for order in itertools.permutations(('x', 'd', 'mid')):
            for midorder in itertools.permutations(('x', 'inner')):
                yield ('around', how, order, midorder), 'around'
    yield 'capture', None
    yield 'parent', None
    yield 'context', None
    yield 'foreign', None
    yield 'once', None
    yield 'lazy', None
    yield 'own', None


def bounds(tier):
    return {'sets of fields': len(SETS) + (len(MORE) if tier != 'quick' else 0) + 2,
            'orders': 'all permutations of 4..{0} fields'.format(5 if tier == 'quick' else 7), 'places': PLACES,
            'forms around': 'three levels in 4 containers, every order of declaration'}


def expected(names, doc):
    """-> (value, errors) with None for a field in error."""
    env, out, err = {}, {}, set()
    if 'x' in names:
        env['x'] = scalar(doc.get('ex', ABSENT), int, 9, err, 'ex')
    if 'y' in names:
        env['y'] = doc.get('y', 'dy')
    if 'sub' in names:
        s = doc.get('sub', ABSENT)
        if s is ABSENT:
            err.add(('Missing', 'sub'))
            env['sub'] = ABSENT
        elif s is None:
            env['sub'] = None
        elif not isinstance(s, dict):
            err.add(('Invalid', 'sub'))
            env['sub'] = ABSENT
        else:
            bad = set()
            z = scalar(s.get('z', ABSENT), int, 5, bad, 'sub.z')
            if bad:
                bad.add(('Invalid', 'sub.tail'))
                err |= bad
                env['sub'] = ABSENT
            else:
                env['sub'] = {'z': z, 'tail': '{0}.'.format(z)}
    if 'opt' in names:
        o = doc.get('opt', ABSENT)
        env['opt'] = ABSENT
        if o is not ABSENT:
            env['opt'] = scalar(o, int, None, err, 'opt')
    for n in names:
        if n == 'fmt':
            s = env['sub']
            if env['x'] is ABSENT or s is ABSENT or s is None:
                err.add(('Invalid', 'fmt'))
                env[n] = ABSENT
            else:
                env[n] = '{0}/{1}'.format(env['x'], s['z'])
    if 'fy' in names:
        env['fy'] = '[{0}]'.format(env['y'])
    if 'tag' in names:
        if env['fmt'] is ABSENT:
            err.add(('Invalid', 'tag'))
            env['tag'] = ABSENT
        else:
            env['tag'] = '<{0}>'.format(env['fmt'])
    if 'ofmt' in names:
        if env['opt'] is ABSENT:
            err.add(('Invalid', 'ofmt'))
            env['ofmt'] = ABSENT
        else:
            env['ofmt'] = str(env['opt'])
    if 'comp' in names:
        env['comp'] = env['x'] + 1
    if 'chain' in names:
        env['chain'] = env['comp'] * 10 + len(env['y'])
    if 'deep' in names:
        env['deep'] = [env['sub']['z'], env['sub']['tail'], env['sub']['z']]
    if 'munged' in names:
        v = doc.get('munged', ABSENT)
        env['munged'] = ABSENT
        if v is not ABSENT:
            v = scalar(v, int, None, err, 'munged')
            env['munged'] = v if v is ABSENT else v + env['comp']
    if 'dflt' in names:
        env['dflt'] = doc['dflt'] if 'dflt' in doc else env['chain'] + 1
    if 'valid' in names:
        v = doc.get('valid', ABSENT)
        if v is not ABSENT:
            v = scalar(v, int, None, err, 'valid')
            if v is not ABSENT and v > env['x']:
                err.add(('Invalid', 'valid'))
                v = ABSENT
        env['valid'] = v
    if 'filt' in names:
        v = doc.get('filt', ABSENT)
        if v is ABSENT:
            v = 'filtered'
        elif not isinstance(v, str):
            err.add(('Invalid', 'filt'))
            v = ABSENT
        elif v == env['y']:
            v = 'filtered'
        env['filt'] = v
    return dict((n, env[n]) for n in names if env[n] is not ABSENT), err


def scalar(v, conv, top, err, at):
    if v is ABSENT:
        err.add(('Missing', at))
        return ABSENT
    try:
        v = conv(v)
    except ValueError:
        err.add(('Invalid', at))
        return ABSENT
    if top is not None and v > top:
        err.add(('Invalid', at))
        return ABSENT
    return v


KEYS = {'x': 'ex', 'chain': None, 'tag': None, 'ofmt': None, 'fy': None, 'deep': None}


def run(case, rep):
    if case[1] is None:
        return {'capture': capture, 'parent': parent, 'context': from_context, 'foreign': foreign, 'once': once, 'lazy': lazy, 'own': own}[case[0]](rep)
    if case[1] == 'around':
        return around(case[0][1:], rep)
    order, place = case
    failing = place.endswith(' failing')
    place = place.split()[0]
    cls = type(pilo.Form)('Derived', (pilo.Form,), dict((n, MAKE[n]()) for n in order))
    # the order in which they were made is the order of declaration
    rep.check([f.name for f in cls.fields] == list(order), 'fields are not in order', sub=case)
    keys = [KEYS.get(n, n) for n in order]
    pools = []
    for k in sorted(k for k in keys if k):
        if failing and k in FAILING:
            pools.append((k, FAILING[k] + VALUES[k][:1]))
        else:
            pools.append((k, VALUES[k] if not failing else VALUES[k][:1]))
    for vals in itertools.product(*[p for _, p in pools]):
        doc = dict((k, v) for (k, _), v in zip(pools, vals) if v is not ABSENT)
        if place == 'json' and any(isinstance(v, int) for k, v in doc.items() if k == 'filt'):
            continue
        want, werr = expected(order, doc)
        rep.eval()
        prefix = ''
        try:
            if place == 'root':
                form = cls()
                err = form.map(doc)
            elif place == 'json':
                form = cls()
                err = form.map(JsonSource(json.dumps(doc)))
            elif place == 'list':
                outer = type(pilo.Form)('Outer', (pilo.Form,), {
                    'x': pf.Integer(default=100), 'l': pf.List(pf.SubForm(cls)), 'y': pf.String(default='outer')})
                top = outer()
                good = GOOD
                err = top.map({'l': [good, doc, good], 'ex': 50, 'y': 'outer'})
                united(rep, outer, [{'l': [good, doc, good], 'ex': 50, 'y': 'outer'}], top, err, (case, doc))
                united(rep, outer, [{'l': [good], 'ex': 50}, {'l': [doc, good], 'y': 'outer'}], top, err, (case, doc))
                prefix = 'l[1].'
                form = ABSENT if werr else top['l'][1]
                first = expected(order, good)[0]
                rep.check(plain(top['l'][0]) == first and plain(top['l'][-1]) == first,
                          lambda: 'its neighbours are {0!r}, expected {1!r}'.format(top['l'], first), sub=(case, doc))
            else:
                mid = type(pilo.Form)('Mid', (pilo.Form,), {'x': pf.Integer(default=200), 's': pf.SubForm(cls)})
                outer = type(pilo.Form)('Outer', (pilo.Form,), {'d': pf.Dict(pf.String(), pf.SubForm(mid))})
                top = outer()
                err = top.map({'d': {'k': {'s': doc, 'ex': 5, 'x': 6}}})
                united(rep, outer, [{'d': {'k': {'s': doc}}}, {'d': {'k': {'ex': 5, 'x': 6}}}], top, err, (case, doc))
                prefix = 'd.k.s.'
                form = ABSENT if werr else top['d']['k']['s']
        except Exception as ex:
            rep.fail('{0!r} escaped'.format(ex), sub=(case, doc))
            continue
        got = set(build.errors_of(err))
        werr = set((c, prefix + w) for c, w in werr)
        rep.outcome((sorted(got), sorted(want) if werr else repr(sorted(want.items()))))
        rep.check(got == werr, 'errors {0!r}, expected {1!r}'.format(sorted(got), sorted(werr)), sub=(case, doc))
        if form is not ABSENT:
            rep.check(plain(form) == want, lambda: '{0!r}, expected {1!r}'.format(form, want), sub=(case, doc))
    if len(rep.samples) < 2:
        rep.sample({'order': order, 'place': place, 'document': repr(doc), 'value': repr(want), 'errors': repr(werr)})
    rep.check(build.fresh_context(), 'context left behind', sub=case)


def united(rep, cls, docs, want, werr, at):
    """The same document from a union of its parts."""
    if any(w is None for w in docs[0].values()):
        return
    rep.eval()
    form = cls()
    try:
        err = form.map(UnionSource(docs, merge='combine'))
    except Exception as ex:
        rep.fail('{0!r} escaped from a union'.format(ex), sub=at)
        return
    err, werr = build.errors_of(err), build.errors_of(werr)
    rep.check(sorted(err) == sorted(werr), 'errors {0!r} from a union, expected {1!r}'.format(err, werr), sub=at)
    if not werr:
        rep.check(plain(form) == plain(want), '{0!r} from a union, expected {1!r}'.format(form, want), sub=at)


GOOD = {'ex': 2, 'y': 'g', 'sub': {'z': 2}, 'munged': 1, 'dflt': 3, 'valid': 1, 'filt': 'z', 'opt': 1}


def plain(v):
    if isinstance(v, dict):
        return dict((k, plain(x)) for k, x in v.items())
    if isinstance(v, list):
        return [plain(x) for x in v]
    return v


# Fields of the forms around

def refer(hook, up, name):
    field = pf.Integer()
    if hook == 'compute':
        @field.compute
        def f(self):
            return getattr(pilo.ctx.values_for('form')[up], name)
    elif hook == 'munge':
        @field.munge
        def f(self, value):
            return value + getattr(pilo.ctx.values_for('form')[up], name)
    elif hook == 'default':
        @field.default
        def f(self):
            return getattr(pilo.ctx.values_for('form')[up], name)
    return field


def ordered(name, order, make):
    return type(pilo.Form)(name, (pilo.Form,), dict((n, make[n]()) for n in order))


def computed_d():
    field = pf.Integer()

    @field.compute
    def d(self):
        return self.x * 7
    return field


def around(case, rep):
    """Outer, mid and inner form with fields of the same names, the inner refers to all of them."""
    how, order, midorder = case
    for inorder in itertools.permutations(('x', 'a', 'b', 'c')):
        inner = ordered('Inner', inorder, {
            'x': lambda: pf.Integer(default=pilo.NONE),
            'a': lambda: refer('compute', 0, 'x'),
            'b': lambda: refer('munge', -2, 'x'),
            'c': lambda: refer('default', 0, 'd'),
        })
        mid = ordered('Mid', midorder, {'x': lambda: pf.Integer(), 'inner': lambda: pf.SubForm(inner)})
        if how == 'poly':
            base = type(pilo.Form)('Base', (pilo.Form,), {'kind': pf.Type.abstract()})
            mid = type(pilo.Form)('Kind', (mid, base), {'kind': pf.Type.constant('k')})
        holder = {
            'form': lambda: pf.SubForm(mid), 'list': lambda: pf.List(pf.SubForm(mid)),
            'dict': lambda: pf.Dict(pf.String(), pf.SubForm(mid)),
            'poly': lambda: pf.PolymorphicSubForm(base.kind),
        }[how]
        outer = ordered('Outer', order, {'x': lambda: pf.Integer(), 'd': computed_d, 'mid': holder})
        for ox, mx, ix, c in itertools.product((2, 3), (2, 30), (ABSENT, 2, 400), (ABSENT, 2)):
            def one(mx):
                i = {'b': 5}
                w = {'a': ox, 'b': 5 + mx, 'c': ox * 7 if c is ABSENT else c}
                if ix is not ABSENT:
                    i['x'] = w['x'] = ix
                if c is not ABSENT:
                    i['c'] = c
                m, wm = {'x': mx, 'inner': i}, {'x': mx, 'inner': w}
                if how == 'poly':
                    m['kind'] = wm['kind'] = 'k'
                return m, wm
            m, wm = one(mx)
            if how == 'list':
                m2, wm2 = one(mx + 1)
                m, wm = [m, m2], [wm, wm2]
            elif how == 'dict':
                m2, wm2 = one(mx + 1)
                m, wm = {'x': m, 'inner': m2}, {'x': wm, 'inner': wm2}
            rep.eval()
            doc, want = {'x': ox, 'd': 99, 'mid': m}, {'x': ox, 'd': ox * 7, 'mid': wm}
            rep.outcome((how, repr(sorted(want.items()))))
            for kind, src in sources(how, doc):
                if kind != 'plain' and mx == 2:
                    break
                rep.eval()
                form = outer()
                try:
                    err = build.errors_of(form.map(src))
                except Exception as ex:
                    rep.fail('{0!r} escaped'.format(ex), sub=(case, inorder, doc, kind))
                    continue
                rep.check(not err and plain(form) == want, lambda: '{0!r} {1!r}, expected {2!r}'.format(form, err, want),
                          sub=(case, inorder, doc, kind))
    rep.check(build.fresh_context(), 'context left behind', sub=case)


def sources(how, doc):
    """The document as it is, and united from parts."""
    yield 'plain', doc
    yield 'json', JsonSource(json.dumps(doc))
    yield 'union', UnionSource([doc])
    yield 'parts', UnionSource([{'mid': doc['mid']}, {'x': doc['x']}, {'d': doc['d'], 'x': 8}])
    mid = doc['mid']
    other = mid[:0] if how == 'list' else {'x': {'x': 7}} if how == 'dict' else {'inner': {}, 'x': 66}
    yield 'last', UnionSource([{'mid': other, 'x': doc['x']}, {'mid': mid}, {'x': 1}], merge='last')
    halves = (mid[:1], mid[1:]) if how == 'list' else [dict(part) for part in (list(mid.items())[:1], list(mid.items())[1:])]
    yield 'halves', UnionSource([{'x': doc['x'], 'mid': halves[0]}, JsonSource(json.dumps({'mid': halves[1]}))], merge='combine')
    yield 'united again', UnionSource([UnionSource([{'mid': halves[0]}, {'mid': halves[1]}], merge='combine'), {'x': doc['x']}])


    yield 'mounted', MountSource(x=DefaultSource(doc['x']), mid=JsonSource(json.dumps(mid)))
    if how in ('form', 'dict'):
        yield 'mounted union', MountSource(x=DefaultSource(doc['x']), mid=UnionSource(halves, merge='combine'))


# Other ways to derive a value

def capture(rep):
    """The group of a pattern named like the field (or as asked), else the first."""
    patterns = [r'(\d+)', r'(?P<f>[a-z]+)(\d)?', r'(?P<o>.)(?P<f>.)', r'(?P<o>.)(.)', r'abc', r'(x)?(y)?', r'^(?P<f>.*)$']
    values = [ABSENT, None, '', '12', 'abc', 'a1', 'xy', 'y', '  ', 5]
    for pattern, name, value, default, compiled, made in itertools.product(
            patterns, (None, 'f', 'o', 'nope'), values, (None, pilo.NONE, 'dflt', 'unset'), (False, True),
            ('new', 'copy', 'copy of another')):
        field = pf.String('f', nullable=True).capture(re.compile(pattern) if compiled else pattern, name)
        if default != 'unset':
            field.options(default=default)
        if made == 'copy of another':
            type(pilo.Form)('Another', (pilo.Form,), {'o': field})
        if made != 'new':
            field = field.clone()
        cls = type(pilo.Form)('Capture', (pilo.Form,), {'f': field, 'after': pf.Field(default=1)})
        err, want = [], ABSENT
        m = re.match(pattern, value) if isinstance(value, str) else None
        if value is None:
            want = None
        elif isinstance(value, int):
            err, want = [('Invalid', 'f')], ABSENT
        else:
            hit = ABSENT
            if m is not None:
                for g in (name or 'f', 1):
                    try:
                        hit = m.group(g)
                        break
                    except IndexError:
                        pass
            want = hit
            if hit is ABSENT:
                if default == 'unset':
                    err = [('Missing', 'f')]
                elif default is not pilo.NONE:
                    want = default
        rep.eval()
        form = cls()
        got = build.errors_of(form.map({} if value is ABSENT else {'f': value}))
        rep.outcome((pattern, name, got, repr(want)))
        expected_ = {'after': 1}
        if want is not ABSENT:
            expected_['f'] = want
        rep.check(got == err and form == expected_, lambda: '{0!r} {1!r}, expected {2!r} {3!r}'.format(
            form, got, expected_, err), sub=(pattern, name, value, default, made))


def parent(rep):
    """A value that has its parent attached knows the form it is in."""
    class Kid(pilo.Form):
        n = pf.Integer()

    for nullable, value, depth in itertools.product((True, False), (ABSENT, None, {'n': 1}, {'n': 'x'}, 5), (0, 1, 2)):
        field = pf.SubForm(Kid, attach_parent=True, nullable=nullable, default=pilo.NONE)
        owner = type(pilo.Form)('Owner', (pilo.Form,), {'x': pf.Integer(default=3), 'kid': field, 'y': pf.Integer(default=4)})
        cls, path, doc = owner, [], {} if value is ABSENT else {'kid': value}
        for i in range(depth):
            cls = type(pilo.Form)('Level', (pilo.Form,), {'down': pf.SubForm(cls), 'x': pf.Integer(default=9)})
            doc = {'down': doc}
        rep.eval()
        form = cls()
        try:
            err = form.map(doc)
        except Exception as ex:
            rep.fail('{0!r} escaped'.format(ex), sub=(nullable, value, depth))
            continue
        bad = value == {'n': 'x'} or value == 5 or (value is None and not nullable)
        rep.check(bool(err) == bad, 'errors {0!r}'.format(err), sub=(nullable, value, depth))
        rep.outcome((bool(err), repr(value), depth))
        if bad:
            continue
        for i in range(depth):
            form = form['down']
        rep.check((form.get('kid', ABSENT) is ABSENT) == (value is ABSENT), 'kid is {0!r}'.format(form), sub=(value, depth))
        if value == {'n': 1}:
            kid = form['kid']
            rep.check(kid == {'n': 1} and kid.parent == form and kid.parent.x == 3 and kid.parent.y == 4 and
                      kid.parent.kid is kid, 'the parent of {0!r} is {1!r}'.format(kid, kid.parent), sub=(value, depth))


def from_context(rep):
    """A field from the context reads the variable of its name or source, nothing else."""
    for outer, inner, kind, depth, default, where, made in itertools.product(
            (ABSENT, 1, 'q', None), (ABSENT, 2), ('Integer', 'Field'), (0, 1), (pilo.NONE, 7),
            (None, 'who', 'who.id'), ('new', 'copy')):
        args = () if where is None else (where,)
        field = getattr(pf, kind)(*args, default=default, nullable=True).from_context()
        if made == 'copy':
            field, first = field.clone(), field
            type(pilo.Form)('Another', (pilo.Form,), {'who_else': first})
        cls = type(pilo.Form)('FromContext', (pilo.Form,), {
            'before': pf.Field(default=pilo.NONE), 'user_id': field, 'after': pf.Field(default=pilo.NONE)})
        doc = {'before': 'b', 'user_id': 99, 'after': 'a', 'who': 98}
        if depth:
            cls = type(pilo.Form)('Level', (pilo.Form,), {'down': pf.SubForm(cls), 'z': pf.Field()})
            doc = {'down': doc, 'z': 5}
        rep.eval()
        form = cls()
        seen = outer if inner is ABSENT else inner
        frames = [v for v in (outer, inner) if v is not ABSENT]

        def go(frames):
            if not frames:
                return form.map(doc)
            var = {'user_id': frames[0]}
            if where == 'who':
                var = {'who': frames[0], 'user_id': 97}
            elif where:
                var = {'who': {'id': frames[0]}, 'user_id': 97}
            with pilo.ctx(**var):
                return go(frames[1:])
        err = build.errors_of(go(frames))
        want = {'before': 'b', 'after': 'a'}
        bad = kind == 'Integer' and seen == 'q'
        if seen is ABSENT:
            if default is not pilo.NONE:
                want['user_id'] = default
        elif not bad:
            want['user_id'] = seen
        rep.check(bool(err) == bad, 'errors {0!r}'.format(err), sub=(outer, inner, kind, depth, where))
        rep.outcome((bad, repr(want)))
        if bad:
            continue
        want = {'down': want, 'z': 5} if depth else want
        rep.check(plain(form) == want, '{0!r}, expected {1!r}'.format(form, want), sub=(outer, inner, kind, depth, default, where))
        rep.check(build.fresh_context(), 'context left behind', sub=(outer, inner, kind, depth))


# A hook that reads a form of its own: nothing of the document mapped around it

def foreign_forms():
    class Own(pilo.Form):

        x = pf.Integer(default=70)
        y = pf.String(default='own')
        z = pf.Integer(default=pilo.NONE)
        hook = pf.Integer()
        sum = pf.Integer()
        text = pf.String().format('{x}-{y}', x='x', y='y')
        items = pf.List(pf.Integer(), default=list)

        @hook.default
        def hook(self):
            return 71

        @sum.compute
        def sum(self):
            return self.x + self.hook

    return Own


READS = ['x', 'y', 'z', 'hook', 'sum', 'text', 'items']
OWN = [('empty', {}), ('filled', {'x': 1, 'y': 'f', 'hook': 2}), ('part', {'x': 3})]


def foreign(rep):
    Own = foreign_forms()
    for how, own in OWN:
        for hook, name, place, source, ambient in itertools.product(
                ('compute', 'munge', 'default', 'filter', 'validate', 'resolve'), READS, ('root', 'sub', 'list', 'dict'),
                ('plain', 'json', 'union'), (False, True)):
            kept, seen = [], []

            def read():
                if not kept:
                    form = Own()
                    if own and not ambient:
                        form.map(own)
                    else:
                        for k, v in own.items():
                            form[k] = v
                    kept.append(form)
                got = getattr(kept[0], name, 'absent')
                seen.append(got)
                return got
            f = pf.Field(nullable=True)
            if hook == 'compute':
                f.compute(lambda self: read())
            elif hook == 'munge':
                f.munge(lambda self, value: read())
            elif hook == 'default':
                f.default(lambda self: read())
            elif hook == 'resolve':
                f.resolve(lambda self: (read(), self.ctx(src='v'))[1])
            else:
                getattr(f, hook)(lambda self, value: (read(), True)[1])
            inner = {'v': 5, 'x': 11, 'y': 'doc', 'z': 12, 'hook': 13, 'sum': 14, 'text': 'doc', 'items': [1]}
            if hook == 'default':
                del inner['v']
            cls = type(pilo.Form)('Reads', (pilo.Form,), {'v': f, 'x': pf.Integer()})
            want = {'x': 11}
            env = dict({'x': 70, 'y': 'own', 'hook': 71, 'items': []}, **own)
            env.update(sum=env['x'] + env['hook'], text='{0}-{1}'.format(env['x'], env['y']), z='absent')
            if own and not ambient:
                env['items'] = []
            want['v'] = env[name] if hook in ('compute', 'munge', 'default') else 5
            doc = dict(inner)
            if place != 'root':
                cls = type(pilo.Form)('Around', (pilo.Form,), {
                    'h': pf.SubForm(cls) if place == 'sub' else pf.List(pf.SubForm(cls)) if place == 'list'
                    else pf.Dict(pf.String(), pf.SubForm(cls))})
                wrap = (lambda v: v) if place == 'sub' else (lambda v: [v]) if place == 'list' else (lambda v: {'k': v})
                doc, want = dict(inner, h=wrap(inner)), {'h': wrap(want)}
            rep.eval()
            sub = (how, hook, name, place, source, ambient)
            form = cls()
            try:
                err = build.errors_of(form.map(
                    doc if source == 'plain' else JsonSource(json.dumps(doc)) if source == 'json' else UnionSource([doc])))
            except Exception as ex:
                rep.fail('{0!r} escaped'.format(ex), sub=sub)
                continue
            rep.outcome((hook, name, repr(seen[:1])))
            rep.check(not err and seen and seen[0] == env[name] and plain(form) == want,
                      'the hook read {0!r}, expected {1!r}: {2!r} {3!r}'.format(seen, env[name], form, err), sub=sub)
            rep.check(build.fresh_context(), 'context left behind', sub=sub)


# A field that was mapped is not mapped again to be referred to

def once(rep):
    for value, to, where, readers in itertools.product(
            (ABSENT, None, 0, 1, '', 'a', [], [0], False), ('same', None, 0, '', ()), ('root', 'sub', 'list', 'kept'),
            [r for n in (1, 2, 3) for r in itertools.combinations(('compute', 'munge', 'default', 'filter', 'validate', 'format'), n)]):
        runs, seen = [], []
        a = pf.Field(default=None, nullable=True)

        @a.munge
        def munge(self, value):
            runs.append(value)
            return value if to == 'same' else to
        mapped = value if to == 'same' else to
        if value is ABSENT:
            mapped = None
        inner = type(pilo.Form)('Inner', (pilo.Form,), {'a': a})

        def read():
            form = pilo.ctx.form
            v = form.a if where == 'root' else form.s.a if where == 'sub' else form.s[0].a if where == 'list' else form['a']
            seen.append(v)
            return v
        first = {'root': lambda: {'a': a}, 'kept': lambda: {'a': a}, 'sub': lambda: {'s': pf.SubForm(inner)},
                 'list': lambda: {'s': pf.List(pf.SubForm(inner))}}[where]()
        for how in readers:
            field = pf.String() if how == 'format' else pf.Field() if how == 'default' else pf.Field(default=pilo.NONE)
            if how == 'compute':
                field.compute(lambda self: [read()])
            elif how == 'munge':
                field.munge(lambda self, value: [read()])
            elif how == 'default':
                field.default(lambda self: [read()])
            elif how == 'filter':
                field.filter(lambda self, value: read() is read())
            elif how == 'validate':
                field.validate(lambda self, value: read() is read())
            else:
                field.format('{a}', a={'root': 'a', 'kept': 'a', 'sub': 's.a', 'list': 's'}[where])
            first['z_' + how] = field
        cls = type(pilo.Form)('Once', (pilo.Form,), first)
        doc = {} if value is ABSENT else {'a': value}
        doc = {'sub': {'s': doc}, 'list': {'s': [doc]}}.get(where, doc)
        doc.update(('z_' + how, 1) for how in readers if how != 'default')
        rep.eval()
        form = cls()
        err = build.errors_of(form.map(doc))
        rep.outcome((repr(value), repr(to), where, len(seen)))
        want = 0 if value is ABSENT else 1
        rep.check(err == [] and len(runs) == want and all(v is mapped or v == mapped for v in seen),
                  lambda: '{0!r} munged to {1!r} was mapped {2} times, read as {3!r}: {4!r} {5!r}'.format(
                      value, to, len(runs), seen, form, err), sub=(value, to, where, readers))
        del seen[:]
        with pilo.ctx(form=form):
            read()
        rep.check(len(runs) == want and seen == [mapped],
                  lambda: '{0!r} was read as {1!r} afterwards, mapped {2} times'.format(value, seen, len(runs)),
                  sub=(value, to, where, readers))


def lazy(rep):
    """Fields of a form that was not mapped, which refer to each other, are kept when they are read."""
    hooks = ('compute', 'default')
    for hows in itertools.product(hooks, repeat=3):
        for start in (hows[0], 'literal'):
            for value in (0, 1, 'x', [], None):
                for order in itertools.permutations('abc'):
                    for reads in itertools.product('abc', repeat=2):
                        runs = []

                        def hook(name, how, f):
                            field = pf.Field(nullable=True)

                            def run(self):
                                runs.append(name)
                                return f(self)
                            getattr(field, how)(run)
                            return field
                        make = {
                            'a': lambda: pf.Field(default=value) if start == 'literal' else hook('a', hows[0], lambda self: value),
                            'b': lambda: hook('b', hows[1], lambda self: [self.a]),
                            'c': lambda: hook('c', hows[2], lambda self: [self.b, self.a]),
                        }
                        made = [(n, make[n]()) for n in order]
                        form = type(pilo.Form)('Lazy', (pilo.Form,), dict(made))()
                        rep.eval()
                        want = {'a': value, 'b': [value], 'c': [[value], value]}
                        got = [getattr(form, n) for n in reads]
                        rep.outcome((hows, start, repr(value), reads))
                        kept = all(n in form for n in reads) and all(form[n] == want[n] for n in form)
                        del runs[:]
                        again = [getattr(form, n) for n in reads]
                        rep.check(
                            kept and not runs and got == again == [want[n] for n in reads],
                            lambda: 'reading {0} gave {1!r}, holds {2!r}; again {3!r}, running {4}'.format(
                                reads, got, form, again, runs),
                            sub=(hows, start, value, order, reads))


def own(rep):
    """Fields of a form that has a source of its own are read from it, as mapping it would read them."""
    class Own(pilo.Form):
        a = pf.Integer()
        b = pf.String('k', default='d')
        c = pf.List(pf.Integer(), default=pilo.NONE)

        d = pf.Integer()

        @d.compute
        def d(self):
            return self.a + 1

        e = pf.String().format('{b}.', b='b')

    docs = [dict(a=a, k=k, c=c) for a in (1, 'x', ABSENT) for k in ('x', None, ABSENT) for c in ([1, 2], 5, ABSENT)]
    for doc in docs:
        doc = dict((k, v) for k, v in doc.items() if v is not ABSENT)
        want = {}
        if doc.get('a') == 1:
            want['a'], want['d'] = 1, 2
        want['b'] = doc.get('k', 'd')
        if want['b'] is None:
            del want['b']
        else:
            want['e'] = want['b'] + '.'
        if isinstance(doc.get('c'), list):
            want['c'] = doc['c']
        if doc.get('k', 0) is None:
            continue  # not nullable unless its default is null
        for kind in (lambda: DefaultSource(doc), lambda: JsonSource(json.dumps(doc)), lambda: UnionSource([doc, {}])):
            for how in ('form', 'class', 'base'):
                cls = Own
                if how != 'form':
                    cls = type(pilo.Form)('Sourced', (Own,), {'src': kind()})
                if how == 'base':
                    cls = type(pilo.Form)('Derived', (cls,), {})
                for n in (1, 2, 3):
                    for reads in itertools.permutations('abcde', n):
                        form = cls()
                        if how == 'form':
                            form.src = kind()
                        rep.eval()
                        got = {}
                        for name in reads:
                            try:
                                got[name] = getattr(form, name)
                            except (AttributeError, pf.FormError):
                                pass
                        rep.outcome((how, reads, sorted(got.items(), key=repr)))
                        rep.check(got == dict((k, want[k]) for k in reads if k in want) and
                                  set(got) <= set(form) and all(form[k] == want.get(k, ABSENT) for k in form),
                                  lambda: 'reading {0} gave {1!r} and left {2!r}, expected of {3!r}'.format(reads, got, form, want),
                                  sub=(doc, how, reads))
