"""
C14: a form is a record: after any history of mapping, setting, deleting and
reading it holds exactly what the last operation on each field left there.

Breadth-first search over histories of operations on real forms, in lock-step
with a model that keeps a plain dict.
"""
import copy

import pilo
from pilo import fields as pf
from pilo.fields import FormError

from .. import build, ref
from ..ref import F, FS

LEVEL = 'model_checking'
RULE = ''
ASSUMPTIONS = ['one history at a time (C03 has several threads)']

SUB = FS(F('Integer', 'x'), F('Integer', 'y', default=('lit', 2), tags=('t',)), name='Sub')
FORM = FS(
    F('Integer', 'a', max_value=9, tags=('t',)),
    F('Integer', 'b', src='bb', default=('lit', 5), tags=('t', 'u')),
    F('String', 'c', default='NONE', tags=('u',)),
    F('Integer', 'd', default=('hook', 8)),
    F('SubForm', 's', form=SUB, default='NONE', tags=('u',)),
    name='Rec',
)
# not mapped here but computed: e is b + 1
NAMES = ['a', 'b', 'c', 'd', 's', 'e']

DOCS = [
    {'a': 1, 'bb': 2, 'c': 'k', 'd': 3, 's': {'x': 1}},
    {'a': 2},
    {'c': 'l', 'd': None, 'z': 7},
    {'a': 'bad', 'bb': 4, 'z': 8},
    {'a': 3, 'bb': 'bad', 's': {'x': 'bad'}, 'd': 6},
    {},
]
TAGS = [None, ['t'], ['u'], ['t', 'u'], ['none']]


def operations():
    ops = []
    for i in range(len(DOCS)):
        for reset in (False, True):
            ops.append(('map', i, None, reset, 'ignore'))
    for i in (0, 1, 3):
        for t in range(1, len(TAGS)):
            ops.append(('map', i, t, i != 1, 'ignore'))
    ops.append(('map', 1, 1, False, 'ignore'))
    for i in (0, 2, 3):
        ops.append(('map', i, None, False, 'capture'))
        ops.append(('map', i, 2, True, 'capture'))
    for i in (0, 3, 4):
        ops.append(('raise', i))
    ops.append(('ambient', 0, 1))
    for n in ('a', 'b', 'c'):
        ops.append(('set', n, 70))
        ops.append(('item', n, None))
        ops.append(('del', n))
    ops.append(('delitem', 'b'))
    ops.append(('delitem', 'zz'))
    ops.append(('update', {'a': 71, 'zz': 1}))
    ops.append(('clear',))
    ops.append(('pop', 'd'))
    for n in NAMES:
        ops.append(('get', n))
        ops.append(('has', n))
    ops.append(('has', 'zz'))
    ops.append(('hasfield', 'b'))
    ops.append(('hasfield', 'c'))
    ops.append(('copy',))
    ops.append(('swap',))
    return ops


OPS = operations()


def freeze(v):
    if isinstance(v, ref.RForm):
        return 'form', tuple(sorted((k, freeze(x)) for k, x in v.items()))
    return repr(v)


def dup(form):
    other = ref.RForm(form)
    other.cls = form.cls
    return other


def m_map(form, doc, tags=None, unmapped='ignore', reset=False, stop=False):
    """-> errors; changes the model form in place."""
    env = ref.Env()
    if reset:
        for f in FORM.fields:
            if not tags or set(tags) & set(f.tags):
                form.pop(f.name, None)
        if not tags:
            form.pop('e', None)
    for f in FORM.fields:
        if tags and not set(tags) & set(f.tags):
            continue
        v = m_field(f, doc, env, tags)
        if stop and env.errors:
            return env.errors
        if not ref.skip(v):
            form[f.name] = v
    if not tags:
        # e, computed
        if 'b' in form:
            form['e'] = form['b'] + 1 if isinstance(form['b'], int) else 0
        else:
            v = m_field(FORM.fields[1], doc, env, tags)
            form['e'] = v + 1 if isinstance(v, int) else 0
    if unmapped == 'capture':
        for k in doc:
            if k not in form:
                form[k] = doc[k]
    return env.errors


def m_field(f, doc, env, tags=None):
    # tags given to map() are for its own fields, not for those of sub-forms
    return ref.map_field(f, doc, [], env)


def m_get(form, name):
    """Reading a field that has no value: its default, if it has one."""
    if name in form:
        return form[name]
    if name == 'a':
        return 'FormError'
    if name in ('c', 's'):
        return 'AttributeError'
    if name == 'b':
        form['b'] = 5
    elif name == 'd':
        form['d'] = 8
    elif name == 'e':
        b = form.get('b', 5)
        form['e'] = b + 1 if isinstance(b, int) else 0
    return form[name]


def m_step(state, op):
    """-> (state, answer); a state is [form, copy or None]."""
    form, other = dup(state[0]), state[1]
    kind = op[0]
    out = None
    if kind == 'map':
        out = m_map(form, DOCS[op[1]], TAGS[op[2]] if op[2] else None, op[4], op[3])
    elif kind == 'raise':
        errs = m_map(form, DOCS[op[1]], stop=True)
        out = 'raised' if errs else 'form'
    elif kind == 'ambient':
        env = ref.Env()
        tags = TAGS[op[2]]
        for f in FORM.fields:
            if set(tags) & set(f.tags):
                v = ref.map_field(f, DOCS[op[1]], [], env)
                if not ref.skip(v):
                    form[f.name] = v
        out = env.errors
    elif kind in ('set', 'item'):
        form[op[1]] = op[2]
    elif kind == 'del':
        form.pop(op[1], None)
    elif kind in ('delitem',):
        out = 'deleted' if op[1] in form else 'KeyError'
        form.pop(op[1], None)
    elif kind == 'update':
        form.update(op[1])
    elif kind == 'clear':
        form.clear()
    elif kind == 'pop':
        out = form.pop(op[1], 'nothing')
    elif kind == 'get':
        out = m_get(form, op[1])
    elif kind == 'has':
        if op[1] == 'zz':
            out = 'zz' in form
        elif op[1] in form:
            out = True
        else:
            out = m_get(form, op[1]) not in ('FormError', 'AttributeError')
    elif kind == 'hasfield':
        v = m_get(form, op[1])
        out = v is not None and v != 'AttributeError'
    elif kind == 'copy':
        other = dup(form)
    elif kind == 'swap':
        if other is not None:
            form, other = other, form
    return [form, other], out


def key(state):
    return freeze(state[0]), None if state[1] is None else freeze(state[1])


def make():
    b = build.Builder()
    cls = b.form(FORM)

    def compute(self):
        v = self.b
        return v + 1 if isinstance(v, int) else 0

    dikt = {'e': pf.Integer()}
    dikt['e'].compute(compute)
    return type(pilo.Form)('Rec', (cls,), dikt)


CLS = []


def r_step(pair, op):
    form = pair[0]
    kind = op[0]
    if kind == 'map':
        tags = TAGS[op[2]] if op[2] else None
        if op[1] % 2 and tags:
            tags = set(tags)
        return build.errors_of(form.map(copy.deepcopy(DOCS[op[1]]), tags=tags, reset=op[3], unmapped=op[4]))
    if kind == 'raise':
        try:
            return 'form' if form.map(copy.deepcopy(DOCS[op[1]]), error='raise') is form else 'other'
        except FormError:
            return 'raised'
    if kind == 'ambient':
        with pilo.ctx(tags=TAGS[op[2]]):
            return build.errors_of(form.map(copy.deepcopy(DOCS[op[1]])))
    if kind == 'set':
        setattr(form, op[1], op[2])
    elif kind == 'item':
        form[op[1]] = op[2]
    elif kind == 'del':
        delattr(form, op[1])
    elif kind == 'delitem':
        try:
            del form[op[1]]
            return 'deleted'
        except KeyError:
            return 'KeyError'
    elif kind == 'update':
        form.update(op[1])
    elif kind == 'clear':
        form.clear()
    elif kind == 'pop':
        return form.pop(op[1], 'nothing')
    elif kind == 'get':
        try:
            return getattr(form, op[1])
        except FormError:
            return 'FormError'
        except AttributeError:
            return 'AttributeError'
    elif kind == 'has':
        return form.has(op[1])
    elif kind == 'hasfield':
        return form.has(getattr(type(form), op[1]))
    elif kind == 'copy':
        pair[1] = form.copy()
    elif kind == 'swap':
        if pair[1] is not None:
            pair[0], pair[1] = pair[1], pair[0]
    return None


def depth(tier):
    return 4 if tier == 'quick' else 5


def cases(tier):
    for i in range(len(OPS)):
        yield tier, (i,)
    for i in range(len(LAZY)):
        yield 'lazy', i


def bounds(tier):
    return {'operations': len(OPS), 'history': depth(tier), 'documents': len(DOCS),
            'kinds of values read from a field that holds nothing': len(LAZY), 'ways': [w for w, _ in WAYS]}


def run(case, rep):
    if case[0] == 'lazy':
        return lazy(LAZY[case[1]], rep)
    tier, first = case
    if not CLS:
        CLS.append(make())
    init = ref.RForm()
    init.cls = 'Rec'
    state, hist = [init, None], []
    outs = []
    for i in first:
        state, out = m_step(state, OPS[i])
        hist.append(i)
        outs.append(out)
    if not check(rep, hist, state, outs):
        return
    seen = {key(state)}
    frontier = [(hist, state, outs)]
    for _ in range(depth(tier) - len(first)):
        nxt = []
        for hist, state, outs in frontier:
            for i, op in enumerate(OPS):
                rep.count('transitions')
                new, out = m_step(state, op)
                h, o = hist + [i], outs + [out]
                if not check(rep, h, new, o):
                    return
                k = key(new)
                if k in seen:
                    continue
                seen.add(k)
                nxt.append((h, new, o))
        frontier = nxt


def check(rep, hist, state, outs):
    rep.eval()
    rep.state(key(state))
    pair = [CLS[0](), None]
    got = None
    try:
        for i in hist[:-1]:
            r_step(pair, OPS[i])
        got = r_step(pair, OPS[hist[-1]])
    except Exception as ex:
        rep.fail('{0!r} escaped'.format(ex), sub=[OPS[i] for i in hist])
        return False
    rep.outcome((OPS[hist[-1]], repr(got)))
    want = outs[-1]
    ok = got == want if not isinstance(want, ref.RForm) else build.same(got, want)
    if not rep.check(ok, 'answered {0!r}, expected {1!r}'.format(got, want), sub=[OPS[i] for i in hist]):
        return False
    for real, model, what in ((pair[0], state[0], 'form'), (pair[1], state[1], 'copy')):
        if model is None:
            ok = real is None
        else:
            ok = build.same(real, model) and view(real, model) and type(real) is CLS[0]
        if not rep.check(ok, 'the {0} is {1!r}, expected {2!r}'.format(what, real, model),
                         sub=[OPS[i] for i in hist]):
            return False
    if not rep.check(build.fresh_context(), 'context left behind', sub=[OPS[i] for i in hist]):
        return False
    if len(rep.samples) < 2 and len(hist) == 4:
        rep.sample({'history': repr([OPS[i] for i in hist]), 'form': repr(state[0])})
    return True


def view(real, model):
    """Attributes and items are two views of one record."""
    return all(getattr(real, n) is real[n] for n in NAMES if n in model) and len(real) == len(model)


# Values that a field gives when it is first read, of every kind

LAZY = [None, 0, 1, False, '', 'v', (), [], [0], [None], {}, {'k': None}, 0.0, pilo.NONE]
LAZY_FIELDS = ['literal', 'callable', 'computed', 'other']
WAYS = [
    ('attribute', lambda form: getattr(form, 'v', 'absent')),
    ('has', lambda form: form.has('v')),
    ('hasfield', lambda form: form.has(type(form).v)),
    ('other', lambda form: getattr(form, 'w', 'absent')),
    ('twice', lambda form: [getattr(form, 'v', 'absent'), getattr(form, 'v', 'absent')]),
]
# no fields of the form
OTHERS = ['map', 'copy', 'fields', 'keys', 'nothing', '', 'pop', '__doc__', '__init__', 'K', 'unset', 'meth', 'prop']


def lazy_form(value, how):
    f = pf.Field(nullable=True)
    if how == 'literal':
        f = pf.Field(default=value, nullable=True)
    elif how == 'callable':
        f = pf.Field(nullable=True)
        f.default(lambda self: value)
    elif how == 'computed':
        f.compute(lambda self: value)
    else:
        f = pf.Field(nullable=True)
        f.compute(lambda self: self.u)
    w = pf.Field(default=pilo.NONE, nullable=True)
    w.compute(lambda self: self.v)
    u = pf.Field(default=value, nullable=True)
    return type(pilo.Form)('Lazy', (pilo.Form,), {
        'u': u, 'v': f, 'w': w, 'K': 5, 'unset': None, 'meth': lambda self: 1, 'prop': property(lambda self: 2),
    })


def lazy(value, rep):
    nothing = value is pilo.NONE
    for how in LAZY_FIELDS:
        if how != 'literal' and nothing:
            continue
        cls = lazy_form(value, how)
        for mapped in (False, True):
            for (n1, w1), (n2, w2) in [(a, b) for a in WAYS for b in WAYS]:
                if nothing and 'other' in (n1, n2):
                    continue
                form = cls()
                if mapped:
                    # only a field without the tag of the mapping
                    form.map({'u': 1}, tags=['none'])
                rep.eval()
                try:
                    got = w1(form), w2(form)
                except Exception as ex:
                    rep.fail('{0!r} escaped'.format(ex), sub=(how, value, n1, n2))
                    continue
                rep.outcome((how, n1, n2, repr(got)))
                for name, answer, first in ((n1, got[0], True), (n2, got[1], False)):
                    if name in ('has', 'hasfield'):
                        if value is None:
                            # whether a null counts is up to how it is asked
                            continue
                        want = not nothing
                    else:
                        want = 'absent' if nothing else value
                        if name == 'twice':
                            want = [want, want]
                    rep.check(same(answer, want), '{0} gives {1!r}, expected {2!r}'.format(name, answer, want),
                              sub=(how, value, n1, n2, mapped))
                held = {} if nothing else {'v': value}
                if 'other' in (n1, n2):
                    held['w'] = value
                rest = {k: v for k, v in form.items() if k != 'u'}
                if (n1, n2) == ('other', 'other') and 'v' not in rest:
                    # read by another field only: read again from the source each time
                    del held['v']
                rep.check(same(sorted(rest.items()), sorted(held.items())) and (
                              'v' not in rest or same(form['v'], form.v)),
                          'the form holds {0!r}, expected {1!r}'.format(rest, held), sub=(how, value, n1, n2, mapped))
        if how == 'literal' and not nothing:
            assigned(value, rep)
        for name in OTHERS:
            for mapped in (False, True):
                form = cls()
                if mapped:
                    form.map({})
                rep.eval()
                got = form.has(name)
                rep.check(got is False, 'has({0!r}) is {1!r} though there is no such field'.format(name, got),
                          sub=(how, value))
                form[name] = 1
                rep.check(form.has(name) is True, 'has({0!r}) is not True with such a key'.format(name), sub=(how, value))


def assigned(value, rep):
    """What is assigned is held, whatever the field would accept from a source."""
    for f in (pf.Integer(), pf.Integer(nullable=False, min_value=3), pf.String(default='d'), pf.Boolean(ignore=value),
              pf.List(pf.Integer()), pf.Field(default=pilo.NONE).translate({5: 6}), pf.Dict(pf.String(), pf.String())):
        for before in ('nothing', 'mapped', 'set', 'deleted'):
            cls = type(pilo.Form)('Held', (pilo.Form,), {'v': f.clone(), 'o': pf.Field(default=1)})
            form = cls()
            if before == 'mapped':
                form.map({'v': 5, 'o': 2})
            elif before == 'set':
                form.v = 4
            elif before == 'deleted':
                form.v = 4
                del form.v
                del form.v
            form.v = value
            rep.eval()
            rep.check('v' in form and form['v'] is value and form.v is value and form.has('v') is True and dict(
                form.copy()) == dict(form), 'set to {0!r} it holds {1!r}'.format(value, form), sub=(type(f).__name__, before))
            del form.v
            rep.check('v' not in form, 'deleted it holds {0!r}'.format(form), sub=(type(f).__name__, before, value))
            form['v'] = value
            rep.check(form.v is value, 'as an item it reads {0!r}'.format(form.v), sub=(type(f).__name__, before, value))


def same(a, b):
    return type(a) is type(b) and repr(a) == repr(b)
