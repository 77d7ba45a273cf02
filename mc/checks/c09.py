"""
C09: a form is what its class statement and its bases say: the fields of the
bases, overrides in place, additions after them, in declaration order; and a
copy of a field is independent of the field.
"""
import itertools

import pilo
from pilo import fields as pf

from .. import build, ref
from ..ref import F, FS, UNSET

LEVEL = 'exploration'
RULE = (
    'one case per class hierarchy (or per field and change to its copy); each is run on all '
    'documents of its alphabet; distinct by (field order, errors, value)'
)
ASSUMPTIONS = []

NAMES = ('z', 'a', 'm')


def variants(name, level):
    """A field of one class of the hierarchy, recognisable by its bound."""
    return F('Integer', name, max_value=10 * (level + 1), tags=('l%d' % level,))


def declare(names, level, removed=()):
    return [variants(n, level) for n in names]


def orders(tier):
    out = []
    for n in range(0, 4):
        out.extend(itertools.permutations(NAMES, n))
    return out


def cases(tier):
    first = orders(tier)
    for a in first:
        for b in first:
            yield 'chain', (a, b)
    for a, b, c in itertools.product(
            [o for o in first if len(o) in (1, 2)], [o for o in first if len(o) <= 2],
            [o for o in first if len(o) <= (1 if tier == 'quick' else 3)]):
        yield 'chain', (a, b, c)
        yield 'diamond', (a, b, c)
        yield 'mixin', (a, b, c)
        yield 'siblings', (a, b, c)
    for o in first:
        for gone in NAMES:
            yield 'remove', (o, gone)
        yield 'from_fields', (o,)
        yield 'late', (o,)
        for alias in ('alias', 'zz'):
            yield 'shared', (o, alias)
        for p in first:
            yield 'early', (o, p)
    for f in FIELDS:
        for src in (UNSET, 'f', 'k'):
            yield 'elsewhere', (f, src)
    for f in FIELDS:
        for change in CHANGES:
            for which in ('copy', 'original'):
                for attached in (False, True, 'used'):
                    yield 'clone', (f, change, which, attached)
    for f, places in CONTAINERS:
        for place in places:
            for ch in CHANGES:
                for which in ('copy', 'original', 'copy of the copy'):
                    for attached in (False, True, 'used'):
                        yield 'items', (f, place, ch, which, attached)
    for f in FIELDS:
        for attached in (False, True):
            yield 'constant', (f, attached)
    for what in ('capture', 'from_context', 'munge', 'compute'):
        yield 'renamed', (what,)


def bounds(tier):
    return {'classes per hierarchy': '1..4', 'names': NAMES, 'declaration orders': len(orders(tier)),
            'copied fields': len(FIELDS), 'changes': len(CHANGES)}


# Hierarchies. The model: every declared field has a number in order of
# creation; an override takes the number of what it overrides.

class Model(object):

    def __init__(self, number, decl, mro):
        self.number, self.decl, self.mro = number, decl, mro


def linear(bases):
    """The C3 order for the shapes used here (from real Python classes)."""
    return type('X', tuple(bases), {}).__mro__[1:]


class World(object):

    def __init__(self):
        self.n = 0
        self.models = {}
        self.b = build.Builder()

    def make(self, name, specs, bases, plain=False):
        """Declare a class; -> (class, its expected field specs in order)."""
        fields, numbered = {}, {}
        for f in specs:
            self.n += 1
            fields[f.name] = self.b.field(f)
            numbered[f.name] = [self.n, f]
        if plain:
            cls = type(name, (object,), fields)
            self.models[cls] = numbered
            return cls
        cls = type(pilo.Form)(name, tuple(bases), fields)
        for n in numbered:
            for base in cls.__mro__[1:]:
                if self.models.get(base, {}).get(n) is not None:
                    numbered[n][0] = self.models[base][n][0]
                    break
        self.models[cls] = numbered
        return cls

    def expected(self, cls):
        seen = {}
        for base in cls.__mro__:
            for n, item in self.models.get(base, {}).items():
                seen.setdefault(n, item)
        items = sorted((x for x in seen.items() if x[1] is not None), key=lambda x: (x[1][0], x[0]))
        return [item[1] for _, item in items]


DOCS = [
    {}, {'z': 1, 'a': 1, 'm': 1}, {'z': 15, 'a': 15, 'm': 15}, {'z': 25, 'a': 25, 'm': 25},
    {'z': 35, 'a': 5, 'm': 15}, {'z': 'x', 'a': 12, 'm': None}, {'m': 1, 'a': 100}, {'z': 22},
]

POSITIONS = [(), (1,), (1, 12), (22, 2, 13), ('x', 25, 1), (5, None, 'x')]


def judge(world, cls, rep, where):
    want = world.expected(cls)
    got = [f.name for f in cls.fields]
    rep.eval()
    rep.outcome(tuple(got))
    if not rep.check(got == [f.name for f in want], 'fields are {0}, expected {1}'.format(
            got, [f.name for f in want]), sub=where):
        return
    rep.check(all(getattr(cls, f.name) is r for f, r in zip(want, cls.fields)), 'fields are the attributes', sub=where)
    fs = FS(*want, name=cls.__name__)
    world.b.forms[id(fs)] = cls, fs
    for d in DOCS:
        build.compare(rep, world.b, fs, d, where=(where, d))
    # by position, in that order
    for d in POSITIONS if got else []:
        rep.eval()
        named, seq = cls(), cls()
        want_errors = build.errors_of(named.map(dict(zip(got, d))))
        errors = build.errors_of(seq.map(list(d)))
        rep.check(errors == want_errors and dict(seq) == dict(named), lambda: '{0!r} gives {1!r} {2}, expected {3!r} {4}'.format(
            d, seq, errors, named, want_errors), sub=(where, d))
    # tags of the class that wins
    for f in want:
        rep.check(set(getattr(cls, f.name).tags) == set(f.tags), 'tags of an override', sub=where)
    # in the same order when read back and when listed flat
    form = cls({'z': 1, 'a': 1, 'm': 1})
    names = [path[0].name for path, _ in form.flatten()]
    rep.check(names == [f.name for f in want], 'flatten order {0}'.format(names), sub=where)
    rep.check(list(form) == [f.name for f in want], 'order of the values {0}'.format(list(form)), sub=where)


def run(case, rep):
    kind, args = case
    w = World()
    if kind == 'chain':
        classes, base = [], pilo.Form
        for level, names in enumerate(args):
            base = w.make('L%d' % level, declare(names, level), [base])
            classes.append(base)
        for cls in classes:
            judge(w, cls, rep, case)
    elif kind == 'siblings':
        base = w.make('Base', declare(args[0], 0), [pilo.Form])
        one = w.make('One', declare(args[1], 1), [base])
        two = w.make('Two', declare(args[2], 2), [base])
        for cls in (two, one, base):
            judge(w, cls, rep, case)
    elif kind == 'diamond':
        top = w.make('Top', declare(args[0], 0), [pilo.Form])
        left = w.make('Left', declare(args[1], 1), [top])
        right = w.make('Right', declare(args[2], 2), [top])
        both = w.make('Both', [], [left, right])
        other = w.make('Other', declare(args[1], 2), [right, left])
        for cls in (both, other, left, right, top):
            judge(w, cls, rep, case)
    elif kind == 'mixin':
        mixin = w.make('Mixin', declare(args[1], 1), [], plain=True)
        base = w.make('Base', declare(args[0], 0), [pilo.Form])
        one = w.make('One', declare(args[2], 2), [mixin, base])
        two = w.make('Two', [], [base, mixin])
        for cls in (one, two, base):
            judge(w, cls, rep, case)
    elif kind == 'remove':
        names, gone = args
        base = w.make('Base', declare(names, 0), [pilo.Form])
        sub = type(pilo.Form)('Sub', (base,), {gone: None})
        w.models[sub] = {gone: None}
        for cls in (sub, base):
            judge(w, cls, rep, case)
    elif kind == 'from_fields':
        names, = args
        base = w.make('Base', declare(names[:1], 0), [pilo.Form])
        specs = declare(names, 1)
        fields = dict((f.name, w.b.field(f)) for f in specs)
        cls = base.from_fields(**fields)
        w.models[cls] = dict((f.name, [w.n + 1 + i, f]) for i, f in enumerate(specs))
        for n in names[:1]:
            w.models[cls][n][0] = w.models[base][n][0]
        judge(w, cls, rep, case)
        judge(w, base, rep, case)
        rep.check(issubclass(cls, base), 'from_fields makes a sub-class')
    elif kind == 'late':
        # fields created in another order than they are named in the class
        names, = args
        made = dict((f.name, (i, w.b.field(f), f)) for i, f in enumerate(declare(names, 0)))
        cls = type(pilo.Form)('Late', (pilo.Form,), dict((n, made[n][1]) for n in sorted(made)))
        w.models[cls] = dict((n, [made[n][0], made[n][2]]) for n in made)
        judge(w, cls, rep, case)
    elif kind == 'early':
        # the fields of the derived form are created before those of the base
        o, p = args
        specs = declare(p, 1)
        made = [(n, f, w.b.field(f)) for n, f in enumerate(specs, -10)]
        base = w.make('Base', declare(o, 0), [pilo.Form])
        mid = w.make('Mid', [], [base])
        sub = type(pilo.Form)('Sub', (mid,), dict((f.name, field) for _, f, field in made))
        w.models[sub] = dict((f.name, [w.models[base][f.name][0] if f.name in o else n, f]) for n, f, _ in made)
        for c in (sub, mid, base):
            judge(w, c, rep, case)
    elif kind == 'elsewhere':
        elsewhere(w, args, rep, case)
    elif kind == 'shared':
        # the same field in several forms, and under several names
        names, alias = args
        base = w.make('Base', declare(names, 0), [pilo.Form])
        cls = type(pilo.Form)('Sharing', (pilo.Form,), dict((n, getattr(base, n)) for n in names))
        w.models[cls] = w.models[base]
        sub = w.make('Sub', declare(names[:1], 1), [cls])
        also = type(pilo.Form)('Also', (pilo.Form,), dict(
            [(n, getattr(base, n)) for n in names] + [(alias, getattr(base, n)) for n in names[:1]]))
        w.models[also] = w.models[base]
        type(pilo.Form)('Other', (pilo.Form,), dict((alias, getattr(base, n)) for n in names[:1]))
        for c in (sub, also, cls, base):
            judge(w, c, rep, case)
    elif kind == 'clone':
        clone(w, args, rep, case)
    elif kind == 'items':
        items(w, args, rep, case)
    elif kind == 'renamed':
        renamed(w, args, rep, case)
    else:
        constant(w, args, rep, case)


# Copies

FIELDS = [
    F('Integer', 'f', max_value=5),
    F('Integer', 'f', max_value=5, default=('lit', 3), nullable=False, ignores=[2], translations={4: 1}, tags=('t',)),
    F('Integer', 'f', hooks={'munge': 'wrap'}),
    F('Integer', 'f', hooks={'filter': 'truthy', 'validate': 'truthy'}, default=('hook', 7)),
    F('String', 'f', choices=['a', 'b'], src='g'),
    F('String', 'f', hooks={'parse': 'raw', 'compute': ('val', 'c')}),
    F('List', 'f', field=F('Integer'), max_length=2),
    F('Dict', 'f', key=F('String'), value=F('Integer')),
    F('SubForm', 'f', form=FS(F('Integer', 'v'), name='Sub')),
]
CHANGES = [
    {'nullable': False}, {'nullable': True}, {'default': ('lit', 9)}, {'default': 'NONE'},
    {'default': ('lit', None)}, {'default': ('hook', 11)}, {'default': ('call', 12)},
    {'ignores': [1, 'a']}, {'translations': {1: 2, 'a': 'b'}}, {'tags': ('u', 'v')},
    {'hooks': {'munge': ('val', 4)}}, {'hooks': {'munge': 'NONE'}}, {'hooks': {'compute': ('val', 4)}},
    {'hooks': {'filter': ('val', False)}}, {'hooks': {'validate': 'err'}}, {'hooks': {'parse': ('val', 2)}},
    {'hooks': {'resolve': ('key', 'h')}}, {'bounds': 1}, {'length': (2, 3)},
    {'default': ('lit', 9), 'ignores': [3], 'tags': ('u',)},
]
VALUES = [None, 0, 1, 2, 3, 4, 6, 'a', 'b', 'c', [], [1], [1, 2, 3], {}, {'v': 1}, {'v': 'x'}]


def change(w, field, f, ch):
    """Apply a change; -> the changed specification, or None if it cannot be."""
    new = f
    if 'nullable' in ch:
        field.options(nullable=ch['nullable'])
        new = new.but(nullable=ch['nullable'])
        if f.default == ('lit', None):
            return None
    if 'default' in ch:
        d = ch['default']
        if f.default is not UNSET and f.default[0] == 'hook' and d[0] == 'hook':
            return None
        if d == 'NONE':
            field.options(optional=True)
        elif d[0] == 'hook':
            if f.default is not UNSET:
                return None
            w.b.hook(F('Any', f.name, default=d), field)
        else:
            field.options(default=(lambda: d[1]) if d[0] == 'call' else d[1])
        new = new.but(default=d)
    if 'ignores' in ch:
        field.ignore(*ch['ignores'])
        new = new.but(ignores=f.ignores + ch['ignores'])
    if 'translations' in ch:
        field.options(translate=ch['translations'])
        new = new.but(translations=dict(f.translations, **{}))
        new.translations.update(ch['translations'])
    if 'tags' in ch:
        field.tag(*ch['tags'])
        new = new.but(tags=f.tags + ch['tags'])
    if 'hooks' in ch:
        if set(ch['hooks']) & set(f.hooks):
            return None
        if (f.kind not in ('Integer', 'String') or 'max_length' in f.o) and any(h[0] == 'val' and h[1] for h in ch['hooks'].values()):
            return None  # not a value that such a field can check
        w.b.hook(F('Any', f.name, hooks=ch['hooks']), field)
        new = new.but(hooks=dict(f.hooks, **ch['hooks']))
    if 'bounds' in ch:
        if f.kind != 'Integer' or 'munge' in f.hooks:
            return None
        field.min(1).max(2)
        new = new.but(min_value=1, max_value=2)
    if 'length' in ch:
        if f.kind != 'List' or 'max_length' not in f.o:
            return None
        field.range(*ch['length'])
        new = new.but(min_length=ch['length'][0], max_length=ch['length'][1])
    return new


def use(cls, f):
    """It was mapped before it is copied or changed."""
    for v in (VALUES if f.kind == 'Integer' else values_of(f)):
        for doc in ({'f': v}, {'g': v}, {'a': v}, {}):
            form = cls()
            form.map(doc)
            form.get('f')


def clone(w, args, rep, where):
    f, ch, which, attached = args
    original = w.b.field(f)
    first = None
    if attached:
        first = type(pilo.Form)('First', (pilo.Form,), {'f': original})
    if attached == 'used':
        use(first, f)
    copy_ = original.clone()
    rep.check(not copy_.is_attached, 'a copy belongs to no form', sub=where)
    side = copy_ if which == 'copy' else original
    new = change(w, side, f, ch)
    if new is None:
        return
    # the form of the original was made before; that of the copy is made now
    if first is None:
        first = type(pilo.Form)('First', (pilo.Form,), {'f': original})
    second = type(pilo.Form)('Second', (first if attached else pilo.Form,), {'f': copy_})
    specs = {first: f if which == 'copy' else new, second: new if which == 'copy' else f}
    for cls, spec in specs.items():
        fs = FS(spec, name=cls.__name__)
        w.b.forms[id(fs)] = cls, fs
        rep.check(set(cls.f.tags) == set(spec.tags), 'tags are shared with the copy', sub=where)
        for d in [{}] + [{'f': v} for v in VALUES] + [{'g': v} for v in VALUES[:9]] + [{'h': 1, 'f': 6}]:
            build.compare(rep, w.b, fs, d, where=(where, cls.__name__, d))


def elsewhere(w, args, rep, where):
    """A copy under another name reads what its original reads."""
    f, src = args
    f = f.but(src=src)
    for attached in (False, True):
        original = w.b.field(f)
        if attached:
            type(pilo.Form)('First', (pilo.Form,), {'f': original})
        cls = type(pilo.Form)('Second', (pilo.Form,), {'h': original.clone(), 'z': original.clone().clone()})
        key = src if src is not UNSET else 'f' if attached else None
        fs = FS(f.but(name='h', src=key or 'h'), f.but(name='z', src=key or 'z'), name='Second')
        w.b.forms[id(fs)] = cls, fs
        for v in VALUES:
            for keys in (('f',), ('k',), ('h', 'z'), ('f', 'k', 'h', 'z')):
                build.compare(rep, w.b, fs, dict((k, v) for k in keys), where=(where, attached), log=False)


# Copies of fields that have items: list, value and key of a mapping, tuple, group

ITEM = dict(default=('lit', 8), ignores=[5], translations={6: 7}, tags=('t',))
CONTAINERS = [
    (F('List', 'f', field=F('Integer', max_value=50)), ['f']),
    (F('List', 'f', field=F('Integer', **ITEM), default='NONE'), ['f']),
    (F('Dict', 'f', key=F('String'), value=F('Integer')), ['v', 'k']),
    (F('Dict', 'f', key=F('String', max_length=1), value=F('Integer', **ITEM)), ['v', 'k']),
    (F('Tuple', 'f', fields=[F('Integer'), F('String', default='NONE')]), ['0', '1']),
    (F('Group', 'f', fields=[('a', F('Integer')), ('^[fgh]$', F('Any'))]), ['0', '1']),
    (F('List', 'f', field=F('List', field=F('Integer'))), ['f', 'ff']),
    (F('List', 'f', field=F('Dict', key=F('String'), value=F('Integer', **ITEM))), ['fv', 'fk', 'f']),
    (F('Dict', 'f', key=F('String'), value=F('List', field=F('Integer'))), ['vf', 'v']),
    (F('Dict', 'f', key=F('String'), value=F('Tuple', fields=[F('Integer'), F('Integer')])), ['v0', 'v1']),
    (F('Group', 'f', fields=[('^[fgh]$', F('List', field=F('Integer')))]), ['0f', '0']),
    (F('List', 'f', field=F('Tuple', fields=[F('List', field=F('Integer')), F('Integer', default=('lit', 1))])), ['f0f', 'f1']),
]
ONES = [1, 2, 4, 5, 6, None, 'a']


def inside(field, place):
    for x in place:
        if x in 'fvk':
            field = getattr(field, {'f': 'field', 'v': 'value_field', 'k': 'key_field'}[x])
        elif isinstance(field, pf.Group):
            field = field.fields[int(x)][1]
        else:
            field = field.fields[int(x)]
    return field


def spec_inside(f, place, becomes=None):
    """-> the specification of the item, or of f with that item replaced"""
    if not place:
        return becomes or f
    x, more = place[0], place[1:]
    if x in 'fvk':
        key = {'f': 'field', 'v': 'value', 'k': 'key'}[x]
        item = spec_inside(f.o[key], more, becomes)
        return f.but(**{key: item}) if becomes else item
    fields = list(f.o['fields'])
    if f.kind == 'Group':
        item = spec_inside(fields[int(x)][1], more, becomes)
        fields[int(x)] = fields[int(x)][0], item
    else:
        item = fields[int(x)] = spec_inside(fields[int(x)], more, becomes)
    return f.but(fields=fields) if becomes else item


def values_of(f):
    """Values for a field with items."""
    if f.kind == 'List':
        return [[]] + [[v] for v in values_of(f.o['field'])] + [list(values_of(f.o['field'])[:2])]
    if f.kind == 'Dict':
        return [{}] + [{'x': v} for v in values_of(f.o['value'])] + [
            dict(zip(('a', 'b', 'cc'), values_of(f.o['value'])))]
    if f.kind == 'Tuple':
        return [list(vs) for vs in itertools.product(*[values_of(i)[:5] for i in f.o['fields']])] + [[]]
    return ONES if f.kind == 'Integer' else [1, 'a', 'b', None]


def items(w, args, rep, where):
    """A change to the items of a field or of its copy."""
    f, place, ch, which, attached = args
    original = w.b.field(f)
    first = third = None
    if attached:
        first = type(pilo.Form)('First', (pilo.Form,), {'f': original})
    if attached == 'used':
        use(first, f)
    copy_ = original.clone()
    side = original if which == 'original' else copy_
    if which == 'copy of the copy':
        third = type(pilo.Form)('Third', (pilo.Form,), {'f': copy_})
        side = copy_.clone()
    item = change(w, inside(side, place), spec_inside(f, place), ch)
    if item is None:
        return
    new = spec_inside(f, place, item)
    if first is None:
        first = type(pilo.Form)('First', (pilo.Form,), {'f': original})
    if third is None:
        second = type(pilo.Form)('Second', (first,), {'f': copy_})
        specs = [(first, new if which == 'original' else f), (second, f if which == 'original' else new)]
    else:
        second = type(pilo.Form)('Second', (third,), {'f': side})
        specs = [(first, f), (third, f), (second, new)]
    if f.kind == 'Group':
        docs = [{}, {'a': 1}, {'a': 2, 'f': 3}, {'f': [4], 'g': [1, 'a']}, {'h': None, 'a': 'x', 'g': 6}, {'f': [6, 2, 5]}]
    else:
        docs = [{}, {'f': None}] + [{'f': v} for v in values_of(f)]
    for cls, spec in specs:
        fs = FS(spec, name=cls.__name__)
        w.b.forms[id(fs)] = cls, fs
        rep.check(set(inside(cls.f, place).tags) == set(spec_inside(spec, place).tags), 'tags of items are shared with the copy',
                  sub=where)
        for d in docs:
            build.compare(rep, w.b, fs, d, where=(where, cls.__name__, d))


def constant(w, args, rep, where):
    """field.constant(v) always has that value, and leaves an attached field alone."""
    f, attached = args
    if 'compute' in f.hooks or 'munge' in f.hooks:
        return
    original = w.b.field(f)
    if attached:
        First = type(pilo.Form)('First', (pilo.Form,), {'f': original})
    const = {'String': 'a', 'Integer': 3}.get(f.kind)
    if const is None:
        return
    other = original.constant(const)
    rep.check((other is original) == (not attached), 'constant copies exactly the fields in use', sub=where)
    if attached:
        class Second(First):
            pass
        Second = type(pilo.Form)('Second', (First,), {'f': other})
        fs = FS(f, name='First')
        w.b.forms[id(fs)] = First, fs
        for v in VALUES:
            build.compare(rep, w.b, fs, {'f': v, 'g': v}, where=where)
    else:
        Second = type(pilo.Form)('Second', (pilo.Form,), {'f': other})
    for v in VALUES:
        rep.eval()
        form = Second()
        errors = form.map({'f': v, 'g': v})
        rep.outcome(repr(errors))
        rep.check(not errors and form == {'f': const}, 'a constant became {0} {1}'.format(form, errors), sub=(where, v))


def renamed(w, args, rep, where):
    """Where what a field does depends on its name, that of a copy depends on the name of the copy."""
    what, = args
    for chain, use in itertools.product(itertools.product(('attached', 'free'), repeat=2), ('copies', 'originals')):
        field = pf.String('k', default=None) if what == 'capture' else pf.Field(default=None)
        if what == 'capture':
            field.capture('(?P<a>.)(?P<b>.)(?P<c>.)')
        elif what == 'from_context':
            field.from_context()
        elif what == 'munge':
            field.src = 'k'
            field.munge.attach(field)(lambda self, value: self.name)
        else:
            field.compute.attach(field)(lambda self: self.name)
        made = []
        for name, how in zip('abc', chain + ('attached',)):
            if how == 'attached':
                made.append((name, type(pilo.Form)('Named', (pilo.Form,), {name: field})))
            else:
                # named later than the copy is made
                made.append((name, field))
            field = field.clone()
            if what == 'from_context':
                field.src = pilo.NONE
        made = [(n, c if isinstance(c, type) else type(pilo.Form)('Named', (pilo.Form,), {n: c})) for n, c in made]
        for name, cls in made if use == 'copies' else made[::-1]:
            rep.eval()
            form = cls()
            with pilo.ctx(a='x', b='y', c='z'):
                errors = form.map({'k': 'xyz'})
            want = {name: name if what in ('munge', 'compute') else dict(zip('abc', 'xyz'))[name]}
            rep.outcome((what, name))
            rep.check(not errors and form == want, lambda: 'the field {0} gave {1!r} {2!r}, expected {3!r}'.format(
                name, form, errors, want), sub=(where, chain, use))
