"""
C02: however a mapping ends, the context it ran in is the one it found, and
the next mapping is as if the failed one had never been.

Every call that pilo makes to something it does not own (a hook, a default, a
source, a container of the document) is a fault point. A run without faults
counts them; then each point fails with each exception, one at a time and (for
failures that the mapping goes on after) two at a time.
"""
import collections
import itertools

import pilo
from pilo import fields as pf
from pilo.source import DefaultSource, SourceError, UnionSource, MountSource

from .. import build

LEVEL = 'fault_enumeration'
RULE = (
    'one case per (form, entry point, surrounding context, exception type); each fails every '
    'fault point of that run in turn; distinct by (point, how the run ended)'
)
ASSUMPTIONS = ['exceptions come from hooks, defaults, sources and containers, not from between bytecodes']


class Fault(object):
    """Numbers the calls to the environment and fails the chosen ones."""

    def __init__(self):
        self.plan, self.n, self.hit, self.names = {}, 0, 0, []

    def start(self, plan):
        self.plan, self.n, self.hit, self.names = plan, 0, 0, []

    def point(self, name):
        k = self.n
        self.n += 1
        self.names.append(name)
        if k in self.plan:
            self.hit += 1
            raise self.plan[k]


FAULT = Fault()
point = FAULT.point


class Custom(Exception):
    pass


class Interrupt(BaseException):
    pass


def exceptions():
    path = DefaultSource({'a': 1}).path()
    return collections.OrderedDict([
        ('ValueError', lambda: ValueError('fault')),
        ('SourceError', lambda: SourceError(path, 'fault')),
        ('KeyError', lambda: KeyError('fault')),
        ('IndexError', lambda: IndexError('fault')),
        ('TypeError', lambda: TypeError('fault')),
        ('AttributeError', lambda: AttributeError('fault')),
        ('RuntimeError', lambda: RuntimeError('fault')),
        ('Custom', lambda: Custom('fault')),
        ('StopIteration', lambda: StopIteration('fault')),
        ('Interrupt', lambda: Interrupt('fault')),
        ('GeneratorExit', lambda: GeneratorExit('fault')),
        ('FormError', lambda: pf.FormError()),
        ('UnicodeError', lambda: UnicodeDecodeError('utf-8', b'x', 0, 1, 'fault')),
    ])


EXC = exceptions()


class FaultSource(DefaultSource):

    def mapping(self, path):
        point('mapping')
        return super(FaultSource, self).mapping(path)

    def sequence(self, path):
        point('sequence')
        return super(FaultSource, self).sequence(path)

    def primitive(self, path, *types):
        point('primitive')
        return super(FaultSource, self).primitive(path, *types)


class Box(dict):
    """A container that may fail to give an item."""

    def __getitem__(self, k):
        point('item ' + str(k))
        return super(Box, self).__getitem__(k)


class Thing(object):
    """An object of the application, read by attribute."""

    def __init__(self, **kw):
        self._kw = kw

    @property
    def left(self):
        point('property')
        return self._kw['left']

    def call(self):
        point('method')
        return self._kw['left']


def hooked(field, *names):
    for name in names:
        if name == 'munge':
            def munge(self, value):
                point('munge')
                return value
            field.munge(munge)
        elif name == 'filter':
            def filter(self, value):
                point('filter')
                return True
            field.filter(filter)
        elif name == 'validate':
            def validate(self, value):
                point('validate')
                return True
            field.validate(validate)
        elif name == 'parse':
            def parse(self, path):
                point('parse')
                return path.value
            field.parse(parse)
        elif name == 'resolve':
            def resolve(self):
                point('resolve')
                return pilo.ctx(src='a')
            field.resolve(resolve)
        elif name == 'default':
            def default(self):
                point('default')
                return 'dflt'
            field.default(default)
    return field


def default_callable():
    point('default callable')
    return 'called'


def make_flat():
    class Flat(pilo.Form):
        a = hooked(pf.Integer(), 'munge', 'filter', 'validate')
        b = hooked(pf.String(), 'parse', 'munge')
        c = hooked(pf.Field(), 'resolve', 'filter')
        d = hooked(pf.String(), 'default')
        e = pf.String(default=default_callable)
        f = pf.Integer()

        @f.compute
        def f(self):
            point('compute')
            return self.a + 1 if isinstance(self.a, int) else pilo.ERROR
    return Flat


def make_nested():
    class Leaf(pilo.Form):
        v = hooked(pf.Integer(), 'munge', 'validate')
        w = hooked(pf.String(), 'default')

    class Mid(pilo.Form):
        leaf = hooked(pf.SubForm(Leaf), 'munge')
        leaves = pf.List(pf.SubForm(Leaf))
        by = pf.Dict(hooked(pf.String(), 'munge'), hooked(pf.Integer(), 'filter'))
        pair = pf.Tuple(hooked(pf.Integer(), 'munge'), pf.SubForm(Leaf))
        group = pf.Group(('g', hooked(pf.Integer(), 'munge')))

    class Root(pilo.Form):
        flat = pf.SubForm(Leaf, default=None)
        flat.src = None
        mid = pf.SubForm(Mid, 'm', unmapped='capture')
        mids = pf.List(pf.SubForm(Mid), default=list)
    return Root


def make_lazy():
    class Inner(pilo.Form):
        z = hooked(pf.Integer(), 'munge')

    class Lazy(pilo.Form):
        first = pf.Integer()
        deep = pf.List(pf.Integer())
        sub = pf.SubForm(Inner)
        last = hooked(pf.Integer(), 'munge', 'filter')
        other = pf.SubForm(Inner, default=None)

        @first.compute
        def first(self):
            point('compute')
            if not isinstance(self.last, int) or not isinstance(self.sub, pilo.Form):
                return pilo.ERROR
            return self.last + self.sub.z

        @deep.field.munge
        def deep(self, value):
            point('item munge')
            return value + self.last if isinstance(self.last, int) else pilo.ERROR
    return Lazy


def make_poly():
    class Base(pilo.Form):
        extra = pf.Integer(default=0)
        kind = pf.Type.abstract()

    class One(Base):
        kind = pf.Type.constant('one')
        v = hooked(pf.Integer(), 'munge')

    class Two(Base):
        kind = pf.Type.instance('two')
        v = hooked(pf.String(), 'parse')

    class Computed(Base):
        kind = pf.Type.instance('three')

    class Holder(pilo.Form):
        p = pf.PolymorphicSubForm(Base.kind)
        ps = pf.List(pf.PolymorphicSubForm(Base.kind))
    Holder.Base = Base
    Holder.keep = One, Two, Computed
    return Holder


def make_context():
    class Ctx(pilo.Form):
        user = hooked(pf.String().from_context(), 'munge')
        inner = pf.Field()
        formatted = pf.String().format('{a}', a='inner')
        captured = hooked(pf.String().capture('(x)'), 'filter')
        att = pf.SubForm(pilo.Form.from_fields(q=hooked(pf.Integer(), 'munge')), attach_parent=True)

        @inner.munge
        def inner(self, value):
            point('munge')
            with pilo.ctx.reset():
                other = make_context.leaf({'v': value})
            with pilo.ctx(user='inner'):
                other = make_context.leaf({'v': value})
            return other.v
    return Ctx


class CtxLeaf(pilo.Form):
    v = hooked(pf.Integer(), 'munge')


make_context.leaf = CtxLeaf

LEAF = {'v': 1, 'w': 'w'}
MID = {'leaf': LEAF, 'leaves': [LEAF, {'v': 2}], 'by': {'p': 1, 'q': 2}, 'pair': [1, LEAF], 'g': 5, 'extra': 1}

FORMS = [
    ('flat', make_flat, {'a': 1, 'b': 'b', 'c': 2}, {'a': 'bad'}),
    ('nested', make_nested, {'v': 4, 'm': MID, 'mids': [MID]}, {'m': {'leaf': {}}}),
    ('lazy', make_lazy, {'deep': [1, 2], 'sub': {'z': 1}, 'last': 3}, {'last': 'bad', 'deep': [1], 'sub': {}}),
    ('poly', make_poly, {'p': {'kind': 'one', 'v': 1}, 'ps': [{'kind': 'two', 'v': 'x'}, {'kind': 'one', 'v': 2},
                                                          {'kind': 'three'}]},
     {'p': {'kind': 'nope'}, 'ps': [{}]}),
    ('context', make_context, {'inner': 1, 'captured': 'x', 'att': {'q': 1}}, {'inner': 'z'}),
]


def boxed(doc):
    if isinstance(doc, dict):
        return Box((k, boxed(v)) for k, v in doc.items())
    if isinstance(doc, list):
        return [boxed(v) for v in doc]
    return doc


def e_ctor(cls, doc):
    return cls(doc)


def e_collect(cls, doc):
    f = cls()
    errors = f.map(doc)
    return f, build.errors_of(errors)


def e_raise(cls, doc):
    return cls().map(doc, error='raise')


def e_source(cls, doc):
    f = cls()
    errors = f.map(FaultSource(doc))
    return f, build.errors_of(errors)


def e_boxed(cls, doc):
    f = cls()
    errors = f.map(boxed(doc))
    return f, build.errors_of(errors)


def e_capture(cls, doc):
    f = cls()
    errors = f.map(FaultSource(boxed(doc)), unmapped='capture')
    return f, build.errors_of(errors)


def e_union(cls, doc):
    f = cls()
    errors = f.map(UnionSource([FaultSource(doc), FaultSource(doc)]))
    return f, build.errors_of(errors)


def e_mount(cls, doc):
    outer = pilo.Form.from_fields(m=pf.SubForm(cls))
    f = outer()
    errors = f.map(MountSource(m=FaultSource(doc)))
    return f.get('m'), build.errors_of(errors)


def e_lazy(cls, doc):
    """Attributes of a form that has a source but was not mapped."""
    f = cls()
    f.src = FaultSource(doc)
    out = []
    for field in reversed(cls.fields):
        out.append((field.name, getattr(f, field.name)))
    return out


def e_has(cls, doc):
    f = cls()
    f.src = FaultSource(doc)
    return [(field.name, f.has(field.name)) for field in cls.fields]


def e_field(cls, doc):
    """One field at a time, by hand."""
    out = []
    f = cls()
    errors = pf.CollectErrors()
    with pilo.ctx(src=FaultSource(doc), errors=errors, form=f):
        for field in cls.fields:
            out.append(field.map())
    return out, build.errors_of(errors)


def e_cast(cls, doc):
    if not hasattr(cls, 'Base'):
        return None
    return cls.Base.kind.cast(doc['p']), [cls.Base.kind.probe(boxed(d)) for d in doc['ps']]


def e_munge(cls, doc):
    def func(form, field, value):
        point('munge callback')
        return value
    return cls(doc).munge(func)


def e_objects(cls, doc):
    form = pilo.Form.from_fields(x=pf.Field('left'), y=pf.Field('call()'), z=pf.Field('deep.left'))
    thing = Thing(left=1)
    thing.deep = Thing(left=2)
    f = form()
    errors = f.map(DefaultSource({'left': 0}))
    outer = pilo.Form.from_fields(t=pf.SubForm(form, default=None), l=pf.Field('t.left'), c=pf.Field('t.call()'))
    g = outer()
    return errors, g.map({'t': thing}), g


def e_classes(cls, doc):
    class Missing(pf.Missing):
        def __init__(self, field):
            point('Missing')
            pf.Missing.__init__(self, field)

    class Invalid(pf.Invalid):
        def __init__(self, field, violation):
            point('Invalid')
            pf.Invalid.__init__(self, field, violation)
    with pilo.ctx(Missing=Missing, Invalid=Invalid):
        f = cls()
        errors = f.map(doc)
    return f, [type(e).__mro__[1].__name__ for e in errors]


ENTRIES = [e_ctor, e_collect, e_raise, e_source, e_boxed, e_capture, e_union, e_mount, e_lazy, e_has, e_field,
           e_cast, e_munge, e_objects, e_classes]
OUTER = ['none', 'ctx', 'mapping', 'reset']


def cases(tier):
    for form, entry, outer in itertools.product(FORMS, ENTRIES, OUTER):
        if tier == 'quick' and outer in ('mapping', 'reset') and entry not in (e_collect, e_lazy, e_source):
            continue
        for exc in EXC:
            yield tier, form[0], entry.__name__, outer, exc


def bounds(tier):
    return {'forms': len(FORMS), 'entry points': len(ENTRIES), 'surroundings': OUTER, 'exceptions': list(EXC),
            'faults per run': '1; 2 for exceptions the mapping can go on after ({0})'.format(
                'ValueError, SourceError and KeyError, second of the same type, from the initial context' if tier == 'quick' else 'second of every type')}


def surrounded(outer, body):
    """Run `body` in a context that is not the initial one."""
    if outer == 'none':
        return body()
    if outer == 'ctx':
        with pilo.ctx(user='U', tags=None), pilo.ctx(src=DefaultSource({'a': {'b': 1}})), pilo.ctx(src='a'):
            return body()
    if outer == 'reset':
        with pilo.ctx(user='U', src=DefaultSource({'a': 1})), pilo.ctx(src='a'), pilo.ctx.reset():
            return body()
    out = []
    class Around(pilo.Form):
        x = pf.List(pf.Integer())

        @x.field.munge
        def x(self, value):
            out.append(body())
            return value
    Around().map({'x': [1]})
    return out[0]


def attempt(entry, cls, doc, plan, rep, where):
    """-> how it ended; checks the context is as found."""
    before = build.context()
    FAULT.start(plan)
    try:
        out = 'returned', freeze(entry(cls, doc))
    except BaseException as ex:
        if not isinstance(ex, Exception) and not isinstance(ex, (Interrupt, GeneratorExit)):
            raise
        out = 'raised', ex
    n, hit, names = FAULT.n, FAULT.hit, list(FAULT.names)
    FAULT.start({})
    after = build.context()
    rep.check(after == before, lambda: 'the context is not the one found: {0} -> {1}'.format(before, after), sub=where)
    return out, n, hit, names


def freeze(v):
    """Values without what differs between equal runs."""
    if isinstance(v, dict):
        return type(v).__name__, sorted((repr(k), repr(freeze(x))) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return [freeze(x) for x in v]
    if isinstance(v, type):
        return v.__name__
    return repr(v) if isinstance(v, (str, int, float, bool, type(None))) else \
        getattr(v, 'name', type(v).__name__)


def run(case, rep):
    tier, fname, ename, outer, exc = case
    _, make, doc, bad = [f for f in FORMS if f[0] == fname][0]
    entry = globals()[ename]
    cls = make()
    where = (fname, ename, outer)
    surrounded(outer, lambda: explore(tier, entry, cls, doc, bad, exc, rep, where))
    rep.check(build.fresh_context(), 'context left behind after everything', sub=where)


def explore(tier, entry, cls, doc, bad, exc, rep, where):
    want, n, _, names = attempt(entry, cls, doc, {}, rep, where)
    want_bad = attempt(entry, cls, bad, {}, rep, where)[0]
    again = attempt(entry, cls, doc, {}, rep, where)[0]
    rep.eval(3)
    rep.check(result(again) == result(want), 'mapping the same again differs: {0} {1}'.format(want, again), sub=where)
    rep.check(want_bad[0] == 'returned' or isinstance(want_bad[1], (ValueError, AttributeError, KeyError)),
              'bad document ended in {0!r}'.format(want_bad), sub=where)
    for k in range(n):
        one(tier, entry, cls, doc, {k: exc}, names, want, rep, where)


def exc_of(plan):
    return list(plan.values())[0]


def result(out):
    return out if out[0] == 'returned' else ('raised', type(out[1]).__name__, str(out[1]))


def one(tier, entry, cls, doc, plan, names, want, rep, where):
    rep.eval()
    made = dict((k, EXC[e]()) for k, e in plan.items())
    at = where + (tuple((k, names[k] if k < len(names) else '?', e) for k, e in sorted(plan.items())),)
    out, n, hit, _ = attempt(entry, cls, doc, made, rep, at)
    swallowed = out[0] == 'returned'
    rep.outcome((at[0], at[1], sorted(plan.items()), out[0], type(out[1]).__name__))
    if len(plan) == 1:
        e = list(plan.values())[0]
        ex = list(made.values())[0]
        if not isinstance(ex, (ValueError, SourceError)) and entry is not e_has:
            # not a way to report bad data (or the absence of it)
            excused = isinstance(ex, (KeyError, IndexError, TypeError, AttributeError))
            if not excused or not at[-1][0][1].startswith(('item ', 'property', 'method')):
                if isinstance(ex, AttributeError) or (isinstance(ex, StopIteration)):
                    pass  # lookups by attribute may stand in for these
                else:
                    rep.check(out[0] == 'raised' and out[1] is ex,
                              'a {0} did not get out as it is: {1!r}'.format(e, out), sub=at)
        elif swallowed and entry in (e_collect, e_source) and not at[-1][0][1].startswith('item '):
            rep.check(bool(out[1][1]), 'a {0} was lost'.format(e), sub=at)
    # the next mapping is as if this one had not been
    again = attempt(entry, cls, doc, {}, rep, at)[0]
    rep.check(result(again) == result(want), 'a failed mapping changed the next: {0} -> {1}'.format(want, again), sub=at)
    pairs = tier != 'quick' or (exc_of(plan) in ('ValueError', 'SourceError', 'KeyError') and where[2] == 'none')
    if len(plan) == 1 and swallowed and pairs:
        k = max(plan)
        for second in (EXC if tier != 'quick' else list(plan.values())):
            for j in range(k + 1, n):
                one(tier, entry, cls, doc, {k: plan[k], j: second}, names, want, rep, where)
