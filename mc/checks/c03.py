"""
C03: threads that map at the same time get what each would get alone.

The real code runs in real threads under the scheduler of `mc.sched`: every
interleaving of the threads' lines (bytecodes, for the shortest scenarios)
within the preemption bound is executed and every thread's result compared
with what it gets alone.
"""
import gc
import os
import sys
import types
import warnings

try:
    import pypyjit
except ImportError:
    pypyjit = None

import pilo
from pilo import fields as pf
from pilo.source import DefaultSource, JsonSource, UnionSource, MountSource, ConfigSource

from .. import build, sched

LEVEL = 'model_checking'
RULE = ''
ASSUMPTIONS = [
    'threads switch between lines (bytecodes where stated) of pilo; the interpreter makes '
    'single bytecodes atomic',
    'a form, a source path and the like belong to one thread; classes, fields and sources are shared',
]

FILES = os.path.dirname(os.path.abspath(pilo.__file__)) + os.sep


# Scenarios: make() -> bodies; classes are new each time, so that whatever is
# built lazily on first use is built under the schedule

def s_flat():
    class Form(pilo.Form):
        a = pf.Integer(max_value=5)
        b = pf.String('bb', default='dflt')
    return [lambda: shot(Form, {'a': 1, 'bb': 'x'}), lambda: shot(Form, {'a': 9})]


def s_mini():
    class Form(pilo.Form):
        a = pf.Integer()
    return [lambda: shot(Form, {'a': 1}), lambda: shot(Form, {'a': 'x'})]


def s_nested():
    class Leaf(pilo.Form):
        v = pf.Integer()

    class Form(pilo.Form):
        l = pf.List(pf.SubForm(Leaf))
        d = pf.Dict(pf.String(), pf.Integer(), default=None)
    return [
        lambda: shot(Form, {'l': [{'v': 1}, {'v': 'bad'}], 'd': {'x': 1}}),
        lambda: shot(Form, {'l': [{}, {'v': 3}]}),
    ]


def s_hooks():
    class Form(pilo.Form):
        total = pf.Integer()
        x = pf.Integer()
        user = pf.String().from_context()

        @total.compute
        def total(self):
            return self.x + 1

        @x.munge
        def x(self, value):
            return value * 10

        @x.validate
        def x(self, value):
            if value > 50:
                pilo.ctx.errors.invalid('big')
                return False
            return True

    def body(user, doc):
        with pilo.ctx(user=user):
            return shot(Form, doc)
    return [lambda: body('one', {'x': 1}), lambda: body('two', {'x': 2})]


def poly():
    class Base(pilo.Form):
        kind = pf.Type.abstract()

    class A(Base):
        kind = pf.Type.constant('a')
        v = pf.Integer()

    class B(Base):
        kind = pf.Type.instance('b')
        w = pf.Integer()

    class Form(pilo.Form):
        p = pf.PolymorphicSubForm(Base.kind)
    Form.keep = Base, A, B
    return Form, Base


def s_poly():
    Form, Base = poly()
    return [lambda: shot(Form, {'p': {'kind': 'a', 'v': 1}}), lambda: shot(Form, {'p': {'kind': 'b', 'w': 2}})]


def s_cast():
    Form, Base = poly()
    return [lambda: Base.kind.cast({'kind': 'a'}).__name__, lambda: Base.kind.cast({'kind': 'b'}).__name__]


def s_late():
    Form, Base = poly()
    shot(Form, {'p': {'kind': 'a', 'v': 1}})

    def late():
        class C(Base):
            kind = pf.Type.instance('c')
        Form.keep += C,
        return shot(Form, {'p': {'kind': 'c'}})
    return [late, lambda: shot(Form, {'p': {'kind': 'a', 'v': 1}})]


def s_unknown():
    Form, Base = poly()
    Base.kind.cast({'kind': 'a'})

    def body(kind):
        try:
            return Base.kind.cast({'kind': kind}).__name__
        except ValueError as ex:
            return str(ex)
    return [lambda: body('a'), lambda: body('zz')]


def s_parsers():
    # a type the parsers have not met yet
    t1, t2 = type('T1', (int,), {}), type('T2', (str,), {})

    class Form(pilo.Form):
        a = pf.Field()

    def body(t, doc):
        def parse(self, path):
            return path.primitive(t)
        cls = pilo.Form.from_fields(a=pf.Field().parse(parse))
        return shot(cls, doc)
    src = JsonSource('{"a": "7"}')
    return [lambda: body(t1, {'a': '7'}), lambda: body(t2, src)]


def s_lazy():
    class Form(pilo.Form):
        a = pf.Integer(default=1)
        b = pf.Integer()
        c = pf.List(pf.Integer())

        @b.compute
        def b(self):
            return self.a + 1

    def body(doc):
        f = Form()
        f.src = DefaultSource(doc)
        return [f.b, f.c, f.has('a'), f.has('zz'), dict(f)]
    return [lambda: body({'a': 5, 'c': [1]}), lambda: body({'c': [1, 2]})]


def s_source():
    class Form(pilo.Form):
        a = pf.Integer()
        b = pf.List(pf.Integer())
    shared = DefaultSource({'a': 1, 'b': [1, 2], 'c': 'x'})
    return [lambda: shot(Form, shared), lambda: shot(Form, shared, unmapped='capture')]


def s_union():
    class Form(pilo.Form):
        a = pf.Integer()
        b = pf.List(pf.Integer())
    shared = UnionSource([{'a': 1}, {'b': [1, 2]}, {'b': [3]}], merge='combine')
    return [lambda: shot(Form, shared), lambda: shot(Form, shared)]


def s_mount():
    class Form(pilo.Form):
        a = pf.Integer('m.a')
        m = pf.SubForm(pilo.Form.from_fields(a=pf.Integer()))
    shared = MountSource(m={'a': 1}, n=None)
    return [lambda: shot(Form, shared), lambda: shot(Form, shared)]


def s_define():
    def body(names):
        fields = dict((n, pf.Integer()) for n in names)
        cls = type(pilo.Form)('F', (pilo.Form,), fields)
        return [f.name for f in cls.fields] + shot(cls, dict((n, i) for i, n in enumerate(names)))
    return [lambda: body(['z', 'y', 'x']), lambda: body(['m', 'a', 'b'])]


def s_raise():
    class Form(pilo.Form):
        a = pf.Integer()
        b = pf.Integer()

    class Missing(pf.Missing):
        pass

    def body(doc, mine):
        with pilo.ctx(**({'Missing': Missing} if mine else {})):
            try:
                return sorted(Form(doc).items())
            except pf.FormError as ex:
                return [(type(e) is Missing, str(e)) for e in ex.field_errors]
    return [lambda: body({'a': 1}, True), lambda: body({'b': 1, 'a': 'x'}, False)]


def s_reads():
    class Sub(pilo.Form):
        q = pf.Integer().tag('t')

    class Form(pilo.Form):
        a = pf.Integer().tag('t')
        s = pf.SubForm(Sub).tag('t')
        b = pf.Integer()
    form = Form({'a': 1, 's': {'q': 2}, 'b': 3})
    return [
        lambda: [form.filter('t'), form.copy(), form.has('b')],
        lambda: [form.munge(lambda f, field, v: v), [v for _, v in form.flatten()]],
        lambda: [(tuple(f.name for f in path), v) for path, v in form.flatten()],
    ]


def s_clone():
    class Form(pilo.Form):
        a = pf.String(choices=['x'])
    base = Form.a

    def body(n):
        other = base.clone().translate({'y': 'x' * n}).tag('n')
        cls = pilo.Form.from_fields(a=other)
        return shot(cls, {'a': 'y'}) + [sorted(cls.a.tags), sorted(base.tags)]
    return [lambda: body(1), lambda: body(2)]


def s_constant():
    class Form(pilo.Form):
        a = pf.String()
        b = pf.Date(format=['%d/%m/%y', '%Y-%m-%d'], default=None)
        c = pf.String().format('{x}!', x='a')
    const = Form.a.constant('k')

    class Sub(Form):
        a = const
    return [lambda: shot(Form, {'a': 'z', 'b': '2020-01-02'}), lambda: shot(Sub, {'b': '02/01/20'})]


def s_tags():
    class Form(pilo.Form):
        a = pf.Integer().tag('t')
        b = pf.Integer()
    return [lambda: shot(Form, {'a': 1}, tags=['t']), lambda: shot(Form, {'a': 1, 'b': 2}, unmapped='capture')]


def s_warnings():
    class Form(pilo.Form):
        a = pf.Field()
        b = pf.Integer()
    thing = types.SimpleNamespace(b=3)
    return [lambda: shot(Form, {'a': thing, 'b': 1}), lambda: shot(
        pilo.Form.from_fields(b=pf.Field('a.b')), {'a': thing})]


def s_three():
    class Form(pilo.Form):
        a = pf.Integer()
    return [lambda: shot(Form, {'a': 1}), lambda: shot(Form, {'a': 'x'}), lambda: shot(Form, {})]


def s_config():
    class Form(pilo.Form):
        a = pf.Integer()
        l = pf.List(pf.Integer())
    shared = ConfigSource('[s]\na = 1\nl = 1 2\n', section='s')
    return [lambda: shot(Form, shared), lambda: shot(Form, shared)]


def s_code():
    class Form(pilo.Form):
        c = pf.Code()

    def body(n):
        form = Form({'c': 'x = {0}\ny = x\n'.format(n)})
        return [form.c.x, form.c.y]
    return [lambda: body(1), lambda: body(2)]


def s_group():
    class Form(pilo.Form):
        g = pf.Group(('a', pf.Integer()), ('b', pf.Integer()))
    return [lambda: shot(Form, {'a': 1}), lambda: shot(Form, {'b': 2, 'a': 'x'})]


SCENARIOS = [
    s_mini, s_flat, s_nested, s_hooks, s_poly, s_cast, s_late, s_unknown, s_parsers, s_lazy, s_source, s_union, s_mount, s_define,
    s_raise, s_reads, s_clone, s_constant, s_tags, s_warnings, s_three, s_config, s_code, s_group,
]


def shot(cls, src, **kw):
    form = cls()
    errors = form.map(src, **kw)
    return [build.errors_of(errors), plain(form)]


def plain(v):
    if isinstance(v, pilo.Form):
        return type(v).__name__, sorted((k, plain(x)) for k, x in v.items())
    if isinstance(v, dict):
        return sorted((k, plain(x)) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return repr(v) if not isinstance(v, types.SimpleNamespace) else 'thing'


def cases(tier):
    # scenario, grain, preemption bound, (shard, shards) of the first preemption
    quick = tier == 'quick'
    for s in SCENARIOS:
        for i in range(4):
            yield s.__name__, 'points' if quick else 'lines', 1, (i, 4)
    for s in (s_cast,) if quick else (s_cast, s_poly, s_late, s_parsers, s_clone, s_define):
        for i in range(8):
            yield s.__name__, 'bytecodes', 1, (i, 8)
    for s in (s_mini, s_cast) if quick else SCENARIOS:
        for i in range(16):
            yield s.__name__, 'calls', 2, (i, 16)
    for s in (s_cast, s_poly, s_late, s_unknown):
        for i in range(8):
            yield s.__name__, 'chosen', 2, (i, 8)
    if not quick:
        for s in (s_mini, s_cast, s_parsers):
            for i in range(64):
                yield s.__name__, 'points', 2, (i, 64)


def bounds(tier):
    return {
        'scenarios': [s.__name__ for s in SCENARIOS], 'threads': '2 (3 in s_three)',
        'preemptions': {
            'quick': '1 between any two lines (a call into the context counts as one line) in every scenario, '
                     '1 between any two bytecodes in s_cast, 2 between any two calls in s_mini and s_cast, '
                     '2 between any two lines that build or read the types of a form in s_cast, s_poly, s_late '
                     'and s_unknown',
            'thorough': '1 between any two lines in every scenario, 1 between any two bytecodes in 6 scenarios, '
                        '2 between any two calls in every scenario, 2 between any two lines (as above) in '
                        's_mini, s_cast and s_parsers; 2 between any two lines that build or read the types '
                        'of a form in the four scenarios that have them',
        }['quick' if tier == 'quick' else 'thorough'],
    }


def codes_of(*classes):
    """The code of all functions of some classes, and of those within them."""
    codes = set()

    def add(code):
        codes.add(code)
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                add(c)
    for cls in classes:
        for v in vars(cls).values():
            v = getattr(v, '__func__', getattr(v, 'fget', v))
            if hasattr(v, '__code__'):
                add(v.__code__)
    return codes


# what is built on first use and then shared by all threads
CHOSEN = codes_of(pf.Type, pilo.Types, pf.PolymorphicSubForm)


def state():
    """Process-wide state that mapping may not touch."""
    return (list(warnings.filters), warnings.showwarning, sys.getrecursionlimit(),
            os.environ.get('TZ'), sorted(k for k in sys.modules if k.startswith('<')))


def alone(make):
    out = []
    for i in range(len(make())):
        try:
            out.append(('returned', make()[i]()))
        except Exception as ex:
            out.append(('raised', repr(ex)))
    return out


def run(case, rep):
    if pypyjit is not None:
        # compiled loops may report a line twice, which would make the
        # numbering of the points depend on what is compiled already
        pypyjit.set_param('off')
    name, grain, bound, (shard, shards) = case
    make = globals()[name]
    want = alone(make)
    rep.check(alone(make) == want, 'scenario is not deterministic', sub=name)
    before = state()
    failed = []

    def execute(start, plan, count):
        # finalizers would run in whichever thread happens to allocate
        gc.disable()
        ex = sched.Execution(make(), FILES, start, plan, grain, count, CHOSEN.__contains__).run()
        if rep.counts['schedules'] % 500 == 0:
            gc.enable()
            gc.collect()
        got = [r if r[0] == 'returned' else ('raised', repr(r[1])) for r in ex.results]
        rep.eval()
        rep.count('schedules')
        if ex.diverged:
            rep.count('unstable_replays')
        if ex.blocked:
            rep.count('blocked_executions')
        rep.count('transitions', ex.step)
        rep.count('context_switches', len(ex.runs) - 1)
        # the point at which control last moved, and what had run before it
        rep.state((name, grain, start, tuple(plan)))
        rep.outcome((name, repr(got), tuple(who for who, _ in ex.runs)))
        if got != want:
            rep.fail('with schedule {0} the threads got {1!r}, alone {2!r}'.format(
                (start, plan), got, want), sub=(name, grain, start, plan))
            failed.append(1)
        if state() != before:
            rep.fail('process-wide state changed', sub=(name, grain, start, plan))
            failed.append(1)
        return ex

    n = len(make())
    for start in range(n):
        base = execute(start, [], True)
        again = execute(start, [], True)
        if base.runs != again.runs and not (base.blocked or again.blocked):
            # then the numbering of the points is not stable and some
            # preemptions of the bound may be missed: says the evidence
            rep.count('unstable_replays')
        running, last = base.running_at, sched.last_steps(base)
        for k in range(shard, base.step, shards):
            for to in sched.alternatives(base, k, running, last):
                ex = execute(start, [(k, to)], bound > 1)
                if failed:
                    return
                if bound < 2:
                    continue
                running2, last2 = ex.running_at, sched.last_steps(ex)
                for j in range(k + 1, ex.step):
                    for to2 in sched.alternatives(ex, j, running2, last2):
                        execute(start, [(k, to), (j, to2)], False)
                        if failed:
                            return
    rep.check(alone(make) == want, 'mapping afterwards differs', sub=name)
    if len(rep.samples) < 2:
        rep.sample({'scenario': name, 'grain': grain, 'results': repr(want)[:400]})
