"""
C16: what no field maps is kept or dropped as asked: with 'ignore' nothing of
it, with 'capture' all of it as it is, with fields what those make of it.
"""
import itertools

from .. import build, ref
from ..ref import F, FS, ABSENT

LEVEL = 'exploration'
RULE = (
    'one case per (what to do with the rest, where: the form itself, a sub-form, a list of '
    'sub-forms, a polymorphic form); each is run on every document over the key alphabet; '
    'distinct by (errors, value)'
)
ASSUMPTIONS = ['a key is mapped if the form has a value of that name once its fields are mapped']

STR = F('String')
DIRECTIVES = {
    'ignore': 'ignore',
    'capture': 'capture',
    'any': F('Any'),
    'integer': F('Integer', max_value=5),
    'optional': F('Integer', max_value=5, default='NONE', ignores=[1]),
    'string': F('String', default=('lit', 'd'), translations={'x': 'y'}),
    'list': F('List', field=F('Integer')),
    'form': F('SubForm', form=FS(F('Integer', 'x'), name='Extra'), unmapped='capture'),
    'keys': (F('String', max_length=2), F('Any')),
    'choice': (F('String', choices=['e1', 'b', 'bb'], default='NONE'), F('Any', default='NONE', ignores=['x'])),
    'renamed': (F('String', translations={'e1': 'r1', 'e2': 'a'}), F('Integer')),
    'ignored keys': (F('String', ignores=['e1'], default='NONE'), F('Integer', default='NONE')),
}
PLACES = ['root', 'sub', 'list', 'dict', 'poly', 'again']
KEYS = [
    ('a', [ABSENT, 1, 'x']),
    ('b', [ABSENT, 'x']),
    ('bb', [ABSENT, 'y', 3]),
    ('c', [ABSENT, 4, 'skip']),
    ('_\xe9.\nA()', [ABSENT, 2]),
    ('e1', [ABSENT, 1, 'x', None, [1], {'x': 2}, {'x': 'q', 'z': 1}]),
    ('e2', [ABSENT, 9, 'x', {'k': None}]),
    ('', [ABSENT, 3]),
]


def fields():
    return [
        F('Integer', 'a', default='NONE'),
        F('String', 'b', src='bb', default='NONE'),
        F('Any', 'c', default=('lit', 0), ignores=['skip']),
    ]


def cases(tier):
    for d in DIRECTIVES:
        for p in PLACES:
            yield d, p


def bounds(tier):
    return {'directives': sorted(DIRECTIVES), 'places': PLACES, 'keys': '{0} with 2..7 values each'.format(len(KEYS)),
            'documents per case': 3 * 2 * 3 * 3 * 2 * 7 * 4 * 2}


def m_form(fs, node, path, env, directive, into=None):
    form = ref.map_form(fs, node, path, env, into=into)
    if directive == 'ignore':
        return form
    key, value = (STR, F('Any')) if directive == 'capture' else (
        directive if isinstance(directive, tuple) else (STR, directive))
    rest = {}
    for k in node:
        if k in form:
            continue
        v = ref.map_field(value.but(name=None, src=None), node[k], path + [k], env)
        if ref.skip(v):
            continue
        name = ref.map_field(key, None, path, env, value=k)
        if not ref.skip(name):
            rest[name] = v
    form.update(rest)
    return form


def real(b, directive):
    if isinstance(directive, tuple):
        return tuple(b.field(f) for f in directive)
    return directive if isinstance(directive, str) else b.field(directive)


def run(case, rep):
    name, place = case
    directive = DIRECTIVES[name]
    b = build.Builder()
    import pilo
    pf = pilo.fields
    inner = FS(*fields(), name='Inner')
    cls = b.form(inner)
    asked = real(b, directive)
    meta = type(pilo.Form)
    if place == 'sub':
        outer = meta('Outer', (pilo.Form,), {'s': pf.SubForm(cls, unmapped=asked), 'z': pf.Field(default=pilo.NONE)})
    elif place == 'list':
        outer = meta('Outer', (pilo.Form,), {'s': pf.List(pf.SubForm(cls).options(unmapped=asked))})
    elif place == 'dict':
        outer = meta('Outer', (pilo.Form,), {'s': pf.Dict(pf.String(), pf.SubForm(cls, unmapped=asked))})
    elif place == 'poly':
        base = meta('Base', (pilo.Form,), {'kind': pf.Type.abstract()})
        dikt = {'kind': pf.Type.instance('i')}
        for f in fields():
            dikt[f.name] = b.field(f)
        cls = meta('Inner', (base,), dikt)
        inner = FS(F('Type', 'kind', default=('lit', 'i'), choices=['i']), *fields(), name='Inner')
        outer = meta('Outer', (pilo.Form,), {'s': pf.PolymorphicSubForm(base.kind, unmapped=asked)})
    for vals in itertools.product(*[v for _, v in KEYS]):
        doc = dict((k, v) for (k, _), v in zip(KEYS, vals) if v is not ABSENT)
        env = ref.Env()
        rep.eval()
        if place in ('root', 'again'):
            form = cls()
            want = m_form(inner, doc, [], env, directive)
            err = form.map(doc, unmapped=asked)
            if place == 'again':
                # what the first time left stays, unless mapped anew
                second = dict(doc, e1=1, e3=2, a=7)
                env = ref.Env()
                want = m_form(inner, second, [], env, directive, into=want)
                err = form.map(second, unmapped=asked)
        else:
            at = {'sub': ['s'], 'list': ['s', 1], 'dict': ['s', 'k'], 'poly': ['s']}[place]
            if place == 'poly':
                doc['kind'] = 'i'
            sub = m_form(inner, doc, at, env, directive)
            wrapped = {'sub': doc, 'list': [{}, doc], 'dict': {'k': doc}, 'poly': doc}[place]
            want = ref.RForm()
            want.cls = 'Outer'
            empty = m_form(inner, {}, ['s', 0], ref.Env(), directive)
            bad = bool(env.errors)
            if place in ('sub', 'poly'):
                if not bad:
                    want['s'] = sub
            elif place == 'list':
                want['s'] = [empty] + ([] if bad else [sub])
            else:
                want['s'] = {} if bad else {'k': sub}
            form = outer()
            err = form.map({'s': wrapped, 'extra': 1})
        err = build.errors_of(err)
        rep.outcome((err, repr(want) if not err else 0))
        rep.check(err == env.errors, 'errors {0!r}, expected {1!r}'.format(err, env.errors), sub=(case, doc))
        if err == env.errors:
            rep.check(build.same(form, want), lambda: '{0!r}, expected {1!r}'.format(form, want), sub=(case, doc))
        if len(rep.samples) < 2 and len(doc) > 4:
            rep.sample({'unmapped': name, 'place': place, 'document': repr(doc), 'value': repr(want)})
    for bad in ('captured', 'none', '?'):
        rep.eval()
        try:
            cls().map({'a': 1}, unmapped=bad)
            rep.fail('unmapped={0!r} was accepted'.format(bad), sub=case)
        except ValueError:
            pass
    for nothing in (None, False, ''):
        rep.eval()
        form = cls()
        doc = {'a': 1, 'e1': 2}
        if place == 'poly':
            doc['kind'] = 'i'
        form.map(doc, unmapped=nothing)
        rep.check('e1' not in form, 'unmapped={0!r} captured'.format(nothing), sub=case)
    rep.check(build.fresh_context(), 'context left behind', sub=case)
