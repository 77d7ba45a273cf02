"""
C13: a polymorphic form is always the form its type names, whichever forms
have been defined, in whatever order, before or after it was first used.
"""
import itertools

import pilo
from pilo import fields as pf
from pilo.source import DefaultSource, UnionSource

from .. import build, ref
from ..ref import F, FS

LEVEL = 'exploration'
RULE = (
    'one case per (family of forms, order of definition, first uses); each interleaves every use '
    'with the definitions and asks for every identity afterwards, or maps every document of the '
    'alphabet; distinct by (what was asked, answer)'
)
ASSUMPTIONS = ['an identity belongs to one form; a form that derives from another declares its own']

# Families: {form: (base, identities)}; the base is abstract

FAMILY = {
    'card': ('Base', ['card']), 'cash': ('Base', ['cash']), 'multi': ('Base', ['m1', 'm2']),
    'gold': ('card', ['gold']), 'check': ('Base', ['check']),
}
IDENTITIES = ['card', 'cash', 'm1', 'm2', 'gold', 'check', 'nope']
USES = ['cast', 'probe', 'sub', 'list', 'field']


def name_of(form):
    return FAMILY[form][1][0]


def orders(names):
    for order in itertools.permutations(names):
        if 'gold' in order and 'card' in order and order.index('gold') < order.index('card'):
            continue
        yield order


def cases(tier):
    four = ('card', 'cash', 'multi', 'gold')
    for family_ in [four] if tier == 'quick' else [four, four + ('check',)]:
        for order in orders(family_):
            for how in ('first', 'second', 'renamed', 'constant'):
                yield 'history', order, how
    for how in ('first', 'second', 'renamed', 'constant', 'translated', 'default'):
        for opts in ('plain', 'capture', 'nullable', 'optional'):
            yield 'document', how, opts
    yield 'values',
    for n in (1, 2, 3, 4, 5) if tier == 'quick' else (1, 2, 3, 4, 5, 6):
        for parents in itertools.product(*[range(i + 1) for i in range(n)]):
            yield 'tree', parents


def bounds(tier):
    return {'forms per family': 4 if tier == 'quick' else 5, 'uses between definitions': '0..1 of {0} at each point'.format(USES[:4]),
            'trees of forms': 'every shape of up to {0} forms below the base, with one form of another kind'.format(
                5 if tier == 'quick' else 6),
            'declarations of the type': ['first field', 'after others', 'own src', 'constant', 'translated', 'default']}


def base(how):
    dikt = {}
    if how == 'second':
        dikt['id'] = pf.Integer(default=0)
        dikt['type'] = pf.Type.abstract()
        dikt['after'] = pf.Integer(default=1)
    elif how == 'renamed':
        dikt['type'] = pf.Type.abstract('k')
    elif how == 'translated':
        dikt['type'] = pf.Type.abstract().translate({'c': 'card'})
    elif how == 'default':
        dikt['type'] = pf.Type.abstract(default='cash')
    else:
        dikt['type'] = pf.Type.abstract()
    return type(pilo.Form)('Base', (pilo.Form,), dikt)


def derive(name, how, known):
    parent, ids = FAMILY[name]
    if how == 'constant' and len(ids) == 1:
        tf = pf.Type.constant(ids[0])
    elif how == 'renamed':
        tf = pf.Type.instance(*ids)
        tf.src = 'k'
    else:
        tf = pf.Type.instance(*ids)
    return type(pilo.Form)(name, (known[parent],), {
        'type': tf, name + '_x': pf.Integer(default=7),
    })


def key(how):
    return 'k' if how == 'renamed' else 'type'


def ask(use, known, how, identity):
    """-> name of the form that `identity` gives, or 'unknown'."""
    B = known['Base']
    doc = {key(how): identity}
    if use == 'cast':
        try:
            return B.type.cast(doc).__name__
        except ValueError:
            return 'unknown'
    if use == 'probe':
        B.type.probe(doc)
        return ask('cast', known, how, identity)
    if use == 'sub':
        cls = known['holder']
        form, value = cls(), doc
        pick = lambda f: f['p']
        full = {'p': value}
    elif use == 'list':
        cls = known['holders']
        form = cls()
        pick = lambda f: f['l'][0]
        full = {'l': [doc]}
    else:
        # a field declared only now
        cls = type(pilo.Form)('Late', (pilo.Form,), {'p': pf.PolymorphicSubForm(B.type)})
        form = cls()
        pick = lambda f: f['p']
        full = {'p': doc}
    errors = form.map(full)
    if errors:
        assert len(errors) == 1 and isinstance(errors[0], pilo.Invalid), errors
        return 'unknown'
    got = pick(form)
    assert got['type'] == identity, got
    return type(got).__name__


def answer(identity, defined):
    for name in defined:
        if identity in FAMILY[name][1]:
            return name
    return 'unknown'


def fresh(how):
    B = base(how)
    return {
        'Base': B,
        'holder': type(pilo.Form)('H', (pilo.Form,), {'p': pf.PolymorphicSubForm(B.type)}),
        'holders': type(pilo.Form)('HL', (pilo.Form,), {'l': pf.List(pf.PolymorphicSubForm(B.type))}),
    }


def run(case, rep):
    if case[0] == 'document':
        return documents(case, rep)
    if case[0] == 'values':
        return values(rep)
    if case[0] == 'tree':
        return trees(case[1], rep)
    _, order, how = case
    n = len(order)
    for plan in itertools.product([None] + (USES[:4] if n < 5 else ['cast', 'list']), repeat=n):
        known = fresh(how)
        defined = []
        for name, use in zip(order, plan):
            # use what is there so far, then define one more
            if use:
                for identity in (name_of(order[0]), 'nope', name_of(name)):
                    one(rep, case, plan, use, known, how, identity, defined)
            known[name] = derive(name, how, known)
            defined.append(name)
        for use in ('sub', 'cast', 'list', 'field'):
            for identity in IDENTITIES if use in ('sub', 'cast') else IDENTITIES[:1]:
                if not one(rep, case, plan, use, known, how, identity, defined):
                    return
    if len(rep.samples) < 2:
        rep.sample({'defined': repr(order), 'uses before each definition': repr(plan), 'type': how})


def one(rep, case, plan, use, known, how, identity, defined):
    rep.eval()
    want = answer(identity, defined)
    try:
        got = ask(use, known, how, identity)
    except Exception as ex:
        got = repr(ex)
    rep.outcome((use, identity, got))
    return rep.check(got == want, '{0} of {1!r} is {2}, expected {3} with {4} defined'.format(
        use, identity, got, want, defined), sub=(case, plan))


# Trees: form i derives from form parents[i] - 1 (0 is the base)

KINDS = ['own', 'many', 'bare', 'again', 'first', 'two']


def trees(parents, rep):
    n = len(parents)
    for odd, kind in [(None, 'own')] + [(i, k) for i in range(n) for k in KINDS[1:]]:
        kinds = ['own'] * n
        if odd is not None:
            kinds[odd] = kind
        if kind == 'bare' and parents[odd]:
            # it would be of the type that it derives from
            continue
        if kind == 'two' and not parents[odd]:
            continue
        for used in (False, True):
            tree(parents, kinds, used, rep)


def tree(parents, kinds, used, rep):
    n = len(parents)
    families = []
    meta = type(pilo.Form)
    for name in 'ab':
        forms = [meta(name + 'base', (pilo.Form,), {'type': pf.Type.abstract()})]
        for i in range(n):
            bases = (forms[parents[i]],)
            dikt = {'f{0}'.format(i): pf.Integer(default=i)}
            if kinds[i] == 'many':
                dikt['type'] = pf.Type.instance('t{0}'.format(i), 'u{0}'.format(i))
            elif kinds[i] == 'again':
                dikt['type'] = pf.Type.abstract()
            elif kinds[i] == 'first':
                # with a field that the type is declared after
                dikt = {'g{0}'.format(i): pf.Integer(default=i), 'type': pf.Type.instance('t{0}'.format(i))}
            elif kinds[i] != 'bare':
                dikt['type'] = pf.Type.instance('t{0}'.format(i))
            if kinds[i] == 'two':
                # of another that is neither above nor below it
                above, at = set(), i + 1
                while at:
                    above.add(at)
                    at = parents[at - 1]
                other = [j + 1 for j in range(i) if j + 1 not in above and not derives(parents, above, j + 1)]
                if not other:
                    return
                bases += (forms[other[0]],)
            forms.append(meta('{0}{1}'.format(name, i), bases, dikt))
            if used and i < n - 1:
                try:
                    forms[0].type.cast({'type': 't{0}'.format(i + 1)})
                    rep.fail('a type that is not defined yet is known', sub=(parents, kinds))
                except ValueError:
                    pass
        families.append(forms)
    want = {}
    for i in range(n):
        if kinds[i] not in ('bare', 'again'):
            want['t{0}'.format(i)] = i + 1
        if kinds[i] == 'many':
            want['u{0}'.format(i)] = i + 1
    want['t9'] = None
    for forms in families:
        roots = [0] + [i + 1 for i in range(n) if kinds[i] in ('bare', 'again')]
        for root in roots:
            if kinds[root - 1] == 'bare' and root:
                below = range(n + 1)   # its type is the one of the base
            else:
                below = [j for j in range(n + 1) if j == root or derives(parents, {root}, j, kinds)]
            for identity, at in sorted(want.items()):
                expected = None if at is None or at not in below else forms[at]
                doc = {'type': identity}
                rep.eval()
                try:
                    got = forms[root].type.cast(doc)
                except ValueError:
                    got = None
                rep.outcome((root, identity, got and got.__name__))
                if not rep.check(got is expected, 'type {0!r} below {1} gives {2}, expected {3}'.format(
                        identity, forms[root].__name__, got, expected), sub=(parents, kinds, used)):
                    return
                if root == 0:
                    holder = type(pilo.Form)('H', (pilo.Form,), {'p': pf.PolymorphicSubForm(forms[0].type)})
                    form = holder()
                    errors = form.map({'p': doc})
                    rep.check(bool(errors) == (expected is None) and (expected is None or type(form['p']) is expected),
                              'mapped {0!r} to {1!r} {2!r}, expected {3}'.format(doc, form, errors, expected),
                              sub=(parents, kinds, used))


def derives(parents, above, j, kinds=None):
    """Whether form `j` is below one of `above` (base is 0)."""
    todo, seen = [j], set()
    while todo:
        at = todo.pop()
        if not at:
            continue
        if parents[at - 1] in above:
            return True
        todo.append(parents[at - 1])
        if kinds and kinds[at - 1] == 'two':
            above_ = ancestors(parents, at)
            other = [k + 1 for k in range(at - 1) if k + 1 not in above_ and not derives(parents, above_, k + 1)]
            if other[0] in above:
                return True
            todo.append(other[0])
    return False


def ancestors(parents, at):
    found = set()
    while at:
        found.add(at)
        at = parents[at - 1]
    return found


# Documents

TAGS = ['card', 'cash', 'm1', 'm2', 'gold', 'nope', '', 'c', 5, None, ['card'], {}, True]
BODIES = [
    {}, {'n': 1}, {'n': 'x'}, {'n': 1, 'amount': 2, 'extra': [1]}, {'amount': 'q'}, {'amount': 3, 'n': None},
    {'level': 1, 'n': 2}, {'id': 4, 'after': 'z'}, {'id': 'bad', 'n': 3},
]


def family(how):
    B = base(how)

    def inst(*ids):
        if how == 'constant' and len(ids) == 1:
            return pf.Type.constant(ids[0])
        f = pf.Type.instance(*ids)
        if how == 'renamed':
            f.src = 'k'
        return f

    meta = type(pilo.Form)
    card = meta('card', (B,), {'type': inst('card'), 'n': pf.Integer(max_value=5)})
    cash = meta('cash', (B,), {'type': inst('cash'), 'amount': pf.Integer(default=0)})
    multi = meta('multi', (B,), {'type': inst('m1', 'm2'), 'n': pf.Integer()})
    gold = meta('gold', (card,), {'type': inst('gold'), 'level': pf.Integer(default=9)})
    return B, (card, cash, multi, gold)


def spec(how, identity):
    """The fields of the form of an identity, in their order."""
    src = 'k' if how == 'renamed' else ref.UNSET
    pre = [F('Integer', 'id', default=('lit', 0))] if how == 'second' else []
    post = [F('Integer', 'after', default=('lit', 1))] if how == 'second' else []
    hooks = {}
    if how == 'constant' and identity not in ('m1', 'm2'):
        hooks = {'compute': ('val', identity)}
    own = {
        'card': ('card', [F('Integer', 'n', max_value=5)]),
        'cash': ('cash', [F('Integer', 'amount', default=('lit', 0))]),
        'm1': ('multi', [F('Integer', 'n')]), 'm2': ('multi', [F('Integer', 'n')]),
        'gold': ('gold', [F('Integer', 'n', max_value=5), F('Integer', 'level', default=('lit', 9))]),
    }
    name, fields = own[identity]
    default = 'NONE' if name == 'multi' else ('lit', identity)
    choices = ['m1', 'm2'] if name == 'multi' else [identity]
    t = F('Type', 'type', src=src, default=default, choices=choices, hooks=hooks)
    return FS(*(pre + [t] + post + fields), name=name)


def expect(how, opts, v, path, env):
    """Reference value of the polymorphic field for the node `v`."""
    if v is ref.ABSENT:
        if opts == 'optional':
            return ref.NONE
        env.missing(path)
        return ref.NOT_SET
    if v is None:
        if opts == 'nullable':
            return None
        env.invalid(path)
        return ref.ERROR
    if not isinstance(v, dict):
        env.invalid(path)
        return ref.ERROR
    tag = v.get(key(how), ref.ABSENT)
    if how == 'second' and 'id' in v:
        try:
            ref.c_int('plain', v['id'])
        except ref.Bad:
            # the fields up to the type have to be right to know the type
            env.invalid(path)
            return ref.ERROR
    if tag is ref.ABSENT and how == 'default':
        tag = 'cash'
    if how == 'translated' and isinstance(tag, str):
        tag = {'c': 'card'}.get(tag, tag)
    if tag is None:
        if opts == 'optional':
            return ref.NONE
        env.missing(path)
        return ref.NOT_SET
    if not isinstance(tag, str) or tag not in ('card', 'cash', 'm1', 'm2', 'gold'):
        env.invalid(path)
        return ref.ERROR
    fs = spec(how, tag)
    n = len(env.errors)
    form = ref.map_form(fs, v, path, env, None, 'capture' if opts == 'capture' else 'ignore')
    return ref.ERROR if len(env.errors) > n else form


def documents(case, rep):
    _, how, opts = case
    B, keep = family(how)
    kw = {'nullable': {'nullable': True}, 'optional': {'optional': True, 'nullable': False},
          'capture': {'unmapped': 'capture', 'nullable': False}, 'plain': {'nullable': False}}[opts]
    cls = type(pilo.Form)('Holder', (pilo.Form,), {
        'p': pf.PolymorphicSubForm(B.type, **kw),
        'q': pf.List(pf.PolymorphicSubForm(B.type, **kw), default=pilo.NONE),
    })
    nodes = [ref.ABSENT, None, 5, 'card', {}]
    for tag in TAGS:
        for body in BODIES:
            nodes.append(dict(body, **{key(how): tag}))
    nodes += [b for b in BODIES if b]
    for node in nodes:
        doc = {} if node is ref.ABSENT else {'p': node}
        docs = [doc]
        if node is not ref.ABSENT:
            docs.append({'p': {key(how): 'card', 'n': 1}, 'q': [{key(how): 'cash'}, node, {key(how): 'gold', 'n': 2}]})
        for doc in docs:
            env = ref.Env()
            want = ref.RForm()
            want.cls = 'Holder'
            v = expect(how, opts, doc.get('p', ref.ABSENT), ['p'], env)
            if not ref.skip(v):
                want['p'] = v
            if 'q' in doc:
                want['q'] = []
                for i, item in enumerate(doc['q']):
                    v = expect(how, opts, item, ['q', i], env)
                    if not ref.skip(v):
                        want['q'].append(v)
            for src in (lambda: doc, lambda: DefaultSource(doc), lambda: UnionSource([doc])):
                rep.eval()
                form = cls()
                src = src()
                try:
                    err = build.errors_of(form.map(src))
                except Exception as ex:
                    rep.fail('{0!r} escaped'.format(ex), sub=(case, doc))
                    continue
                rep.outcome((err, repr(want) if not err else 0))
                a, b = (sorted(err), sorted(env.errors)) if isinstance(src, UnionSource) else (err, env.errors)
                rep.check(a == b, 'errors {0!r}, expected {1!r}'.format(err, env.errors), sub=(case, doc))
                if a == b:
                    rep.check(build.same(form, want), lambda: '{0!r}, expected {1!r}'.format(form, want),
                              sub=(case, doc))


def values(rep):
    """What a type field says of itself, and forms that name their own type."""
    for how in ('first', 'second', 'renamed', 'constant'):
        B, (card, cash, multi, gold) = family(how)
        for cls, want in ((card, 'card'), (cash, 'cash'), (gold, 'gold')):
            rep.eval()
            rep.check(cls.type.value == want, 'the type of {0} is {1}'.format(cls, cls.type.value))
            rep.outcome((how, want))
            form = cls()
            body = {'n': 1} if cls is not cash else {}
            err = form.map(body)
            rep.check(not err and form.get('type') == want,
                      'without a type in the document: {0!r} {1!r}'.format(form, err), sub=(how, want))
            for other in ('card', 'cash', 'gold'):
                rep.eval()
                form = cls()
                err = form.map(dict(body, **{key(how): other}))
                if how == 'constant':
                    rep.check(not err and form['type'] == want, 'a constant type is not {0}: {1!r}'.format(want, form))
                else:
                    rep.check(bool(err) == (other != want), 'form {0} of type {1}: {2!r}'.format(want, other, err))
        for cls in (B, multi):
            rep.eval()
            try:
                cls.type.value
                rep.fail('{0} has a single type'.format(cls))
            except TypeError:
                pass
