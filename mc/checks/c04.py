"""
C04: a field maps its value through resolve, compute (parse), munge, filter,
validate and default in that order, each step replaceable by a hook, and each
outcome of a step has the documented consequence.
"""
import itertools

import pilo
from pilo import fields as pf

from .. import build, ref
from ..ref import F, FS, UNSET

LEVEL = 'exploration'
RULE = (
    'one case per combination of hook behaviours of one field; each is run on every '
    'document (absent, null, valid, invalid) in every placement; distinct by the sequence '
    'of hook calls, errors and value'
)
ASSUMPTIONS = [
    'hooks return a value, a marker (NONE, ERROR, NOT_SET) or raise ValueError; other '
    'behaviours are the subject of C02',
]

SOURCES = [
    {}, {'compute': 'NONE'}, {'compute': 'ERROR'}, {'compute': 'NOT_SET'},
    {'compute': ('val', None)}, {'compute': ('val', 3)}, {'compute': ('val', 0)},
    {'parse': 'raw'}, {'parse': 'raise'}, {'parse': ('val', 3)}, {'parse': ('val', None)},
    {'parse': 'NONE'}, {'parse': 'ERROR'}, {'parse': 'NOT_SET'},
    {'compute': ('val', 3), 'parse': ('val', 4)},
]
RESOLVES = [{}, {'resolve': ('key', 'g')}, {'resolve': 'none'}]
MUNGES = [
    {}, {'munge': 'id'}, {'munge': ('val', 3)}, {'munge': ('val', None)}, {'munge': ('val', 0)},
    {'munge': ('val', 99)}, {'munge': 'NONE'}, {'munge': 'ERROR'}, {'munge': 'NOT_SET'},
]
FILTERS = [{}, {'filter': ('val', True)}, {'filter': ('val', False)}, {'filter': 'truthy'}, {'filter': ('val', None)},
           {'filter': ('val', 'yes')}, {'filter': 'id'}]
VALIDATES = [{}, {'validate': ('val', True)}, {'validate': 'err'}, {'validate': 'truthy'},
             {'validate': ('val', None)}, {'validate': ('val', 'yes')}, {'validate': 'id'}]
DEFAULTS = [
    UNSET, 'NONE', ('lit', None), ('lit', 0), ('lit', 77), ('call', 78), ('call', None), ('hook', 79),
    ('hook', None),
]
NULLABLE = [UNSET, True, False]
STATIC = [
    {}, {'ignores': [3, 'x']}, {'ignores': [None]}, {'translations': {5: 3, None: 6}},
    {'translations': {5: None, 3: 4}, 'ignores': [4, 5]},
]
DOCS = [{}, {'f': None}, {'f': 5}, {'f': 3}, {'f': 0}, {'f': 'bad'}, {'g': 5}, {'f': 3, 'g': 'bad'},
        {'g': None, 'f': 5}]

PLACES = ['root', 'src', 'list', 'dict', 'key', 'tuple', 'subform', 'group', 'deep']


def combos(tier):
    axes = [SOURCES, RESOLVES, MUNGES, FILTERS, VALIDATES, DEFAULTS, NULLABLE, STATIC]
    for combo in itertools.product(*axes):
        far = sum(bool(c) and c is not UNSET for c in combo)
        if tier == 'quick' and far > 3:
            continue
        if tier != 'quick' and far > 5:
            continue
        yield combo


def cases(tier):
    yield 'signatures'
    group = []
    for combo in combos(tier):
        group.append(combo)
        if len(group) == 40:
            yield group
            group = []
    if group:
        yield group
    for ig in itertools.product((False, True), repeat=2):
        for hooks in SOURCES[:7]:
            yield 'ctx', ig, hooks


def bounds(tier):
    return {
        'axes': {'source hook': len(SOURCES), 'resolve': 3, 'munge': len(MUNGES),
                 'filter': len(FILTERS), 'validate': len(VALIDATES),
                 'default': len(DEFAULTS), 'nullable': 3, 'ignores/translations': len(STATIC)},
        'deviations from a plain field': 3 if tier == 'quick' else 5,
        'placements': PLACES,
        'documents': len(DOCS),
    }


def spec(combo, name='f', **kw):
    source, resolve, munge, filt, validate, default, nullable, static = combo
    hooks = {}
    for h in (source, resolve, munge, filt, validate):
        hooks.update(h)
    kw = dict(kw, **static)
    if hooks.get('parse') == 'raw':
        # bounds are for numbers, this hook returns anything
        return F('Any', name, hooks=hooks, default=default, nullable=nullable, **kw)
    return F('Integer', name, max_value=50, hooks=hooks, default=default, nullable=nullable, **kw)


def place(combo, where):
    """-> (form spec, function of the document for the field)"""
    if where == 'root':
        return FS(F('Any', 'g0', default='NONE'), spec(combo)), lambda d: d
    if where == 'src':
        # the field's name differs from its key in the document
        return FS(spec(combo, 'name', src='f')), lambda d: d
    item = spec(combo, None)
    vals = lambda d: [d[k] for k in ('f', 'g') if k in d]
    if where == 'list':
        return FS(F('List', 'l', field=item)), lambda d: {'l': vals(d)}
    if where == 'tuple':
        return FS(F('Tuple', 't', fields=[item, F('Any')])), \
            lambda d: {'t': (vals(d) + [1])[:2]}
    if where == 'dict':
        return FS(F('Dict', 'd', key=F('String'), value=item)), lambda d: {'d': d}
    if where == 'key':
        return FS(F('Dict', 'd', key=item, value=F('Any'))), \
            lambda d: {'d': dict((v, k) for k, v in d.items() if v != 'bad')}
    if where == 'subform':
        return FS(F('SubForm', 's', form=FS(spec(combo), name='Sub'))), lambda d: {'s': d}
    if where == 'group':
        return FS(F('Group', 'x', fields=[('f', item)])), lambda d: d
    if where == 'deep':
        sub = FS(F('List', 'l', field=F('SubForm', form=FS(spec(combo), name='Sub'))), name='Mid')
        return FS(F('SubForm', 's', form=sub)), lambda d: {'s': {'l': [d, {'f': 5}]}}


def allowed(combo, where):
    source, resolve = combo[0], combo[1]
    if resolve and where in ('list', 'tuple', 'dict', 'key', 'group'):
        return False  # the hook would have to know the item
    if where == 'key' and (source or combo[5] is not UNSET):
        # a key is given to its field, which therefore computes nothing; what
        # a default is for there is not documented
        return False
    return True


def run(case, rep):
    if case == 'signatures':
        return signatures(rep)
    if case[0] == 'ctx':
        _, (ig_default, ig_missing), hooks = case
        ctx = {'ignore_default': ig_default, 'ignore_missing': ig_missing}
        for default, resolve, place_ in itertools.product(DEFAULTS, RESOLVES, ('root', 'deep')):
            combo = hooks, resolve, {}, {}, {}, default, UNSET, {}
            for munge in ({}, {'munge': 'NONE'}):
                for filt in ({}, {'filter': ('val', False)}):
                    c = combo[:2] + (munge, filt) + combo[4:]
                    fs, docs = place(c, place_)
                    b = build.Builder()
                    for d in DOCS:
                        build.compare(rep, b, fs, docs(d), ctx=ctx)
        return
    for n, combo in enumerate(case):
        far = sum(bool(c) and c is not UNSET for c in combo)
        places = PLACES if far <= 2 else (PLACES[0], PLACES[6], PLACES[n % len(PLACES)])
        for where in dict.fromkeys(places):
            if not allowed(combo, where):
                continue
            fs, docs = place(combo, where)
            b = build.Builder()
            for d in DOCS:
                build.compare(rep, b, fs, docs(d))


# Which functions each hook takes

GOOD = {
    'compute': lambda self: 1,
    'resolve': lambda self: None,
    'parse': lambda self, path: 1,
    'default': lambda self: 1,
    'munge': lambda self, value: 1,
    'filter': lambda self, value: 1,
    'validate': lambda self, value: 1,
}
SHAPES = [
    lambda: 1, lambda self: 1, lambda self, path: 1, lambda self, value: 1,
    lambda self, val: 1, lambda self, value, extra: 1, lambda self, *value: 1,
    lambda self, value=None: 1, lambda self, **kw: 1, lambda this, value: 1, lambda self, key: 1,
]


def signatures(rep):
    """A function that does not fit the hook is refused where it is declared."""
    import inspect
    for hook, good in GOOD.items():
        for make in (pf.String, pf.Integer, pf.Field, pf.UUID, pf.Boolean):
            for shape in SHAPES:
                rep.eval()
                field = make()
                fits = inspect.getfullargspec(shape) == inspect.getfullargspec(good)
                try:
                    back = getattr(field, hook)(shape)
                except TypeError:
                    took = False
                else:
                    took = True
                    rep.check(back is field, 'registering a hook does not return its field', sub=hook)
                rep.outcome((hook, took))
                rep.check(took == fits, 'hook {0} took={1} a function of shape {2}'.format(
                    hook, took, inspect.getfullargspec(shape)))
                rep.check(bool(getattr(field, hook)) == took, 'hook is set unless refused')
    # a hook of an item reports the outermost field, so that it can be
    # declared under its name
    for depth in (1, 2, 3):
        rep.eval()
        item = pf.Integer()
        outer = item
        for _ in range(depth):
            outer = pf.List(outer)
        rep.check(item.munge(GOOD['munge']) is outer, 'hook of an item does not return the outer field')
