"""
C10: a path names a place in the document: what it shows depends only on its
keys, not on how they were pushed, popped, replaced or read on the way.

Breadth-first search over histories of operations on the real path objects of
each kind of source, in lock-step with a model that looks the keys up afresh.
"""
import collections
import copy
import itertools
import json

import pilo
from pilo.source import DefaultSource, JsonSource, MountSource, SourceError

from .. import ref
from ..ref import ABSENT

LEVEL = 'model_checking'
RULE = ''
ASSUMPTIONS = [
    'paths are used as stacks (append, pop, replace the last key), as mapping does',
    'UnionSource is left to C12: its paths can only be walked container by container',
    'ignored places are named by keys, not by an index',
]


class Thing(object):

    kind = 14

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def call(self):
        return {'p': self.p, 'q': [self.p]}

    def none(self):
        return None

    def __repr__(self):
        return 'Thing'

    def __eq__(self, other):
        return type(other) is Thing and self.__dict__ == other.__dict__


DOC = {
    'a': {'b': {'c': 1, 'd': None}, 'a': [10, {'b': 5}], 'b.c': 11},
    'b': [{'a': 7}, [1, 2], None],
    'a.b': {'c': 13},
    'n': None,
    's': 2.5,
    'x': {'y': {'z': {'a': 3}}},
    'f()': 12,
    'items': 0,
}
TEXT = dict(DOC, s='text')
LIST = [{'a': 1, 'b': [2]}, [3, {'a': 4}], None, 8]


def thing():
    return {'t': Thing(p=1, child={'p': Thing(p=2)}, items=6), 'p': 0, 'u': [Thing(p=3)]}


class Model(object):
    """How one kind of source is to resolve its keys."""

    def __init__(self, root, keys, objects=False, aliases=None, ignores=()):
        self.root, self.keys, self.objects = root, keys, objects
        # an ignored place is found by no key that leads to it
        self.aliases, self.ignores = aliases or {}, [i.split('.') for i in ignores]

    def item(self, cont, key):
        v = ref.step(cont, key)
        if v is ABSENT and self.objects and isinstance(key, str) and cont is not ABSENT \
                and isinstance(cont, Thing):
            v = getattr(cont, key, ABSENT)
        return v

    def one(self, cont, key, first, before=None):
        if isinstance(key, str) and key.endswith('()') and self.objects:
            v = ref.step(cont, key)
            if v is ABSENT and '.' in key:
                head, last = key.rsplit('.', 1)
                v = ref.step(self.one(cont, head, first, before), last)
            if v is not ABSENT:
                return v
            v = self.one(cont, key[:-2], first)
            if v is ABSENT and isinstance(cont, dict) and hasattr(dict, key[:-2]):
                v = getattr(cont, key[:-2])
            return v if v is ABSENT else v()
        v = self.item(cont, key)
        if v is ABSENT and first and key in self.aliases:
            v = self.item(cont, self.aliases[key])
        if v is ABSENT and isinstance(key, str) and '.' in key:
            v = cont
            atoms = key.split('.')
            for n, atom in enumerate(atoms):
                if n < len(atoms) - 1 and (before or []) + atoms[:n + 1] in self.ignores:
                    return ABSENT
                w = self.item(v, atom)
                if w is ABSENT and first and not n and atom in self.aliases:
                    w = self.item(v, self.aliases[atom])
                v = w
                if v is ABSENT:
                    break
        return v

    def value(self, keys):
        v, flat = self.root, []
        for i, key in enumerate(keys):
            before = flat
            flat = flat + (key.split('.') if isinstance(key, str) else [key])
            if flat in self.ignores:
                return ABSENT
            v = self.one(v, key, i == 0, before)
            if v is ABSENT:
                break
        return v

    def mapping(self, keys):
        if not keys and self.aliases:
            return sorted(self.aliases)
        v = self.value(keys)
        if not isinstance(v, dict):
            return 'error'
        flat = sum((k.split('.') if isinstance(k, str) else [k] for k in keys), [])
        return sorted((k for k in v if flat + (k.split('.') if isinstance(k, str) else [k]) not in self.ignores), key=repr)

    def sequence(self, keys):
        v = self.value(keys)
        return len(v) if isinstance(v, (list, tuple)) else 'error'

    def text(self, keys):
        return ref.loc(keys)


class Mounts(Model):

    def __init__(self, mounts, keys):
        self.mounts, self.keys = mounts, keys

    def value(self, keys):
        if not keys or keys[0] not in self.mounts:
            return ABSENT
        return self.mounts[keys[0]].value(keys[1:])

    def exists(self, keys):
        return not keys or self.value(keys) is not ABSENT

    def mapping(self, keys):
        if not keys:
            return sorted(self.mounts)
        if keys[0] not in self.mounts:
            return None
        return self.mounts[keys[0]].mapping(keys[1:])

    def sequence(self, keys):
        if not keys:
            return 'error'
        if keys[0] not in self.mounts:
            return None
        return self.mounts[keys[0]].sequence(keys[1:])

    def text(self, keys):
        if not keys:
            return ''
        if keys[0] not in self.mounts:
            return None
        rest = ref.loc(keys[1:])
        return '@{0}{1}'.format(keys[0], ':' + rest if len(keys) > 1 else '')


JDOC = dict(DOC)
SOURCES = collections.OrderedDict([
    ('default', (lambda: DefaultSource(copy.deepcopy(DOC)), lambda: Model(
        DOC, ['a', 'b', 'n', 's', 'c', 'zz', 'a.b', 'x.y', 'x.y.z.a', 'b.c', 0, 1, 'name'], objects=True))),
    ('methods', (lambda: DefaultSource(copy.deepcopy(TEXT)), lambda: Model(
        TEXT, ['f()', 'items', 'keys', 'copy', 'get', 'a', 'append', 'upper', 's', 'b', 'values'], objects=True))),
    ('objects', (lambda: DefaultSource(thing()), lambda: Model(
        thing(), ['t', 'p', 'child', 'call()', 'call.p', 'none()', 'kind', 'q', 'u', 0, 't.child', 't.call()', 'zz()',
                  'items', 't.child.p.p', 't.items'], objects=True))),
    ('aliases', (lambda: DefaultSource(copy.deepcopy(DOC), aliases={'q': 'a', 'a': 'b', 'b': 'zz', 'n2': 'n'}),
                 lambda: Model(DOC, ['q', 'a', 'b', 'n2', 's', 'zz', 'q.b', 'x', 0, 'q.b.c', 'q.q', 'q.a'], objects=True,
                               aliases={'q': 'a', 'a': 'b', 'b': 'zz', 'n2': 'n'}))),
    ('positional', (lambda: DefaultSource(copy.deepcopy(LIST), aliases={'one': 0, 'two': 1, 'three': 2, 'nine': 9}),
                    lambda: Model(LIST, ['one', 'two', 'three', 'nine', 'a', 'b', 0, 1, 'index', 'one.a', 'count'],
                                  objects=True, aliases={'one': 0, 'two': 1, 'three': 2, 'nine': 9}))),
    ('ignores', (lambda: DefaultSource(copy.deepcopy(DOC), ignores=['a.b', 'x', 'n', 'b', 'a.a.zz']),
                 lambda: Model(DOC, ['a', 'b', 'x', 'n', 'c', 's', 'y', 0, 'zz', 'a.b', 'a.a', 'b.c', 'x.y', 'a.a.zz',
                                     'c.a'], objects=True, ignores=['a.b', 'x', 'n', 'b', 'a.a.zz']))),
    ('json', (lambda: JsonSource(json.dumps(JDOC)), lambda: Model(
        JDOC, ['a', 'b', 'n', 'items', 'c', 'zz', 'a.b', 'x.y', 'x.y.z.a', 'b.c', 0, 1, 9, 'keys']))),
    ('mount', (lambda: MountSource(m=copy.deepcopy(DOC), j=JsonSource(json.dumps(JDOC)), e=None, **{'x.y': {'a': 1}}),
               lambda: Mounts({
                   'm': Model(DOC, [], objects=True), 'j': Model(JDOC, []), 'e': Model(None, []),
                   'x.y': Model({'a': 1}, [], objects=True),
               }, ['m', 'j', 'e', 'x.y', 'a', 'b', 'n', 'zz', 0, 'a.b', 'x']))),
])


def depth(tier):
    return 5 if tier == 'quick' else 7


def cases(tier):
    for name in SOURCES:
        keys = SOURCES[name][1]().keys
        for k in keys:
            yield tier, name, ('push', k)
        yield tier, name, ('read',)


def bounds(tier):
    return {'sources': list(SOURCES), 'operations per history': depth(tier), 'keys at once': 4,
            'operations': 'push of 9..16 keys, pop, replace, read, look as mapping/sequence, copy'}


# state: (keys, how each was used since it was pushed)

def enabled(state, keys):
    ks, marks, copied = state
    out = []
    if len(ks) < 4:
        out.extend(('push', k) for k in keys)
    if ks:
        out.append(('pop',))
        out.extend(('replace', k) for k in keys[:3])
    out.append(('read',))
    out.append(('shape',))
    if not copied:
        out.append(('copy',))
    return out


def m_step(state, ev):
    ks, marks, copied = state
    if ev[0] == 'push':
        return ks + (ev[1],), marks + ('',), copied
    if ev[0] == 'pop':
        return ks[:-1], marks[:-1], copied
    if ev[0] == 'replace':
        return ks[:-1] + (ev[1],), marks[:-1] + ('',), copied
    if ev[0] in ('read', 'shape'):
        return ks, tuple(m if ev[0][0] in m else m + ev[0][0] for m in marks), copied
    if ev[0] == 'copy':
        return ks, marks, (ks, marks)
    raise Exception(ev)


def shapes(path):
    if not path.exists:
        return ['error'] * 3    # nothing there to look into
    out = []
    for f in (lambda: sorted(path.mapping(), key=repr), path.sequence, path.primitive):
        try:
            out.append(f())
        except (SourceError, ValueError):
            out.append('error')
    return out


def play(make, hist):
    path, other = make().path(), None
    for ev in hist:
        if ev[0] == 'push':
            path.append(ev[1])
        elif ev[0] == 'pop':
            path.pop()
        elif ev[0] == 'replace':
            path[-1] = ev[1]
        elif ev[0] == 'read':
            path.value, path.exists, path.is_null
        elif ev[0] == 'shape':
            shapes(path)
        else:
            other = copy.copy(path)
    return path, other


def observe(path):
    """Everything a path shows, after one history."""
    obs = collections.OrderedDict()
    obs['exists'], obs['null'] = path.exists, path.is_null
    obs['len'] = len(path)
    obs['keys'] = tuple(p.key for p in path)
    obs['str'] = str(path)
    m, s, p = shapes(path)
    obs['mapping'], obs['sequence'] = m, s
    obs['value'] = ABSENT if path.value is pilo.NONE else path.value
    if len(path):
        obs['name'] = path.name
    return obs


def expect(model, ks):
    obs = collections.OrderedDict()
    v = model.value(ks)
    mount = isinstance(model, Mounts)
    obs['exists'] = model.exists(ks) if mount else v is not ABSENT
    obs['null'] = v is None
    obs['len'], obs['keys'] = len(ks), tuple(ks)
    text = model.text(list(ks))
    obs['str'] = text
    obs['mapping'], obs['sequence'] = model.mapping(ks), model.sequence(ks)
    obs['value'] = v
    if ks:
        obs['name'] = ks[-1]
    return obs


def agree(got, want, ks):
    bad = []
    for k in got:
        if k in ('mapping', 'sequence', 'str') and want[k] is None:
            continue   # what a name that is not mounted is when used as a container
        if k in ('mapping', 'sequence') and not want['exists']:
            # looking into nothing is an error of some kind, never a container
            if got[k] != 'error':
                bad.append((k, got[k], 'error'))
            continue
        if k == 'value':
            same = got[k] is want[k] or (got[k] == want[k] and type(got[k]) is type(want[k]))
        else:
            same = got[k] == want[k]
        if not same:
            bad.append((k, got[k], want[k]))
    return bad


def run(case, rep):
    tier, name, first = case
    make, mk = SOURCES[name]
    model = mk()
    init = ((), (), None)
    start = m_step(init, first)
    if not check(make, model, [first], start, rep, name):
        return
    seen = {start}
    frontier = [([first], start)]
    n = depth(tier)
    while frontier:
        nxt = []
        for hist, state in frontier:
            if len(hist) >= n:
                continue
            for ev in enabled(state, model.keys):
                rep.count('transitions')
                new = m_step(state, ev)
                if new in seen:
                    continue
                seen.add(new)
                h = hist + [ev]
                if not check(make, model, h, new, rep, name):
                    return
                nxt.append((h, new))
        frontier = nxt


def check(make, model, hist, state, rep, name):
    rep.eval()
    rep.state((name, repr(state)))
    ks, _, copied = state
    try:
        path, other = play(make, hist)
        got = observe(path)
        bad = agree(got, expect(model, ks), ks)
    except Exception as ex:
        rep.fail('{0!r} escaped'.format(ex), sub=(name, hist))
        return False
    rep.outcome((name, repr(list(got.items()))))
    if bad:
        rep.fail('(what, real, model): {0!r}'.format(bad), sub=(name, hist))
        return False
    if copied:
        bad = agree(observe(other), expect(model, copied[0]), copied[0])
        if bad:
            rep.fail('copy of a path changed with it (what, real, model): {0!r}'.format(bad), sub=(name, hist))
            return False
    if len(rep.samples) < 2 and len(hist) > 3:
        rep.sample({'source': name, 'history': repr(hist), 'shows': repr(dict(got))[:400]})
    return True
