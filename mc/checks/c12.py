"""
C12: a union of sources is the document that its merge policy describes: each
place is filled from the first source that has it, mappings and sequences are
taken from the first, the last or all of the sources, down to the merge depth.
"""
import copy
import itertools
import json

from pilo.source import DefaultSource, JsonSource, UnionSource

from .. import build, ref
from ..ref import F, FS, ABSENT

LEVEL = 'exploration'
RULE = (
    'one case per (merge policy for mappings, for sequences, merge depth, part of the form, '
    'number of sources); each is run on every combination of parts of documents over the '
    'sources; distinct by (errors, value)'
)
ASSUMPTIONS = [
    'the sources agree on which places are mappings, sequences or scalars, but for a part of its own in which '
    'only the place they disagree on is enumerated, and none has null where a '
    'later one has not (a null after something is as absent)',
    'the keys of a union come in no particular order, so errors are compared as a set',
]
POLICIES = ['first', 'last', 'combine']
DEPTHS = [None, 0, 1, 2, 3]

Z = FS(F('Integer', 'z', max_value=5), F('Integer', 'w', default='NONE'), name='Z')
SUB = FS(F('Integer', 'x'), F('Integer', 'y', default='NONE'), F('SubForm', 'n', form=Z, default='NONE'), name='Sub')
ITEM = FS(
    F('Integer', 'x'), F('List', 'k', field=F('Integer'), default='NONE'),
    F('Dict', 'm', key=F('String'), value=F('Integer'), default='NONE'), name='Item')

PARTS = {
    'scalar': (FS(F('Integer', 's', max_value=5), F('String', 't', default='NONE'), name='S'), [
        {}, {'s': 1}, {'s': 2}, {'s': 9}, {'s': 'x'}, {'t': 'a'}, {'s': 3, 't': 'b'}, {'s': None}]),
    'mapping': (FS(F('SubForm', 'm', form=SUB, unmapped='capture'), F('Integer', 'z', src='m.n.z', default='NONE'), name='M'), [
        {}, {'m': {}}, {'m': {'x': 1}}, {'m': {'x': 2, 'y': 3}}, {'m': {'y': 4, 'q': 1}},
        {'m': {'x': 5, 'n': {'z': 1}}}, {'m': {'n': {'z': 2, 'w': 3}}}, {'m': {'x': 'bad', 'n': {'z': 9}}}, {'m': None}]),
    'dict': (FS(F('Dict', 'd', key=F('String', max_length=2), value=F('Integer'), required_keys=['a']), name='D'), [
        {}, {'d': {}}, {'d': {'a': 1}}, {'d': {'a': 2, 'b': 3}}, {'d': {'b': 4}}, {'d': {'ccc': 1}}, {'d': {'a': 'x'}}, {'d': None}]),
    'sequence': (FS(F('List', 'l', field=F('Integer', max_value=9), max_length=3), name='L'), [
        {}, {'l': []}, {'l': [1]}, {'l': [2, 3]}, {'l': [4, 'x']}, {'l': [12, 5, 6]}, {'l': None}]),
    'forms': (FS(F('List', 'f', field=F('SubForm', form=ITEM)), name='F'), [
        {}, {'f': []}, {'f': [{'x': 1}]}, {'f': [{'x': 2, 'k': [1, 2]}, {'x': 3, 'm': {'a': 1}}]},
        {'f': [{'k': [7, 'x']}, {'x': 4, 'k': []}]}, {'f': [{'x': 5, 'm': {'b': 2, 'c': 'x'}}]}]),
    'nested': (FS(F('Dict', 'e', key=F('String'), value=F('List', field=F('List', field=F('Integer')))),
                  F('Tuple', 't', fields=[F('Integer'), F('List', field=F('Integer'))], default='NONE'), name='N'), [
        {}, {'e': {}}, {'e': {'a': [[1], []]}}, {'e': {'a': [[2, 3]], 'b': [[4]]}}, {'e': {'b': [['x'], [5]]}},
        {'e': {'a': []}, 't': [1, [2, 3]]}, {'t': [4, [5]]}]),
}
ALL = FS(*[f for name in ('scalar', 'mapping', 'sequence', 'dict') for f in PARTS[name][0].fields], name='All')


def cases(tier):
    for mp in POLICIES:
        for sq in POLICIES:
            for depth in DEPTHS:
                for part in sorted(PARTS):
                    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
                        yield mp, sq, depth, part, n
                yield mp, sq, depth, 'all', 2
    yield 'unknown', None, None, None, None
    yield 'disagree', None, None, None, None
    for part in sorted(PARTS):
        yield None, None, None, part, 2
        for inner in POLICIES:
            for outer in POLICIES:
                yield 'nested', inner, outer, part, 3


def bounds(tier):
    return {'policies': '3 for mappings x 3 for sequences', 'merge depth': DEPTHS, 'sources': '1..3' if tier == 'quick' else '1..4',
            'parts': dict((k, len(v[1])) for k, v in PARTS.items()),
            'kinds of source': 'documents, JSON (every mix for 2 sources), unions of unions'}


def pick(nodes, policy):
    return {'first': nodes[:1], 'last': nodes[-1:], 'combine': nodes}[policy]


def merge(nodes, depth, mp, sq, limit):
    """The document that a union of `nodes`, all at `depth` keys, stands for."""
    top = limit is not None and limit <= depth
    nodes = [n for n in nodes if n is not None] or nodes[:1]
    if isinstance(nodes[0], dict):
        if depth:
            nodes = pick(nodes, 'first' if top else mp)
        out = {}
        for n in nodes:
            for k in n:
                if k not in out:
                    out[k] = merge([m[k] for m in nodes if k in m], depth + 1, mp, sq, limit)
        return out
    if isinstance(nodes[0], list):
        nodes = pick(nodes, 'first' if top else sq)
        return [merge([i], depth + 1, mp, sq, limit) for n in nodes for i in n]
    return nodes[0]


def agree(docs):
    """Is nothing null before something that is not, here: at the top?"""
    for k in set(k for d in docs for k in d):
        nulls = [d[k] is None for d in docs if k in d]
        if nulls != sorted(nulls):
            return False
    return True


def union(docs, kinds, mp, sq, depth, given=None):
    srcs = []
    for d, kind in zip(docs, kinds):
        if kind == 'd':
            srcs.append(copy.deepcopy(d))
        elif kind == 'D':
            srcs.append(DefaultSource(copy.deepcopy(d)))
        else:
            srcs.append(JsonSource(json.dumps(d), strict=True))
    kw = {}
    if mp is not None:
        if mp == sq:
            kw['merge'] = mp
        else:
            kw.update(mapping_merge=mp, sequence_merge=sq)
    if depth is not None:
        kw['merge_depth'] = depth
    if given is not None:
        given.extend([srcs, list(srcs)])
        kind = CONTAINERS[len(repr(docs)) % len(CONTAINERS)]
        return UnionSource(kind(srcs), **kw)
    return UnionSource(srcs, **kw)


# in what the sources may be given to a union
CONTAINERS = [lambda srcs: srcs, tuple, iter]


def unchanged(given, docs, kinds):
    """What was given to a union is still what it was."""
    srcs, were = given
    return len(srcs) == len(were) and all(a is b for a, b in zip(srcs, were)) and all(
        s == d for s, d, kind in zip(srcs, docs, kinds) if kind == 'd')


def run(case, rep):
    if case[0] == 'unknown':
        return unknown(rep)
    if case[0] == 'disagree':
        return disagree(rep)
    if case[0] == 'nested':
        return nested(case, rep)
    mp, sq, depth, part, n = case
    b = build.Builder()
    if part == 'all':
        fs, pool = ALL, combos()
    else:
        fs, pool = PARTS[part]
    cls = b.form(fs)
    if n == 4:
        pool = pool[:6]
    for docs in itertools.product(pool, repeat=n):
        if not agree(docs):
            continue
        doc = merge(list(docs), 0, mp or 'first', sq or 'first', depth)
        want, werr, _ = ref.map_root(fs, doc, unmapped='ignore')
        werr = sorted(werr)
        rep.outcome((werr, repr(want) if not werr else 0))
        kinds = ['d' * n]
        if n == 2:
            kinds += ['jd', 'Dj']
        elif n == 3 and part != 'nested':
            kinds += ['djD']
        for kind in kinds:
            rep.eval()
            form, given = cls(), []
            try:
                err = sorted(build.errors_of(form.map(union(docs, kind, mp, sq, depth, given))))
            except Exception as ex:
                rep.fail('{0!r} escaped, expected {1!r} {2!r}'.format(ex, want, werr), sub=(case, docs, kind))
                return
            if not rep.check(unchanged(given, docs, kind), lambda: 'the sources given became {0!r}'.format(given), sub=(case, docs, kind)):
                return
            if not rep.check(err == werr, 'errors {0!r}, expected {1!r}'.format(err, werr), sub=(case, docs, kind)):
                return
            if not rep.check(build.same(form, want), lambda: 'value {0!r}, expected {1!r}'.format(form, want),
                             sub=(case, docs, kind)):
                return
    if len(rep.samples) < 2:
        rep.sample({'policy': repr(case), 'documents': repr(docs), 'merged': repr(doc), 'errors': repr(werr)})


def unknown(rep):
    """There is no other policy."""
    for kw in ({'merge': 'all'}, {'mapping_merge': 'all'}, {'sequence_merge': 'all'},
               {'merge': 'last', 'mapping_merge': 'firs'}, {'merge': 'combine', 'sequence_merge': 'firs'}):
        rep.eval()
        src = UnionSource([{'m': {'x': 1}, 'l': [1]}, {'m': {'x': 2}, 'l': [2]}], **kw)
        seen = []
        for key in ('m', 'l'):
            path = src.path()
            path.append(key)
            try:
                path.mapping() if key == 'm' else path.sequence()
            except ValueError:
                seen.append(key)
        merge = kw.get('merge', 'first')
        want = [k for k, o in (('m', 'mapping_merge'), ('l', 'sequence_merge')) if kw.get(o, merge) not in POLICIES]
        rep.outcome((sorted(kw.items()), seen))
        rep.check(seen == want, 'refused for {0}, expected {1}'.format(seen, want), sub=kw)


def combos():
    """Documents with several parts at once."""
    out = []
    for s, m, l, d in itertools.product(
            [{}, {'s': 1}, {'s': 9}], PARTS['mapping'][1][2::3], PARTS['sequence'][1][1::3], PARTS['dict'][1][2::3]):
        doc = dict(s)
        for x in (m, l, d):
            doc.update(x)
        out.append(doc)
    return out


def nested(case, rep):
    """A union may be one of the sources of a union."""
    _, inner, outer, part, n = case
    fs, pool = PARTS[part]
    cls = build.Builder().form(fs)
    for docs in itertools.product(pool, repeat=3):
        if not agree(docs):
            continue
        for left in (True, False):
            if left:
                one = merge(list(docs[:2]), 0, inner, inner, None)
                doc = merge([one, docs[2]], 0, outer, outer, None)
                src = UnionSource([union(docs[:2], 'dd', inner, inner, None), copy.deepcopy(docs[2])], merge=outer)
            else:
                one = merge(list(docs[1:]), 0, inner, inner, None)
                doc = merge([docs[0], one], 0, outer, outer, None)
                src = UnionSource([copy.deepcopy(docs[0]), union(docs[1:], 'dd', inner, inner, None)], merge=outer)
            want, werr, _ = ref.map_root(fs, doc)
            rep.eval()
            rep.outcome((sorted(werr), repr(want) if not werr else 0))
            form = cls()
            err = sorted(build.errors_of(form.map(src)))
            if not rep.check(err == sorted(werr), 'errors {0!r}, expected {1!r}'.format(err, werr), sub=(case, docs, left)):
                return
            if not rep.check(build.same(form, want), lambda: 'value {0!r}, expected {1!r}'.format(form, want),
                             sub=(case, docs, left)):
                return


def disagree(rep):
    """What the policy picks counts, also when it is not what it should be: it is not filled from elsewhere."""
    shapes = {
        'List': ([[1], [2, 3], []], [5, 'x', {'a': 4}, {}], F('List', 'v', field=F('Integer'))),
        'Dict': ([{'a': 1}, {'b': 2}, {}], [5, 'x', [7], []], F('Dict', 'v', key=F('String'), value=F('Integer'))),
        'Integer': ([1, 2, '3'], [[7], [], {'a': 4}], F('Integer', 'v')),
    }
    for kind in sorted(shapes):
        right, wrong, field = shapes[kind]
        cls = build.Builder().form(FS(field))
        outer = build.Builder().form(FS(F('SubForm', 'o', form=FS(field, name='V'))))
        for n in (2, 3):
            for values in itertools.product(right + wrong + [ABSENT], repeat=n):
                has = [v for v in values if v is not ABSENT]
                if not has:
                    continue
                bad = [not any(v is r for r in right) for v in has]
                for policy in POLICIES:
                    for deep in (False, True):
                        docs = [{} if v is ABSENT else {'v': copy.deepcopy(v)} for v in values]
                        if deep:
                            if policy != 'combine':
                                continue
                            docs = [{'o': d} for d in docs]
                        form = (outer if deep else cls)()
                        rep.eval()
                        err = build.errors_of(form.map(UnionSource(docs, merge=policy)))
                        got = (form.get('o') or {}) if deep else form
                        rep.outcome((kind, policy, bad, err))
                        at = 0 if kind == 'Integer' or policy == 'first' else -1 if policy == 'last' else None
                        broken = any(bad) if at is None else bad[at]
                        if broken:
                            rep.check(err == [('Invalid', 'o.v' if deep else 'v')] and 'v' not in got,
                                      lambda: '{0!r} {1!r} from {2!r}'.format(form, err, docs), sub=(kind, values, policy))
                        elif not err:
                            # or it is refused because of another source
                            want = dict(v=ref.map_root(FS(field), merge(
                                [{'v': has[at]}] if at is not None else [{'v': v} for v in has],
                                0, 'combine', 'combine', None))[0]['v'])
                            rep.check(got == want, lambda: '{0!r} {1!r} from {2!r}'.format(form, err, docs),
                                      sub=(kind, values, policy))
                        else:
                            rep.check(any(bad) and err == [('Invalid', 'o.v' if deep else 'v')],
                                      lambda: '{0!r} {1!r} from {2!r}'.format(form, err, docs), sub=(kind, values, policy))
