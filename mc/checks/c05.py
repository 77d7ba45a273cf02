"""
C05: a scalar field accepts exactly the values its type and its declared
constraints allow, whatever the source.
"""
import datetime
import decimal
import fractions
import itertools
import json
import uuid

import pilo
from pilo.source import ConfigSource, DefaultSource, JsonSource, SourceError, UnionSource

from .. import build, ref
from ..ref import F, FS, ABSENT

LEVEL = 'exploration'
RULE = (
    'one case per (scalar kind, constraint combination, optionality); each is run on '
    'every value of the alphabet and an absent key, from a native, a JSON and a strict '
    'JSON source; distinct by (errors, value)'
)
ASSUMPTIONS = ['values outside the alphabet behave like one inside']

U = '12345678-1234-5678-1234-567812345678'
JSONABLE = [
    None, True, False, 0, 1, -1, 2, 3, 5, 7, 10, 11, 255, 10 ** 19, -10 ** 19, 10 ** 400,
    0.0, 1.0, -1.0, 2.0, 2.5, 9.5, 1e20, 1e-7, float('inf'), float('-inf'), float('nan'),
    '', ' ', '0', '1', '2', '-1', '+2', '7', '10', '11', ' 3 ', '1.0', '2.5', '1e1', '1_0', '0x10', '.5', '-',
    'nan', 'NaN', 'sNaN', 'inf', '-Infinity', '1/2', '\u0663', '\u00e9',
    't', 'T', 'f', 'F', 'true', 'True', 'FALSE', 'fAlse', 'yes', 'no', 'None', 'null',
    'a', 'b', 'ab', 'ba', 'abc', 'abcd', 'aaa', 'A', 'a\n', 'a.b', '[', '12a', 'a12', '1 2',
    U, U.upper(), U.replace('-', ''), '{' + U + '}', 'urn:uuid:' + U, U[:-1], U + '0',
    [], [1], ['a'], [[]], {}, {'a': 1}, {'x': {}},
]
NATIVE = [
    (), (1,), b'', b'a', b'1', bytearray(b'a'), decimal.Decimal('2.5'), decimal.Decimal('7'),
    decimal.Decimal('NaN'), decimal.Decimal('Infinity'), decimal.Decimal('-0'),
    decimal.Decimal('sNaN'), 1j, fractions.Fraction(1, 2), fractions.Fraction(7),
    uuid.UUID(U), datetime.date(2020, 1, 2), datetime.datetime(2020, 1, 2), set(), object,
]


class IntSub(int):
    pass


class StrSub(str):
    pass


class FloatSub(float):
    pass


class Deep(IntSub):
    pass


class Unknown(object):
    pass


# What may be asked of a path, and the type it is then read as
ASKED = [
    ((), None), ((None,), None), ((str,), str), ((int,), int), ((float,), float), ((bool,), bool),
    ((StrSub,), str), ((IntSub,), int), ((FloatSub,), float), ((Deep,), int),
    ((str, int), str), ((bool, str), bool), ((Unknown, int), int), ((Deep, Unknown), int), ((Unknown,), 'none'),
    ((Unknown, Unknown), 'none'), ((int, float), int),
]


def constraints(tier):
    yield 'Any', {}
    yield 'Boolean', {}
    yield 'UUID', {}
    sizes = [{}] + [{'length': n} for n in (0, 1, 3, (1, 2), (2, 2), (0, 3), [2, 3])]
    sizes += [{'min_length': a} for a in (0, 1, 3)]
    sizes += [{'max_length': a} for a in (0, 1, 3)]
    sizes += [{'min_length': a, 'max_length': b} for a, b in ((0, 0), (1, 1), (1, 3), (2, 3), (3, 2))]
    patterns = [{}] + [{'pattern': p} for p in ('a', r'\d+$', r'^[ab]*$', 'b?')]
    alphabets = [{}] + [{'alphabet': a} for a in ('ab', '0123456789', ['a', 'b', 'c'])]
    choices = [{}] + [{'choices': c} for c in (['a'], ['a', 'ab', '1'], ['', 'abc'], ('a', '1'), frozenset(['b']))]
    for s, p, a, c in itertools.product(sizes, patterns, alphabets, choices):
        if tier == 'quick' and sum(map(bool, (s, p, a, c))) > 2:
            continue
        yield 'String', dict(itertools.chain(*(d.items() for d in (s, p, a, c))))
    bounds = (None, -1, 0, 1, 2, 2.5, 7, 10, 10 ** 19)
    for kind in ('Integer', 'Float', 'Decimal'):
        conv = {'Integer': lambda v: v, 'Float': lambda v: v,
                'Decimal': lambda v: decimal.Decimal(str(v))}[kind]
        yield kind, {}
        for lo, hi in itertools.product(bounds, bounds):
            if lo is None and hi is None:
                continue
            o = {}
            if lo is not None:
                o['min_value'] = conv(lo)
            if hi is not None:
                o['max_value'] = conv(hi)
            yield kind, o
            yield kind, dict(o, via='methods')
            if lo is not None and hi is not None:
                yield kind, {'range': (conv(lo), conv(hi))}
                yield kind, {'range': (conv(lo), conv(hi)), 'via': 'methods'}
            elif lo is None:
                yield kind, {'range': (None, conv(hi))}
    for kind in ('Integer', 'Float'):
        for pattern in (r'\d+', r'-?\d+$', r'[\d.]+', 'a', '1', r'.*'):
            yield kind, {'pattern': pattern}
            yield kind, {'pattern': pattern, 'min_value': 1, 'max_value': 10}


OPTIONALITY = [
    {}, {'default': 'NONE'}, {'default': ('lit', None)}, {'default': ('lit', 'dflt')},
    {'nullable': False}, {'nullable': True}, {'nullable': False, 'default': ('lit', 'dflt')},
    {'nullable': False, 'default': ('lit', None)},
    {'translations': {'a': 'b', '1': 'one', 1: 'uno'}}, {'ignores': ['', 'a', 0, 1, None]},
    {'ignores': ['', 'a', 1, 2.5], 'default': ('call', 'called')},
]


def cases(tier):
    for asked in range(len(ASKED)):
        for again in range(len(ASKED)):
            yield 'asked', asked, again
    cs = list(constraints(tier))
    for n, (kind, o) in enumerate(cs):
        yield kind, o, {}
    for n, (kind, o) in enumerate(cs):
        extra = OPTIONALITY[1:]
        if tier == 'quick' and o and kind != 'String':
            extra = [OPTIONALITY[1 + n % len(extra)], OPTIONALITY[1 + (n + 4) % len(extra)]]
        for opt in extra:
            if 'translations' in opt and kind in ('Integer', 'Float', 'Decimal') and o:
                opt = {'translations': {1: 2, 2.5: 3, 10: 1}}
            yield kind, o, opt


def bounds(tier):
    return {
        'schemas': 'each scalar kind x constraint combinations ({0}) x {1} optionality variants'.format(
            'any two constraint groups' if tier == 'quick' else 'all', len(OPTIONALITY)),
        'values': len(JSONABLE) + len(NATIVE) + 1,
        'sources': ['native', 'JSON', 'strict JSON'],
    }


def asked(rep, first, second):
    """A hook that parses asks its path for a type, or for what comes next."""
    makers = [
        ('plain', DefaultSource, JSONABLE + NATIVE), ('json', lambda d: JsonSource(json.dumps(d)), JSONABLE),
        ('strict', lambda d: JsonSource(json.dumps(d), strict=True), JSONABLE),
        ('union', lambda d: UnionSource([d]), [v for v in JSONABLE if not isinstance(v, (list, dict))]),
        ('config', lambda d: ConfigSource('[s]\nf = %s\n' % d['f'], section='s'), ['1', 'x', 'true', '2.5', 'nan', '0', '-3', '']),
    ]
    coerce = {str: ref.c_string, int: ref.c_int, float: ref.c_float, bool: ref.c_bool, None: lambda fl, v: v}
    for flavor, make, values in makers:
        for v in values:
            path = make({'f': v}).path()
            path.append('f')
            for n in (first, second):
                types, as_ = ASKED[n]
                rep.eval()
                try:
                    want = ValueError if as_ == 'none' else coerce[as_](
                        'plain' if flavor in ('union', 'config') else flavor, v)
                except ref.Bad:
                    want = SourceError
                try:
                    got = path.primitive(*types)
                except (SourceError, ValueError) as ex:
                    got = SourceError if isinstance(ex, SourceError) else ValueError
                    if isinstance(ex, SourceError):
                        rep.check(str(ex.path) == str(path) and ex.message == str(ex), 'what an error is about', sub=(flavor, v, types))
                except Exception as ex:
                    rep.fail('{0!r} escaped, expected {1!r}'.format(ex, want), sub=(flavor, v, types))
                    continue
                rep.outcome((repr(got), as_))
                rep.check(build.same(got, want), '{0!r} read as {1} gave {2!r}, expected {3!r}'.format(v, types, got, want),
                          sub=(flavor, v, types))


def run(case, rep):
    kind, o, opt = case
    if kind == 'asked':
        return asked(rep, o, opt)
    fs = FS(F(kind, 'f', **dict(o, **opt)))
    b = build.Builder()
    for flavor in ('plain', 'json', 'strict', 'union'):
        build.compare(rep, b, fs, {}, flavor)
        build.compare(rep, b, fs, {'g': 1}, flavor)
        for v in JSONABLE + (NATIVE + [IntSub(7)] if flavor in ('plain', 'union') else []):
            build.compare(rep, b, fs, {'f': v}, flavor)
