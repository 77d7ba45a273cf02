"""
C06: dates, times and timestamps are read by their declared format(s), native
values are kept, bounds are inclusive, and formatting is the inverse of reading.
"""
import datetime
import itertools
import time

from pilo import fields as pf

from .. import build, ref
from ..ref import F, FS

LEVEL = 'exploration'
RULE = (
    'one case per (temporal kind, formats, bounds, optionality), run on every text, wrong '
    'type and native value of the alphabet from each source; distinct by (errors, value)'
)
ASSUMPTIONS = [
    'the strptime, strftime and iso8601 implementations are trusted',
]

D = datetime.date
DT = datetime.datetime
UTC = datetime.timezone.utc

FORMATS = {
    'Date': [
        None, '%Y-%m-%d', '%d/%m/%y', '%Y%j', 'iso8601', ['%Y-%m-%d'], ['iso8601'],
        ['%d/%m/%y', '%Y-%m-%d'], ['%Y-%m-%d', '%d/%m/%y'], ['iso8601', '%d/%m/%y'],
        ['%d/%m/%y', 'iso8601'], ('%m/%d/%y', '%d/%m/%y', '%Y-%m-%d'),
        ['%Y', '%m', 'iso8601', '%d/%m/%y'],
    ],
    'Time': [None, '%H:%M', '%H:%M:%S', '%I%p'],
    'Datetime': [None, '%Y-%m-%d', '%Y-%m-%dT%H:%M', '%d/%m/%y %H', 'iso8601', '%Y-%m-%dT%H:%M:%S.%f', '%H:%M %Y-%m-%d'],
}
TEXTS = {
    'Date': [
        '2020-02-28', '2020-02-29', '2019-02-29', '2020-03-01', '28/02/20', '03/04/20', '04/03/20',
        '13/01/20', '01/13/20', '2020-13-01', '2020-02-28T23:59:59Z', '2020-02-28T01:00:00+05:00',
        '2020', '12', '2020059', '', ' ', 'x', '2020-02-28x', '2020-2-8',
        ' 2020-02-28', '2020-02-28 ', '28/02/20\n', '2020-02-28\n', '\t28/02/20',
    ],
    'Time': ['00:00', '12:30', '12:30:15', '23:59', '24:00', '12:60', '7AM', '', 'x', '12:30 ', ' 12:30', '12:30:15\n', '7am', '\t7AM'],
    'Datetime': [
        '2020-02-28', '2020-02-29', '2019-02-29', '2020-02-28T12:30', '2020-02-28T12:30:15',
        '2020-02-28T12:30:15Z', '2020-02-28T12:30:15+02:00', '2020-02-28T25:00',
        '28/02/20 13', '', 'x', '2020-02-28 12:30:15', ' 2020-02-28', '2020-02-28T12:30 ', '2020-02-28\n', '28/02/20  13',
        ' 2020-02-28T12:30:15Z', '2020-02-28T12:30:15Z ', '2020-02-28T12:30:15.000001', '2020-02-28T12:30:15.9',
        '12:30 2020-02-28',
    ],
}
OTHERS = [None, True, 0, 1, 1.5, [], ['2020-02-28'], {}, {'a': 1}]
NATIVE = {
    'Date': [D(2020, 2, 28), D(2020, 3, 1), D.min, b'2020-02-28', DT(2020, 2, 28, 1), DT(2020, 2, 28, tzinfo=UTC)],
    'Time': [time.strptime('12:30', '%H:%M'), time.strptime('23:59', '%H:%M'), b'12:30', datetime.time(12, 30), datetime.time(12, 30, tzinfo=UTC)],
    'Datetime': [DT(2020, 2, 28, 12, 30), DT(2020, 2, 28, 12, 30, 15, 1), DT(2020, 11, 1, 1, 30, fold=1), D(2020, 2, 28)],
}
NAIVE = DT(2020, 2, 28, 12, 45)
AWARE = [DT(2020, 2, 28, 12, 30, tzinfo=UTC), DT(2020, 11, 1, 1, 30, fold=1, tzinfo=UTC)]
LIMITS = {
    'Date': [None, D(2020, 2, 28), D(2020, 2, 29), D(2020, 3, 4), D(1999, 1, 1), D(2030, 1, 1)],
    'Time': [None] + [time.strptime(t, '%H:%M') for t in ('00:00', '12:30', '12:31', '23:59')] + [datetime.time(12, 30)],
    'Datetime': [None] + [
        DT(2020, 2, 28), DT(2020, 2, 28, 12, 30), DT(2020, 2, 28, 12, 30, 15), DT(2020, 2, 28, 13),
        DT(2030, 1, 1), NAIVE,
    ],
}
OPT = [{}, {'default': ('lit', None)}, {'default': 'NONE'}, {'nullable': False},
       {'ignores': ['', None]}, {'hooks': {'munge': 'id', 'validate': 'truthy'}}]


def cases(tier):
    for kind in ('Date', 'Time', 'Datetime'):
        for fmt in FORMATS[kind]:
            for lo, hi in itertools.product(LIMITS[kind], repeat=2):
                if kind == 'Datetime' and fmt == 'iso8601':
                    lo, hi = [x if x in (None, NAIVE) else x.replace(tzinfo=UTC) for x in (lo, hi)]
                elif kind == 'Datetime':
                    # one bound has what the others have not
                    lo, hi = [x.replace(tzinfo=UTC) if x == NAIVE else x for x in (lo, hi)]
                for via in (None, 'methods') if lo is not None or hi is not None else (None,):
                    for opt in OPT if tier != 'quick' or lo is hi is None else OPT[:1]:
                        o = {}
                        if fmt is not None:
                            o['format'] = fmt
                        if lo is not None:
                            o['after'] = lo
                        if hi is not None:
                            o['before'] = hi
                        if via:
                            o['via'] = via
                        yield kind, o, opt
    for kind in ('Date', 'Time', 'Datetime'):
        for fmt in FORMATS[kind]:
            first = fmt[0] if isinstance(fmt, (list, tuple)) else fmt
            if first:
                yield 'format', kind, fmt


def bounds(tier):
    return {'formats': {k: len(v) for k, v in FORMATS.items()},
            'texts': {k: len(v) for k, v in TEXTS.items()},
            'bounds': 'every ordered pair of {0} limits, given as options and by methods'.format(
                {k: len(v) for k, v in LIMITS.items()}),
            'dates for formatting': '1 per day of 2019 and 2020'}


def run(case, rep):
    if case[0] == 'format':
        return formatting(case[1], case[2], rep)
    kind, o, opt = case
    fs = FS(F(kind, 'f', **dict(o, **opt)))
    b = build.Builder()
    native = NATIVE[kind] + (AWARE if kind == 'Datetime' else [])
    for flavor in ('plain', 'json', 'strict', 'union'):
        for v in TEXTS[kind] + OTHERS + (native if flavor in ('plain', 'union') else []):
            build.compare(rep, b, fs, {'f': v}, flavor)
        build.compare(rep, b, fs, {}, flavor)


def formatting(kind, fmt, rep):
    """Reading what a field formatted yields what reading it again yields."""
    field = getattr(pf, kind)(format=fmt)
    other = getattr(pf, kind)()
    rep.check(other.format(fmt) is other, 'format(spec) does not return its field')
    fs = FS(F(kind, 'f', format=fmt))
    b = build.Builder()
    first = fmt[0] if isinstance(fmt, (list, tuple)) else fmt
    if kind == 'Time':
        values = [time.strptime('{0:02}:{1:02}'.format(h, m), '%H:%M')
                  for h in range(24) for m in (0, 1, 30, 59)]
        times = [datetime.time(h, m) for h in range(24) for m in (0, 1, 30, 59)]
        values = [v for pair in zip(times, values) for v in pair]
    elif kind == 'Date':
        values = [D(2019, 1, 1) + datetime.timedelta(days=n) for n in range(731)]
    else:
        values = [DT(2019, 1, 1) + datetime.timedelta(hours=n * 7, minutes=n, seconds=n if '%S' in first else 0,
                                                        microseconds=n * 1361 if '%f' in first else 0) for n in range(731)]
    if first == 'iso8601':
        if kind == 'Datetime':
            east = datetime.timezone(datetime.timedelta(hours=5, minutes=45))
            values += [v.replace(microsecond=n, tzinfo=z) for v in values[:40]
                       for n in (0, 1, 250000, 999999) for z in (None, UTC, east)]
            values += [D(2019, 12, 31), D(2020, 2, 29)]
        return iso_formatting(kind, field, other, fs, b, values, rep)
    for v in values:
        rep.eval()
        want = time.strftime(first, v) if isinstance(v, time.struct_time) else v.strftime(first)
        for f in (field, other):
            got = f.format(v)
            rep.outcome((kind, got))
            rep.check(got == want, lambda: '{0!r} formatted as {1!r}, expected {2!r}'.format(v, got, want))
        if isinstance(fmt, (list, tuple)):
            continue  # an earlier format may read it otherwise: see the cases above
        build.compare(rep, b, fs, {'f': want})


def iso_formatting(kind, field, other, fs, b, values, rep):
    """The text is one of those ISO 8601 has for that value."""
    for v in values:
        want = v
        if kind == 'Datetime':
            if not isinstance(v, datetime.datetime):
                want = DT(v.year, v.month, v.day)
            if want.tzinfo is None:
                want = want.replace(tzinfo=UTC)
        for f in (field, other):
            rep.eval()
            text = f.format(v)
            rep.outcome((kind, text))
            form = b.form(fs)()
            errors = form.map({'f': text})
            rep.check(not errors and form['f'] == want, lambda: '{0!r} formatted as {1!r}, which reads {2}'.format(
                v, text, errors or form['f']))
