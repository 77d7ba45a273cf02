"""
C20: a configuration is the nested document its text says: sections are
mappings, options text, multi-line or shell-like text lists, name[key] options
mappings; read as a whole, by section, from text, parser or file, with defaults.
"""
import configparser
import io
import itertools
import os
import shutil
import tempfile
import textwrap

from pilo.source import ConfigSource

from .. import build, ref
from ..ref import F, FS, ABSENT

LEVEL = 'exploration'
RULE = (
    'one case per (values of two options, way to read); each is run on every combination of '
    'values of the other options; distinct by (errors, value)'
)
ASSUMPTIONS = [
    'the configparser module of the standard library is trusted to read the text',
    'options refer only to options there are; keys of a section that has name[key] options are not enumerated',
]

class Beside(dict):
    """Options name[key] where there is an option of that name as well, they are what counts."""


# value: (lines of text, what it is for its field)
INT = [ABSENT, ('5', '5'), ('12', '12'), ('x', 'x'), ('', ''), ('1.5', '1.5'), ('007', '007')]
BOOL = [ABSENT, ('true', 'true'), ('0', '0'), ('yes', 'yes'), ('F', 'F')]
STR = [ABSENT, ('plain', 'plain'), ('two words', 'two words'), ('a "b" c', 'a "b" c'), ('k = v', 'k = v'),
       ('', ''), ('\n  one\n  two', '\none\ntwo'), ('50%%', '50%')]
LIST = [ABSENT, ('', []), ('1', ['1']), ('1 2 3', ['1', '2', '3']), ('1 "2"', ['1', '2']), ('1 x', ['1', 'x']),
        ('\n  4\n  5', ['4', '5']), ('\n  4 5\n\n  6', ['4 5', '6']), ('1 "2', 'unbalanced')]
WORDS = [ABSENT, ('a "b c"', ['a', 'b c']), ("a\\ b", ['a b']), ('\n  x "y"\n  z', ['x "y"', 'z']),
         ('a, #b ;c', ['a,', '#b', ';c']), ('\n  x,\n  y #z', ['x,', 'y #z'])]
GRID = [ABSENT, ('\n  1 2\n  3', [['1', '2'], ['3']]), ('\n 1 x\n 2', [['1', 'x'], ['2']]), ('1 2', [['1'], ['2']])]
MAP = [ABSENT, {}, {'k': '1'}, {'k': '1', 'l': '2'}, {'k': 'x'}, {'a-b.c': '3', 'k_1': '4'},
       Beside(k='1', l='2')]
PAIR = [ABSENT, ('1 a', ['1', 'a']), ('1', ['1']), ('x a', ['x', 'a'])]

A = FS(
    F('Integer', 'n', max_value=9),
    F('Boolean', 'on', default=('lit', False)),
    F('String', 's', default='NONE', max_length=9),
    F('List', 'l', field=F('Integer'), default='NONE', max_length=2),
    F('Dict', 'm', src='m_2', key=F('String', max_length=5), value=F('Integer'), default='NONE'),
    name='A',
)
B = FS(
    F('List', 'w', field=F('String', max_length=5), default='NONE'),
    F('List', 'g', field=F('List', field=F('Integer')), default='NONE'),
    F('Tuple', 'p', fields=[F('Integer'), F('String')], default='NONE'),
    F('Decimal', 'c', default='NONE', min_value=1),
    name='B',
)
POOLS = {
    'A': [('n', INT), ('l', LIST), ('on', BOOL), ('s', STR), ('m_2', MAP)],
    'B': [('w', WORDS), ('g', GRID), ('p', PAIR), ('c', [ABSENT, ('2.5', '2.5'), ('x', 'x'), ('0', '0')])],
}
BOTH = FS(F('SubForm', 'one', form=A), F('SubForm', 'two', src='Two', form=B, default='NONE'), name='Both')
WAYS = ['text', 'parser', 'section', 'section of parser', 'located', 'file', 'defaults', 'section defaults', 'DEFAULT',
        'upper case', 'rest', 'references']
# defaults that are empty, false, null, or for a section named like an option
SECTION_DEFAULTS = [
    {'n': 0, 'on': None, 's': '', 'l': [], 'm_2': {}, 'w': [], 'g': [], 'p': None, 'c': 0},
    {'n': None, 'on': False, 's': None, 'l': None, 'm_2': None, 'w': None, 'g': None, 'p': [], 'c': None},
]
DEFAULTS = [
    {'one': SECTION_DEFAULTS[0], 'Two': SECTION_DEFAULTS[0]},
    {'one': SECTION_DEFAULTS[1], 'Two': SECTION_DEFAULTS[1]},
    {'n': {'n': '3'}, 's': {'s': 'x'}, 'on': {}, 'w': {'w': 'x'}, 'c': {'c': '2'}, 'l': ['4'], 'm_2': {'q': '8'}},
    {'n': {'n': '3'}, 's': {'s': 'x'}, 'c': {'c': '2'}, 'one': {}, 'Two': None},
    {},
]


def cases(tier):
    for way in WAYS:
        for u in INT:
            for v in LIST:
                yield way, 'A', u, v
        for u in WORDS:
            for v in GRID:
                yield way, 'B', u, v
    for n in (1, 2, 3):
        for names in itertools.permutations(NAMES, n):
            yield 'raw', names, None, None


def bounds(tier):
    return {'ways to read': WAYS, 'options': 9, 'values per option': '4..9',
            'layout kept': 'options of {0}, in every order of up to 3, over {1} values'.format(NAMES, len(BODIES))}


def render(section, options, upper=False):
    lines = ['[{0}]'.format(section)]
    for k, v in options:
        if isinstance(v, dict):
            if isinstance(v, Beside):
                lines.append('{0} = 7'.format(k.upper() if upper else k))
            for sub, x in v.items():
                lines.append('{0}[{1}] = {2}'.format(k.upper() if upper else k, sub, x))
        else:
            lines.append('{0} = {1}'.format(k.upper() if upper else k, v[0]))
    return '\n'.join(lines) + '\n'


def referring(options):
    """The same, each option a reference to another that has its text."""
    out = []
    for i, (k, v) in enumerate(options):
        if isinstance(v, dict):
            out.append((k, dict((sub, '%(ref_{0}_{1})s'.format(i, j)) for j, sub in enumerate(v))))
            out.extend(('ref_{0}_{1}'.format(i, j), (x, x)) for j, x in enumerate(v.values()))
        else:
            out.append((k, ('%(ref_{0})s'.format(i), None)))
            out.append(('ref_{0}'.format(i), v))
    return out


def document(options):
    doc = {}
    for k, v in options:
        if isinstance(v, dict):
            if v:
                doc[k] = v
        else:
            doc[k] = v[1]
    return doc


def parser(text):
    p = configparser.ConfigParser()
    p.read_file(io.StringIO(text))
    return p


def decide(rep, case, cls, fs, src, doc, prefix, text):
    want, werr, _ = ref.map_root(fs, doc)
    werr = [(c, prefix(w)) for c, w in werr]
    rep.eval()
    form = cls()
    try:
        err = build.errors_of(form.map(src()))
    except Exception as ex:
        rep.fail('{0!r} escaped, expected {1!r} {2!r}'.format(ex, want, werr), sub=(case, text))
        return
    rep.outcome((err, repr(want) if not err else 0))
    rep.check(err == werr, 'errors {0!r}, expected {1!r}'.format(err, werr), sub=(case, text))
    if err == werr:
        rep.check(build.same(form, want), lambda: '{0!r}, expected {1!r}'.format(form, want), sub=(case, text))
    if len(rep.samples) < 2 and len(text) > 60:
        rep.sample({'way': case[0], 'text': text, 'value': repr(want), 'errors': repr(werr)})


def run(case, rep):
    way, which, u, v = case
    if way == 'raw':
        return raw(which, rep)
    b = build.Builder()
    fs = A if which == 'A' else B
    cls, both = b.form(fs), b.form(BOTH)
    pools = POOLS[which]
    scratch = tempfile.mkdtemp()
    try:
        for rest in itertools.product(*[p for _, p in pools[2:]]):
            options = [(k, val) for (k, _), val in zip(pools, (u, v) + rest) if val is not ABSENT]
            one(rep, case, way, which, fs, cls, both, options, scratch)
    finally:
        shutil.rmtree(scratch)


def same(w):
    return w


def one(rep, case, way, which, fs, cls, both, options, scratch):
    doc = document(options)
    name = 'one' if which == 'A' else 'Two'
    text = render(name, options)
    if way in ('text', 'parser', 'located', 'file', 'defaults', 'DEFAULT'):
        whole = {name: doc}
        if which == 'B':
            text = '[one]\nn = 3\n' + text
            whole = {'one': {'n': '3'}, 'Two': doc}
        fs, cls, prefix = BOTH, both, same
        if way == 'text':
            src = lambda: ConfigSource(text)
        elif way == 'parser':
            src = lambda: ConfigSource(parser(text))
        elif way == 'located':
            src, prefix = (lambda: ConfigSource(text, location='app.cfg')), lambda w: 'app.cfg:' + w
        elif way == 'file':
            path = os.path.join(scratch, 'app.cfg')
            with open(path, 'w') as f:
                f.write(text)
            src, prefix = (lambda: ConfigSource.from_file(path)), lambda w: path + ':' + w
        elif way == 'defaults':
            extra = {'one': {'n': '6', 's': 'dflt', 'm_2': {'d': '9'}}, 'Two': {'c': '7.5', 'w': ['z']}, 'three': {'n': '1'}}
            for d, more in enumerate(DEFAULTS):
                full = dict((k, dict(more.get(k) or {}, **x)) for k, x in whole.items())
                decide(rep, (case, d), cls, fs, lambda: ConfigSource(text, defaults=more), full, prefix, text)
            src = lambda: ConfigSource(text, defaults=extra)
            whole = dict((k, dict(extra.get(k, {}), **x)) for k, x in whole.items())
        else:
            # options of the DEFAULT section are options of each section
            text = '[DEFAULT]\non = 1\nc = 4\n' + text
            src = lambda: ConfigSource(text)
            whole = dict((k, dict({'on': '1', 'c': '4'}, **x)) for k, x in whole.items())
        decide(rep, case, cls, fs, src, whole, prefix, text)
        return
    text = '[other]\nn = 1\nl = 9\nc = 8\n' + text + '[last]\non = true\nw = q\n'
    prefix = lambda w: '[{0}]:{1}'.format(name, w)
    if way == 'section':
        decide(rep, case, cls, fs, lambda: ConfigSource(text, section=name), doc, prefix, text)
    elif way == 'section of parser':
        decide(rep, case, cls, fs, lambda: ConfigSource(parser(text), name, location='L'), doc,
               lambda w: 'L:' + prefix(w), text)
    elif way == 'section defaults':
        extra = {'n': 6, 's': 'dflt', 'c': '7.5', 'nope': 1}
        decide(rep, case, cls, fs, lambda: ConfigSource(text, name, defaults=extra), dict(extra, **doc), prefix, text)
        for d, more in enumerate(SECTION_DEFAULTS):
            decide(rep, (case, d), cls, fs, lambda: ConfigSource(text, name, defaults=more), dict(more, **doc), prefix, text)
    elif way == 'upper case':
        text = render(name, options, upper=True)
        decide(rep, case, cls, fs, lambda: ConfigSource(text, name), doc, prefix, text)
        # unless case is preserved, when they are other options
        kept = dict((k.upper(), x) for k, x in doc.items())
        decide(rep, case, cls, fs, lambda: ConfigSource(text, name, preserve_case=True), kept, prefix, text)
    elif way == 'references':
        text = '[DEFAULT]\ntop = 1\n' + render(name, referring(options) + [('more', ('%(top)s',))])
        decide(rep, case, cls, fs, lambda: ConfigSource(text, name), doc, prefix, text)
        decide(rep, case, cls, fs, lambda: ConfigSource(parser(text), name), doc, prefix, text)
    else:
        # the rest of a section, as text
        plain = [(k, x) for k, x in options if not isinstance(x, dict)]
        text = render(name, plain)
        form = cls()
        rep.eval()
        want, werr, _ = ref.map_root(fs, document(plain))
        err = build.errors_of(form.map(ConfigSource(text + 'extra = 1\nmore = a b\n', name), unmapped='capture'))
        rep.check(err == [(c, prefix(w)) for c, w in werr], 'errors {0!r}'.format(err), sub=(case, text))
        if not err:
            want['extra'], want['more'] = '1', 'a b'
            rep.check(build.same(form, want), '{0!r}, expected {1!r}'.format(form, want), sub=(case, text))


# Text of several lines as it is laid out in the file

NAMES = ['a', 'ab', 'B', 'm[k]', 'm[a]']
BODIES = [
    # lines, is it of several lines
    [' x'], [''], ['', '    if x:', '      y = 1'], ['', '  a = 1', '  ab: 2', '    [s]', '  m[k] = 3'],
    ['', '  one', '', '    two'], [' first', '  second'], [' a = 7', '   ab'], ['', '      deep', '   [t]', '     less'],
]


def raw(names, rep):
    scratch = tempfile.mkdtemp()
    try:
        path = os.path.join(scratch, 'app.cfg')
        for bodies in itertools.product(BODIES, repeat=len(names)):
            laid_out(names, bodies, path, rep)
    finally:
        shutil.rmtree(scratch)


def laid_out(names, bodies, path, rep):
    lines = ['[DEFAULT]', 'dflt =', '  p', '    q', '[r]', 'a =', '   other', '     section', '[s]']
    want, loose = {}, {}
    for name, body in zip(names, bodies):
        eq = ' :' if name == 'ab' else '='
        lines.append(name + eq + body[0])
        lines.extend(body[1:])
        value = body[0].strip() + '\n' if body[0].strip() else ''
        value += textwrap.dedent(''.join(line + '\n' for line in body[1:]))
        if body[0].strip():
            value = body[0].strip() + '\n' + ''.join(line + '\n' for line in body[1:])
        if len(body) == 1:
            value = body[0].strip()
        flat = '\n'.join(x.strip() for x in body)
        for into, v in ((want, value), (loose, flat)):
            if name.startswith('m'):
                into.setdefault('m', {})[name[2]] = v
            else:
                into[name] = v
    want['dflt'], loose['dflt'] = '\np\nq', '\np\nq'
    lines += ['[t]', 'a =', '   last', '     section', 'ab = z']
    text = '\n'.join(lines) + '\n'
    with open(path, 'w') as f:
        f.write(text)
    fields = dict((n, build.pilo.fields.String(default=build.pilo.NONE)) for n in ('a', 'ab', 'B', 'dflt'))
    fields['B'].src = 'b'
    fields['m'] = build.pilo.fields.Dict(build.pilo.fields.String(), build.pilo.fields.String(), default=build.pilo.NONE)
    cls = type(build.pilo.Form)('Raw', (build.pilo.Form,), fields)
    whole = type(build.pilo.Form)('Whole', (build.pilo.Form,), {'s': build.pilo.fields.SubForm(cls)})
    for keep in (True, False):
        for section in ('s', None):
            rep.eval()
            form = (cls if section else whole)()
            errors = form.map(ConfigSource.from_file(path, section=section, preserve_whitespace=keep))
            got = form if section else form.get('s')
            expected = want if keep else loose
            rep.outcome((keep, section, repr(sorted(expected.items()))))
            rep.check(not errors and got == expected, lambda: '{0!r}, expected {1!r}'.format(got, expected),
                      sub=(text, keep, section))
