"""
C21: code in a document is the module that its text defines or the object that
its name refers to, and nothing else; what cannot be run or found is invalid.
"""
import atexit
import itertools
import json
import os
import shutil
import sys
import tempfile
import types

import pilo
from pilo import fields as pf
from pilo.source import DefaultSource, JsonSource

from .. import build

LEVEL = 'exploration'
RULE = (
    'one case per first statement of a text, or per module named; each is run with every continuation of the '
    'text up to the bound, in every place; distinct by (errors, names defined)'
)
ASSUMPTIONS = [
    'the modules named are scratch modules of the check, created for the run and removed after it',
    'a name is a module, a colon and an attribute path, with nothing after it',
]

STATEMENTS = [
    'a = 1',
    'b = a + 1',
    'a += 10',
    'def f():\n    return g() + 1',
    'def g():\n    return a',
    'h = lambda: b',
    'class K(object):\n    v = 3\n    def m(self):\n        return a',
    'c = [x + a for x in (1, 2)]',
    'from math import floor',
    'def r(n):\n    return 1 if n < 1 else n * r(n - 1)',
    'def s():\n    global a\n    a = 77',
    'if True:\n    b = "two\\nlines"',
    '# nothing',
    'raise KeyError("x")',
    'a b',
    'del a',
    'nope',
]
MODULES = {
    'pk/__init__.py': 'x = 1\nclass A(object):\n    class B(object):\n        y = [2]\n    def m(self):\n        return 3\n',
    'pk/sub.py': 'from . import x as z\ndef fun():\n    return z\nclass A(object):\n    pass\n',
    'pk/deep/__init__.py': '',
    'pk/deep/er.py': 'x = {"deep": 1}\n',
    'pk/bad.py': 'raise RuntimeError("bad")\n',
    'pk/syn.py': 'a b\n',
    'single.py': (
        'import functools\nx = None\nfun = len\ndef inner():\n    return 1\n'
        '@functools.wraps(inner)\ndef wrap():\n    return 2\npart = functools.partial(inner)\n'
        'class A(object):\n    p = property(inner)\n    @classmethod\n    def m(cls):\n        return 4\n'
        '    @staticmethod\n    def s():\n        return 5\n    wrap = wrap\na = A()\nfalse = []\n_hid = 6\n'),
}
NAMES = ['', 'vpk', 'vpk.sub', 'vpk.deep.er', 'vpk.deep', 'vpk.bad', 'vpk.syn', 'vpk.nope', 'vsingle', 'vnope', 'os', 'os.path']
ATTRS = ['x', 'A', 'A.B', 'A.B.y', 'A.m', 'fun', 'nope', 'A.nope', 'x.nope', 'z', 'sub', 'deep.er', 'path', 'join', 'path.join', 'x.real',
         'wrap', 'part', 'A.p', 'A.s', 'A.wrap', 'a', 'a.s', 'a.nope', 'false', '_hid', '__name__', '__dict__']
ODD = ['', '-', ':', ':x', 'vpk:', 'vpk', 'vpk.sub', 'x', '?vpk:x', 'vpk::x', ' ']
NATIVE = [5, 2.5, True, len, json, build, pf.Code, {'a': 1}, [1], object()]


def cases(tier):
    for i in range(len(STATEMENTS)):
        yield 'text', i
    for name in NAMES:
        yield 'name', name
    yield 'odd', None
    yield 'native', None


def bounds(tier):
    return {'statements': len(STATEMENTS), 'statements per text': 3 if tier == 'quick' else 4,
            'modules': len(NAMES), 'attributes': len(ATTRS), 'malformed names': len(ODD)}


def observe(ns):
    """What a namespace defines, functions by what they return."""
    out = {}
    for k, v in sorted(ns.items()):
        if k.startswith('__'):
            continue
        if isinstance(v, types.FunctionType):
            try:
                v = ('returns', v(3) if k == 'r' else v())
            except Exception as ex:
                v = ('raises', type(ex).__name__)
        elif isinstance(v, type):
            try:
                v = ('class', v.v, v().m())
            except Exception as ex:
                v = ('class', v.v, type(ex).__name__)
        out[k] = v
    return out


def alone(text):
    ns = {}
    try:
        exec(text, ns)
    except Exception:
        return None
    return observe(ns)


class Sub(pilo.Form):

    code = pf.Code()


class Root(pilo.Form):

    before = pf.Code(default=pilo.NONE)
    code = pf.Code('the.code', default=pilo.NONE)
    many = pf.List(pf.Code(), default=pilo.NONE)
    named = pf.Dict(pf.String(), pf.Code(), default=pilo.NONE)
    sub = pf.SubForm(Sub, default=pilo.NONE)
    after = pf.Code(default=pilo.NONE)


PLAIN = 'a = 5\nq = 6\n'
PLACES = [
    ('before', lambda v: {'before': v, 'after': PLAIN}, lambda f: f['before'], 'before'),
    ('code', lambda v: {'the': {'code': v}, 'before': PLAIN}, lambda f: f['code'], 'the.code'),
    ('many', lambda v: {'many': [PLAIN, v, PLAIN]}, lambda f: f['many'][1], 'many[1]'),
    ('named', lambda v: {'named': {'k': v, 'a': PLAIN}}, lambda f: f['named']['k'], 'named.k'),
    ('sub', lambda v: {'before': PLAIN, 'sub': {'code': v}, 'after': PLAIN}, lambda f: f['sub']['code'], 'sub.code'),
]


def mapped(rep, v, place, how, sub):
    """-> (errors, value or None)"""
    _, doc, get, at = place
    doc = doc(v)
    form = Root()
    src = JsonSource(json.dumps(doc)) if how == 'json' else DefaultSource(doc)
    rep.eval()
    try:
        err = build.errors_of(form.map(src))
    except Exception as ex:
        rep.fail('{0!r} escaped'.format(ex), sub=sub)
        return None, None
    for other in ('before', 'after'):
        if other in form and other != at and doc[other] is PLAIN:
            rep.check(observe(vars(form[other])) == {'a': 5, 'q': 6}, lambda: '{0} is {1!r}'.format(
                other, observe(vars(form[other]))), sub=sub)
    if err:
        rep.check(err == [('Invalid', at)], 'errors {0!r}'.format(err), sub=sub)
        return err, None
    return err, get(form)


def texts(first, tier):
    n = 3 if tier == 'quick' else 4
    for k in range(n):
        for rest in itertools.product(STATEMENTS, repeat=k):
            yield '\n'.join((first,) + rest) + '\n'


TIER = os.environ.get('VERIF_TIER') or 'quick'
if '--tier' in sys.argv:
    TIER = sys.argv[sys.argv.index('--tier') + 1]


def run(case, rep):
    kind, arg = case
    if kind == 'text':
        for no, text in enumerate(texts(STATEMENTS[arg], TIER)):
            want = alone(text)
            for place in PLACES if no % 7 == 0 else PLACES[:1]:
                for how in ('plain', 'json') if no % 11 == 0 else ('plain',):
                    modules = set(sys.modules)
                    err, got = mapped(rep, text, place, how, (text, place[0], how))
                    if err is None:
                        continue
                    rep.outcome((err, repr(want) if len(repr(want)) < 60 else len(want)))
                    rep.check(bool(err) == (want is None), 'errors {0!r}, alone it gives {1!r}'.format(err, want),
                              sub=(text, place[0], how))
                    if not err and want is not None:
                        rep.check(isinstance(got, types.ModuleType), 'it is {0!r}'.format(got), sub=text)
                        seen = observe(vars(got))
                        rep.check(seen == want, 'it defines {0!r}, alone {1!r}'.format(seen, want), sub=text)
                    rep.check(set(sys.modules) == modules, 'modules of the process changed', sub=text)
        rep.sample({'text': text, 'defines': repr(want)})
    elif kind == 'name':
        with scratch():
            for attr in ATTRS:
                name = arg + ':' + attr if arg else attr
                for place in PLACES:
                    for how in ('plain', 'json'):
                        unload()
                        err, got = mapped(rep, name, place, how, (name, place[0], how))
                        want = find(arg, attr)
                        if err is None:
                            continue
                        rep.outcome((err, name))
                        rep.check(bool(err) == (want is MISSING), 'errors {0!r}, it is {1!r}'.format(err, want), sub=name)
                        if not err and want is not MISSING:
                            rep.check(got is want or (isinstance(want, (types.FunctionType, types.MethodType)) and got == want),
                                      'it is {0!r}, not {1!r}'.format(got, want), sub=name)
    elif kind == 'odd':
        with scratch():
            for name in ODD:
                for place in PLACES:
                    err, got = mapped(rep, name, place, 'plain', (name, place[0]))
                    rep.outcome((err, name))
                    rep.check(bool(err), '{0!r} is {1!r}'.format(name, got), sub=name)
    else:
        for v in NATIVE:
            for place in PLACES:
                err, got = mapped(rep, v, place, 'plain', (v, place[0]))
                rep.outcome((err, repr(v)))
                rep.check(err == [] and got is v, '{0!r} {1!r}, expected {2!r}'.format(err, got, v), sub=repr(v))
    rep.check(build.fresh_context(), 'context left behind', sub=case)


MISSING = object()


def find(module, attr):
    """The object of that name, by the interpreter's own import machinery."""
    import importlib
    if not module:
        return MISSING
    try:
        obj = importlib.import_module(module)
        for name in attr.split('.'):
            obj = getattr(obj, name)
        return obj
    except Exception:
        return MISSING


def unload():
    for name in list(sys.modules):
        if name.split('.')[0] in ('vpk', 'vsingle'):
            del sys.modules[name]


class scratch(object):
    """Modules to import, in a directory that is gone afterwards."""

    def __enter__(self):
        self.dir = tempfile.mkdtemp()
        atexit.register(shutil.rmtree, self.dir, True)
        for name, text in MODULES.items():
            path = os.path.join(self.dir, 'v' + name)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, 'w') as f:
                f.write(text)
        sys.path.insert(0, self.dir)
        sys.dont_write_bytecode = True

    def __exit__(self, *exc):
        sys.path.remove(self.dir)
        unload()
        shutil.rmtree(self.dir)
