"""
Builds real pilo forms out of the specifications of `mc.ref`, with hooks that
behave and log the same way, and compares what pilo does with the reference.
"""
import datetime
import decimal
import json
import re
import time
import traceback
import uuid

import pilo
from pilo import fields as pf
from pilo.source import JsonSource, UnionSource

from . import ref
from .ref import UNSET, ABSENT, F, FS, RForm

Match = type(re.match('', ''))
TOK = {'NONE': pilo.NONE, 'ERROR': pilo.ERROR, 'NOT_SET': pilo.NOT_SET}


def tok(v):
    """A hook outcome of the reference, as the hook of pilo returns it."""
    if v is ref.NONE:
        return pilo.NONE
    if v is ref.ERROR:
        return pilo.ERROR
    if v is ref.NOT_SET:
        return pilo.NOT_SET
    return v


class Builder(object):

    def __init__(self):
        self.log = []
        self.forms = {}

    def form(self, fs, base=None):
        if id(fs) in self.forms:
            return self.forms[id(fs)][0]
        dikt = {}
        for f in fs.fields:
            dikt[f.name] = self.field(f)
        cls = type(pilo.Form)(fs.name, (base or pilo.Form,), dikt)
        self.forms[id(fs)] = cls, fs
        return cls

    def poly(self, f):
        """The type field of the family of forms of a polymorphic sub-form."""
        key = 'poly', id(f.o['types'])
        if key not in self.forms:
            base = type(pilo.Form)('Base', (pilo.Form,), {
                f.o['tag']: pf.Type.abstract(),
            })
            for identity, fs in f.o['types']:
                dikt = {f.o['tag']: pf.Type.instance(identity)}
                for sub in fs.fields:
                    if sub.name != f.o['tag']:
                        dikt[sub.name] = self.field(sub)
                cls = type(pilo.Form)(fs.name, (base,), dikt)
                self.forms[id(fs)] = cls, fs
            self.forms[key] = base, f.o['types']
        return getattr(self.forms[key][0], f.o['tag'])

    def field(self, f):
        o = dict(f.o)
        args = []
        if f.src is not UNSET and f.src is not None and f.kind != 'Group':
            args.append(f.src)
        kind = f.kind
        via = o.pop('via', None)
        late = {}
        if via == 'methods':
            for name in ('min_value', 'max_value', 'range', 'min_length', 'max_length',
                         'length', 'after', 'before'):
                if name in o and kind != 'String':
                    late[name] = o.pop(name)
        if kind == 'List':
            item = o.pop('field')
            field = pf.List(self.field(item), *args, **o)
        elif kind == 'Tuple':
            items = [self.field(i) for i in o.pop('fields')]
            if len(items) == 1:
                items = [items]
            field = pf.Tuple(*(args + items), **o)
        elif kind == 'Dict':
            key, value = self.field(o.pop('key')), self.field(o.pop('value'))
            field = pf.Dict(key, value, *args, **o)
        elif kind == 'SubForm':
            o.pop('tags', None)
            form = self.form(o.pop('form'))
            field = pf.SubForm(form, *args, **o)
        elif kind == 'Poly':
            o.pop('types'), o.pop('tag')
            field = pf.PolymorphicSubForm(self.poly(f), *args, **o)
        elif kind == 'Group':
            field = pf.Group(*[
                (re.compile(s) if s.startswith(('^', '(')) else s, self.field(i))
                for s, i in o['fields']
            ])
        elif kind == 'Any':
            field = pf.Field(*args, **o)
        elif kind in ('Integer', 'Float') and 'pattern' in o:
            pattern = o.pop('pattern')
            field = getattr(pf, kind)(*args, **o).pattern(pattern)
        else:
            field = getattr(pf, kind)(*args, **o)
        for name, value in late.items():
            if name in ('range', 'length'):
                field.range(*value)
            else:
                getattr(field, name.split('_')[0])(value)
        if 'after' in late and 'before' in late:
            field.between(late['after'], late['before'])
        if f.src is None and kind != 'Group':
            field.src = None
        if f.nullable is not UNSET:
            field.options(nullable=f.nullable)
        if f.ignores:
            field.ignore(*f.ignores)
        if f.translations:
            field.translate(f.translations)
        if f.tags:
            field.tag(*f.tags)
        if f.default is not UNSET:
            if f.default == 'NONE':
                field.options(default=pilo.NONE)
            elif f.default[0] == 'lit':
                field.options(default=f.default[1])
            elif f.default[0] == 'call':
                field.options(default=lambda v=f.default[1]: v)
        self.hook(f, field)
        return field

    def hook(self, f, field):
        log = self.log

        def note(hook, value=None):
            log.append((f.name, hook, value))

        for hook, how in f.hooks.items():
            if hook == 'compute':
                def compute(self):
                    note('compute')
                    return tok(ref.outcome(f.hooks['compute'], None))
                func = compute
            elif hook == 'resolve':
                def resolve(self):
                    note('resolve')
                    r = f.hooks['resolve']
                    return None if r == 'none' else pilo.ctx(src=r[1])
                func = resolve
            elif hook == 'parse':
                def parse(self, path):
                    note('parse')
                    r = f.hooks['parse']
                    if r == 'raise':
                        raise ValueError('no')
                    if r == 'raw':
                        return path.value
                    return tok(ref.outcome(r, None))
                func = parse
            elif hook == 'munge':
                def munge(self, value):
                    note('munge', value)
                    return tok(ref.outcome(f.hooks['munge'], value))
                func = munge
            elif hook == 'filter':
                def filter(self, value):
                    note('filter', value)
                    return ref.outcome(f.hooks['filter'], value)
                func = filter
            elif hook == 'validate':
                def validate(self, value):
                    note('validate', value)
                    if f.hooks['validate'] == 'err':
                        pilo.ctx.errors.invalid('no')
                        return False
                    return ref.outcome(f.hooks['validate'], value)
                func = validate
            elif hook == 'key_filter':
                def key_filter(self, key):
                    note('key_filter', key)
                    return ref.outcome(f.hooks['key_filter'], key)
                func = key_filter
            getattr(field, hook)(func)
        if f.default is not UNSET and f.default != 'NONE' and f.default[0] == 'hook':
            def default(self):
                note('default')
                return f.default[1]
            field.default(default)


def same(real, want):
    """Equal values of exactly the same types?"""
    if isinstance(want, RForm):
        return (
            isinstance(real, pilo.Form) and
            (want.cls is None or type(real).__name__ == want.cls) and
            set(real) == set(want) and
            all(same(real[k], want[k]) for k in want)
        )
    if isinstance(real, Match):
        real = real.groupdict() or real.groups()
    if type(real) is not type(want):
        return False
    if isinstance(want, dict):
        return set(real) == set(want) and all(same(real[k], want[k]) for k in want)
    if isinstance(want, time.struct_time):
        return tuple(real) == tuple(want)
    if isinstance(want, (list, tuple)):
        return len(real) == len(want) and all(map(same, real, want))
    if isinstance(want, float):
        return real == want or (real != real and want != want)
    if isinstance(want, decimal.Decimal):
        if want.is_nan():
            return real.is_nan() and real.is_snan() == want.is_snan()
        return not real.is_nan() and real == want
    if isinstance(want, datetime.datetime):
        return real == want and real.utcoffset() == want.utcoffset() and real.fold == want.fold
    return real == want


def no_tokens(v):
    """No marker of a field without value may ever be a value."""
    if isinstance(v, dict):
        return all(no_tokens(x) for x in v.values())
    if isinstance(v, (list, tuple)):
        return all(no_tokens(x) for x in v)
    return not any(v is t for t in TOK.values())


def errors_of(errors):
    """[(class name, location)] of the errors of pilo, which must agree."""
    out = []
    for e in errors:
        where = str(e.path)
        text = str(e)
        if not text.startswith(where + ' - '):
            out.append((type(e).__name__, 'INCONSISTENT {0!r} {1!r}'.format(where, text)))
        else:
            out.append((type(e).__name__, where))
    return out


def source(doc, flavor='plain'):
    if flavor == 'plain':
        return doc
    if flavor == 'union':
        return UnionSource([doc])
    return JsonSource(json.dumps(doc), strict=flavor == 'strict')


def run_real(builder, cls, doc, flavor='plain', ctx=None, **kw):
    """-> (form, errors, log) of mapping `doc` with a new form."""
    del builder.log[:]
    form = cls()
    if 'unmapped' in kw and not isinstance(kw['unmapped'], str):
        kw['unmapped'] = builder.field(kw['unmapped'])
    if ctx:
        with pilo.ctx(**ctx):
            errors = form.map(source(doc, flavor), **kw)
    else:
        errors = form.map(source(doc, flavor), **kw)
    return form, errors_of(errors), list(builder.log)


def compare(rep, builder, fs, doc, flavor='plain', where=None, key=None, log=True, ctx=None, **kw):
    """Decide one document: value, errors and hook log agree with the reference."""
    cls = builder.form(fs)
    want, werr, wlog = ref.map_root(fs, doc, flavor, env=ref.Env(flavor, **ctx or {}), **kw)
    rep.eval()
    at = (fs, doc, flavor, kw) if where is None else where
    try:
        form, err, rlog = run_real(builder, cls, doc, flavor, ctx, **kw)
    except Exception:
        rep.fail('raised, expected {0!r} {1!r}\n{2}'.format(
            want, werr, traceback.format_exc()), key, at)
        return False
    rep.outcome((err, sorted(form) if not werr else None, wlog, repr(want) if not werr else 0))
    ok = True
    if err != werr:
        rep.fail('errors {0!r}, expected {1!r}'.format(err, werr), key, at)
        ok = False
    elif not same(form, want):
        rep.fail('value {0!r}, expected {1!r}'.format(form, want), key, at)
        ok = False
    elif not no_tokens(form):
        rep.fail('marker in value {0!r}'.format(form), key, at)
        ok = False
    if log and not same(rlog, wlog):
        rep.fail('hooks ran {0!r}, expected {1!r}'.format(rlog, wlog), key, at)
        ok = False
    if len(rep.samples) < 3 and rep.counts['evaluations'] % 997 == 1:
        rep.sample({'form': repr(fs), 'document': repr(doc), 'source': flavor,
                    'value': repr(want), 'errors': repr(werr)})
    return ok


NAMES = ('src', 'src_path', 'form', 'parent', 'field', 'errors', 'tags', 'ignore_default',
         'ignore_missing', 'user', 'Missing', 'Invalid')


def context():
    """All that can be seen of the context."""
    ctx = pilo.ctx
    out = []
    for k in NAMES:
        if k == 'src_path':
            paths = [p for p in ctx.values_for(k) if p is not None]
            out.append((k, [(id(p), [x.key for x in p]) for p in paths]))
        else:
            out.append((k, [id(v) for v in ctx.values_for(k)]))
    return out


def fresh_context():
    """Is the context that of a process that maps nothing?"""
    ctx = pilo.ctx
    return ctx.src is None and ctx.src_path is None and not any(
        hasattr(ctx, k) for k in ('form', 'parent', 'field', 'errors', 'tags', 'user')
    ) and len(ctx.values_for('src')) == 1
