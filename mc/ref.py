"""
Executable reference semantics of form mapping, written from the documented
behaviour and independent of the implementation (nothing here imports pilo).

A schema is a tree of `F` (field) and `FS` (form) specifications; `Ref` maps a
plain document onto it and yields (value, errors, log):

- value: plain Python values, sub-forms as `RForm`
- errors: [(class name, location)] in the order they are found
- log: the hook invocations, in order
"""
import datetime
import decimal
import numbers
import re
import time
import uuid

import iso8601


class Tok(object):

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


UNSET = Tok('UNSET')      # option not given
ABSENT = Tok('ABSENT')    # nothing in the document
NONE = Tok('NONE')        # no value
ERROR = Tok('ERROR')      # value present but in error
NOT_SET = Tok('NOT_SET')
SKIP = (NONE, ERROR, NOT_SET)


def skip(v):
    return v is NONE or v is ERROR or v is NOT_SET


class F(object):
    """A field specification."""

    def __init__(self, kind, name=None, src=UNSET, default=UNSET, nullable=UNSET,
                 ignores=(), translations=None, hooks=None, tags=(), **o):
        self.kind, self.name, self.src = kind, name, src
        self.default, self.nullable = default, nullable
        self.ignores, self.translations = list(ignores), dict(translations or {})
        self.hooks, self.tags, self.o = dict(hooks or {}), tuple(tags), o

    def but(self, **kw):
        o = dict(self.o)
        d = dict(kind=self.kind, name=self.name, src=self.src, default=self.default,
                 nullable=self.nullable, ignores=self.ignores,
                 translations=self.translations, hooks=self.hooks, tags=self.tags)
        for k, v in kw.items():
            (d if k in d else o)[k] = v
        d.update(o)
        return F(**d)

    def __repr__(self):
        bits = [repr(self.name)] if self.name else []
        for k in ('src', 'default', 'nullable'):
            if getattr(self, k) is not UNSET:
                bits.append('{0}={1!r}'.format(k, getattr(self, k)))
        for k in ('ignores', 'translations', 'hooks', 'tags'):
            if getattr(self, k):
                bits.append('{0}={1!r}'.format(k, getattr(self, k)))
        bits.extend('{0}={1!r}'.format(k, v) for k, v in sorted(self.o.items()))
        return '{0}({1})'.format(self.kind, ', '.join(bits))


class FS(object):
    """A form specification: fields in declaration order."""

    def __init__(self, *fields, **kw):
        self.fields = list(fields)
        self.name = kw.pop('name', 'Form')
        assert not kw

    def __repr__(self):
        return '{0}<{1}>'.format(self.name, ', '.join(map(repr, self.fields)))


class RForm(dict):
    """The expected value of a (sub-)form."""

    cls = None


class Bad(Exception):
    """A value that cannot be read as the type asked for."""


# Coercion of what a source holds

def c_string(fl, v):
    if isinstance(v, str):
        return v
    if fl == 'json':
        return str(v)
    raise Bad()


def c_int(fl, v):
    if isinstance(v, bool):
        raise Bad()
    if isinstance(v, int):
        return v
    if fl == 'strict':
        raise Bad()
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')) or v != int(v):
            raise Bad()
        return int(v)
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            raise Bad()
    raise Bad()


def c_float(fl, v):
    if isinstance(v, float):
        return v
    if isinstance(v, int):          # including bool
        try:
            return float(v)
        except OverflowError:
            raise Bad()
    if isinstance(v, str) and fl != 'strict':
        try:
            return float(v)
        except ValueError:
            raise Bad()
    raise Bad()


def c_bool(fl, v):
    if isinstance(v, bool):
        return v
    if isinstance(v, int) and fl != 'strict':
        return v != 0
    if isinstance(v, str) and fl == 'plain':
        if v.lower() in ('0', 'f', 'false'):
            return False
        if v.lower() in ('1', 't', 'true'):
            return True
    raise Bad()


def is_map(v):
    return isinstance(v, dict)


def is_seq(v):
    return isinstance(v, (list, tuple))


def loc(path):
    out = ''
    for i, k in enumerate(path):
        if i == 0:
            out = str(k)
        elif isinstance(k, int):
            out += '[{0}]'.format(k)
        else:
            out += '.{0}'.format(k)
    return out


def step(cont, key):
    if cont is ABSENT:
        return ABSENT
    if is_map(cont):
        return cont[key] if key in cont else ABSENT
    if is_seq(cont) and isinstance(key, int) and not isinstance(key, bool):
        return cont[key] if -len(cont) <= key < len(cont) else ABSENT
    return ABSENT


def lookup(cont, key):
    """A key of the container or else, if it has dots, a path into it."""
    v = step(cont, key)
    if v is ABSENT and isinstance(key, str) and '.' in key:
        v = cont
        for atom in key.split('.'):
            v = step(v, atom)
            if v is ABSENT:
                break
    return v


class Env(object):

    def __init__(self, flavor='plain', ignore_default=False, ignore_missing=False, tags=None):
        self.flavor = 'plain' if flavor == 'union' else flavor
        self.tags = tags
        self.errors, self.log = [], []
        self.ignore_default, self.ignore_missing = ignore_default, ignore_missing

    def invalid(self, path):
        self.errors.append(('Invalid', loc(path)))

    def missing(self, path):
        if not self.ignore_missing:
            self.errors.append(('Missing', loc(path)))


def map_root(fs, doc, flavor='plain', tags=None, unmapped='ignore', env=None):
    """-> (RForm or ERROR, errors, log); raises Bad if the root is no mapping."""
    env = env or Env(flavor)
    if not is_map(doc):
        raise Bad()
    form = map_form(fs, doc, [], env, tags, unmapped)
    return form, env.errors, env.log


def map_form(fs, node, path, env, tags=None, unmapped='ignore', into=None):
    form = RForm() if into is None else into
    form.cls = fs.name
    tags = tags or env.tags     # those of the context, unless given
    for f in fs.fields:
        if tags and not set(tags) & set(f.tags):
            continue
        v = map_field(f, node, path, env)
        if not skip(v):
            form[f.name] = v
    if unmapped != 'ignore':
        extra = F('Any', None) if unmapped == 'capture' else unmapped
        for k in list(node):
            if k in form:
                continue
            v = map_field(extra.but(name=None, src=None), node[k], path + [k], env)
            if not skip(v):
                form[k] = v
    return form


def map_field(f, cont, path, env, value=UNSET):
    # resolve
    hooks = f.hooks
    if value is UNSET:
        src = f.name if f.src is UNSET else f.src
        if f.kind == 'Group':
            src = None
        if 'resolve' in hooks:
            env.log.append((f.name, 'resolve', None))
            r = hooks['resolve']
            src = None if r == 'none' else r[1]
        if src is None:
            child = cont
        else:
            child = lookup(cont, src)
            path = path + [src]
        # compute
        if 'compute' in hooks:
            env.log.append((f.name, 'compute', None))
            v = outcome(hooks['compute'], None)
        elif child is ABSENT:
            v = NONE
        elif child is None:
            v = None
        else:
            v = parse(f, child, path, env)
        if v is NONE:
            return default(f, path, env)
        if skip(v):
            return v
    else:
        v = value
    # munge
    if f.translations:
        try:
            hit = v in f.translations
        except TypeError:
            hit = False
        if hit:
            v = f.translations[v]
    if not skip(v) and 'munge' in hooks:
        env.log.append((f.name, 'munge', v))
        v = outcome(hooks['munge'], v)
    if v is NONE:
        return default(f, path, env)
    if skip(v):
        return v
    # filter
    try:
        ignored = f.ignores and v in f.ignores
    except ArithmeticError:     # a signalling NaN compares with nothing
        ignored = False
    if ignored:
        return default(f, path, env)
    if 'filter' in hooks:
        env.log.append((f.name, 'filter', v))
        if not outcome(hooks['filter'], v):
            return default(f, path, env)
    # validate
    if not validate(f, v, path, env):
        return ERROR
    if 'validate' in hooks:
        env.log.append((f.name, 'validate', v))
        how = hooks['validate']
        if how == 'err':
            env.invalid(path)
            return ERROR
        if not outcome(how, v):
            return ERROR
    return v


def outcome(how, v):
    """What a hook with behaviour `how` returns for `v`."""
    if how == 'id':
        return v
    if how == 'wrap':
        return ['w', v]
    if how == 'truthy':
        return bool(v)
    if isinstance(how, tuple) and how[0] == 'val':
        return how[1]
    if how in ('NONE', 'ERROR', 'NOT_SET'):
        return {'NONE': NONE, 'ERROR': ERROR, 'NOT_SET': NOT_SET}[how]
    return how


def default(f, path, env):
    d = f.default
    if f.kind == 'Group' and d is UNSET:
        d = ('lit', [])
    if env.ignore_default or d is UNSET:
        env.missing(path)
        return NOT_SET
    if d == 'NONE':
        return NONE
    if d[0] == 'hook':
        env.log.append((f.name, 'default', None))
    return d[1]


def nullable(f):
    if f.default == ('lit', None):
        return True
    if f.nullable is not UNSET:
        return f.nullable
    # unless declared otherwise null is accepted
    return True


def parse(f, node, path, env):
    if 'parse' in f.hooks:
        env.log.append((f.name, 'parse', None))
        how = f.hooks['parse']
        if how == 'raise':
            env.invalid(path)
            return ERROR
        if how == 'raw':
            return node
        return outcome(how, None)
    try:
        return PARSE[f.kind](f, node, path, env)
    except Bad:
        env.invalid(path)
        return ERROR


def p_decimal(f, v, path, env):
    if isinstance(v, decimal.Decimal):
        return v
    if isinstance(v, (int, float)):
        return decimal.Decimal(v)
    if isinstance(v, numbers.Number):
        raise Bad()
    try:
        return decimal.Decimal(c_string(env.flavor, v))
    except decimal.InvalidOperation:
        raise Bad()


def p_uuid(f, v, path, env):
    if isinstance(v, uuid.UUID):
        return v
    try:
        return uuid.UUID(c_string(env.flavor, v))
    except ValueError:
        raise Bad()


def p_pattern(conv):
    def p(f, v, path, env):
        text = c_string(env.flavor, v)
        m = re.compile(f.o['pattern']).match(text)
        if not m:
            raise Bad()
        try:
            return conv(m.group(0))
        except ValueError:
            raise Bad()
    return p


def p_integer(f, v, path, env):
    if 'pattern' in f.o:
        return p_pattern(int)(f, v, path, env)
    return c_int(env.flavor, v)


def p_float(f, v, path, env):
    if 'pattern' in f.o:
        return p_pattern(float)(f, v, path, env)
    return c_float(env.flavor, v)


def p_list(f, v, path, env):
    item = f.o['field']
    if not is_seq(v):
        if not f.o.get('allow_field'):
            raise Bad()
        one = map_field(item, v, path, env)
        return one if skip(one) else [one]
    out = []
    for i in range(len(v)):
        one = map_field(item, v[i], path + [i], env)
        if not skip(one):
            out.append(one)
    return out


def p_tuple(f, v, path, env):
    fields = f.o['fields']
    if not is_seq(v) or len(v) != len(fields):
        raise Bad()
    out = []
    for i, item in enumerate(fields):
        one = map_field(item, v[i], path + [i], env)
        if not skip(one):
            out.append(one)
    return tuple(out)


def p_dict(f, v, path, env):
    if not is_map(v):
        raise Bad()
    out = {}
    for k in v:
        if 'key_filter' in f.hooks:
            env.log.append((f.name, 'key_filter', k))
            if not outcome(f.hooks['key_filter'], k):
                continue
        one = map_field(f.o['value'], v[k], path + [k], env)
        if skip(one):
            continue
        key = map_field(f.o['key'], None, path, env, value=k)
        if skip(key):
            continue
        out[key] = one
    return out


def p_subform(f, v, path, env):
    if not is_map(v):
        raise Bad()
    n = len(env.errors)
    form = map_form(
        f.o['form'], v, path, env, f.o.get('tags'), f.o.get('unmapped', 'ignore')
    )
    return ERROR if len(env.errors) > n else form


def p_poly(f, v, path, env):
    """`types` is [(identity, FS)]; the identity is at key `tag`."""
    if is_seq(v):
        # read positionally, its first item is the identity
        if v and v[0] is None:
            return NONE
        raise Bad()
    if not is_map(v):
        raise Bad()
    identity = v.get(f.o['tag'], ABSENT)
    if identity is ABSENT:
        raise Bad()
    if identity is None:
        return NONE
    identity = c_string(env.flavor, identity)
    for known, fs in f.o['types']:
        if known == identity:
            fs = FS(
                F('Type', f.o['tag'], default=('lit', known), choices=[known]),
                *[x for x in fs.fields if x.name != f.o['tag']], name=fs.name
            )
            return p_subform(
                F('SubForm', form=fs, unmapped=f.o.get('unmapped', 'ignore')), v, path, env
            )
    raise Bad()


def p_group(f, v, path, env):
    if not is_map(v):
        raise Bad()
    out, hits = [], 0
    for k in v:
        for src, item in f.o['fields']:
            if src.startswith(('^', '(')):
                m = re.compile(src).match(k)
                if m is None:
                    continue
                cap = m.groupdict() or m.groups()
            elif src == k:
                cap = None
            else:
                continue
            hits += 1
            one = map_field(item, v[k], path + [k], env)
            if not skip(one):
                out.append((k, cap, one))
            break
    return out if hits else NONE


def as_list(v):
    return list(v) if isinstance(v, (list, tuple)) else [v]


def p_date(f, v, path, env):
    if isinstance(v, datetime.date):
        return v
    text = c_string(env.flavor, v)
    if not f.o.get('format'):
        raise Bad()
    for spec in as_list(f.o['format']):
        try:
            if spec == 'iso8601':
                return iso(text).date()
            return datetime.datetime.strptime(text, spec).date()
        except ValueError:
            pass
    raise Bad()


def p_time(f, v, path, env):
    if isinstance(v, (time.struct_time, datetime.time)):
        return v
    text = c_string(env.flavor, v)
    if f.o.get('format') is None:
        raise Bad()
    try:
        return time.strptime(text, f.o['format'])
    except ValueError:
        raise Bad()


def p_datetime(f, v, path, env):
    if isinstance(v, datetime.datetime):
        return v
    text = c_string(env.flavor, v)
    if f.o.get('format') is None:
        raise Bad()
    try:
        if f.o['format'] == 'iso8601':
            return iso(text)
        return datetime.datetime.strptime(text, f.o['format'])
    except ValueError:
        raise Bad()


def iso(text):
    """ISO 8601 is what the iso8601 package (trusted) says it is."""
    try:
        return iso8601.parse_date(text)
    except iso8601.ParseError:
        raise ValueError(text)


def simple(c):
    return lambda f, v, path, env: c(env.flavor, v)


PARSE = {
    'Any': lambda f, v, path, env: v,
    'String': simple(c_string),
    'Type': simple(c_string),
    'Integer': p_integer,
    'Float': p_float,
    'Decimal': p_decimal,
    'Boolean': simple(c_bool),
    'UUID': p_uuid,
    'Date': p_date,
    'Time': p_time,
    'Datetime': p_datetime,
    'List': p_list,
    'Tuple': p_tuple,
    'Dict': p_dict,
    'SubForm': p_subform,
    'Poly': p_poly,
    'Group': p_group,
}


def ok_value(f, v):
    """Does the (non-null) value satisfy what the field declares?"""
    o = f.o
    if f.kind in ('String', 'Type'):
        lo, hi = o.get('min_length'), o.get('max_length')
        if o.get('length') is not None:
            n = o['length']
            lo, hi = n if isinstance(n, (list, tuple)) else (n, n)
        if o.get('alphabet') and any(c not in o['alphabet'] for c in v):
            return False
        if lo is not None and len(v) < lo:
            return False
        if hi is not None and len(v) > hi:
            return False
        if o.get('pattern') and not re.compile(o['pattern']).match(v):
            return False
        if o.get('choices'):
            if v not in list(o['choices']) + list(f.translations.values()):
                return False
    elif f.kind in ('Integer', 'Float', 'Decimal'):
        lo, hi = o.get('min_value'), o.get('max_value')
        if o.get('range') is not None:
            lo, hi = o['range']
        if lo is None and hi is None:
            return True
        nan = v.is_nan() if isinstance(v, decimal.Decimal) else v != v
        if nan or (lo is not None and v < lo) or (hi is not None and v > hi):
            return False
    elif f.kind in ('Date', 'Time', 'Datetime'):
        try:
            if o.get('after') is not None and v < o['after']:
                return False
            if o.get('before') is not None and v > o['before']:
                return False
        except TypeError:
            return False
    elif f.kind == 'List':
        lo, hi = o.get('min_length'), o.get('max_length')
        if o.get('length'):
            lo, hi = o['length']
        if lo is not None and len(v) < lo:
            return False
        if hi is not None and len(v) > hi:
            return False
    elif f.kind == 'Dict':
        if o.get('required_keys') and set(o['required_keys']) - set(v):
            return False
        if o.get('max_keys') is not None and len(v) > o['max_keys']:
            return False
    return True


def validate(f, v, path, env):
    if v is None:
        if not nullable(f):
            env.invalid(path)
            return False
        return True
    if not ok_value(f, v):
        env.invalid(path)
        return False
    return True
