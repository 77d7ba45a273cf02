"""
C01: the context is exactly the scopes that are open: every scope shows its
variables and its place in the source while it is open and leaves no trace.

Breadth-first search over histories of opening and closing scopes on the real
context, in lock-step with a model in which a context is an immutable tuple of
frames and a scope remembers the context it has to bring back.
"""
import itertools

import pilo
from pilo.source import DefaultSource, JsonSource

from .. import build, ref

LEVEL = 'model_checking'
RULE = ''
ASSUMPTIONS = ['scopes are closed in the reverse order of opening, as `with` does']

DOC1 = {'x': {'x': {'y': 5}, 'y': None}, 'y': {'x': [7, {'x': 1}]}}
DOC2 = {'x': {'x': 8}}

# what mapping itself and its hooks keep there
NAMED = {'errors': ['e'], 'form': 'F', 'parent': 'P', 'field': 'f', 'tags': frozenset('t'), 'Missing': int, 'Invalid': '',
         # and what a frame itself has by that name
         'items': ['i'], 'get': None}

PUSHES = {
    'a=1': {'a': 1}, 'a=2': {'a': 0}, 'b=a': dict(NAMED, b='B', c=None), 'S1': {'src': 1}, 'S2': {'src': 2},
    'x': {'src': 'x'}, 'y': {'src': 'y'}, 'ax': {'a': '', 'src': 'x'}, '1': {'src': 1.0},
    'aS': {'a': 4, 'src': 2}, 'ig': {'ignore_default': True},
}
VARS = ['a', 'b', 'c', 'ignore_default', 'ignore_missing', 'zz', 'pop'] + sorted(NAMED)
STOPS = ['top', 'second', 'has a', 'bottom', 'never']


class Boom(Exception):
    pass


# The model: frames are (variables) with src 1/2 a new root, None a reset

INIT = ({'src': None, 'src_path': None, 'ignore_default': False, 'ignore_missing': False},)


def m_path(ctx):
    """Keys of the current path and the number of its source."""
    root, keys = None, []
    for fr in ctx:
        if 'src' not in fr:
            continue
        s = fr['src']
        if s is None:
            root, keys = None, []
        elif s in (1, 2) and not isinstance(s, float):
            root, keys = s, []
        else:
            keys = keys + [1 if s == 1.0 else s]
    return root, keys


def m_get(ctx, k):
    for fr in reversed(ctx):
        if k in fr:
            return fr[k]
    return '<absent>'


def m_stop(ctx, how):
    """Index of the frame at which a rewind stops."""
    n = len(ctx)
    if how == 'top':
        return n - 1
    if how == 'second':
        return n - 2 if n >= 2 else None
    if how == 'has a':
        hits = [i for i, fr in enumerate(ctx) if 'a' in fr]
        return hits[-1] if hits else None
    if how == 'bottom':
        return 0
    return None


def stopper(how):
    calls = [0]

    def stop(frame):
        calls[0] += 1
        if how == 'top':
            return True
        if how == 'second':
            return calls[0] == 2
        if how == 'has a':
            return hasattr(frame, 'a')
        if how == 'bottom':
            return hasattr(frame, 'ignore_missing')
        return False
    return stop


def enabled(state, limit):
    ctx, saved = state
    out = []
    if len(saved) < limit:
        root, keys = m_path(ctx)
        for name, kw in PUSHES.items():
            s = kw.get('src')
            if s is not None and (isinstance(s, (str, float))) and (root is None or len(keys) >= 3):
                continue
            out.append(('push', name))
        out.append(('reset',))
        for how in STOPS:
            out.append(('rewind', how))
    if saved:
        out.append(('exit',))
        out.append(('exit-exc',))
    out.append(('look',))
    return out


def m_step(state, ev):
    ctx, saved = state
    if ev[0] == 'push':
        return ctx + (PUSHES[ev[1]],), saved + (ctx,)
    if ev[0] == 'reset':
        return ctx + ({'src': None},), saved + (ctx,)
    if ev[0] == 'rewind':
        i = m_stop(ctx, ev[1])
        if i is None:
            return state
        return ctx[:i + 1], saved + (ctx,)
    if ev[0] in ('exit', 'exit-exc'):
        return saved[-1], saved[:-1]
    return state


# The implementation

class World(object):

    def __init__(self):
        self.ctx = type(pilo.ctx)()
        self.closes = []
        self.srcs = {1: DefaultSource(DOC1), 2: JsonSource('{"x": {"x": 8}}')}
        self.problems = []

    def step(self, ev):
        ctx = self.ctx
        if ev[0] == 'push':
            kw = dict(PUSHES[ev[1]])
            s = kw.get('src')
            if s in (1, 2) and not isinstance(s, float):
                kw['src'] = self.srcs[s]
            elif s == 1.0:
                kw['src'] = 1
            close = ctx(**kw) if len(self.closes) % 2 else ctx.push(**kw)
            close.__enter__()
            self.closes.append(close)
        elif ev[0] == 'reset':
            close = ctx.reset()
            close.__enter__()
            self.closes.append(close)
        elif ev[0] == 'rewind':
            try:
                close = ctx.rewind(stopper(ev[1]))
            except ctx.RewindDidNotStop:
                return
            close.__enter__()
            self.closes.append(close)
        elif ev[0] == 'exit':
            if self.closes.pop().__exit__(None, None, None):
                self.problems.append('leaving a scope swallows exceptions')
        elif ev[0] == 'exit-exc':
            ex = Boom()
            if self.closes.pop().__exit__(Boom, ex, None):
                self.problems.append('leaving a scope swallows the exception')
        else:
            self.look()

    def look(self):
        p = self.ctx.src_path
        return None if p is None else (p.value, p.exists)

    def observe(self):
        ctx = self.ctx
        obs = {}
        for k in VARS:
            obs[k] = getattr(ctx, k, '<absent>')
            obs['all ' + k] = ctx.values_for(k)
        s = ctx.src
        obs['src'] = 'S1' if s is self.srcs[1] else 'S2' if s is self.srcs[2] else s
        p = ctx.src_path
        if p is None:
            obs['path'] = None
        else:
            obs['path'] = [part.key for part in p]
            obs['str'] = str(p)
            obs['of'] = 'S1' if p.src is self.srcs[1] else 'S2' if p.src is self.srcs[2] else '?'
            obs['value'] = 'NONE' if p.value is pilo.NONE else repr(p.value)
            obs['exists'], obs['null'] = p.exists, p.is_null
        return obs


def expected(state):
    ctx, _ = state
    obs = {}
    for k in VARS:
        obs[k] = m_get(ctx, k)
        obs['all ' + k] = [fr[k] for fr in ctx if k in fr]
    s = m_get(ctx, 'src')
    obs['src'] = 1 if s == 1.0 and isinstance(s, float) else {1: 'S1', 2: 'S2'}.get(s, s)
    root, keys = m_path(ctx)
    if root is None:
        obs['path'] = None
    else:
        obs['path'], obs['str'], obs['of'] = keys, ref.loc(keys), 'S{0}'.format(root)
        v = {1: DOC1, 2: DOC2}[root]
        for k in keys:
            v = ref.step(v, k)
        obs['value'] = 'NONE' if v is ref.ABSENT else repr(v)
        obs['exists'], obs['null'] = v is not ref.ABSENT, v is None
    return obs


def run_history(hist):
    w = World()
    for ev in hist:
        w.step(ev)
    return w


def canon(state, looked):
    return repr((state, looked))


def depth(tier):
    return (6, 4) if tier == 'quick' else (8, 5)


def cases(tier):
    first = enabled((INIT, ()), 9)
    for a in first:
        st = m_step((INIT, ()), a)
        for b in enabled(st, 9):
            yield tier, a, b
    yield tier,


def bounds(tier):
    n, nest = depth(tier)
    return {'events per history': n, 'open scopes': nest, 'events': len(PUSHES) + 1 + len(STOPS) + 3}


def run(case, rep):
    tier, prefix = case[0], list(case[1:])
    if not prefix:
        return with_blocks(rep)
    n, nest = depth(tier)
    state = (INIT, ())
    for ev in prefix:
        state = m_step(state, ev)
    check(prefix, state, rep)
    seen = {canon(state, prefix[-1][0])}
    frontier = [(prefix, state)]
    while frontier:
        nxt = []
        for hist, state in frontier:
            if len(hist) >= n:
                continue
            for ev in enabled(state, nest):
                rep.count('transitions')
                new = m_step(state, ev)
                h = hist + [ev]
                k = canon(new, ev[0])
                if k in seen:
                    continue
                seen.add(k)
                rep.state(k)
                if not check(h, new, rep):
                    return
                nxt.append((h, new))
        frontier = nxt


def check(hist, state, rep):
    rep.eval()
    w = run_history(hist)
    got, want = w.observe(), expected(state)
    rep.outcome(sorted(got.items()))
    if got != want or w.problems:
        diff = dict((k, (got.get(k), want.get(k))) for k in set(got) | set(want) if got.get(k) != want.get(k))
        rep.fail('context shows (real, model) {0!r} {1}'.format(diff, w.problems), sub=hist)
        return False
    # closing everything brings back the initial context
    while w.closes:
        w.step(('exit',))
    got, want = w.observe(), expected((INIT, ()))
    if got != want:
        rep.fail('not restored after closing every scope: {0!r}'.format(got), sub=hist)
        return False
    if len(rep.samples) < 2:
        rep.sample({'history': repr(hist), 'observed': repr(want)})
    return True


def with_blocks(rep):
    """The same scopes through `with`, left normally, by return and by raising."""
    ctx = pilo.ctx
    for names in itertools.product(('a=1', 'a=2', 'b=a', 'ig'), repeat=3):
        for boom in (None, 0, 1, 2, 3):
            rep.eval()
            seen = []
            try:
                with ctx(**PUSHES[names[0]]):
                    seen.append(getattr(ctx, 'a', None))
                    if boom == 1:
                        raise Boom()
                    with ctx.push(**PUSHES[names[1]]):
                        seen.append(getattr(ctx, 'a', None))
                        if boom == 2:
                            raise Boom()
                        with ctx.rewind(lambda fr: True):
                            seen.append(getattr(ctx, 'a', None))
                            with ctx.reset():
                                seen.append(getattr(ctx, 'a', None))
                                rep.check(ctx.src is None and ctx.src_path is None, 'reset hides the source')
                                if boom == 3:
                                    raise Boom()
            except Boom:
                pass
            rep.check(build.fresh_context() and not hasattr(ctx, 'a') and not hasattr(ctx, 'b'),
                      'context not restored', sub=(names, boom))
            rep.outcome((names, boom, seen))
