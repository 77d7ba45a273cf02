"""
Exploration engine shared by the checks.

A check module enumerates *cases* (deterministically, simplest first) and
decides each one completely; one case may itself be a whole bounded search.
The engine shards the cases over processes, measures what was covered, applies
the known-findings file and writes the evidence and the replay artefact.

Check module interface:

    PROPERTY, LEVEL, RULE, ASSUMPTIONS
    cases(tier)        -> iterator of cases (same sequence in every process)
    run(case, rep)     -> explores the case; reports to `rep`
    bounds(tier)       -> dict describing the bound (goes in the evidence)
"""
import collections
import hashlib
import importlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TREE = os.environ.get('PILO_ROOT', '/repo')
KNOWN = os.path.join(ROOT, 'known_findings.jsonl')
#: Development only: decide every n-th case (the registered commands decide all).
STRIDE = int(os.environ.get('MC_STRIDE') or 1)
SLOW_S = int(os.environ.get('MC_SLOW_S') or 0)
CASE_LIMIT_S = int(os.environ.get('MC_CASE_LIMIT_S', '120'))


class Hang(BaseException):
    """A case did not finish within its time limit."""


class Violation(object):

    def __init__(self, what, key, sub):
        self.what, self.key, self.sub = what, key, sub


class Report(object):
    """What one process saw. Counters are sums, outcomes a set of digests."""

    def __init__(self, known=()):
        self.known = known
        self.counts = collections.Counter()
        self.outcomes = set()
        self.states = set()
        self.samples = []
        self.violations = []
        self.known_hits = {}
        self.case_no = 0

    def eval(self, n=1):
        self.counts['evaluations'] += n

    def count(self, name, n=1):
        self.counts[name] += n

    def outcome(self, obs):
        """Record a distinct observed outcome (for vacuity checks)."""
        h = hash(repr(obs))
        self.outcomes.add(h)

    def state(self, key):
        """Record a distinct state of the explored machine."""
        self.states.add(hash(key))

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(obj)

    def fail(self, what, key=None, sub=None):
        """
        A violation. `key` names the specific failing input or history, for
        the known-findings file.
        """
        if key is not None and key in self.known:
            self.known_hits[key] = self.known_hits.get(key, 0) + 1
            return
        self.counts['violations'] += 1
        if len(self.violations) < 200:
            self.violations.append((self.case_no, str(what)[:4000], key, repr(sub)[:4000]))

    def check(self, cond, what, key=None, sub=None):
        if not cond:
            self.fail(what() if callable(what) else what, key, sub)
        return cond


def load_known(prop):
    found = collections.OrderedDict()
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if not line or not line.startswith('{'):
                    continue
                item = json.loads(line)
                if item.get('property') == prop and item.get('status') == 'known':
                    found[item['key']] = item['what']
    return found


_began = [0, 0]


def _alarm(signum, frame):
    # by the time it had the processor, as there may be other work
    if time.process_time() - _began[0] < CASE_LIMIT_S and time.time() - _began[1] < 5 * CASE_LIMIT_S:
        signal.alarm(max(1, CASE_LIMIT_S // 6))
        return
    raise Hang()


def run_case(mod, case, no, rep):
    rep.case_no = no
    n = rep.counts['violations']
    _began[:] = time.process_time(), time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT_S)
    try:
        mod.run(case, rep)
    except Hang:
        rep.fail('no result within {0} s (does not terminate?)'.format(CASE_LIMIT_S))
    except Exception:
        # Every expected exception is handled where it is expected, so this
        # is behaviour of the code that no oracle allows.
        rep.fail('unexpected exception\n' + traceback.format_exc())
    finally:
        signal.alarm(0)
        if SLOW_S and time.process_time() - _began[0] > SLOW_S:
            sys.stderr.write('slow: case {0}, {1:.0f} s\n'.format(no, time.process_time() - _began[0]))
    return rep.counts['violations'] > n


def _worker(mod, tier, nxt, stop, known, conn):
    try:
        rep = Report(known)
        no = -1
        it = mod.cases(tier)
        mine = _take(nxt)
        for no, case in enumerate(it):
            if no != mine:
                continue
            if STRIDE > 1 and no % STRIDE:
                mine = _take(nxt)
                continue
            rep.count('cases')
            if run_case(mod, case, no, rep):
                with stop.get_lock():
                    if stop.value < 0 or no < stop.value:
                        stop.value = no
            mine = _take(nxt)
            if 0 <= stop.value < mine:
                break
        conn.send((
            dict(rep.counts), rep.outcomes, rep.states, rep.samples,
            rep.violations, rep.known_hits, None,
        ))
    except BaseException:
        # making the cases failed: in pilo, or in the check
        text = traceback.format_exc()
        if in_tree(sys.exc_info()[2]):
            conn.send(({}, set(), set(), [], [(0, 'unexpected exception\n' + text, None, '')], {}, None))
        else:
            conn.send(({}, set(), set(), [], [], {}, text))
    finally:
        conn.close()


def in_tree(tb):
    """Whether the traceback is through the code under test."""
    tree = os.path.realpath(TREE) + os.sep
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(tree):
            return True
        tb = tb.tb_next
    return False


def _take(nxt):
    with nxt.get_lock():
        n = nxt.value
        nxt.value += 1
    return n


def describe(case):
    text = getattr(case, 'describe', None)
    return text() if callable(text) else repr(case)


def main(argv):
    prop = argv[0]
    replay = None
    tier = os.environ.get('VERIF_TIER') or 'quick'
    jobs = int(os.environ.get('MC_JOBS') or min(8, os.cpu_count() or 1))
    args = argv[1:]
    while args:
        a = args.pop(0)
        if a == '--tier':
            tier = args.pop(0)
        elif a == '--replay':
            replay = args.pop(0)
        elif a == '--jobs':
            jobs = int(args.pop(0))
        else:
            raise SystemExit('unknown argument ' + a)
    seed = int(os.environ.get('VERIF_SEED') or 1)
    try:
        mod = importlib.import_module('mc.checks.' + prop.lower())
    except Exception:
        # the forms a check declares are declared as the documentation says
        if not in_tree(sys.exc_info()[2]):
            raise
        os.makedirs(os.path.join(ROOT, 'out'), exist_ok=True)
        path = os.path.join(ROOT, 'out', prop + '-declare.txt')
        with open(path, 'w') as f:
            traceback.print_exc(file=f)
        traceback.print_exc()
        print('VIOLATION property={0} replay={1}'.format(prop, path))
        sys.stdout.flush()
        return 1

    if replay:
        return do_replay(mod, prop, replay)

    t0 = time.time()
    known = load_known(prop)
    nxt = multiprocessing.Value('l', 0)
    stop = multiprocessing.Value('l', -1)
    procs = []
    for _ in range(jobs):
        a, b = multiprocessing.Pipe(False)
        p = multiprocessing.Process(
            target=_worker, args=(mod, tier, nxt, stop, frozenset(known), b)
        )
        p.start()
        b.close()
        procs.append((p, a))
    total = Report()
    broken = []
    for p, a in procs:
        try:
            counts, outcomes, states, samples, violations, hits, err = a.recv()
        except EOFError:
            p.join()
            broken.append('worker died with exit code {0}'.format(p.exitcode))
            continue
        p.join()
        total.counts.update(counts)
        total.outcomes |= outcomes
        total.states |= states
        total.samples.extend(samples)
        total.violations.extend(violations)
        for k, n in hits.items():
            total.known_hits[k] = total.known_hits.get(k, 0) + n
        if err:
            broken.append(err)
    wall = time.time() - t0
    total.violations.sort(key=lambda v: (v[0], v[1]))

    c = total.counts
    if total.states:
        c['states'] = len(total.states)
    coverage = {
        'exhaustive': not total.violations and not broken and STRIDE == 1,
        'samples': total.samples[:6] or ['(none)'],
        'bounds': mod.bounds(tier),
        'cases': c['cases'],
        'distinct_outcomes': len(total.outcomes),
    }
    if mod.LEVEL == 'model_checking':
        coverage['states'] = c['states']
        coverage['transitions'] = c['transitions']
        coverage['traces_validated_against_impl'] = c['evaluations']
    else:
        coverage['evaluations'] = c['evaluations']
        coverage['distinct_nontrivial'] = len(total.outcomes)
        coverage['rule'] = mod.RULE
    for k, n in sorted(c.items()):
        coverage.setdefault(k, n)
    evidence = {
        'property': prop,
        'tier': tier if tier in ('quick', 'thorough') else 'quick',
        'seed': seed,
        'level': mod.LEVEL,
        'coverage': coverage,
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 2),
        'violations': len(total.violations),
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, sort_keys=True, default=repr)

    for key, what in known.items():
        if key in total.known_hits:
            print('KNOWN-FINDING: property={0} {1}'.format(prop, what))
    print('{0} {1}: {2} cases, {3} in {4:.1f} s'.format(
        prop, tier, c['cases'],
        ', '.join('{0}={1}'.format(k, n) for k, n in sorted(c.items()) if k != 'cases')
        + ', distinct outcomes={0}'.format(len(total.outcomes)), wall,
    ))
    if total.violations:
        path = write_replay(mod, prop, tier, total.violations)
        no, what, key, sub = total.violations[0]
        print('first violation (case {0}): {1}'.format(no, what))
        print('at: {0}'.format(sub))
        print('VIOLATION property={0} replay={1}'.format(prop, path))
        sys.stdout.flush()
        return 1
    if broken:
        sys.stderr.write('\n'.join(broken) + '\n')
        return 2
    if not c['evaluations'] or len(total.outcomes) < 2:
        sys.stderr.write('vacuous run: {0}\n'.format(dict(c)))
        return 2
    return 0


def write_replay(mod, prop, tier, violations):
    no, what, key, sub = violations[0]
    try:
        case = next(c for i, c in enumerate(mod.cases(tier)) if i == no)
    except Exception as ex:
        case = repr(ex)
    out = os.path.join(ROOT, 'out')
    os.makedirs(out, exist_ok=True)
    digest = hashlib.sha256((what + sub).encode('utf-8', 'replace')).hexdigest()[:12]
    path = os.path.join(out, '{0}-{1}.json'.format(prop, digest))
    with open(path, 'w') as f:
        json.dump({
            'property': prop,
            'tier': tier,
            'case_no': no,
            'case': describe(case),
            'what': what,
            'key': key,
            'at': sub,
            'more': [v[1][:300] for v in violations[1:6]],
            'replay_cmd': 'cd /verif && ./run {0} --replay {1}'.format(prop, path),
        }, f, indent=1)
    return path


def do_replay(mod, prop, path):
    with open(path) as f:
        item = json.load(f)
    case = next(
        c for i, c in enumerate(mod.cases(item['tier'])) if i == item['case_no']
    )
    if describe(case) != item['case']:
        sys.stderr.write('the enumeration changed: case differs from the recorded one\n')
        return 2
    rep = Report(frozenset(load_known(prop)))
    run_case(mod, case, item['case_no'], rep)
    for no, what, key, sub in rep.violations[:5]:
        print(what)
        print('at: {0}'.format(sub))
    if rep.violations:
        print('VIOLATION property={0} replay={1}'.format(prop, path))
        return 1
    print('the recorded case holds now')
    return 0
