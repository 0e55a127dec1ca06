"""Shared machinery of the bounded exhaustive explorations.

A *check* is a module in ``mc.checks`` with

    ID          property id
    ASSUMPTIONS list of strings
    shards(tier)            -> list of plain-data shard descriptions
    cases(shard, tier)      -> generator of plain-data cases (the enumeration)
    run(ctx, case)          -> execute one case on the real code and judge it

Everything a case needs is plain data (str/bytes/int/None/tuple/list/dict), so
any violation is replayable from a file: ``./check ID --replay FILE``.
The enumeration is complete for the bounds of the tier: no sampling, no time
box.  VERIF_SEED is recorded but influences nothing.
"""

import collections
import contextlib
import hashlib
import json
import multiprocessing
import os
import pprint
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
MAX_VIOLATIONS_PER_SHARD = 25
CASE_TIMEOUT = 30


def setup_import():
    """Make ``import httpolice`` use /repo's current working tree, from source."""
    sys.dont_write_bytecode = True
    sys.pycache_prefix = '/nonexistent/verif-no-pycache'
    sys.path.insert(0, REPO)
    import httpolice
    where = os.path.dirname(os.path.dirname(os.path.abspath(httpolice.__file__)))
    if os.path.realpath(where) != os.path.realpath(REPO):
        raise RuntimeError('httpolice imported from %s' % where)


class CaseTimeout(BaseException):
    pass


def _on_alarm(_sig, _frame):
    raise CaseTimeout()


def stable_hash(obj):
    if not isinstance(obj, bytes):
        obj = repr(obj).encode('utf-8', 'backslashreplace')
    return int.from_bytes(hashlib.blake2b(obj, digest_size=8).digest(), 'big')


class Ctx:

    """Collects what one shard observed."""

    def __init__(self, check_id, tier):
        self.check_id = check_id
        self.tier = tier
        self.cases = 0
        self.transitions = 0
        self.states = set()
        self.outcomes = collections.Counter()
        self.counters = collections.Counter()
        self.violations = []
        self.samples = []
        self._case = None
        self._keys = set()
        self.sample_every = None

    # -- used by checks --

    def step(self, n=1):
        self.transitions += n

    def state(self, obj):
        """Record a canonical state / observation reached in this case."""
        self.states.add(stable_hash(obj))

    def outcome(self, label):
        self.outcomes[label] += 1

    def count(self, name, n=1):
        self.counters[name] += n

    def violate(self, key, message, extra=None, case=None):
        """Report that the property is broken in the current case.

        `key` identifies the defect stably (used for known findings);
        `case` may narrow the case down, for the replay.
        """
        if key in self._keys or \
                len(self.violations) >= MAX_VIOLATIONS_PER_SHARD:
            self.counters['violations_not_listed'] += 1
            return
        self._keys.add(key)
        self.violations.append({
            'key': key, 'message': message, 'extra': extra,
            'case': self._case if case is None else case})

    def expect(self, key, actual, expected, what=''):
        if actual != expected:
            self.violate(key, '%s\n  expected: %s\n  actual:   %s' %
                         (what, _short(expected), _short(actual)))
            return False
        return True

    # -- used by the driver --

    def run_case(self, run, case, timeout=None):
        timeout = timeout or CASE_TIMEOUT
        self._case = case
        self.cases += 1
        signal.setitimer(signal.ITIMER_REAL, timeout)
        try:
            run(self, case)
        except CaseTimeout:
            self.violate('hang', 'case did not finish in %d s' % timeout)
        except Exception as exc:        # pylint: disable=broad-except
            tb = traceback.extract_tb(exc.__traceback__)
            in_repo = [f for f in tb if f.filename.startswith(REPO)]
            if not in_repo and not isinstance(exc, RecursionError) and \
                    not getattr(exc, 'from_impl', False):
                # A bug in our own machinery is never reported as a finding.
                raise
            where = in_repo[-1] if in_repo else tb[-1]
            self.violate(
                'crash:%s:%s' % (type(exc).__name__,
                                 os.path.basename(where.filename)),
                'unexpected %s: %s\n%s' % (
                    type(exc).__name__, _short(str(exc)),
                    ''.join(traceback.format_tb(exc.__traceback__)[-6:])))
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        if len(self.samples) < 2 and (self.cases in (1, 50)):
            self.samples.append(_short(case, 600))
        if self.cases == 1 and len(self.samples) == 0:
            self.samples.append(_short(case, 600))

    def result(self):
        return {
            'cases': self.cases, 'transitions': self.transitions,
            'states': self.states, 'outcomes': self.outcomes,
            'counters': self.counters, 'violations': self.violations,
            'samples': self.samples}


def _short(obj, limit=1500):
    s = obj if isinstance(obj, str) else pprint.pformat(obj, width=100)
    return s if len(s) <= limit else s[:limit] + '...(%d chars)' % len(s)


def _worker(args):
    (module_name, shard, tier) = args
    signal.signal(signal.SIGALRM, _on_alarm)
    import importlib
    mod = importlib.import_module(module_name)
    ctx = Ctx(mod.ID, tier)
    t0 = time.time()
    try:
        if hasattr(mod, 'begin_shard'):
            mod.begin_shard(ctx, shard, tier)
        for case in mod.cases(shard, tier):
            ctx.run_case(mod.run, case, getattr(mod, 'CASE_TIMEOUT', None))
        if hasattr(mod, 'end_shard'):
            mod.end_shard(ctx, shard, tier)
    except BaseException:
        return {'machinery_error': traceback.format_exc(),
                'shard': repr(shard)[:300], 'case': repr(ctx._case)[:2000]}
    finally:
        if hasattr(mod, 'cleanup'):
            mod.cleanup()
    r = ctx.result()
    r['shard'] = repr(shard)[:200]
    r['wall'] = time.time() - t0
    return r


def limit_memory():
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass


def load_known_findings():
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)['findings']


def run_check(mod, tier, jobs=None):
    t0 = time.time()
    setup_import()
    limit_memory()
    shards = mod.shards(tier)
    jobs = jobs or int(os.environ.get('VERIF_JOBS', '0')) or \
        min(8, os.cpu_count() or 1)
    total = collections.Counter()
    states, outcomes, counters = (
        set(), collections.Counter(), collections.Counter())
    violations, samples, walls = [], [], []
    tasks = [(mod.__name__, shard, tier) for shard in shards]
    if jobs == 1:
        results = map(_worker, tasks)
        pool = None
    else:
        pool = multiprocessing.get_context('fork').Pool(
            jobs, initializer=limit_memory, maxtasksperchild=getattr(
                mod, 'MAXTASKS', None))
        results = pool.imap_unordered(_worker, tasks, chunksize=1)
    try:
        for r in results:
            if 'machinery_error' in r:
                sys.stderr.write('MACHINERY ERROR in shard %s case %s\n%s' %
                                 (r['shard'], r['case'],
                                  r['machinery_error']))
                if pool:
                    pool.terminate()
                return 3
            total['cases'] += r['cases']
            total['transitions'] += r['transitions']
            states |= r['states']
            outcomes.update(r['outcomes'])
            counters.update(r['counters'])
            violations.extend(r['violations'])
            walls.append((r['wall'], r['shard']))
            samples.extend(r['samples'])
    finally:
        if pool:
            pool.terminate()
            pool.join()

    if hasattr(mod, 'finish'):
        # Cross-shard judgement: may add violations.
        violations.extend(mod.finish(tier, outcomes, counters, total) or [])

    # De-duplicate by key: the simplest (shortest) case wins.
    by_key = {}
    for v in violations:
        old = by_key.get(v['key'])
        if old is None or len(repr(v['case'])) < len(repr(old['case'])):
            by_key[v['key']] = v
    known = {(k['property'], k['key']): k for k in load_known_findings()}
    new, listed = [], []
    for key, v in sorted(by_key.items()):
        if (mod.ID, key) in known:
            listed.append((known[mod.ID, key], v))
        else:
            new.append(v)

    for (k, v) in listed:
        print('KNOWN-FINDING: property=%s %s' % (mod.ID, k['what']))

    picked = samples[:2] + samples[len(samples) // 2:][:2] + samples[-2:]
    coverage = {
        'states': len(states),
        'transitions': total['transitions'],
        'traces_validated_against_impl': total['cases'],
        'samples': list(dict.fromkeys(picked)) or ['(none)'],
        'exhaustive': True,
        'shards': len(shards),
        'bounds': getattr(mod, 'BOUNDS', {}).get(tier, ''),
        'distinct_outcomes': len(outcomes),
        'outcomes_top': {str(k): v for k, v in outcomes.most_common(12)},
        'counters': {str(k): v for k, v in counters.items()},
    }
    evidence = {
        'property': mod.ID,
        'tier': tier,
        'seed': int(os.environ.get('VERIF_SEED', '0') or 0),
        'level': getattr(mod, 'LEVEL', 'model_checking'),
        'coverage': coverage,
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(new),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', mod.ID + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
        f.write('\n')

    print('%s tier=%s executions=%d transitions=%d states=%d outcomes=%d '
          'shards=%d wall=%.1fs' % (
              mod.ID, tier, total['cases'], total['transitions'], len(states),
              len(outcomes), len(shards), time.time() - t0))
    if os.environ.get('VERIF_VERBOSE'):
        for w in sorted(walls, reverse=True)[:8]:
            print('  slowest shard %.1fs %s' % w)
        print('  outcomes', outcomes.most_common(15))
        print('  counters', dict(counters))

    if total['cases'] == 0 or len(states) < getattr(mod, 'MIN_STATES', 1):
        sys.stderr.write('MACHINERY ERROR: vacuous exploration\n')
        return 3
    if not new:
        return 0
    rdir = os.path.join(VERIF, 'replays', mod.ID)
    os.makedirs(rdir, exist_ok=True)
    for n, v in enumerate(new[:10]):
        path = os.path.join(rdir, '%02d.replay' % n)
        with open(path, 'w') as f:
            f.write('# replay: ./check %s %s --replay %s\n' %
                    (mod.ID, tier, path))
            for line in ('key: %s\n%s' % (v['key'], v['message'])).splitlines():
                f.write('# %s\n' % line)
            f.write(pprint.pformat(v['case'], width=100) + '\n')
        print('--- %s: %s' % (v['key'], _short(v['message'], 900)))
        print('    case: %s' % _short(repr(v['case']), 700))
        print('VIOLATION property=%s replay=%s' % (mod.ID, path))
    return 1


def replay(mod, tier, path):
    """Re-execute one recorded case twice and show what it does."""
    import ast
    setup_import()
    signal.signal(signal.SIGALRM, _on_alarm)
    with open(path) as f:
        text = ''.join(l for l in f if not l.startswith('#'))
    case = ast.literal_eval(text)
    seen = []
    for _ in range(2):
        ctx = Ctx(mod.ID, tier)
        ctx.run_case(mod.run, case, getattr(mod, 'CASE_TIMEOUT', None))
        seen.append([(v['key'], v['message']) for v in ctx.violations])
    if hasattr(mod, 'cleanup'):
        mod.cleanup()
    for key, message in seen[0]:
        print('--- %s: %s' % (key, message))
    if [k for k, _ in seen[0]] != [k for k, _ in seen[1]]:
        print('NOTE: two replays differ (history-dependent behaviour)')
    if seen[0]:
        print('VIOLATION property=%s replay=%s' % (mod.ID, path))
        return 1
    print('replay: no violation')
    return 0


@contextlib.contextmanager
def patched(obj, name, value):
    old = getattr(obj, name)
    setattr(obj, name, value)
    try:
        yield
    finally:
        setattr(obj, name, old)
