"""C31: the same input always gives the same report."""

import os
import subprocess
import sys

from mc import build, core, corpus, headerspace as hs, obs
from mc.checks import c07

ID = 'C31'
CLAIMED = True
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive comparison over a bounded product of inputs x hash seeds x allocators: every input is analysed in a new interpreter for each configuration, and all report bytes '
             'are compared')
NOTE = '''Nondeterminism in this program can only come from hash seeds and object addresses. Each configuration is a separate interpreter that analyses the same inputs in the same order and prints
digests of both reports and of all notices; they must be equal in all configurations.'''
ASSUMPTIONS = ['the clock does not pass a date in the input between two runs', 'references without a visible target, and the numbers of references, may differ in HTML reports']
SEEDS = {'quick': [0, 1, 2, 3, 17, 4242], 'thorough': list(range(24)) + [1000 * k for k in range(1, 17)]}
BOUNDS = {'quick': '6 hash seeds x 2 allocators (alternating); 539 connections, 30 colliding exchanges, 60 edits of each of 68 headers',
          'thorough': '40 hash seeds; 400 edits of each header'}
MIN_STATES = 500
CASE_TIMEOUT = 600
PARTS = 16


def shards(tier):
    return [['part', n] for n in range(PARTS)]


def cases(shard, tier):
    yield ('part', shard[1], tier)


def items(part, tier):
    out = [('c', i) for i in range(len(corpus.load()))] + [('x', i) for i in range(len(c07.COLLIDE))]
    for name in sorted(hs.SPACE):
        values = hs.seeds(name) + list(hs.edits(hs.seeds(name)[0], 'quick')) + list(hs.edits(hs.seeds(name)[-1], 'quick'))
        k = max(1, len(values) // (60 if tier == 'quick' else 400))
        values = values[::k]
        out += [('h', name, values[i:i + 20]) for i in range(0, len(values), 20)]
    return out[part::PARTS]


def exchanges(item, loaded):
    import httpolice
    from mc import conn
    if item[0] == 'c':
        _, scheme, inbound, outbound = loaded[item[1]]
        out = conn.parse(inbound, outbound, scheme)
    elif item[0] == 'x':
        out = [build.exchange(*c07.COLLIDE[item[1]])]
    else:
        _, name, values = item
        out = [build.exchange({'headers': build.REQ['headers'] + [(name, v)]}, [{'headers': [(name, v), ('Connection', name), ('Vary', name)]}]) for v in values]
    for e in out:
        httpolice.check_exchange(e)
    return out


def child(part, tier):
    """Runs in a new interpreter."""
    core.setup_import()
    loaded = corpus.load()
    for n, item in enumerate(items(part, tier)):
        out = exchanges(item, loaded)
        print(n, core.stable_hash(obs.full(out)), core.stable_hash(obs.text(out)), core.stable_hash(obs.canon_html(obs.html(out))))


def dump(part, tier, n):
    core.setup_import()
    loaded = corpus.load()
    for item in items(part, tier)[:n + 1]:
        out = exchanges(item, loaded)
        views = (obs.full(out), obs.text(out), obs.canon_html(obs.html(out)))
    for v in views:
        print(repr(v))


def start(args, seed, k):
    env = dict(os.environ, PYTHONHASHSEED=str(seed), PYTHONDONTWRITEBYTECODE='1', PYTHONUTF8='1', PYTHONPATH=core.VERIF)
    if k % 2:
        env['PYTHONMALLOC'] = 'malloc'
    p = subprocess.run([sys.executable, '-B', '-X', 'utf8', '-c', 'from mc.checks import c31; c31.%s(%s)' % (args[0], ', '.join(map(repr, args[1:])))], env=env,
                       cwd=core.VERIF, capture_output=True, text=True, check=False)
    if p.returncode:
        # The reports of the space are the same as those of C05, C07: a crash here is one of the code under test.
        exc = RuntimeError(p.stderr[-1500:])
        exc.from_impl = True
        raise exc
    return p.stdout.splitlines()


def run(ctx, case):
    _, part, tier = case
    first = None
    for k, seed in enumerate(SEEDS[tier]):
        got = start(('child', part, tier), seed, k)
        ctx.step(len(got))
        if first is None:
            first = got
            for line in got:
                ctx.state((part, line))
        ctx.outcome(len(got))
        for n, (a, b) in enumerate(zip(first, got)):
            if a != b:
                what = [x != y for x, y in zip(a.split(), b.split())].index(True) - 1
                one, two = start(('dump', part, tier, n), SEEDS[tier][0], 0)[what], start(('dump', part, tier, n), seed, k)[what]
                where = next((i for i, (x, y) in enumerate(zip(one, two)) if x != y), 0)
                ctx.violate('seed:%s' % ['notices', 'text', 'html'][what], 'with hash seed %d, %s differ for %.300r:\n%s\n%s' % (
                    seed, ['notices', 'text report', 'HTML report'][what], items(part, tier)[n], one[max(0, where - 150):where + 200], two[max(0, where - 150):where + 200]))
                return
        ctx.expect('count', len(got), len(first), 'number of results')
