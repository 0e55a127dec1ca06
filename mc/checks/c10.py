"""C10: reports and exit status agree with the notices."""

import itertools
import os
import shutil
import tempfile

from mc import build, conn, corpus, obs, report

ID = 'C10'
CLAIMED = True
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of sequences of exchanges, silenced sets, thresholds and formats; every report is read back by an '
             'independent parser and compared with the notices')
NOTE = '''All sequences of up to 3 of 12 kinds of exchanges, and every corpus connection under each single silenced id and all ids, are rendered
in both formats, read back, and compared (order, message, number, severity, title, nothing else); the exit status of the real command line is
compared with the prediction for every threshold.'''
ASSUMPTIONS = ['the titles and severities of notices are those in notices.xml']
BOUNDS = {
    'quick': 'sequences of <= 3 exchanges of 12 kinds; 539 corpus connections x (no silence, each id, all ids) x 4 thresholds x 2 formats',
    'thorough': 'sequences of <= 4 exchanges; also every pair of silenced ids'}
MIN_STATES = 500

H = [('Host', 'h'), ('User-Agent', 'a')]
D = ('Date', 'Sun, 06 Nov 1994 08:49:37 GMT')
OKR = {'headers': [D, ('Content-Type', 'text/plain')], 'body': b'x'}
KINDS = [
    ('clean', {'headers': H}, [OKR]),
    ('req-error', {'headers': [('User-Agent', 'a')]}, [OKR]),
    ('resp-comment', {'headers': H}, [dict(OKR, headers=OKR['headers'] + [('X-Foo', 'bar')])]),
    ('both', {'headers': H + [('X-\u20ac', '1'), ('Accept', ',;')]}, [dict(OKR, headers=[('Date', 'x'), ('Age', '-')], body=b'')]),
    ('request-only', {'headers': [('X-A', '1')], 'method': 'get'}, []),
    ('clean-request-only', {'headers': H}, []),
    ('response-only', None, [dict(OKR, headers=[('Date', 'x')])]),
    ('clean-response-only', None, [OKR]),
    ('many-responses', {'headers': H}, [{'status': 100, 'reason': 'Continue'}, dict(OKR, headers=[('ETag', 'x')]), {'status': 500, 'reason': None, 'headers': [('Age', 'x')]}]),
    ('debug', {'headers': H}, [dict(OKR, headers=OKR['headers'] + [('Transfer-Encoding', 'x, chunked'), ('Content-Encoding', 'zzz')])]),
    ('box', 'box', 1007), ('silenced-box', 'box', None),
]


def make(kind):
    import httpolice
    from httpolice.exchange import complaint_box
    name, req, resps = KINDS[kind]
    if req == 'box':
        e = complaint_box(1007 if resps else 1010, stream=conn.stream(b'', 'x'), offset=3)
        if not resps:
            e.silence([1010])
    else:
        e = build.exchange(req, resps)
    httpolice.check_exchange(e)
    return e


def shards(tier):
    return [['seq', a, b] for a in range(len(KINDS)) for b in (range(len(KINDS)) if tier == 'thorough' else [None])] + \
        [['corpus', n] for n in range(48)] + [['known']]


def cases(shard, tier):
    if shard[0] == 'seq':
        _, a, b = shard
        if b is None:
            for k in range(3):
                for combo in itertools.product(range(len(KINDS)), repeat=k):
                    yield ('seq', [a] + list(combo))
            if a == 0:
                yield ('seq', [])
        else:
            for k in range(3):
                for combo in itertools.product(range(len(KINDS)), repeat=k):
                    yield ('seq', [a, b] + list(combo))
    elif shard[0] == 'corpus':
        for i, item in list(enumerate(corpus.load()))[shard[1]::48]:
            yield ('corpus', i, tier == 'thorough')
    else:
        for n in sorted(report.catalog()):
            yield ('severity', n)


_dir = [None, None]


def scratch():
    if _dir[0] is None or _dir[1] != os.getpid():
        _dir[0], _dir[1] = tempfile.mkdtemp(prefix='verif-c10-'), os.getpid()
    return _dir[0]


def cleanup():
    if _dir[0] is not None and _dir[1] == os.getpid():
        shutil.rmtree(_dir[0], ignore_errors=True)
        _dir[0] = None


_corpus = []


def run(ctx, case):
    if case[0] == 'seq':
        exchanges = [make(k) for k in case[1]]
        judge(ctx, exchanges)
        judge(ctx, iter(exchanges), exchanges)
    elif case[0] == 'severity':
        severity(ctx, case[1])
    else:
        if not _corpus:
            _corpus.extend(corpus.load())
        _, scheme, inbound, outbound = _corpus[case[1]]
        exchanges = obs.analyse(inbound, outbound, scheme)
        judge(ctx, exchanges)
        present = sorted(set(n.id for e in exchanges for _, o in obs.objects(e) for n in o.notices))
        subsets = [[]] + [[n] for n in present] + [present]
        if case[2]:
            subsets += [list(p) for p in itertools.combinations(present, 2)]
        path = os.path.join(scratch(), 'c' + {'http': '', 'https': '.https', None: '.noscheme'}[scheme])
        with open(path, 'wb') as f:
            f.write(b'======== BEGIN INBOUND STREAM ========\r\n' + inbound + b'======== BEGIN OUTBOUND STREAM ========\r\n' + outbound)
        for silenced in subsets:
            for fmt in ('text', 'html'):
                cli(ctx, path, scheme, inbound, outbound, silenced, fmt)


def judge(ctx, given, exchanges=None):
    exchanges = given if exchanges is None else exchanges
    ctx.step(2)
    if given is exchanges:
        t, h = obs.text(given), obs.html(given)
    else:
        # The reports accept any iterable.
        given = list(given)
        t, h = obs.text(iter(given)), obs.html(iter(given))
    for what, problem in (('text', report.check_text(t, exchanges)), ('html', report.check_html(h, exchanges))):
        if problem:
            ctx.violate('%s-report' % what, problem)
    ctx.state(report.expected(exchanges))
    ctx.outcome(len(exchanges))


def cli(ctx, path, scheme, inbound, outbound, silenced, fmt):
    from httpolice import cli as impl
    from httpolice.util.text import MockStdio
    import httpolice
    # The reference: silence first, then check.
    exchanges = conn.parse(inbound, outbound, scheme)
    for e in exchanges:
        e.silence(silenced)
        httpolice.check_exchange(e)
    shown = set(report.catalog()[n.id][0] for e in exchanges for _, o in obs.objects(e) for n in o.notices)
    worst = max([report.SEVERITIES.index(s) for s in shown], default=-1)
    for threshold in (None, 'comment', 'error', 'debug') if fmt == 'text' else (None, 'error'):
        ctx.step()
        argv = ['httpolice', '-i', 'combined', '-o', fmt] + [x for n in silenced for x in ('-s', str(n))]
        if threshold:
            argv += ['--fail-on', threshold]
        out, err = MockStdio(), MockStdio()
        rc = impl.run_cli(impl.parse_args(argv + [path]), out, err)
        want = 1 if threshold and worst >= report.SEVERITIES.index(threshold) else 0
        ctx.expect('exit-status', rc, want, 'exit status with --fail-on %s, silenced %r, shown severities %r' % (threshold, silenced, sorted(shown)))
        ctx.expect('stderr', err.buffer.getvalue(), b'', 'error output')
    data = out.buffer.getvalue()
    problem = report.check_text(data, exchanges) if fmt == 'text' else report.check_html(data, exchanges)
    if problem:
        ctx.violate('cli-%s-report' % fmt, 'with silenced %r: %s' % (silenced, problem))


def severity(ctx, n):
    """The public severity of every notice is the one it is catalogued with, and severities are ordered."""
    import httpolice
    from httpolice.notice import all_notices
    s = report.catalog()[n][0]
    ctx.step()
    ctx.expect('severity', all_notices[n].severity, httpolice.Severity[s], 'severity of %d' % n)
    ctx.expect('names', [x.name for x in sorted(httpolice.Severity)], report.SEVERITIES, 'names of severities')
    ctx.state(n)
