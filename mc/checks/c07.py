"""C07: a verdict does not depend on what was analysed before."""

import itertools
import multiprocessing
import os
import pickle
import signal

from mc import build, core, corpus, obs

ID = 'C07'
CLAIMED = True
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive exploration of histories: all ordered pairs and triples over alphabets of exchanges, each history in its own forked process, and long histories that overflow '
             'every cache; the last verdict is compared with the verdict in a fresh process')
NOTE = '''The process is the state: a fresh interpreter image is forked, the history is analysed and reported, and then every possible next exchange in a fork of its own. Verdict = raw
fields, notices in order, text report, HTML report (references renumbered).'''
ASSUMPTIONS = ['identifiers in the HTML report may be numbered differently']
BOUNDS = {
    'quick': 'all ordered pairs of 70 connections; all ordered triples of 16 exchanges made to collide; every connection 3 times; 24 field values under all 68 headers in 2 '
             'orders; 4 orders of the whole corpus',
    'thorough': 'all ordered pairs of 270 connections; all ordered triples of 30 exchanges; 32 orders of the whole corpus'}
MIN_STATES = 500
CASE_TIMEOUT = 300

VALUES = ['a', '1', 'gzip', 'no-cache', '*', '"a"', 'a=b', 'bytes', 'max-age=1', 'Sun, 06 Nov 1994 08:49:37 GMT', '', 'chunked', 'a/b', 'text/html;charset=utf-8', 'for=_a', 'en', 'a, b',
          'http://a/', 'Basic Zm9v', 'GET', '0', 'clear', 'x;q=0.5', '"']


def headers():
    from mc.ref import tables
    return sorted(n for n, v in tables.HEADER.items() if v.get('rule'))


# Exchanges that share bytes, names, positions and values in different roles.
_H = build.REQ['headers']
COLLIDE = [
    (dict(headers=_H + [('Accept', 'a/b;q=1'), ('Content-Type', 'a/b;q=1')]), [dict(headers=[('Content-Type', 'a/b;q=1')])]),
    (dict(headers=_H + [('HTTPolice-Silence', '1110 resp, 1025 resp, 1277')]), [dict(headers=[('X-A', 'b')])]),
    ({}, [dict(headers=[('HTTPolice-Silence', '1047'), ('X-A', 'b')])]),
    ({}, [dict(headers=[('X-A', 'b'), ('Cache-Control', 'max-age=1, max-age=x')])]),
    (dict(headers=_H + [('Cache-Control', 'max-age=1, max-age=x')]), [dict(headers=[('Alt-Svc', 'h2=":1";ma=x;persist=1')])]),
    ({}, [dict(headers=[('Alt-Svc', 'h2=":1";ma=1')]), dict(headers=[('Alt-Svc', 'h2=":1";ma=1')])]),
    (dict(headers=_H + [('Forwarded', 'for=x;for=x, for=y')]), [{}]),
    (dict(headers=_H + [('Prefer', 'wait=1;a=b, return=x')]), [dict(headers=[('Preference-Applied', 'wait=1')])]),
    (None, [dict(status=206, headers=[('Content-Range', 'bytes 0-1/2'), ('ETag', 'a')], body=b'ab')]),
    (dict(method='CONNECT', target='a:1'), [dict(status=200)]),
    (dict(method='FOO', target='a:1', version='HTTP/2', scheme='https'), [dict(status=299, version='HTTP/2', headers=[('foo', 'bar'), ('FOO', 'Bar')])]),
    ({}, [dict(headers=[('Content-Encoding', 'gzip'), ('Content-Type', 'application/json; charset=latin-1')], body=b'[]')]),
    ({}, [dict(headers=[('Content-Encoding', 'gzip'), ('WWW-Authenticate', 'Bearer realm=x, scope="", error=1')], status=401)]),
    ({}, [dict(headers=[('WWW-Authenticate', 'Basic realm=x, charset=y')], status=401)]),
    (dict(headers=_H + [('Authorization', 'Basic Zm9v')]), [dict(headers=[('Link', '</a>; rel="next"; rel=prev, <b>')])]),
    (dict(headers=_H + [('If-None-Match', '"a", W/"b"'), ('Range', 'bytes=0-1, 5-')]), [dict(status=304, headers=[('ETag', '"a"'), ('Vary', '*, a')])]),
    (dict(headers=[('host', 'example.com'), ('user-agent', 'demo'), ('Via', '1.1 x')], trailers=[('Via', '1.1 x')]), [dict(headers=[('Warning', '110 - "x"'), ('Via', '1.1 x')])]),
    (dict(headers=_H + [('Upgrade', 'h2c, websocket'), ('Connection', 'upgrade')]), [dict(status=101, headers=[('Upgrade', 'h2c'), ('Connection', 'upgrade')])]),
    (dict(version=None, scheme=None), [dict(version=None, status=502)]),
    ({}, [dict(headers=[('Strict-Transport-Security', 'max-age=1; max-age="1"'), ('Content-Disposition', 'a; filename=x; filename="y"')])]),
    ({}, [dict(status=405, headers=[('Allow', 'GET, POST')])]), (dict(method='POST', body=b'a=b', headers=_H + [('Content-Type', 'application/x-www-form-urlencoded')]), [dict(status=415)]),
    ({}, [dict(headers=[('Date', 'x'), ('Last-Modified', 'Sun, 06 Nov 1994 08:49:37 GMT')])]), ({}, [dict(headers=[('Date', 'Sun, 06 Nov 1994 08:49:37 GMT'), ('Expires', 'x'), ('Age', '1')])]),
    (dict(headers=_H + [('TE', 'gzip'), ('Connection', 'te, close, te')]), [dict(headers=[('Transfer-Encoding', 'gzip, chunked'), ('Content-Length', '1')])]),
    (dict(target='http://h/'), [dict(status=302, headers=[('Location', 'http://h/')])]), (dict(target='*', method='OPTIONS'), [dict(headers=[('Content-Length', '0')])]),
    ({}, [dict(headers=[('Content-Type', 'multipart/byteranges; boundary=x')], status=206, body=b'--x\r\nContent-Range: bytes 0-1/2\r\n\r\nab\r\n--x--')]),
    (dict(headers=_H + [('Access-Control-Request-Method', 'GET'), ('Origin', 'null')]), [dict(headers=[('Access-Control-Allow-Origin', 'null')])]),
    ({}, [dict(headers=[('Content-Type', 'text/xml')], body=b'<a'), dict(status=100)]),
]


def representatives(tier):
    n = len(corpus.load(5000))
    k = 70 if tier == 'quick' else 270
    return [i * n // k for i in range(k)]


def shards(tier):
    precompute()
    reps = representatives(tier)
    c = range(16 if tier == 'quick' else 30)
    return [['pairs', a] for a in reps] + [['triples', a, b] for a in c for b in c] + [['again', n] for n in range(16)] + \
        [['values', n] for n in range(len(VALUES))] + [['order', n] for n in range(4 if tier == 'quick' else 32)]


def cases(shard, tier):
    kind = shard[0]
    if kind == 'pairs':
        yield ('history', [('c', shard[1])], [('c', b) for b in representatives(tier)])
    elif kind == 'triples':
        c = range(16 if tier == 'quick' else 30)
        # (The other exchanges of the list follow each pair, too.)
        yield ('history', [('x', shard[1]), ('x', shard[2])], [('x', b) for b in (c if shard[1] else range(len(COLLIDE)))])
    elif kind == 'again':
        for i in range(len(corpus.load(5000)))[shard[1]::16]:
            yield ('all', [('c', i)] * 3)
    elif kind == 'values':
        items = [('v', name, VALUES[shard[1]], side) for name in headers() for side in (0, 1)]
        yield ('all', items)
        yield ('all', items[::-1])
    else:
        n = len(corpus.load(5000))
        k = [1, n - 1, 7, 11, 101, 53, 13, 211, 17, 19, 23, 29, 31, 37, 41, 43][shard[1] % 16]
        start = 0 if shard[1] < 16 else n // 2
        order = [(start + k * i) % n for i in range(n)]
        if len(set(order)) < n:
            order += [i for i in range(n) if i not in set(order)]
        yield ('all', [('c', i) for i in order] + [('x', i) for i in range(len(COLLIDE))])


def exchanges(item):
    import httpolice
    from mc import conn
    if item[0] == 'c':
        _, scheme, inbound, outbound = corpus.load(5000)[item[1]] if not _corpus else _corpus[item[1]]
        out = conn.parse(inbound, outbound, scheme)
    elif item[0] == 'x':
        out = [build.exchange(*COLLIDE[item[1]])]
    else:
        _, name, value, side = item
        fields = _H + [('A', value), (name, value)]
        out = [build.exchange({'headers': fields} if side else {}, [{'headers': fields[2:], 'trailers': fields[3:]}])]
    for e in out:
        httpolice.check_exchange(e)
    return out


def verdict(item):
    out = exchanges(item)
    return [obs.full(out), obs.text(out), obs.canon_html(obs.html(out))]


def forked(fn):
    """Result of fn() in a child process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(CASE_TIMEOUT)
            try:
                data = pickle.dumps(('ok', fn()))
            except BaseException as exc:      # noqa: B902
                import traceback
                data = pickle.dumps(('error', traceback.format_exc() + repr(exc)))
            with os.fdopen(w, 'wb') as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise CrashInChild('child process died')
    status, value = pickle.loads(data)
    if status != 'ok':
        raise CrashInChild(value)
    return value


class CrashInChild(Exception):
    from_impl = True


_base = {}
_corpus = []


def digest(v):
    return [core.stable_hash(x) for x in v]


def precompute():
    """Verdicts of all exchanges, each in a process of its own; this process stays as it is."""
    _corpus.extend(corpus.load(5000))
    items = [('c', i) for i in range(len(_corpus))] + [('x', i) for i in range(len(COLLIDE))]
    with multiprocessing.get_context('fork').Pool(8) as pool:
        for item, v in zip(items, pool.imap(_fresh, items, chunksize=8)):
            if v is not None:
                _base[repr(item)] = v


def _fresh(item):
    try:
        return forked(lambda: digest(verdict(item)))
    except CrashInChild:
        return None


def baseline(item):
    key = repr(item)
    if key not in _base:
        _base[key] = forked(lambda: digest(verdict(item)))
    return _base[key]


def run(ctx, case):
    if not _corpus:
        _corpus.extend(corpus.load(5000))
    if case[0] == 'history':
        _, history, nexts = case
        wants = [baseline(b) for b in nexts]

        def explore():
            for a in history:
                verdict(a)
            return [forked(lambda b=b: digest(verdict(b))) for b in nexts]
        for b, want, got in zip(nexts, wants, forked(explore)):
            compare(ctx, history, b, want, got)
    else:
        items = case[1]
        wants = [baseline(b) for b in items]
        gots = forked(lambda: [digest(verdict(b)) for b in items])
        for n, (b, want, got) in enumerate(zip(items, wants, gots)):
            if not compare(ctx, items[:n], b, want, got):
                break


def compare(ctx, history, b, want, got):
    ctx.step()
    ctx.state((history[-3:], b))
    ctx.outcome('same' if got == want else 'different')
    if got != want:
        n = [x != y for x, y in zip(got, want)].index(True)
        fresh = forked(lambda: verdict(b)[n])

        def after():
            for a in history:
                verdict(a)
            return verdict(b)[n]
        other = forked(after)
        where = next((i for i, (x, y) in enumerate(zip(repr(fresh), repr(other))) if x != y), 0)
        ctx.violate('history:%s' % ['notices', 'text', 'html'][n],
                    'after %s%s, the %s of %r differ:\n  fresh: %s\n  then:  %s' % (
                        '... ' if len(history) > 4 else '', history[-4:], ['notices', 'text report', 'HTML report'][n], b,
                        repr(fresh)[max(0, where - 100):where + 200], repr(other)[max(0, where - 100):where + 200]), case=('all', list(history) + [b]))
        return False
    return True
