"""C18: sequences of interim and final responses."""

import itertools

from mc import conn, rulecheck

ID = 'C18'
CLAIMED = True
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of sequences of responses up to a depth, in every context of request version, method, expectation and upgrade; the notices of '
             'every exchange are compared with an independent executable model, both through the API and from bytes on the wire')
NOTE = '''Sequences of up to four responses drawn from interim, final, switching, rejecting and unknown ones are explored for every request context, through the
API and (with one or two pipelined requests) from byte streams; the sequencing notices on every message must be those of the model.'''
ASSUMPTIONS = ['on the wire, responses after a 101 are not messages any more, and those after the last request are reported by C01']
BOUNDS = {
    'quick': '19 responses: sequences <=2 in 114 contexts, <=3 in 14 contexts; 9 responses: <=4 in 3 contexts; wire: 10 responses, <=3 after 1 or 2 requests of 6 kinds',
    'thorough': 'one longer each: <=3 in 114 contexts, <=4 in 14, <=5 in 3; wire <=4'}
MIN_STATES = 400
CASE_TIMEOUT = 600
SCOPE = frozenset([1025, 1047, 1048, 1049, 1050, 1051, 1066, 1071, 1100, 1101, 1102, 1103, 1167, 1198, 1228, 1230, 1231, 1232, 1233, 1234, 1246, 1304, 1305])

DATE = ('Date', 'Thu, 31 Dec 2015 18:26:56 GMT')
FOO, H2C = [('Connection', 'upgrade'), ('Upgrade', 'foo')], [('Connection', 'upgrade'), ('Upgrade', 'h2c')]
R = [(100, []), (101, []), (101, FOO), (101, H2C), (102, []), (103, [('Link', '</x>; rel=preload')]), (199, [('Connection', 'close')]), (200, []), (200, FOO), (204, []),
     (304, []), (404, [('Connection', 'close')]), (417, []), (426, []), (426, FOO), (500, []), (600, []),
     (426, [('Connection', 'upgrade'), ('Upgrade', 'bar, foo')]), (101, [('Connection', 'upgrade'), ('Upgrade', 'foo'), ('Upgrade', 'bar')])]
CORE = [0, 2, 1, 5, 7, 9, 11, 12, 14]
WIRE = [0, 2, 3, 4, 5, 7, 9, 10, 12, 14]
UPGRADES = [[], FOO, H2C, H2C + [('HTTP2-Settings', 'AAAA'), ('Connection', 'http2-settings')], [('Upgrade', 'bar, foo/1, h2')], [('Upgrade', 'foo'), ('HTTP2-Settings', 'A+A=')],
            [('Upgrade', 'foo, h2c'), ('Connection', 'Upgrade, HTTP2-Settings'), ('HTTP2-Settings', '')]]
EXPECT = [([], b''), ([('Expect', '100-continue')], b''), ([('Expect', '100-Continue'), ('Content-Length', '1')], b'x'), ([('Expect', '100-continue'), ('Content-Length', '0')], b''),
          ([('Expect', 'foo')], b'')]


def contexts():
    out = [None]
    for version, method, scheme in [('HTTP/1.1', 'GET', 'http'), ('HTTP/1.1', 'POST', 'https'), ('HTTP/1.0', 'GET', 'http'), ('HTTP/2', 'GET', 'https'), (None, 'GET', None),
                                    ('HTTP/1.1', 'HEAD', 'http'), ('HTTP/1.1', 'CONNECT', 'http')]:
        for (expect, body), up in itertools.product(EXPECT, UPGRADES):
            if method in ('HEAD', 'CONNECT') and up not in UPGRADES[:3]:
                continue
            if version != 'HTTP/1.1' and UPGRADES.index(up) > 3:
                continue
            out.append({'version': version, 'method': method, 'scheme': scheme, 'target': 'a:1' if method == 'CONNECT' else '/', 'headers': [('Host', 'a:1')] + expect + up, 'body': body})
    return out


CONTEXTS = contexts()
SOME = [0] + list(range(1, len(CONTEXTS), len(CONTEXTS) // 13))[:13]
FEW = [i for i, c in enumerate(CONTEXTS) if c and c['version'] == 'HTTP/1.1' and c['method'] == 'POST' and c['headers'][1:] in (
    EXPECT[2][0], EXPECT[2][0] + FOO, EXPECT[3][0] + UPGRADES[3])]
assert len(FEW) == 3


def response(n, version):
    status, headers = R[n]
    h = [DATE] + headers
    if status >= 200 and status not in (204, 304) and n % 2 == 0:
        h.append(('Content-Length', '0'))
    return {'status': status, 'headers': h, 'version': version}


def shards(tier):
    d = 0 if tier == 'quick' else 1
    out = [['all', c, 2 + d] for c in range(len(CONTEXTS))]
    out += [['deep', c, n, 3 + d] for c in SOME for n in range(len(R))]
    out += [['core', c, n, 4 + d] for c in FEW for n in CORE]
    out += [['wire', w, k, 3 + d] for w in range(6) for k in WIRE]
    return out


def cases(shard, tier):
    kind = shard[0]
    if kind == 'all':
        for k in range(shard[2] + 1):
            for combo in itertools.product(range(len(R)), repeat=k):
                for v in (0, 1):
                    yield ('api', shard[1], list(combo), v)
    elif kind == 'deep':
        for combo in itertools.product(range(len(R)), repeat=shard[3] - 1):
            yield ('api', shard[1], [shard[2]] + list(combo), 0)
    elif kind == 'core':
        for combo in itertools.product(CORE, repeat=shard[3] - 1):
            yield ('api', shard[1], [shard[2]] + list(combo), 0)
    else:
        for k in range(shard[3]):
            for combo in itertools.product(WIRE, repeat=k):
                for two in range(7):
                    yield ('wire', shard[1], two, [shard[2]] + list(combo))


WIRE_REQUESTS = [
    ('GET', b'GET / HTTP/1.1\r\nHost: a\r\n\r\n'),
    ('POST', b'POST / HTTP/1.1\r\nHost: a\r\nExpect: 100-continue\r\nContent-Length: 1\r\n\r\nx'),
    ('GET', b'GET / HTTP/1.1\r\nHost: a\r\nExpect: 100-continue\r\n\r\n'),
    ('GET', b'GET / HTTP/1.1\r\nHost: a\r\nUpgrade: foo\r\nConnection: upgrade\r\n\r\n'),
    ('POST', b'POST / HTTP/1.1\r\nHost: a\r\nUpgrade: h2c\r\nConnection: upgrade, http2-settings\r\nHTTP2-Settings: AAAA\r\nExpect: 100-continue\r\nTransfer-Encoding: chunked\r\n\r\n0\r\n\r\n'),
    ('GET', b'GET / HTTP/1.0\r\n\r\n')]


def run(ctx, case):
    kind = case[0]
    if kind == 'x':
        rulecheck.compare(ctx, case[1], case[2], SCOPE)
        return
    if kind == 'api':
        req = CONTEXTS[case[1]]
        version = req['version'] if req else 'HTTP/1.1'
        versions = {'HTTP/1.0': 'HTTP/1.1'} if case[3] == 0 else {'HTTP/1.1': 'HTTP/1.0', None: 'HTTP/2'}
        rulecheck.compare(ctx, req, [response(n, versions.get(version, version)) for n in case[2]], SCOPE)
        return
    _, w, two, combo = case
    requests = [WIRE_REQUESTS[w]] + ([WIRE_REQUESTS[two - 1]] if two else [])
    wire = b''
    for n in combo:
        status, headers = R[n]
        h = headers + ([('Content-Length', '0')] if status >= 200 and status not in (204, 304) else [])
        wire += b'HTTP/1.1 %d X\r\n%s\r\n' % (status, b''.join(b'%s: %s\r\n' % (a.encode(), b.encode()) for a, b in h))
    exchanges = [e for e in conn.parse(b''.join(r for _, r in requests), wire) if e.request is not None or e.responses]
    # Who gets which responses
    want, rest, broken = [], [R[n][0] for n in combo], False
    for _ in requests:
        mine = []
        while rest and not broken:
            mine.append(rest.pop(0))
            if mine[-1] == 101:
                broken = True
            if mine[-1] >= 200:
                break
        want.append(mine)
    got = [[int(r.status) for r in e.responses] for e in exchanges]
    if 101 in sum(want, []) or (w == 5 or two == 6):
        want, got = want[:1], got[:1]
    ctx.expect('assignment', got[:len(want)], want, 'responses %s to %d requests are assigned' % ([R[n][0] for n in combo], len(requests)))
    for e in exchanges:
        rulecheck.compare_exchange(ctx, e, SCOPE, 'wire ', case)


finish = rulecheck.finisher(SCOPE)
