"""C22: not knowing something never adds a complaint."""

import itertools

from mc import build, conn, corpus, headerspace, rulecheck
from mc.ref import tables

ID = 'C22'
CLAIMED = True
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of exchanges x subsets of their parts made unknown; the notices of each are compared with those for every '
             'way of filling in an unknown part (from finite sets of values)')
NOTE = '''Differential: the tool is compared with itself on the completed exchanges. Every error or comment about the exchange with some gaps must also be reported, about the same message, when
any one of the gaps is filled in, in every way (and so, by induction over the subsets, when all are). Conversely, one that is reported for every filling of a single gap (other than the request itself)
must be reported with the gap.'''
ASSUMPTIONS = ['the sets of fillings (all versions, both schemes, the real body, empty, short, JSON and unavailable bodies, the real request and 12 others) represent all ways in which they could be filled in',
               'a request in HTTP/1.x without Content-Length and Transfer-Encoding has no body, nor does a response to HEAD: other fillings are skipped']
BOUNDS = {
    'quick': 'corpus exchanges (up to 3 responses judged) x all subsets of up to 2 of {request version, scheme, request body, response version, response body, reason, the request}; every header seed x 6 exchanges x single gaps; pairs of 26 context-sensitive fields x 12 exchanges (6 when both are in the same message) x 7 single gaps and 9 pairs (no pairs when both are in the same message); 8 targets x 17 responses x 11 requests; all statuses x 8 methods x HTTP/1.1 and HTTP/2 x with and without a body x 7 single gaps and 9 pairs',
    'thorough': 'all subsets of up to 4 parts'}
MIN_STATES = 150
CASE_TIMEOUT = 900

VERSIONS = ['HTTP/1.1', 'HTTP/1.0', 'HTTP/2']
NONE = object()
URI = {1055, 1060, 1085}                # Need an absolute URI to compare: not expected when the scheme is unknown


def data(method, target='/', version='HTTP/1.1', headers=(), body=b'', scheme='http'):
    return {'scheme': scheme, 'method': method, 'target': target, 'version': version, 'headers': [('Host', 'example.com'), ('User-Agent', 'demo')] + list(headers), 'body': body, 'trailers': []}


OTHERS = [data('GET'), data('HEAD'), data('POST', body=b'x', headers=[('Content-Length', '1')]), data('PUT', body=b'x', headers=[('Content-Length', '1'), ('Content-Type', 'a/b')]), data('CONNECT', 'example.com:443'), data('OPTIONS', '*'), data('DELETE'), data('GET', 'http://example.com/', headers=[('Range', 'bytes=0-1')]),
          data('GET', version='HTTP/1.0'), data('GET', version='HTTP/2', scheme='https'), data('PROPFIND', body=b'x', headers=[('Content-Length', '1')]), data('GET', headers=[('If-None-Match', '"a"'), ('Accept', 'a/b'), ('Cache-Control', 'no-store')])]
PARTS = ['qversion', 'scheme', 'qbody', 'sversion', 'sbody', 'reason', 'request']
BODIES = [b'', b'x', b'{}', b'\xff', 'U']


def fillings(part, req, resps, fewer=False):
    if part in ('qversion', 'sversion'):
        own = {req['version']} if part == 'qversion' else {r['version'] for r in resps}
        return VERSIONS + sorted(v for v in own if v and v not in VERSIONS)
    if part == 'scheme':
        return ['http', 'https'] + ([req['scheme']] if req['scheme'] not in ('http', 'https', None) else [])
    if part == 'qbody':
        return [('own',)] * (req['body'] is not None) + (BODIES[:2] if fewer == 2 else BODIES)
    if part == 'sbody':
        return [('own',)] + (BODIES[:2] if fewer == 2 else BODIES)
    if part == 'reason':
        return [('own',), ''] + ['OK'] * (not fewer)
    return [('own',)] + ([0, 4, 8] if fewer else list(range(len(OTHERS))))


def completed(req, resps, choice):
    """The exchange with some parts replaced. choice: {part: value or NONE}."""
    req = req and dict(req)
    resps = [dict(r) for r in resps]
    own = lambda v: isinstance(v, tuple)
    if 'request' in choice:
        v = choice['request']
        if v is NONE:
            req = None
        elif not own(v):
            req = dict(OTHERS[v])
    for part, key in (('qversion', 'version'), ('scheme', 'scheme'), ('qbody', 'body')):
        if part in choice and req is not None and not own(choice[part]):
            req[key] = None if choice[part] is NONE else choice[part]
    for part, key in (('sversion', 'version'), ('sbody', 'body'), ('reason', 'reason')):
        if part in choice and not own(choice[part]):
            for r in resps:
                r[key] = None if choice[part] is NONE else choice[part]
    return req, resps


def accusations(ids):
    return frozenset(i for i in ids or () if tables.SEVERITY[i] != 'debug')


def parts_of(req, resps):
    if req is None:
        return [p for p in ('sversion', 'sbody', 'reason') if resps]
    return [p for p in PARTS if resps or p in ('qversion', 'scheme', 'qbody')]


RELATED = {('qversion', 'sversion'), ('qversion', 'scheme'), ('qversion', 'qbody'), ('scheme', 'qbody'), ('scheme', 'sversion'), ('qbody', 'sbody'), ('sversion', 'sbody'), ('sversion', 'request'), ('sbody', 'request')}


def explore(ctx, req, resps, size, few=False):
    from mc.rulecheck import actual
    cache = {}

    def notices(choice):
        q, s = completed(req, resps, choice)
        key = (repr(q), repr(s))
        if key not in cache:
            cache[key] = [accusations(i) for i in actual(q, s)]
            ctx.step()
        return cache[key]

    parts = parts_of(req, resps)
    for n in range(1, size + 1):
        for gaps in itertools.combinations(parts, n):
            if 'request' in gaps and {'qversion', 'scheme', 'qbody'} & set(gaps):
                continue                # Then there is nothing else to be unknown about the request
            if n > 1 and few and gaps not in RELATED:
                continue
            unknown = {p: NONE for p in gaps}
            got = notices(unknown)
            ctx.state((gaps, tuple(got)))
            ctx.outcome((gaps, any(got)))
            for p in gaps:
                # Filling in one of the gaps at a time: together with the same check for the smaller subsets,
                # this covers all ways of filling them in.
                always = None
                for value in fillings(p, req, resps, 2 if n > 1 and size < 4 else few):
                    if not any(got) and n > 1:
                        break
                    choice = dict(unknown, **{p: value})
                    found = notices(choice)
                    always = found if always is None else [a & w for a, w in zip(always, found)]
                    if inconsistent(*completed(req, resps, choice), p):
                        continue
                    for who, (a, g) in enumerate(zip(found, got)):
                        if who == 0 and (req is None or p == 'request'):
                            continue
                        for i in sorted(g - a):
                            ctx.violate('%d:%s' % (i, '+'.join(gaps)), 'notice %d on %s of %s is reported when %s is unknown, but not when %s is %s' % (
                                i, 'the request' if who == 0 else 'response %d' % who, rulecheck.brief(req, resps), ' and '.join(gaps), p, shown(value, p, req, resps)),
                                case=('x', req, resps, list(gaps)))
                if n == 1 and p != 'request':
                    for who, (a, g) in enumerate(zip(always or (), got)):
                        for i in sorted(a - g - (URI if p == 'scheme' else set())):
                            ctx.violate('-%d:%s' % (i, p), 'notice %d on %s of %s disappears when %s is unknown (it is reported for every way to fill it in)' % (
                                i, 'the request' if who == 0 else 'response %d' % who, rulecheck.brief(req, resps), p), case=('x', req, resps, list(gaps)))


def shown(value, part, req, resps):
    if part == 'request':
        return rulecheck.brief(req if isinstance(value, tuple) else OTHERS[value], [])
    return 'as it was' if isinstance(value, tuple) else repr(value)


def inconsistent(req, resps, filled):
    """These messages cannot be what they seem."""
    if req is None:
        return False
    if (req['body'] or filled == 'qversion' and any(n.lower() == 'content-type' for n, _ in req['headers'])) and req['version'] in ('HTTP/1.0', 'HTTP/1.1') and not any(n.lower() in ('content-length', 'transfer-encoding') for n, _ in req['headers']):
        return True
    return req['method'] == 'HEAD' and any(r['body'] for r in resps)


CONTEXT = [('Connection', 'close'), ('Connection', 'Upgrade'), ('Connection', 'TE'), ('Upgrade', 'h2c'), ('Upgrade', 'websocket'), ('TE', 'trailers'), ('TE', 'gzip'), ('Transfer-Encoding', 'chunked'), ('Transfer-Encoding', 'gzip'), ('Content-Length', '1'),
           ('Via', '1.1 a'), ('Expect', '100-continue'), ('Trailer', 'Foo'), ('Content-Type', 'application/json'), ('Content-Type', 'multipart/byteranges; boundary=x'), ('Content-Encoding', 'gzip'), ('Content-Range', 'bytes 0-0/1'), ('Range', 'bytes=0-0'),
           ('Strict-Transport-Security', 'max-age=1'), ('Cache-Control', 'immutable, no-store'), ('Cache-Control', 'max-age=0'), ('Age', '5'), ('Alt-Svc', 'h2=":1"'), ('Authorization', 'Bearer x'), ('Cookie', 'a=b'), ('Location', '/')]
CROSS = [('GET', 200), ('HEAD', 200), ('CONNECT', 200), ('POST', 201), ('PUT', 204), ('GET', 206), ('GET', 304), ('POST', 101), ('OPTIONS', 100), ('DELETE', 426), ('GET', 301), ('TRACE', 405)]
TARGETS = [('GET', '/?access_token=x'), ('POST', 'http://example.com/'), ('GET', 'https://example.com/?access_token=x'), ('OPTIONS', '/'), ('CONNECT', 'a:1'), ('PUT', '*'), ('GET', 'example.com'), ('HEAD', '/a')]
ANSWERS = [(401, [('WWW-Authenticate', 'Bearer error=invalid_token')]), (401, [('WWW-Authenticate', 'Bearer realm="x"')]), (301, [('Location', 'http://example.com/')]), (303, [('Location', '/a')]), (201, [('Location', '/'), ('ETag', '"a"')]),
           (200, [('Content-Location', 'http://example.com/'), ('Content-Type', 'application/json')]), (203, [('Warning', '214 - "x"')]), (206, [('Content-Type', 'multipart/byteranges')]), (405, []), (412, []), (416, []), (417, []), (411, []), (505, []), (407, []), (200, [('Last-Modified', 'x'), ('Expires', '0')]), (202, [('Preference-Applied', 'wait=1')])]
ASKED = [[], [('Content-Type', 'application/x-www-form-urlencoded')], [('Authorization', 'Bearer x')], [('Authorization', 'Basic x')], [('Proxy-Authorization', 'a b')], [('Content-Type', 'text/json'), ('Content-Encoding', 'foo')], [('Prefer', 'respond-async')], [('If-Match', '*')],
         [('Referer', 'https://a/')], [('Cache-Control', 'only-if-cached')], [('Max-Forwards', '0')]]
SINGLES = [('GET', 200), ('POST', 404), ('PUT', 201), ('HEAD', 304), ('CONNECT', 200), ('OPTIONS', 503)]


def shards(tier):
    return [['corpus', k] for k in range(24)] + [['header', n] for n in sorted(headerspace.SPACE)] + [['pairs', k, c] for k in range(len(CONTEXT)) for c in range(3)] + [['targets', k] for k in range(len(TARGETS))] + [['status', method] for method in ('GET', 'HEAD', 'POST', 'PUT', 'CONNECT', 'OPTIONS', 'DELETE', 'M-SEARCH')]


def cases(shard, tier):
    if shard[0] == 'corpus':
        for k in range(len(corpus.load(6000)))[shard[1]::24]:
            yield ('corpus', k, 2 if tier == 'quick' else 4)
    elif shard[0] == 'header':
        for k in range(len(headerspace.seeds(shard[1]))):
            yield ('header', shard[1], k, 1 if tier == 'quick' else 2)
    elif shard[0] == 'status':
        for status in sorted(set(tables.STATUS) | {199, 299, 399, 499, 599}):
            yield ('status', shard[1], status, 2 if tier == 'quick' else 4)
    elif shard[0] == 'targets':
        for k in range(len(ANSWERS)):
            yield ('targets', shard[1], k, 1 if tier == 'quick' else 3)
    else:
        for j in range(shard[1] + shard[2], len(CONTEXT), 3):
            yield ('pairs', shard[1], j, 2 if tier == 'quick' else 3)


def run(ctx, case):
    if case[0] == 'x':
        return explore(ctx, case[1], case[2], len(case[3]))
    if case[0] == 'corpus':
        name, scheme, inbound, outbound = corpus.load(6000)[case[1]]
        for e in conn.parse(inbound, outbound, scheme):
            req = e.request and rulecheck.data_of(e.request, True)
            explore(ctx, req, [rulecheck.data_of(r, False) for r in e.responses[:3]], case[2])
        return
    if case[0] == 'header':
        value = headerspace.seeds(case[1])[case[2]].decode('latin-1')
        for method, status in SINGLES:
            for side in (0, 1):
                fields = [(case[1], value)]
                pair(ctx, method, status, [fields, []] if side == 0 else [[], fields], case[3])
        return
    if case[0] == 'status':
        for version in VERSIONS[::2 if case[3] < 3 else 1]:
            for body in (b'', b'x'):
                pair(ctx, case[1], case[2], [[], []], case[3], version, body)
        return
    if case[0] == 'targets':
        method, target = TARGETS[case[1]]
        status, fields = ANSWERS[case[2]]
        for asked in ASKED:
            body = b'access_token=x' if method in ('POST', 'PUT') else b''
            req = data(method, target, headers=asked + [('Content-Length', '14')] * bool(body), body=body)
            explore(ctx, req, [{'version': 'HTTP/1.1', 'status': status, 'reason': 'Foo', 'headers': list(fields), 'body': b'hello' if method != 'HEAD' else b'', 'trailers': []}], max(case[3], 2 if asked == [] else 1))
        return
    first, second = CONTEXT[case[1]], CONTEXT[case[2]]
    for k, (method, status) in enumerate(CROSS):
        pair(ctx, method, status, [[first], [second]], case[3])
        if case[1] != case[2]:
            pair(ctx, method, status, [[second], [first]], case[3])
            if case[3] < 3 and k % 2:
                continue
            pair(ctx, method, status, [[first, second], []], 1)
            pair(ctx, method, status, [[], [first, second]], 1)


def pair(ctx, method, status, fields, size, version='HTTP/1.1', answer=b'hello'):
    target = {'CONNECT': 'example.com:443', 'OPTIONS': '*'}.get(method, '/')
    body = b'x' if method in ('POST', 'PUT') else b''
    length = [('Content-Length', str(len(body)))] if body and not any(n in ('Content-Length', 'Transfer-Encoding') for n, _ in fields[0]) else []
    req = data(method, target, headers=fields[0] + length, body=body, version=version)
    resp = {'version': version, 'status': status, 'reason': 'Foo', 'headers': list(fields[1]), 'body': b'' if status in (204, 304, 100, 101) or method == 'HEAD' else answer, 'trailers': []}
    explore(ctx, req, [resp], size, size < 3)
