"""C16: method and status rules are applied in exactly the right contexts."""

import itertools

from mc import headerspace as hs, rulecheck
from mc.ref import tables

ID = 'C16'
CLAIMED = True
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of methods x status codes x bodies x header sets; the notices of every exchange are compared with an independent '
             'executable model of the rules')
NOTE = '''Every method and status known to the registries (and unknown ones, and the borders of the ranges) are combined with every body state and with
every pair of header options on either side; every registered header is put on every kind of message. The notices of both messages must be those of the model.'''
ASSUMPTIONS = ['the registries (which methods define a body, which headers are for requests, and so on) are frozen in mc/data/tables.json',
               'only the notices about methods, statuses, required and undefined headers are judged here']
BOUNDS = {
    'quick': '13 methods x 74 statuses x 3 bodies x single options; 6 methods x 74 statuses x pairs of 26 response options; all methods x versions x framings; all headers x 17 messages',
    'thorough': '13 methods x 74 statuses x pairs of response options x pairs with 16 request options'}
MIN_STATES = 1500
CASE_TIMEOUT = 300

SCOPE = frozenset([
    1018, 1019, 1021, 1022, 1023, 1024, 1031, 1032, 1033, 1041, 1045, 1052, 1053, 1055, 1056, 1057, 1058, 1059, 1060, 1061, 1062, 1063, 1064, 1066, 1067, 1071, 1072, 1073, 1074, 1076,
    1077, 1078, 1079, 1080, 1081, 1082, 1083, 1084, 1085, 1086, 1087, 1088, 1089, 1090, 1092, 1094, 1095, 1096, 1097, 1098, 1099, 1100, 1101, 1104, 1105, 1106, 1110, 1111, 1112, 1113, 1114,
    1115, 1117, 1132, 1138, 1147, 1167, 1194, 1195, 1198, 1199, 1200, 1201, 1203, 1204, 1205, 1213, 1214, 1215, 1216, 1217, 1227, 1239, 1240, 1242, 1243, 1260, 1283, 1284, 1292, 1295, 1310])

METHODS = ['GET', 'HEAD', 'POST', 'PUT', 'DELETE', 'CONNECT', 'OPTIONS', 'TRACE', 'PATCH', 'PROPFIND', 'FOO', 'get', 'Patch']
MANY = ['GET', 'HEAD', 'POST', 'CONNECT', 'OPTIONS', 'PATCH']
STATUSES = sorted(set(tables.STATUS) | {99, 0, 199, 299, 399, 418, 499, 599, 600, 999, 104, 227})
DATE = ('Date', hs.IMF)
BODIES = [b'', b'x', None, 'U']

REQ_OPTIONS = [
    [], [('Content-Type', 'text/plain')], [('Content-Type', 'application/json-patch+json')], [('Content-Length', '1')], [('Transfer-Encoding', 'chunked')],
    [('Expect', '100-continue')], [('Max-Forwards', '3')], [('Accept-Language', 'en')], [('Accept', 'text/plain'), ('Accept-Language', 'en')], [('Cookie', 'a=b')],
    [('If-Match', '*')], [('If-Range', '"a"'), ('Range', 'bytes=0-1')], [('Upgrade', 'foo'), ('Connection', 'upgrade')], [('Content-Range', 'bytes 0-0/1')],
    [('X-Foo', 'bar')], [('If-Modified-Since', hs.IMF)], [('Host', 'b.c')]]
RESP_OPTIONS = [
    [('Location', '/x')], [('Location', 'http://example.com/')], [('Location', '/x#y')], [('Allow', 'GET, POST')], [('Allow', 'PATCH,HEAD,OPTIONS,CONNECT')], [('Allow', '')],
    [('Content-Length', '0')], [('Transfer-Encoding', 'chunked')], [('Content-Type', 'text/plain')], [('Retry-After', '3')], [('WWW-Authenticate', 'Foo a=b')],
    [('Proxy-Authenticate', 'Foo a=b')], [('Upgrade', 'foo'), ('Connection', 'upgrade')], [('Connection', 'close')], [('Content-Range', 'bytes 0-0/1')],
    [('Accept-Patch', 'text/plain')], [('Accept-Patch', 'application/json-patch+json')], [('Accept-Post', 'text/plain')], [('Alt-Svc', 'h2=":1"')],
    [('Link', '<http://a/>; rel="blocked-by"')], [('Link', '<http://a/>; rel="next"')], [('Cache-Control', 'no-store')], [('Content-Location', '/')],
    [('Last-Modified', hs.IMF), ('ETag', '"a"')], [('Vary', '*')], [('Expires', hs.IMF)]]


def sample(name):
    space = hs.SPACE.get(name)
    return next((v for v in space[0] if v), 'x') if space else 'x'


def target(method):
    return 'example.com:80' if method == 'CONNECT' else '/'


def request(method, extra=(), **d):
    return dict({'method': method, 'target': target(method), 'headers': [('Host', 'example.com'), ('User-Agent', 'demo')] + list(extra)}, **d)


def responses(statuses, extra, body, date=True):
    return [{'status': s, 'headers': ([DATE] if date else []) + list(extra), 'body': body} for s in statuses]


PARTS = [STATUSES[i::4] for i in range(4)]


def shards(tier):
    out = [['single', m] for m in METHODS] + [['request', n] for n in range(8)] + [['headers', n] for n in range(16)] + [['target', n] for n in range(4)]
    out += [['pair', m, i] for m in (MANY if tier == 'quick' else METHODS) for i in range(len(RESP_OPTIONS))]
    return out


def cases(shard, tier):
    kind = shard[0]
    if kind == 'single':
        for body in range(len(BODIES)):
            for i in range(-1, len(RESP_OPTIONS)):
                yield ('single', shard[1], body, i)
            for i in range(1, len(REQ_OPTIONS)):
                yield ('reqopt', shard[1], body, i)
    elif kind == 'pair':
        for j in range(shard[2] + 1, len(RESP_OPTIONS)):
            yield ('pair', shard[1], shard[2], j, tier)
    elif kind == 'request':
        everything = sorted(tables.METHOD) + METHODS + ['', 'G ET', 'post', 'pRi', 'foo', 'Bar-baz']
        for m in everything[shard[1]::8]:
            yield ('request', m)
    elif kind == 'headers':
        names = sorted(tables.HEADER) + ['X-Unknown', 'Unknown', 'x-frame-options']
        for n in names[shard[1]::16]:
            yield ('headers', n)
    else:
        for m in METHODS[shard[1]::4]:
            yield ('target', m)


finish = rulecheck.finisher(SCOPE)


def check(ctx, req, resps):
    return rulecheck.compare(ctx, req, resps, SCOPE)


def run(ctx, case):
    kind = case[0]
    if kind == 'x':
        check(ctx, case[1], case[2])
    elif kind == 'single':
        _, m, body, i = case
        extra = RESP_OPTIONS[i] if i >= 0 else []
        for part in PARTS:
            check(ctx, request(m), responses(part, extra, BODIES[body]))
        if body < 2:
            check(ctx, request(m, body=b'x'), responses(STATUSES, extra, BODIES[body], date=False))
            check(ctx, None, responses(STATUSES, extra, BODIES[body]))
    elif kind == 'reqopt':
        _, m, body, i = case
        for part in PARTS:
            check(ctx, request(m, REQ_OPTIONS[i], body=BODIES[body]), responses(part, [], b''))
        check(ctx, request(m, REQ_OPTIONS[i], version='HTTP/2', body=BODIES[body]), [dict(r, version='HTTP/2') for r in responses(STATUSES, [], b'x')])
        check(ctx, request(m, REQ_OPTIONS[i], version='HTTP/1.0', body=BODIES[body]), [dict(r, version='HTTP/1.0') for r in responses(STATUSES, [], None)])
    elif kind == 'pair':
        _, m, i, j, tier = case
        extra = RESP_OPTIONS[i] + RESP_OPTIONS[j]
        if tier == 'quick':
            check(ctx, request(m), responses(STATUSES, extra, b'' if (i + j) % 2 else b'x'))
        else:
            for opt in REQ_OPTIONS:
                check(ctx, request(m, opt), responses(STATUSES, extra, b''))
                check(ctx, request(m, opt, body=b'x'), responses(STATUSES, extra, b'x'))
    elif kind == 'request':
        m = case[1]
        for version, body, opt in itertools.product(['HTTP/1.0', 'HTTP/1.1', 'HTTP/2', None], BODIES, REQ_OPTIONS):
            for more in ([], [('Content-Length', '0')], [('Transfer-Encoding', 'chunked')], [('Content-Type', 'text/html')]):
                check(ctx, request(m, opt + more, version=version, body=body), [])
        for s in (200, 201, 202, 204, 303, 304, 405, 409, 412, 421):
            check(ctx, request(m), [{'status': s, 'headers': [DATE, ('Allow', m)]}, {'status': s, 'headers': [DATE, ('Allow', 'X')]}])
    elif kind == 'headers':
        n = case[1]
        f = (n, sample(n))
        for m in ('GET', 'HEAD', 'POST', 'OPTIONS', 'CONNECT', 'PATCH'):
            for version, body in (('HTTP/1.1', b''), ('HTTP/1.0', b'x'), ('HTTP/2', b''), ('HTTP/1.1', None)):
                check(ctx, request(m, [f], version=version, body=body), responses((200, 304, 406, 412, 417, 428), [], b''))
            for name in {n.lower(), n.upper()}:
                check(ctx, request(m), responses((100, 101, 103, 200, 204, 206, 304, 401, 412, 500), [(name, f[1])], b''))
            # In trailers
            check(ctx, request(m, trailers=[f]), [dict(r, trailers=[f]) for r in responses((100, 200, 201, 301, 304, 405), [], b'x')])
    else:
        m = case[1]
        statuses = (200, 201, 300, 301, 302, 303, 304, 307, 308, 404)
        for t, scheme in itertools.product(['/', '*', 'http://example.com/', 'example.com:80', '/a?b', 'a b', ''], ['http', 'https', None]):
            for loc in ('/', 'http://example.com/', 'http://example.com', 'HTTP://EXAMPLE.com/', 'https://example.com/', '/a?b', '?b', '', '#x', '/x#', '/#y', 'http://u@example.com/', '.', '//example.com/', '/A?b'):
                for h in ('Location', 'Content-Location'):
                    check(ctx, request(m, target=t, scheme=scheme), responses(statuses, [(h, loc)], b'x'))
        for hosts in ([], ['a.b', 'a.b'], ['a b'], [''], ['a.b:80']):
            for version in ('HTTP/1.0', 'HTTP/1.1', 'HTTP/2', None):
                for order in (0, 1):
                    h = [('Host', x) for x in hosts]
                    h = h + [('User-Agent', 'x')] if order == 0 else [('User-Agent', 'x')] + h
                    check(ctx, request(m, version=version, headers=h), responses(STATUSES[::3] + [200, 301, 400], [], b'x'))
