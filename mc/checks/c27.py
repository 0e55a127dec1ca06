"""C27: rules that depend on the protocol version, TLS, proxies and upgrades."""

import itertools

from mc import conn, corpus, rulecheck

ID = 'C27'
CLAIMED = True
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of versions x schemes x target forms x proxy knowledge x connection headers, and of corpus exchanges moved to every context; '
             'the notices of every exchange are compared with an independent executable model')
NOTE = '''Every request target form, version, scheme and state of proxy knowledge is combined with every connection-level header on both sides, and every
exchange of the corpus is replayed in every version, scheme and proxy context; the context-dependent notices must be exactly those of the model.'''
ASSUMPTIONS = ['"is the request for a proxy" may be overridden through the attribute is_to_proxy, as the mitmproxy add-on of the tool does', 'corpus messages with the HTTPolice-Silence header are left to C09']
BOUNDS = {
    'quick': '7 methods x 10 targets x 5 versions x 4 schemes x 4 proxy states x 62 responses; 8 Connection x 9 TE x 9 Upgrade x 7 HTTP2-Settings x versions x schemes; '
             '32 x 16 connection-level header pairs on responses x versions; corpus messages <= 3000 bytes x 4 versions x 3 schemes x 3 proxy states',
    'thorough': 'pairs of response kinds; triples of connection-level headers; corpus messages of any size'}
MIN_STATES = 1500
CASE_TIMEOUT = 600
SCOPE = frozenset([1018, 1019, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 1028, 1029, 1030, 1031, 1032, 1033, 1034, 1045, 1046, 1047, 1048, 1049, 1050, 1051, 1053, 1054, 1055, 1060,
                   1066, 1068, 1071, 1085, 1086, 1094, 1101, 1102, 1103, 1105, 1189, 1190, 1191, 1192, 1198, 1199, 1221, 1228, 1230, 1231, 1232, 1233, 1234, 1237, 1239, 1244, 1245,
                   1246, 1258, 1260, 1261, 1263, 1270, 1271, 1272, 1302, 1303, 1306])

METHODS = ['GET', 'OPTIONS', 'CONNECT', 'PUT', 'HEAD', 'POST', 'options']
TARGETS = ['/', '*', 'http://a.b/', 'https://a.b/', 'a.b:1', '/?access_token=x', 'http://a.b/?access_token=x&b=c', '', 'a.b', 'http://a.b/ x']
VERSIONS = ['HTTP/1.1', 'HTTP/1.0', 'HTTP/2', None, 'HTTP/3']
SCHEMES = ['http', 'https', None, 'ftp']
PROXY = ['unset', True, False, None]
DATE = ('Date', 'Thu, 31 Dec 2015 18:26:56 GMT')
VIA = ('Via', '1.1 x')
RESP = [
    (200, []), (200, [VIA]), (200, [('Transfer-Encoding', 'chunked')]), (200, [('Content-Length', '1')]), (200, [('Connection', 'close')]), (200, [('Connection', 'close, keep-alive')]),
    (200, [('Warning', '214 - "x"')]), (200, [('Warning', '214 - "x"'), VIA]), (203, []), (203, [VIA]), (203, [('Cache-Control', 'no-transform')]), (200, [('Strict-Transport-Security', 'max-age=1')]),
    (404, [('Strict-Transport-Security', 'max-age=1')]), (200, [('Cache-Control', 'immutable, max-age=5')]), (200, [('Cache-Control', 'immutable, max-age=5'), ('Content-Length', '1')]),
    (200, [('Alt-Svc', 'h2=":1"')]), (200, [('Alt-Svc', 'clear')]), (421, [('Alt-Svc', 'h2=":1"')]), (401, [('WWW-Authenticate', 'Bearer realm="x"')]),
    (407, [('Proxy-Authenticate', 'Bearer realm="x"')]), (302, [('Location', '/')]), (302, [('Location', 'http://a.b/')]), (307, [('Location', 'https://a.b/')]), (301, [('Location', 'HTTPS://A.b/')]),
    (101, []), (101, [('Upgrade', 'foo'), ('Connection', 'upgrade')]), (101, [('Upgrade', 'h2c'), ('Connection', 'upgrade')]), (100, []), (102, [('Connection', 'close')]),
    (103, [('Upgrade', 'foo'), ('Connection', 'x')]), (204, []), (204, [('Transfer-Encoding', 'chunked')]), (204, [('Content-Length', '0')]), (304, []), (404, []), (500, []),
    (505, []), (408, []), (426, []), (426, [('Upgrade', 'foo'), ('Connection', 'upgrade')]), (426, [('Upgrade', 'HTTP/2'), ('Connection', 'upgrade')]),
    (200, [('Keep-Alive', 'timeout=5')]), (200, [('Upgrade', 'h2')]), (200, [('Transfer-Encoding', 'chunked'), ('Content-Length', '1')]), (400, [('Transfer-Encoding', 'gzip')]),
    (200, [('Connection', 'cache-control')]), (200, [('Connection', 'x, Host, y')]), (200, [('Trailer', 'x')]), (200, [('Trailer', 'x'), ('Transfer-Encoding', 'chunked')]),
    (206, [('Content-Location', '/')]), (200, [('Content-Location', 'http://a.b/')])]
HOSTS = [[('Host', 'a.b')], [], [('Host', 'a.b'), ('Host', 'c')], [('Host', '')], [('Host', 'a b')]]
CONNECTION = [None, 'te', 'TE, upgrade', 'upgrade', 'http2-settings, upgrade', 'close', 'te, cache-control', '=']
TE = [None, '', 'trailers', 'Trailers', 'gzip', 'trailers, gzip', 'chunked', 'gzip;q=0.5, Chunked', 'q']
UPGRADE = [None, 'foo', 'h2', 'h2c', 'h2c, foo', 'foo, h2c', 'h2c/1', 'HTTP/2.0, SHTTP/1.3', '"']
SETTINGS = [None, 'AAAA', '', 'AA=', 'A_-A', 'A+A/', '!']
CREDENTIALS = [[], [('Authorization', 'Bearer abc')], [('Authorization', 'bearer abc'), ('Cache-Control', 'no-store')], [('Proxy-Authorization', 'Bearer abc')], [('Authorization', 'Basic Zm9vOmJhcg==')],
               [('Referer', 'https://a/')], [('Referer', 'http://a/')], [('Referer', 'HTTPS://a/')], [('Cache-Control', 'no-store, max-age=1')]]
LEVEL_FIELDS = [
    [], [('Connection', 'close')], [('Connection', 'keep-alive')], [('Connection', 'upgrade')], [('Upgrade', 'foo')], [('Upgrade', 'h2c')], [('Upgrade', 'h2')], [('Upgrade', 'foo, bar')],
    [('Transfer-Encoding', 'chunked')], [('Transfer-Encoding', 'gzip, chunked')], [('Transfer-Encoding', 'gzip')], [('Transfer-Encoding', '')], [('Content-Length', '1')], [('Content-Length', 'x')],
    [('Trailer', 'x, etag')], [('Trailer', 'Y')], [('Keep-Alive', 'a')], [('Proxy-Connection', 'keep-alive')], [('Via', '1.1 x')], [('Alt-Svc', 'h2=":1"; ma=5')], [('Connection', 'via')],
    [('Connection', 'Content-Length')], [('Connection', 'etag, x')], [('HTTP2-Settings', 'AAAA')], [('Connection', 'HTTP2-Settings')], [('Host', 'a.b')], [('TE', 'trailers')],
    [('Strict-Transport-Security', 'max-age=1')], [('Cache-Control', 'immutable, max-age=1')], [('Warning', '214 - "x"')], [('Cache-Control', 'no-transform')], [('Content-Type', 'text/plain')]]
TRAILERS = [None, [('x', 'y')], [('Etag', '"a"')], [('Host', 'a')], [('X', 'y'), ('Content-Length', '1')], [('Connection', 'close')], [('Upgrade', 'foo')], [('Via', '1.1 y')]]
CORPUS_LIMIT = {'quick': 3000, 'thorough': 10 ** 7}


def shards(tier):
    out = [['target', m, v] for m in METHODS for v in VERSIONS]
    out += [['connection', c, v] for c in range(len(CONNECTION)) for v in VERSIONS]
    out += [['fields', i] for i in range(len(LEVEL_FIELDS))]
    out += [['corpus', i] for i in range(24)]
    return out


def cases(shard, tier):
    kind = shard[0]
    if kind == 'target':
        for t, s, p in itertools.product(range(len(TARGETS)), range(len(SCHEMES)), range(len(PROXY))):
            yield ('target', shard[1], shard[2], t, s, p, tier)
    elif kind == 'connection':
        for te, up in itertools.product(range(len(TE)), range(len(UPGRADE))):
            yield ('connection', shard[1], shard[2], te, up)
    elif kind == 'fields':
        for j in range(len(LEVEL_FIELDS)):
            if tier == 'quick':
                if j % 2 == shard[1] % 2 or not shard[1]:
                    yield ('fields', [shard[1], j])
            else:
                for k in range(j, len(LEVEL_FIELDS)):
                    yield ('fields', [shard[1], j, k])
    else:
        for k, (name, scheme, i, o) in enumerate(corpus.load(CORPUS_LIMIT[tier])):
            if k % 24 == shard[1]:
                yield ('corpus', k, tier)


def message(d, **kw):
    return dict(d, **{k: v for k, v in kw.items() if v != 'unset'})


def responses(kinds, version, body=b'x'):
    return [{'status': s, 'headers': [DATE] + h, 'body': b'' if s in (204, 304) or s < 200 else body, 'version': version} for s, h in kinds]


def check(ctx, req, resps, case=None):
    rulecheck.compare(ctx, req, resps, SCOPE, case=case)


finish = rulecheck.finisher(SCOPE)


def run(ctx, case):
    kind = case[0]
    if kind == 'x':
        check(ctx, case[1], case[2])
    elif kind == 'target':
        _, m, v, t, s, p, tier = case
        req = message({'method': m, 'version': v, 'scheme': SCHEMES[s], 'target': TARGETS[t], 'headers': [('Host', 'a.b')]}, is_to_proxy=PROXY[p])
        same = v or 'HTTP/1.1'
        check(ctx, req, responses(RESP, same))
        if p == 0:
            other = {'HTTP/1.1': 'HTTP/1.0', 'HTTP/1.0': 'HTTP/1.1', 'HTTP/2': None}.get(v, 'HTTP/2')
            check(ctx, req, responses(RESP, other))
            for host in HOSTS[1:]:
                check(ctx, dict(req, headers=host), responses(RESP[::3], same))
                check(ctx, dict(req, headers=[('User-Agent', 'x')] + host, body=b'x'), responses(RESP[1::7], same))
            for more in CREDENTIALS:
                check(ctx, dict(req, headers=HOSTS[0] + more), responses(RESP[18:20], same))
            for body in (b'access_token=x', b'a=b&access_token=c', b'access_token', b'access_token=', b'access_token=\xff'):
                for ct in ('application/x-www-form-urlencoded', 'Application/x-www-form-urlencoded;charset=utf-8', 'text/plain'):
                    check(ctx, dict(req, headers=HOSTS[0] + [('Content-Type', ct)], body=body), responses(RESP[18:19], same))
        if tier == 'thorough':
            pairs = [(a[0], a[1] + b[1]) for a in RESP for b in RESP if a[1] and b[1]]
            for part in range(0, len(pairs), 200):
                check(ctx, req, responses(pairs[part:part + 200], same))
    elif kind == 'connection':
        _, c, v, te, up = case
        for hs, scheme in itertools.product(SETTINGS, SCHEMES[:3]):
            h = [('Host', 'a.b')] + [(n, x) for n, x in (('Connection', CONNECTION[c]), ('TE', TE[te]), ('Upgrade', UPGRADE[up]), ('HTTP2-Settings', hs)) if x is not None]
            kinds = [k for k in RESP if k[0] in (101, 426)] + [(200, [('Upgrade', 'foo'), ('Connection', 'upgrade')]), (101, [('Upgrade', 'h2c'), ('Upgrade', 'HTTP/2.0'), ('Connection', 'upgrade')])] \
                if scheme != 'https' and te < 2 else []
            check(ctx, {'headers': h, 'scheme': scheme, 'version': v}, responses(kinds, v))
    elif kind == 'fields':
        fields = sum([LEVEL_FIELDS[i] for i in case[1]], [])
        for v in VERSIONS:
            for scheme in SCHEMES[:2]:
                kinds = [(s, fields) for s in (100, 101, 103, 200, 203, 204, 304, 421, 500)]
                for m in ('GET', 'CONNECT') if scheme == 'http' else ('GET',):
                    check(ctx, {'method': m, 'target': 'a:1' if m == 'CONNECT' else '/', 'version': v, 'scheme': scheme}, responses(kinds, v))
            check(ctx, {'version': v, 'method': 'PUT', 'headers': [('Host', 'a.b')] + fields, 'body': b'x'}, [])
            for tr in TRAILERS:
                check(ctx, {'version': v, 'method': 'PUT', 'headers': [('Host', 'a.b')] + fields, 'body': b'x', 'trailers': tr},
                      [dict(responses([(200, fields)], v)[0], trailers=tr)])
        check(ctx, None, responses(kinds, v) + responses(kinds, 'HTTP/1.1'))
    else:
        _, k, tier = case
        _, scheme, i, o = corpus.load(CORPUS_LIMIT[tier])[k]
        for e in conn.parse(i, o, scheme):
            if e.request is None and not e.responses:
                continue
            req = e.request and rulecheck.data_of(e.request, True)
            resps = [rulecheck.data_of(r, False) for r in e.responses]
            if rulecheck.silenced(req, resps):
                continue
            for v in VERSIONS[:4]:
                there = [dict(r, version=v) for r in resps]
                if req is None:
                    check(ctx, None, there)
                    continue
                for s, p in itertools.product(SCHEMES[:3], PROXY[:3]):
                    check(ctx, message(dict(req, version=v, scheme=s), is_to_proxy=p), there)
