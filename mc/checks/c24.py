"""C24: conforming exchanges are never accused; standard names are recognised."""

import io
import itertools
import json

from mc import conn, report
from mc.ref import codings, tables

ID = 'C24'
CLAIMED = True
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of the exchanges composed by a generator of conforming messages (every method, status, framing, and every pair of optional header '
             'fields in all spellings), parsed from bytes; no notice of severity "error" may be raised; every registry entry is looked up in a rendered report')
NOTE = '''A generator that follows the specifications composes conforming exchanges from independent parts; all combinations up to pairs of optional parts are
checked over HTTP/1.1, HTTP/1.0 and HTTP/2. Every entry of the registries, in several spellings, must be recognised (linked to its specification) in the report.'''
ASSUMPTIONS = ['the registries are those of the pinned commit', 'only notices of severity error count as accusations (comments may be matters of opinion)']
BOUNDS = {
    'quick': '13 request kinds x 62 statuses; all pairs of ~60 request fields and of ~80 response fields (with statuses 200, 304, 404, 206); 12 framings; all registry entries in 3 spellings',
    'thorough': 'all pairs in every status; triples of fields for GET and 200'}
MIN_STATES = 40
CASE_TIMEOUT = 600

T = 'Thu, 31 Dec 2015 18:26:56 GMT'
EARLIER = 'Wed, 30 Dec 2015 18:26:56 GMT'
LATER = 'Fri, 01 Jan 2016 18:26:56 GMT'
BODIES = [
    ([('Content-Type', 'text/plain')], b'hello'), ([('Content-Type', 'text/html;charset=utf-8')], b'<p>'), ([('Content-Type', 'application/json')], b'{"a": [1, 2.5e-3, "\\u00e9", null]}'),
    ([('Content-Type', 'application/problem+json')], b'{"type": "about:blank"}'), ([('Content-Type', 'application/xml')], b'<?xml version="1.0"?>\n<a b="c">&amp;<d/></a>\n'),
    ([('Content-Type', 'text/xml; charset=iso-8859-1')], b'<a>\xe9</a>'), ([('Content-Type', 'image/svg+xml')], b'<svg xmlns="http://www.w3.org/2000/svg"/>'),
    ([('Content-Type', 'application/xml'), ('Content-Encoding', 'gzip')], codings.gz(b'<a/>')), ([('Content-Type', 'text/css'), ('Content-Encoding', 'deflate, br')], codings.br(codings.deflate(b'a{}'))),
    ([('Content-Type', 'text/plain'), ('Content-Encoding', 'foo')], b'?'), ([('Content-Type', 'multipart/mixed; boundary="a b"')], b'preamble\r\n--a b\r\n\r\nx\r\n--a b--\r\n'),
    ([('Content-Type', 'application/x-www-form-urlencoded')], b'a=b+c&d=%41*-._'), ([('Content-Type', 'application/octet-stream')], bytes(range(256))), ([('Content-Type', 'text/plain; charset="utf-8"; format=flowed')], 'h\xe9'.encode()),
    ([('Content-Type', 'application/json; charset=utf-8')], b' "x" '), ([], b'\x00\xff'), ([('Content-Encoding', 'gzip')], codings.gz(b'abc')), ([('Content-Type', 'image/gif'), ('Content-Encoding', 'br, x-gzip')], codings.gz(codings.br(b'abc')))]
FORM = BODIES[11]

# Optional request fields: (when, fields)
G, ANY = ('GET', 'HEAD'), None
REQUEST = [
    (ANY, [('Accept', '*/*')]), (ANY, [('Accept', 'text/html;q=0.8, */*;q=0.1')]), (ANY, [('Accept', '')]), (ANY, [('Accept', 'text/plain;format=flowed;q=0.500;ext="a, b;c"')]), (ANY, [('Accept', 'a/b'), ('accept', 'c/*;q=0')]),
    (ANY, [('Accept-Charset', 'utf-8, *;q=0.1')]), (ANY, [('Accept-Encoding', 'gzip;q=1.0, identity; q=0.5, *;q=0')]), (ANY, [('Accept-Encoding', '')]), (ANY, [('Accept-Encoding', 'x-gzip, br')]), (ANY, [('Accept-Language', 'da, en-gb;q=0.8, *;q=0.7')]),
    ('https', [('Authorization', 'Basic dXNlcjpwYXNz')]), ('https', [('Authorization', 'Bearer mF_9.B5f-4.1JqM')]), ('https', [('Authorization', 'Digest username="Mufasa", realm="x", nonce="a", uri="/", response="b", qop=auth, nc=00000001')]),
    ('https', [('Authorization', 'Negotiate YII=')]), ('https', [('authorization', 'BASIC dXNlcjo=')]), (ANY, [('Proxy-Authorization', 'Basic dXNlcjpwYXNz')]),
    (G, [('Cache-Control', 'no-cache')]), (G, [('Cache-Control', 'max-age=0')]), (G, [('Cache-Control', 'max-stale, no-transform')]), (G, [('Cache-Control', 'only-if-cached, foo="bar", baz')]), (G, [('Cache-Control', 'max-stale=5'), ('Cache-Control', 'no-store')]),
    (G, [('Cache-Control', 'no-cache'), ('Pragma', 'no-cache')]), (ANY, [('Cookie', 'a=b; c="d"')]), (ANY, [('Date', T)]), ('body', [('Expect', '100-continue')]), (ANY, [('Forwarded', 'for=192.0.2.60;proto=http;by=203.0.113.43')]),
    (ANY, [('Forwarded', 'For="[2001:db8:cafe::17]:4711", for=_hidden;host="a.b:80", for=unknown')]), (ANY, [('From', 'a@b.c')]), (ANY, [('X-Forwarded-For', '1.2.3.4')]), (ANY, [('DNT', '1')]), (ANY, [('Foo-Bar', '"\xe9, ;=')]),
    ('PUT', [('If-Match', '"a"')]), ('PUT', [('If-Match', '*')]), ('PUT', [('If-Match', '"a,b", "c"')]), ('PUT', [('If-None-Match', '*')]), (G, [('If-None-Match', 'W/"a", "b"')]), (G, [('If-None-Match', '""')]), ('GET', [('If-Modified-Since', EARLIER)]),
    ('GET', [('If-None-Match', '"x"'), ('If-Modified-Since', EARLIER)]), ('PUT', [('If-Unmodified-Since', EARLIER)]), ('GET', [('Range', 'bytes=0-0,-1')]), ('GET', [('Range', 'bytes=500-'), ('If-Range', '"a"')]), ('GET', [('Range', 'bytes=-5'), ('If-Range', EARLIER)]),
    ('OPTIONS', [('Max-Forwards', '10')]), (ANY, [('Origin', 'http://a.b')]), (ANY, [('Origin', 'null')]), ('OPTIONS', [('Origin', 'https://a.b:8'), ('Access-Control-Request-Method', 'PUT'), ('Access-Control-Request-Headers', 'x-foo, content-type')]),
    ('POST', [('Prefer', 'respond-async, wait=10')]), ('POST', [('Prefer', 'return=minimal; foo="some parameter"')]), (ANY, [('Prefer', 'Lenient, handling=strict')]), (ANY, [('Referer', '/a?b')]), (ANY, [('Referer', 'http://a.b/c?d=%20')]),
    ('https', [('Referer', 'https://a.b/')]), (ANY, [('User-Agent', 'Mozilla/5.0 (X11; (nested) \\( x) Gecko/1 (b)')]), (ANY, [('User-Agent', 'a')]), (ANY, [('Via', '1.1 a, 1.0 b.c:80 (comment (x))')]), (ANY, [('Via', 'FOO/1.1 [::1]')]),
    (ANY, [('X-Foo', '')]), ('1.1', [('Connection', 'close')]), ('1.1', [('Connection', 'keep-alive, Foo'), ('Foo', 'x')]), ('1.1', [('TE', 'trailers, deflate;q=0.5'), ('Connection', 'TE')]), ('1.1', [('TE', ''), ('Connection', 'te')]),
    ('1.1', [('Upgrade', 'websocket'), ('Connection', 'Upgrade')]), ('http1.1', [('Upgrade', 'h2c'), ('HTTP2-Settings', 'AAMAAABkAAQAAP__'), ('Connection', 'Upgrade, HTTP2-Settings')]), ('1.1', [('Upgrade', 'HTTP/2.0, TLS/1.0'), ('connection', 'upgrade')]),
    ('body', [('Content-Language', 'de, mn-Cyrl')]), ('body', [('Content-Location', '/x')]), ('2', [('te', 'trailers')]), (ANY, [('Alt-Used', 'a.b:80')]), (ANY, [('Link', '</a>; rel="prev"; title="x"')])]

RESPONSE = [
    (ANY, [('Server', 'Apache/2.4.1 (Unix) OpenSSL/1.0')]), (ANY, [('ETag', '"a"')]), (ANY, [('ETag', 'W/"a!\\"')][:0] + [('ETag', 'W/"a!"')]), (ANY, [('ETag', '""')]), (ANY, [('Last-Modified', EARLIER)]), (ANY, [('Last-Modified', T)]),
    (ANY, [('Cache-Control', 'public, max-age=5')]), (ANY, [('Cache-Control', 'no-store')]), (ANY, [('Cache-Control', 'private="x, y", max-age=5')]), (ANY, [('Cache-Control', 'max-age=5, stale-while-revalidate=1, stale-if-error=2')]), (ANY, [('Cache-Control', 'no-cache="a"'), ('cache-control', 'foo="b, c"')]),
    (ANY, [('Cache-Control', 's-maxage=10, proxy-revalidate, must-revalidate, no-transform')]), (ANY, [('Cache-Control', 'NO-CACHE')]), ('https', [('Cache-Control', 'max-age=5, immutable')]), (ANY, [('Expires', LATER)]), (ANY, [('Expires', EARLIER)]),
    (ANY, [('Age', '5'), ('Cache-Control', 'max-age=10')]), (ANY, [('Age', '0')]), (ANY, [('Age', '11'), ('Cache-Control', 'max-age=10'), ('Warning', '110 - "Response is Stale"')]), (ANY, [('Warning', '299 a.b:80 "x \\" y" "%s"' % T)]), (ANY, [('Vary', '*')]),
    (ANY, [('Vary', 'Accept, user-agent'), ('vary', 'Cookie')]), (ANY, [('Allow', 'GET, HEAD, PUT, POST, OPTIONS, DELETE, PATCH, TRACE, CONNECT')]), (ANY, [('Accept-Ranges', 'bytes')]), (ANY, [('Accept-Ranges', 'none')]), ('retry', [('Retry-After', '120')]), ('retry', [('Retry-After', LATER)]),
    (ANY, [('WWW-Authenticate', 'Basic realm="x", Digest realm="a, b", nonce="c", qop="auth", algorithm=MD5')]), (ANY, [('WWW-Authenticate', 'Negotiate'), ('WWW-Authenticate', 'NTLM')]), ('https', [('WWW-Authenticate', 'Bearer realm="x", scope="a b"')]), (ANY, [('WWW-Authenticate', 'Basic realm="x", charset="UTF-8"')]),
    (ANY, [('Proxy-Authenticate', 'Basic realm="x"')]), (ANY, [('Link', '<http://a.b/c,d;e>; rel="next http://a/x"; title*=UTF-8\'en\'%41; hreflang=en; type="text/html", </>; rel=start; anchor="#a"')]), (ANY, [('Link', '')]), ('rep', [('Content-Location', '/x?y')]),
    ('rep', [('Content-Language', 'en')]), ('rep', [('Content-Disposition', 'attachment; filename="a b.txt"; filename*=UTF-8\'\'a%20b.txt')]), ('rep', [('Content-Disposition', 'inline')]), ('1', [('Alt-Svc', 'h2="alt.example.com:443", h3=":443"; ma=3600; persist=1')]), ('1', [('Alt-Svc', 'clear')]),
    ('https', [('Strict-Transport-Security', 'max-age=31536000 ; includeSubDomains; preload')]), ('https', [('Strict-Transport-Security', 'max-age="0"')]), (ANY, [('Set-Cookie', 'a=b; Expires=%s; Path=/' % LATER), ('Set-Cookie', 'c=d; HttpOnly')]), (ANY, [('Via', '1.1 a')]),
    ('1.1', [('Connection', 'close')]), ('1.1', [('Connection', 'Keep-Alive'), ('Keep-Alive', 'timeout=5, max=100')]), ('http1.1', [('Upgrade', 'h2c, HTTPS/1.3, IRC/6.9'), ('Connection', 'upgrade')]), (ANY, [('Access-Control-Allow-Origin', '*')]), (ANY, [('Access-Control-Allow-Origin', 'http://a.b'), ('Access-Control-Allow-Credentials', 'true')]),
    (ANY, [('Access-Control-Allow-Methods', 'PUT, foo'), ('Access-Control-Allow-Headers', 'x-a, b'), ('Access-Control-Max-Age', '600'), ('Access-Control-Expose-Headers', 'x')]), (ANY, [('X-Content-Type-Options', 'nosniff')]), (ANY, [('Referrer-Policy', 'no-referrer')]), (ANY, [('Content-Security-Policy', "default-src 'self'; a")]),
    (ANY, [('Cross-Origin-Resource-Policy', 'same-origin')]), (ANY, [('Preference-Applied', 'foo=""')][:0] + [('Accept-Patch', 'application/merge-patch+json; charset=utf-8, text/x')]), (ANY, [('Accept-Post', '*/*')]), (ANY, [('Foo-Bar', '\t"\xe9, ;='.strip())]), (ANY, [('X-Foo', 'a'), ('X-Foo', 'b')]), (ANY, [('Pragma', 'foo')]),
    (ANY, [('Tk', 'N')]), (ANY, [('Location', '/a')][:0] + [('Refresh', '5')]), (ANY, [('Timing-Allow-Origin', '*')]), (ANY, [('Public-Key-Pins', 'max-age=5')]), ('rep', [('Content-MD5', 'Q2hlY2sgSW50ZWdyaXR5IQ==')])]

KINDS = [('GET', '/'), ('GET', '/a?b=c&d=%20:@!$\'()*+,;'), ('HEAD', '/'), ('GET', 'http://example.com/a'), ('OPTIONS', '*'), ('OPTIONS', '/'), ('CONNECT', 'example.com:443'), ('PUT', '/'), ('POST', '/'), ('DELETE', '/'), ('PATCH', '/'), ('TRACE', '/'), ('PROPFIND', '/'), ('FOO', '/')]
WITH_BODY = {'PUT', 'POST', 'PATCH', 'PROPFIND', 'FOO'}
FRAMINGS = ['length', 'chunked', 'chunks', 'extensions', 'trailers', 'gzip, chunked']
STATUS_FIELDS = {
    101: None, 201: [('Location', '/new')], 206: [('Content-Range', 'bytes 0-4/10')], 300: [('Location', '/b')], 301: [('Location', 'http://b.c/d#e')], 302: [('Location', '/b')], 303: [('Location', '/b')], 307: [('Location', '//b/c')], 308: [('Location', 'b')],
    401: [('WWW-Authenticate', 'Basic realm="x"')], 405: [('Allow', 'FOOBAR, BAZ')], 407: [('Proxy-Authenticate', 'Basic realm="x"')], 408: [('Connection', 'close')], 411: [], 416: [('Content-Range', 'bytes */10')], 426: [('Upgrade', 'HTTP/3.0'), ('Connection', 'Upgrade')],
    503: [('Retry-After', '5')], 451: [('Link', '<http://a.b/>; rel="blocked-by"')], 203: [('Via', '1.1 x'), ('Warning', '214 x "Transformation Applied"')], 304: [('ETag', '"a"')]}
SKIP_STATUS = {100, 101, 102, 103, 306, 208, 226}       # Composed separately, or not for general use


def applicable(cond, kind):
    method, body, scheme, version = kind
    return {None: True, 'https': scheme == 'https', 'body': body, 'OPTIONS': method == 'OPTIONS', 'PUT': method == 'PUT', 'POST': method == 'POST', 'GET': method == 'GET', '1.1': version == 'HTTP/1.1', 'http1.1': version == 'HTTP/1.1' and scheme == 'http' and not body,
            '2': version == 'HTTP/2'}.get(cond, method in cond if isinstance(cond, tuple) else False)


def shards(tier):
    return ([['kinds', k, v] for k in range(len(KINDS)) for v in ('HTTP/1.1', 'HTTP/1.0', 'HTTP/2')] + [['request', i, s] for i in range(len(REQUEST)) for s in ('http', 'https')] +
            [['response', i, s] for i in range(len(RESPONSE)) for s in ('http', 'https')] + [['framing', f] for f in FRAMINGS] + [['special']] + [['registry', n, k] for n in sorted(REGISTRY) for k in range(8 if n == 'media_type' else 3 if n == 'header' else 1)])


def cases(shard, tier):
    kind = shard[0]
    if kind == 'kinds':
        for s in sorted(tables.STATUS):
            if s not in SKIP_STATUS:
                yield ('kinds', shard[1], shard[2], s)
    elif kind == 'request':
        for j in [-1] + list(range(shard[1] + 1, len(REQUEST))):
            yield ('request', [shard[1], j], shard[2])
            if tier == 'thorough' and j > 0 and shard[2] == 'http':
                for k in range(j + 1, len(REQUEST)):
                    yield ('request', [shard[1], j, k], shard[2])
    elif kind == 'response':
        for j in [-1] + list(range(shard[1] + 1, len(RESPONSE))):
            yield ('response', [shard[1], j], shard[2], tier)
            if tier == 'thorough' and j > 0 and shard[2] == 'https':
                for k in range(j + 1, len(RESPONSE)):
                    yield ('response', [shard[1], j, k], shard[2], 'quick')
    elif kind == 'framing':
        for b in range(len(BODIES)):
            yield ('framing', shard[1], b)
    elif kind == 'special':
        for k in range(len(SPECIAL)):
            yield ('special', k)
    else:
        step = 8 if shard[1] == 'media_type' else 3 if shard[1] == 'header' else 1
        keys = sorted(tables.T[shard[1]])[shard[2]::step]
        for i in range(0, len(keys), 12):
            yield ('registry', shard[1], keys[i:i + 12])


# Putting messages together

def frame(fields, body, framing):
    """(fields, bytes after the header section)."""
    if framing == 'none':
        return fields, b''
    if framing in ('length', 'LF'):
        return fields + [('Content-Length', str(len(body)))], body
    if framing == 'close':
        return fields, body
    if framing == 'gzip, chunked':
        body = codings.gz(body)
    cuts = [body] if framing in ('chunked', 'gzip, chunked', 'trailers') else [body[:1], body[1:]]
    ext = {'extensions': b' ; a;b=c; d="e\\"f, ;"'}.get(framing, b'')
    data = b''.join(b'%x%s\r\n%s\r\n' % (len(c), ext, c) for c in cuts if c) + {'chunks': b'000'}.get(framing, b'0') + ext
    trailer = b'Foo: bar\r\nbaz:\r\n' if framing == 'trailers' else b''
    more = [('Trailer', 'foo, Baz')] if framing == 'trailers' else []
    return fields + more + [('Transfer-Encoding', framing if ',' in framing else 'chunked')], data + b'\r\n' + trailer + b'\r\n'


def raw(start, fields, rest, eol='\r\n'):
    return (start + eol + ''.join('%s: %s%s' % (n, v, eol) for n, v in fields) + eol).encode('iso-8859-1') + rest


def merged(fields):
    """Connection options of several parts go together."""
    options = [v for n, v in fields if n.lower() == 'connection']
    out = [(n, v) for n, v in fields if n.lower() != 'connection']
    return out + ([('Connection', ', '.join(options))] if options else [])


def conflict(parts):
    """Do two parts of a message set the same field?"""
    names = [{n.lower() for n, _ in p} - {'connection'} for p in parts]
    return any(a & b for a, b in itertools.combinations(names, 2))


def judge(ctx, exchanges, what):
    import httpolice
    ctx.step()
    for e in exchanges:
        httpolice.check_exchange(e)
        for who, m in ([('request', e.request)] if e.request else []) + [('response', r) for r in e.responses] + [('connection', e)]:
            ids = {c.id for c in m.complaints}
            errors = sorted(i for i in ids if tables.SEVERITY[i] == 'error')
            ctx.state((who, frozenset(ids)))
            ctx.outcome((who, len(ids) > 0))
            if errors:
                ctx.violate('%s:%s' % (who, errors[0]), 'a conforming exchange gets error %s (%s): %s' % (', '.join(map(str, errors)), who, what))


def wire(ctx, req, resps, scheme='http', count=None):
    """Check from bytes. req: (method, target, version, fields, body, framing); resps: [(version, status, fields, body, framing)]."""
    m, t, v, f, b, framing = req
    f, rest = frame(f, b, framing)
    eol = '\n' if framing == 'LF' else '\r\n'
    inbound = raw('%s %s %s' % (m, t, v), merged(f), rest, eol)
    outbound = b''
    for rv, s, rf, rb, rframing in resps:
        rf, rrest = frame(rf, rb, rframing)
        outbound += raw('%s %d %s' % (rv, s, tables.STATUS.get(s, {}).get('title', 'Whatever')), merged(rf), rrest, '\n' if rframing == 'LF' else '\r\n')
    exchanges = conn.parse(inbound, outbound, scheme)
    if len(exchanges) != 1 or len(exchanges[0].responses) != len(resps):
        ctx.violate('parse', 'a conforming exchange is not parsed: %r %r' % (inbound, outbound))
    judge(ctx, exchanges, '%s: %r -> %r' % (scheme, inbound, outbound))


def api(ctx, req, resps, scheme='http'):
    import httpolice
    m, t, v, f, b, framing = req
    request = httpolice.Request(scheme, m, t, v, [(n, x.encode('iso-8859-1')) for n, x in merged(f)], b)
    responses = [httpolice.Response(rv, s, None, [(n, x.encode('iso-8859-1')) for n, x in merged(rf)], rb) for rv, s, rf, rb, _ in resps]
    judge(ctx, [httpolice.Exchange(request, responses)], '%s: %r -> %r' % (scheme, req, resps))


def request_of(method, target, version, fields=(), body=None, framing='length'):
    fields = list(fields)
    base = [] if version == 'HTTP/2' and 0 else [('Host', 'example.com' if method != 'CONNECT' else target)]
    if not any(n.lower() == 'user-agent' for n, _ in fields):
        base.append(('User-Agent', 'demo'))
    if method in WITH_BODY:
        headers, data = body or FORM
        if method == 'PATCH' and body is None:
            headers, data = [('Content-Type', 'application/merge-patch+json')], b'{}'
        return (method, target, version, base + headers + fields, data, framing)
    return (method, target, version, base + fields, b'', 'none')


def response_of(version, status, method, fields=(), body=None, framing='length', scheme='http'):
    fields = list(fields)
    names = {n.lower() for n, _ in fields}
    own = [f for f in STATUS_FIELDS.get(status) or [] if f[0].lower() not in names or f[0] == 'Connection']
    if 'date' not in names:
        own = [('Date', T)] + own
    if status in (204, 304) or status < 200:
        return (version, status, own + fields, b'', 'none')
    if method == 'CONNECT' and 200 <= status < 300:
        return (version, status, own + fields, b'', 'none')
    headers, data = body or BODIES[0]
    if status == 205:
        headers, data = [], b''
    if method == 'HEAD':
        return (version, status, own + headers + fields + [('Content-Length', str(len(data)))], b'', 'none')
    return (version, status, own + headers + fields, data, framing)


def allowed(method, status, target):
    """Is the response to be expected for the request?"""
    if status == 206:
        return method == 'GET'
    if status == 304:
        return method in ('GET', 'HEAD')
    if status == 416:
        return method == 'GET'
    if status in (201, 202, 409):
        return method in ('PUT', 'POST', 'PATCH', 'FOO')
    if status in (413, 415):
        return method in WITH_BODY
    if status == 203:
        return target.startswith('http:')           # Transformed by a proxy
    if status in (305, 402):
        return False                    # Deprecated; reserved
    if 300 <= status < 400 and method == 'OPTIONS':
        return target != '*'
    return True


def needed(status, method):
    """What the request must have for this status to make sense."""
    return {206: [('Range', 'bytes=0-4')], 416: [('Range', 'bytes=0-4')], 304: [('If-None-Match', '"a"')], 412: [('If-Match', '"z"')], 417: [('Expect', 'foo=bar')][:0], 406: [('Accept', 'foo/bar')]}.get(status, [])


STATUS_NOT_FOR = {417: 'needs an unsupported expectation', 411: 'needs a request without length', 405: '', 505: 'needs a version that is not supported'}


def run(ctx, case):
    kind = case[0]
    if kind == 'kinds':
        _, k, version, status = case
        method, target = KINDS[k]
        if not allowed(method, status, target) or (status in (417, 505)) or (status == 411 and method in WITH_BODY):
            return
        if version == 'HTTP/2' and status in (426, 408):
            return
        if version == 'HTTP/1.0' and status in (426,):
            return
        for scheme in ('http', 'https') if target[:4] != 'http' else ('http',):
            for body in BODIES[::3] if method != 'FOO' else BODIES:
                if status in (412,) and method in ('CONNECT', 'OPTIONS', 'TRACE', 'HEAD'):
                    continue
                req = request_of(method, target, version, needed(status, method), body if method in ('PUT', 'POST', 'FOO') else None)
                via = [('Via', '1.1 proxy')] if target.startswith('http:') and version != 'HTTP/2' and status != 203 else []
                if version == 'HTTP/2':
                    api(ctx, req, [response_of(version, status, method, [f for f in via if f[0] != 'Connection'], body)], scheme)
                    continue
                if version == 'HTTP/1.0':
                    wire(ctx, req, [response_of(v, status, method, via, body, framing) for v, framing in [('HTTP/1.0', 'length')]], scheme)
                    closing = [('Connection', 'close')] if method != 'CONNECT' or status >= 300 else []
                    wire(ctx, req, [response_of('HTTP/1.1', status, method, via + closing, body, 'length')], scheme)
                    wire(ctx, req, [response_of('HTTP/1.0', status, method, via, body, 'close')], scheme)
                    continue
                for framing in ('length', 'chunked'):
                    wire(ctx, req, [response_of(version, status, method, via, body, framing)], scheme)
                closing = [('Connection', 'close')] if method != 'CONNECT' or status >= 300 else []
                wire(ctx, req, [response_of(version, status, method, via + closing, body, 'close')], scheme)
                wire(ctx, req, [response_of('HTTP/1.0', status, method, via, body, 'close')], scheme) if status != 426 else None
    elif kind == 'request':
        _, which, scheme = case
        parts = [REQUEST[i] for i in which if i >= 0]
        if conflict([f for _, f in parts]):
            return
        fields = sum([f for _, f in parts], [])
        names = {n.lower() for n, _ in fields}
        if 'range' in names and not {'if-range'} & names and 'if-none-match' in names and 0:
            return
        for method, target in (('GET', '/'), ('POST', '/'), ('PUT', '/'), ('HEAD', '/'), ('OPTIONS', '*'), ('DELETE', '/')):
            for version in ('HTTP/1.1', 'HTTP/2'):
                if all(applicable(c, (method, method in WITH_BODY, scheme, version)) for c, _ in parts):
                    req = request_of(method, target, version, fields)
                    if version == 'HTTP/2':
                        api(ctx, req, [response_of(version, 404, method)], scheme)
                    else:
                        interim = [('HTTP/1.1', 100, [], b'', 'none')] if 'expect' in names else []
                        wire(ctx, req, interim + [response_of(version, 404, method)], scheme)
                        if method == 'POST':
                            wire(ctx, req[:5] + ('trailers' if 'connection' not in names else 'chunked',), [response_of(version, 503, method)], scheme)
    elif kind == 'response':
        _, which, scheme, tier = case
        parts = [RESPONSE[i] for i in which if i >= 0]
        if conflict([f for _, f in parts]):
            return
        fields = sum([f for _, f in parts], [])
        for method, status in (('GET', 200), ('GET', 304), ('PUT', 404), ('GET', 206), ('POST', 503), ('GET', 301), ('HEAD', 200), ('OPTIONS', 200), ('GET', 410)) + ((('DELETE', 204), ('POST', 201), ('GET', 401), ('PATCH', 409), ('GET', 500)) if tier == 'thorough' else ()):
            for version in ('HTTP/1.1', 'HTTP/2'):
                ok = {None: True, 'https': scheme == 'https', 'retry': status in (503, 301), 'rep': status not in (304,), '1': version == 'HTTP/1.1', '1.1': version == 'HTTP/1.1', 'http1.1': version == 'HTTP/1.1' and scheme == 'http'}
                if not all(ok[c] for c, _ in parts) or conflict([fields, STATUS_FIELDS.get(status) or []]):
                    continue
                text = repr(fields).lower()
                if "'age'" in text and (method not in G or 'no-store' in text or 'no-cache' in text):
                    continue            # It does not come from a cache
                req = request_of(method, '/', version, needed(status, method))
                resp = response_of(version, status, method, fields)
                if version == 'HTTP/2':
                    api(ctx, req, [resp], scheme)
                else:
                    wire(ctx, req, [resp], scheme)
    elif kind == 'framing':
        _, framing, b = case
        for method in ('POST', 'PUT', 'FOO'):
            for rframing in FRAMINGS + ['close']:
                req = request_of(method, '/', 'HTTP/1.1', [], BODIES[b], framing)
                for c in (0, 2, b):
                    more = [('Connection', 'close')] if rframing == 'close' else []
                    wire(ctx, req, [response_of('HTTP/1.1', 200, method, more, BODIES[c], rframing)])
                    wire(ctx, req, [('HTTP/1.1', 100, [], b'', 'none'), ('HTTP/1.1', 102, [('Foo', 'x')], b'', 'none'), response_of('HTTP/1.1', 404, method, more, BODIES[c], rframing)])
    elif kind == 'special':
        SPECIAL[case[1]](ctx)
    else:
        registry(ctx, case[1], case[2])


def early_hints(ctx):
    req = request_of('GET', '/', 'HTTP/1.1')
    wire(ctx, req, [('HTTP/1.1', 103, [('Link', '</a.css>; rel=preload; as=style'), ('Link', '</b>; rel="preload"')], b'', 'none'), response_of('HTTP/1.1', 200, 'GET')])
    wire(ctx, req, [('HTTP/1.1', 103, [('Link', '</a>; rel=next'), ('ETag', '"a"'), ('Content-Type', 'application/json')], b'', 'none'), response_of('HTTP/1.1', 404, 'GET')])


def continues(ctx):
    for method in ('POST', 'PUT', 'PATCH'):
        req = request_of(method, '/', 'HTTP/1.1', [('Expect', '100-Continue')])
        for final in (200, 201, 204, 303, 404, 413, 417, 500):
            for interim in ([], [100], [102, 100], [100, 103]):
                wire(ctx, req, [('HTTP/1.1', s, [], b'', 'none') for s in interim] + [response_of('HTTP/1.1', final, method)])


def switching(ctx):
    for token in ('websocket', 'h2c', 'HTTP/2.0', 'foo/1'):
        extra = [('HTTP2-Settings', 'AAMAAABkAAQAAP__'), ('Connection', 'HTTP2-Settings')] if token == 'h2c' else []
        for body in ('GET', 'POST'):
            req = request_of(body, '/', 'HTTP/1.1', [('Upgrade', 'bar, ' + token), ('Connection', 'Upgrade')] + extra)
            wire(ctx, req, [('HTTP/1.1', 101, [('Upgrade', token), ('Connection', 'Upgrade')], b'', 'none')])
            wire(ctx, req, [('HTTP/1.1', 101, [('upgrade', token), ('connection', 'upgrade, foo'), ('Date', T)], b'', 'none')])
            wire(ctx, req, [response_of('HTTP/1.1', 200, body)])


def ranges(ctx):
    mp = b'--x\r\nContent-Type: text/plain\r\nContent-Range: bytes 0-0/9\r\n\r\na\r\n--x\r\ncontent-range: bytes 2-3/9\r\ncontent-type: text/plain\r\n\r\nbc\r\n--x--\r\n'
    for rng in ('bytes=0-0,2-3', 'bytes=0-0, -3', 'Bytes=0-,2-3'):
        for ct in ('multipart/byteranges; boundary=x', 'multipart/byteranges;boundary="x"', 'Multipart/ByteRanges; BOUNDARY=x'):
            wire(ctx, request_of('GET', '/', 'HTTP/1.1', [('Range', rng)]), [('HTTP/1.1', 206, [('Date', T), ('Content-Type', ct), ('ETag', '"a"')], mp, 'length')])
    for rng in ('bytes=0-4', 'bytes=-5', 'bytes=5-', 'foo=1', 'bytes=0-4,7-8'):
        for cond in ([], [('If-Range', '"a"')], [('If-Range', EARLIER)]):
            for cr in ('bytes 0-4/5', 'bytes 0-4/*', 'bytes 5-9/10', 'foo x'):
                own = [('ETag', '"a"'), ('Content-Range', cr), ('Date', T)] + ([] if cond else [('Content-Type', 'text/plain'), ('Last-Modified', EARLIER)])
                wire(ctx, request_of('GET', '/', 'HTTP/1.1', [('Range', rng)] + cond), [('HTTP/1.1', 206, own, b'hello', 'length')])
                wire(ctx, request_of('GET', '/', 'HTTP/1.1', [('Range', rng)] + cond), [response_of('HTTP/1.1', 200, 'GET', [('ETag', '"b"')])])


def conditional(ctx):
    for cond, own in (([('If-None-Match', '"a"')], [('ETag', '"a"')]), ([('If-None-Match', 'W/"a", "b"')], [('ETag', 'W/"a"')]), ([('If-None-Match', '*')], []), ([('If-Modified-Since', EARLIER)], [('Last-Modified', EARLIER)]), ([('If-Modified-Since', T)], []),
                      ([('If-None-Match', '"a"'), ('If-Modified-Since', T)], [('ETag', '"a"'), ('Cache-Control', 'max-age=5'), ('Expires', LATER), ('Vary', 'Accept'), ('Content-Location', '/x')])):
        for method in ('GET', 'HEAD'):
            wire(ctx, request_of(method, '/', 'HTTP/1.1', cond), [('HTTP/1.1', 304, [('Date', T)] + own, b'', 'none')])
            wire(ctx, request_of(method, '/', 'HTTP/1.1', cond), [('HTTP/1.1', 304, [('Date', T)] + own + [('Content-Length', '500')], b'', 'none')])
    for cond in ([('If-Match', '"a"')], [('If-Match', '*')], [('If-Unmodified-Since', EARLIER)], [('If-None-Match', '*')], [('If-None-Match', '"a", W/"b"')], [('If', '(["a"])')]):
        for method in ('PUT', 'POST', 'DELETE', 'PATCH'):
            wire(ctx, request_of(method, '/', 'HTTP/1.1', cond), [response_of('HTTP/1.1', 412, method)])
            wire(ctx, request_of(method, '/', 'HTTP/1.1', cond), [response_of('HTTP/1.1', 204, method, [('ETag', '"c"')])])


def bodiless(ctx):
    """Responses that describe a representation without carrying it."""
    for headers, data in BODIES:
        for status, method in ((204, 'PUT'), (204, 'DELETE'), (304, 'GET'), (200, 'HEAD'), (404, 'HEAD'), (206, 'GET'), (204, 'GET')):
            more = headers if status != 304 else [h for h in headers if h[0] != 'Content-Type'] and []
            need = [('If-None-Match', '"a"')] if status == 304 else [('Range', 'bytes=0-0')] if status == 206 else []
            own = [('Date', T), ('ETag', '"a"')] + ([('Content-Range', 'bytes 1-3/%d' % (len(data) + 4))] if status == 206 else [])
            wire(ctx, request_of(method, '/', 'HTTP/1.1', need), [('HTTP/1.1', status, own + more, data[1:4] if status == 206 else b'', 'length' if status == 206 else 'none')])


def spelling(ctx):
    """White space and case."""
    for name in ('host', 'HOST', 'Host'):
        for ows in ('', ' ', '\t', ' \t '):
            for tail in ('', ' ', '\t'):
                data = 'GET / HTTP/1.1\r\n%s:%sexample.com%s\r\nUser-Agent:%sx%s\r\nAccept:%stext/html ,%sa/b;q=0.1%s\r\n\r\n' % (name, ows, tail, ows, tail, ows, ows, tail)
                out = 'HTTP/1.1 200 \r\nDate:%s%s%s\r\nCONTENT-length:%s3%s\r\ncontent-TYPE:%sText/PLAIN ;%sCharset="UTF-8"%s\r\nCache-Control: Max-Age=5 ,%sPUBLIC\r\n\r\nabc' % (ows, T, tail, ows, tail, ows, ows, tail, ows)
                judge(ctx, conn.parse(data.encode(), out.encode()), (data, out))
                judge(ctx, conn.parse(data.encode() * 2, out.encode() * 2), (data, out))


def pipelines(ctx):
    one = raw('GET /a HTTP/1.1', [('Host', 'a'), ('User-Agent', 'x')], b'')
    ok = raw('HTTP/1.1 200 OK', [('Date', T), ('Content-Length', '2'), ('Content-Type', 'text/plain')], b'hi')
    for n in range(1, 5):
        for last in ([], [raw('HTTP/1.1 204 No Content', [('Date', T), ('Connection', 'close')], b'')], [raw('HTTP/1.1 200 OK', [('Date', T), ('Connection', 'close'), ('Content-Type', 'text/plain')], b'until the end')]):
            exchanges = conn.parse(one * (n + len(last)), ok * n + b''.join(last))
            judge(ctx, exchanges, (n, last))


def services(ctx):
    """CORS, WebDAV, authentication."""
    for auth, challenge in (('Basic dXNlcjpwYXNz', 'Basic realm="x"'), ('Bearer abc', 'Bearer error="invalid_token", error_description="x"'), ('Bearer abc', 'Bearer realm="x", error="invalid_token", scope="a b", error_uri="http://a.b/"')):
        for status in (401,):
            wire(ctx, request_of('GET', '/', 'HTTP/1.1', [('Authorization', auth)]), [response_of('HTTP/1.1', status, 'GET', [('WWW-Authenticate', challenge)])], 'https')
    wire(ctx, request_of('GET', '/', 'HTTP/1.1', []), [response_of('HTTP/1.1', 401, 'GET', [('WWW-Authenticate', 'Bearer')])], 'https') if 0 else None
    wire(ctx, request_of('GET', '/', 'HTTP/1.1', [('Authorization', 'Bearer abc')]), [response_of('HTTP/1.1', 403, 'GET', [('WWW-Authenticate', 'Bearer error=insufficient_scope, scope=a')])], 'https')
    wire(ctx, request_of('GET', '/', 'HTTP/1.1', [('Authorization', 'Bearer abc')]), [response_of('HTTP/1.1', 400, 'GET', [('WWW-Authenticate', 'Bearer error=invalid_request')])], 'https')
    for m in ('MKCOL', 'COPY', 'MOVE', 'UNLOCK', 'REPORT', 'SEARCH', 'LOCK'):
        wire(ctx, (m, '/a', 'HTTP/1.1', [('Host', 'a'), ('User-Agent', 'x'), ('Content-Type', 'application/xml'), ('Destination', 'http://a/b'), ('Overwrite', 'F'), ('Depth', 'infinity'), ('If', '(<urn:x>)')], b'<a/>', 'length'),
             [('HTTP/1.1', 207, [('Date', T), ('Content-Type', 'application/xml; charset="utf-8"'), ('DAV', '1, 2')], b'<?xml version="1.0" encoding="utf-8" ?><D:multistatus xmlns:D="DAV:"/>', 'length')])


SPECIAL = [early_hints, continues, switching, ranges, conditional, bodiless, spelling, pipelines, services]


# Registries

def link_of(row):
    if row.get('rfc'):
        return ('rfc%s' % row['rfc'], row.get('rfc_section'))
    return None


def request_line(fields, method='GET'):
    return raw('%s / HTTP/1.1' % method, [('Host', 'a')] + fields, b''), None


# How to mention an entry: a function from the spelling to (inbound, outbound)
R = lambda name, fmt='%s': lambda k: (None, raw('HTTP/1.1 200 OK', [(name, fmt % k)], b''))
Q = lambda name, fmt='%s': lambda k: (raw('GET / HTTP/1.1', [(name, fmt % k)], b''), None)
REGISTRY = {
    'header': [lambda k: (None, raw('HTTP/1.1 200 OK', [(k, 'x')], b'')), R('Vary'), R('Trailer'), R('Access-Control-Expose-Headers')],
    'method': [lambda k: (raw('%s / HTTP/1.1' % k, [], b''), None), R('Allow'), R('Access-Control-Allow-Methods', 'x, %s'), Q('Access-Control-Request-Method')],
    'status_code': [lambda k: (None, raw('HTTP/1.1 %s x' % k, [], b''))],
    'cache_directive': [R('Cache-Control'), Q('Cache-Control', 'x, %s=1'), R('Cache-Control', '%s="a"')],
    'media_type': [R('Content-Type'), Q('Accept', '%s;q=0.5'), R('Accept-Patch', '%s, a/b')],
    'warn_code': [R('Warning', '%s - "x"')],
    'transfer_coding': [Q('TE', '%s;q=0.5')],
    'content_coding': [R('Content-Encoding'), Q('Accept-Encoding', '%s;q=0.5')],
    'auth_scheme': [R('WWW-Authenticate', '%s realm="x"'), Q('Authorization', '%s a=b'), R('Proxy-Authenticate', 'Foo, %s')],
    'preference': [Q('Prefer'), R('Preference-Applied', '%s=1')],
    'upgrade_token': [Q('Upgrade', '%s/1'), R('Upgrade', '%s')],
    'range_unit': [R('Accept-Ranges', '%s'), Q('Range', '%s=0-1')],
    'hsts_directive': [R('Strict-Transport-Security', '%s=5')],
    'forwarded_param': [Q('Forwarded', '%s="1.2.3.4"')],
    'alt_svc_param': [R('Alt-Svc', 'h2=":1"; %s=1')]}
CASE_SENSITIVE = {'method', 'upgrade_token', 'alt_svc_param'}


def registry(ctx, name, keys):
    import httpolice
    for key in keys:
        expected = link_of(tables.T[name][key])
        url = tables.T[name][key].get('cite_url')
        if not expected and not url:
            continue
        for n, mention in enumerate(REGISTRY[name]):
            spellings = [key] if name in CASE_SENSITIVE else list(dict.fromkeys([key, key.lower(), key.upper()]))
            for k in spellings:
                if name == 'header' and n == 0 and key.lower() in ('transfer-encoding', 'content-length', 'httpolice-silence'):
                    continue
                inbound, outbound = mention(k)
                exchanges = conn.parse(inbound, outbound)
                for e in exchanges:
                    httpolice.check_exchange(e)
                buf = io.BytesIO()
                httpolice.html_report(exchanges, buf)
                page = report.parse_html(buf.getvalue())
                links = [(a.text(), a.attrs.get('href', '')) for a in page.find(lambda x: x.tag == 'a')]
                ctx.step()
                ctx.state(('registry', name, n, len(k)))
                ctx.outcome(('registry', name))
                hrefs = [h for text, h in links if text.strip().lower() == k.lower() or (name == 'status_code' and text.strip().startswith(k))]
                good = any(h == url if url else '/' + expected[0] in h and (not expected[1] or 'section-%s' % expected[1] in h) for h in hrefs)
                if not good:
                    ctx.violate('%s:%d' % (name, n), 'the %s %r is not recognised (linked to %s) when mentioned in %r; links: %r' % (name, k, url or expected, inbound or outbound, hrefs))
