"""C05: checking and reporting never crash."""

import itertools
import zlib

from mc import build, headerspace as hs, obs

ID = 'C05'
CLAIMED = True
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of exchanges built through the API (every slot and every pair of slots over pools of odd values, '
             'every header over token sequences, pairs of headers, bodies by type and coding), each checked and rendered by the real code')
NOTE = '''Executes check_exchange, text_report and html_report on every exchange of the bounded space; any exception (other than from the
constructors being given values that cannot be represented) or non-termination is a violation; both reports must be valid UTF-8.'''
ASSUMPTIONS = ['types of the arguments are those documented for Request and Response']
BOUNDS = {
    'quick': 'odd values in one slot (9 contexts) and in two slots (2 contexts); token sequences <= 2 per header; pairs of headers with extreme values',
    'thorough': 'the same with larger pools, token sequences <= 3, single edits of values, triples of slots over small pools'}
MIN_STATES = 3000

D, D2 = 'Sun, 06 Nov 1994 08:49:37 GMT', 'Fri, 31 Dec 9999 23:59:59 GMT'
STD = [('Host', 'example.com'), ('User-Agent', 'x/1')]
CONTEXTS = [
    ({'headers': STD}, [{'headers': [('Date', D), ('Content-Type', 'text/plain')], 'body': b'hi'}]),
    ({'method': 'POST', 'headers': STD + [('Content-Type', 'application/json'), ('Content-Length', '2')], 'body': b'{}'},
     [{'status': 201, 'headers': [('Date', D), ('Location', '/x')]}]),
    ({'method': 'CONNECT', 'target': 'h:443'}, [{'status': 200}]),
    ({'method': 'OPTIONS', 'target': '*'}, [{'status': 204, 'headers': [('Allow', 'GET, PATCH')]}]),
    ({'version': 'HTTP/2', 'scheme': 'https', 'target': 'https://example.com/a?access_token=x', 'headers': [('if-none-match', '"a"')]},
     [{'version': 'HTTP/2', 'status': 103, 'reason': None, 'headers': [('link', '</>; rel=preload')]},
      {'version': 'HTTP/2', 'status': 304, 'reason': None, 'headers': [('etag', '"a"'), ('age', '5')]}]),
    (None, [{'status': 206, 'headers': [('Content-Type', 'multipart/byteranges; boundary=x'), ('Content-Range', 'bytes 0-1/2')],
             'body': b'--x\r\n\r\n\r\n--x--'}]),
    ({'method': 'HEAD', 'scheme': None, 'version': None}, []),
    ({'method': 'PATCH', 'headers': STD + [('Content-Type', 'application/json-patch+json'), ('Authorization', 'Bearer a')], 'body': None},
     [{'status': 401, 'headers': [('WWW-Authenticate', 'Bearer realm="x", error=invalid_token')], 'body': None}]),
    ({'method': 'GET', 'target': 'http://example.com/', 'headers': STD + [('Range', 'bytes=0-1'), ('If-Range', '"a"'), ('Upgrade', 'h2c')]},
     [{'status': 101, 'headers': [('Upgrade', 'h2c'), ('Connection', 'upgrade')]}, {'status': 200, 'body': 'U'}]),
]

TEXTS = ['', ' ', 'a b', '\x00', '\n', '\r\n\r\n', '\x7f', '\x85', '\xa0', '\xe9', '\u20ac', '\u2028', '\ud800', '\U0001f600', '\ufffe', '<b>&"\'</b>',
         '%', '%s%(x)s{0}', 'x' * 3000, b'', b'\xff<', '\u0130', '\u017f']
POOLS = {
    'method': TEXTS + ['GET', 'get', 'CONNECT', 'OPTIONS', 'HEAD', 'POST', 'M-SEARCH', 'connect', 'PATCH', 'TRACE', 'DELETE', 'PUT'],
    'target': TEXTS + ['*', '/', 'http://[::1', 'http://[v1.x]/', 'http://[1.2.3.4]/', '//[', '/?access_token=a', '/?%ff&&=', 'http://a:b:c', 'h:443', 'h:',
                       '?', '#', 'http://\u2100/', '/a?b#c', 'http://h', 'http://:80', 'https://u:p@h:99999/', '[::1]:80', '/%zz', '/[', 'x:',
                       'http://[::1%25z]/?access_token=1', '/;=;?&=&;', '/?a=' + '&a=' * 1500],
    'req.version': [None, '', 'HTTP/1.0', 'HTTP/1.1', 'HTTP/2', 'HTTP/3', 'HTTP/9.9', 'x', '\ud800', '\u20ac', b'HTTP/1.1', '<b>', '\n'],
    'resp.version': [None, '', 'HTTP/1.0', 'HTTP/1.1', 'HTTP/2', 'HTTP/3', 'HTTP/9.9', 'x', '\ud800', '\u20ac', b'HTTP/1.1', '<b>', '\n'],
    'scheme': [None, '', 'http', 'https', 'ftp', '\ud800', 'HTTP', b'http', '://', '\n', '[', 'http://['],
    'status': [-1, 0, 7, 99, 100, 101, 102, 103, 104, 199, 200, 201, 202, 203, 204, 205, 206, 207, 226, 299, 300, 301, 302, 303, 304, 305, 306, 307, 308,
               399, 400, 401, 402, 405, 406, 407, 408, 409, 411, 412, 413, 415, 416, 417, 421, 426, 428, 429, 431, 451, 499, 500, 503, 505, 511,
               599, 600, 999, 1000, 10 ** 30, True],
    'reason': [None] + TEXTS,
    'req.body': [None, 'U', b'', b'\x00', b'\xff\xfe', b'{}', b'a=b&access_token=1', b'x' * 5000, '\xe9'.encode('utf-8'), b'\n', b'<a/>'],
    'resp.body': [None, 'U', b'', b'\x00', b'\xff\xfe', b'{}', b'a=b&access_token=1', b'x' * 5000, '\xe9'.encode('utf-8'), b'\n', b'<a/>'],
    'req.header': [], 'resp.header': [],
    'req.trailers': [None, [], [('X', 'y')], [('Content-Length', '1')], [('', '')], [('Digest', b'\xff'), ('Date', 'x')], [('Content-Type', 'a/b')],
                     [('Transfer-Encoding', 'chunked')], [('\u20ac', '\u20ac')], [('Cache-Control', 'max-age=' + '9' * 5000)]],
    'resp.trailers': [None, [], [('X', 'y')], [('Content-Length', '1')], [('', '')], [('ETag', b'\xff'), ('Date', 'x')], [('Content-Type', 'a/b')],
                      [('Transfer-Encoding', 'chunked')], [('\ud800', '\ud800')], [('Vary', '*'), ('Vary', 'a')]],
    'remark': [None, '', '<b>', '\x00', '\ud800', '\n'],
}
HEADER_NAMES = ['', 'X', 'X-Y', 'X-\xe9', 'a b', '\u20ac', '\ud800', '\n', ':path', 'h\x00', '<b>', 'content-TYPE', b'Cookie', 'Content-MD5', 'Keep-Alive',
                'Set-Cookie', 'Public-Key-Pins', 'Sec-WebSocket-Key', 'x' * 3000, '\u0130', '\u212a']
HEADER_VALUES = ['', 'a', b'\xff', '\u20ac', '\ud800', '\x00', 'a\nb', '\r\nX: y', '"', '"\\', ',' * 50, ';' * 50, '(' * 40, '9' * 5000, '<script>', '=', ' ', '*', '%']
POOLS['req.header'] = POOLS['resp.header'] = [(n, v) for n in HEADER_NAMES for v in HEADER_VALUES[:6]] + [('X', v) for v in HEADER_VALUES]
SMALL = {k: v if len(v) <= 14 else v[::max(1, len(v) // 12)] for k, v in POOLS.items()}
SLOTS = sorted(POOLS)

EXTREME = ['', '0', '9' * 30, '9' * 5000, D, 'Sun, 06 Nov 1994 08:49:37 GMT, x', 'Mon, 01 Jan 0001 00:00:00 GMT', 'Wed Feb 29 23:59:59 9999', D2, '*', '"a"', 'a', ',', '\xff']
COMBOS = ['Age', 'Date', 'Expires', 'Last-Modified', 'Cache-Control', 'Warning', 'Content-Type', 'Content-Encoding', 'Location', 'Content-Location', 'ETag',
          'Vary', 'Connection', 'Transfer-Encoding', 'Content-Length', 'Upgrade', 'Range', 'If-Range', 'Host', 'Via', 'Allow', 'Trailer', 'HTTPolice-Silence',
          'Prefer', 'Preference-Applied', 'WWW-Authenticate', 'Authorization', 'Link', 'Content-Disposition', 'Strict-Transport-Security', 'Pragma', 'TE',
          'Forwarded', 'Alt-Svc', 'If-None-Match', 'If-Modified-Since', 'Retry-After', 'Content-Range', 'Accept', 'Expect', 'Referer', 'User-Agent']

TYPES = ['application/json', 'application/problem+json; charset=utf-16', 'text/xml', 'application/xhtml+xml; charset=utf-7', 'application/x-www-form-urlencoded',
         'multipart/form-data; boundary=x', 'multipart/mixed', 'multipart/byteranges; boundary=" "', 'multipart/form-data; boundary=""', 'text/html; charset=hex', 'text/plain; charset=',
         'text/plain; charset=idna', 'text/plain; charset=undefined', 'text/plain; charset="a\x00b"', 'application/json; charset=utf-32', 'a/b',
         'text/plain; charset=unicode_escape', 'text/plain; charset=punycode', 'text/plain; charset=raw_unicode_escape', 'application/json; charset=zlib',
         'text/plain; charset=utf-8-sig', 'text/plain; charset=mbcs', 'multipart/mixed; boundary=\xff', 'multipart/mixed; boundary*=utf-8\'\'x',
         "multipart/mixed; boundary*0=x; boundary*1*=%zz", 'multipart/digest; boundary=x', 'MULTIPART/RELATED; boundary=x', 'message/rfc822', 'x', '']
BODIES = [
    b'', b'{}', b'[' * 5000, b'[' * 100000, b'1' * 5000, b'1e999', b'"\\ud800"', b'{"a": "\\ud800\\u0000"}', b'\xff', b'\xff\xfe{\x00}\x00', b'nan', b'-',
    b'\xef\xbb\xbf{}', b'<a>', b'<a/>', b'<?xml version="1.0" encoding="cp037"?><a/>', b'<?xml version="1.0" encoding="x"?><a/>',
    b'<?xml version="1.0" encoding="utf-7"?><a/>', b'<?xml version="1.0" encoding="utf-16"?><a/>', b'<?xml version="1.0" encoding="hex"?><a/>',
    b'<?xml version="1.0" encoding="big5"?><a>\xa4</a>', b'<?xml version="1.0" encoding="idna"?><a/>', b'<?xml version="1.0" encoding="utf-8" standalone="x"?><a/>',
    b'<!DOCTYPE a [<!ENTITY b "c">]><a>&b;</a>', b'<!DOCTYPE a SYSTEM "x"><a/>', b'<!DOCTYPE a [<!ENTITY % b SYSTEM "file:///x"> %b;]><a/>',
    b'<a>' * 3000, b'<a \x00/>', b'a=b&c=%ff&d', b'&&==;', b'%', b'access_token=\x00',
    b'--x\r\n\r\n\r\n--x--', b'--x', b'--x\r\nContent-Type: multipart/mixed; boundary=y\r\n\r\n--y\r\n\r\n--y--\r\n--x--', b'--x\r\n: \xff\r\n\r\n',
    b'--x\r\nContent-Range\r\n\r\n', b'--\r\n\r\n', b'--x\r\nContent-Type: multipart/x\r\nContent-Transfer-Encoding: base64\r\n\r\n=\r\n--x--',
    b'--x\r\nContent-Type: message/rfc822\r\n\r\n--x--', b'\xff\x00' * 600, b'x' * 1001, 'U', None]
CODINGS = [None, 'gzip', 'deflate', 'br', 'gzip, gzip', 'x', 'gzip, x', 'identity', 'gzip;', '\xff', 'compress']


def shards(tier):
    return [['slots', n] for n in range(len(CONTEXTS))] + [['pairs', a, b] for a, b in itertools.combinations(SLOTS, 2)] + \
        [['header', n] for n in sorted(hs.SPACE)] + [['combos', n] for n in COMBOS] + [['bodies', n] for n in range(len(TYPES))]


def cases(shard, tier):
    kind = shard[0]
    if kind == 'slots':
        for slot in SLOTS:
            for n in range(len(POOLS[slot])):
                yield ('slots', shard[1], [(slot, n)])
    elif kind == 'pairs':
        a, b = shard[1:]
        pools = POOLS if tier == 'thorough' else SMALL
        for ctx in (0, 4) if tier == 'thorough' else (0,):
            for x in pools[a]:
                for y in pools[b]:
                    yield ('slots', ctx, [(a, POOLS[a].index(x)), (b, POOLS[b].index(y))])
    elif kind == 'header':
        name = shard[1]
        done = set()
        n = 3 if tier == 'thorough' else 2
        source = itertools.chain(hs.seeds(name), hs.sequences(name, n), *(
            [hs.edits(s, 'quick') for s in hs.seeds(name)] if tier == 'thorough' else []))
        for v in source:
            if v not in done:
                done.add(v)
                yield ('header', name, v)
        for v in HEADER_VALUES:
            yield ('header', name, v)
    elif kind == 'combos':
        a = shard[1]
        ext = [x for x in EXTREME if len(x) < 1000] if tier == 'thorough' else [EXTREME[i] for i in (2, 8, 9, 13)]
        for b in COMBOS:
            if b < a:
                continue
            vs_a = [hs.seeds(a)[0]] + [v.encode('latin-1') for v in ext]
            vs_b = [hs.seeds(b)[0]] + [v.encode('latin-1') for v in ext]
            for x in vs_a:
                for y in vs_b:
                    yield ('combo', a, x, b, y)
    else:
        for b in range(len(BODIES)):
            for c in range(len(CODINGS)):
                yield ('body', shard[1], b, c)


def run(ctx, case):
    kind = case[0]
    if kind == 'slots':
        req, resps = CONTEXTS[case[1]]
        req = None if req is None else dict(req)
        resps = [dict(r) for r in resps]
        for slot, n in case[2]:
            value = POOLS[slot][n]
            side, _, key = slot.partition('.')
            if slot in ('method', 'target', 'scheme'):
                side, key = 'req', slot
            elif slot in ('status', 'reason', 'remark'):
                side, key = 'resp', slot
            for m in ([req] if req is not None else []) if side == 'req' else resps:
                if key == 'header':
                    m['headers'] = list(m.get('headers', [])) + [value]
                else:
                    m[key] = value
        execute(ctx, req, resps, (case[1],) + tuple(s for s, _ in case[2]))
    elif kind == 'header':
        _, name, value = case
        execute(ctx, {'headers': STD + [(name, value)]}, [{'headers': [(name, value)], 'body': b'x'}], name)
    elif kind == 'combo':
        _, a, x, b, y = case
        pair = [(a, x), (b, y)]
        execute(ctx, {'headers': STD + pair, 'target': 'http://h/?access_token=1'}, [{'headers': pair, 'body': b'x'}], (a, b))
    else:
        _, t, b, c = case
        body, coding = BODIES[b], CODINGS[c]
        headers = [('Content-Type', TYPES[t])]
        if coding is not None:
            headers.append(('Content-Encoding', coding))
        if isinstance(body, bytes) and coding in ('gzip', 'deflate'):
            z = zlib.compressobj(9, zlib.DEFLATED, 31 if coding == 'gzip' else 15)
            body = z.compress(body) + z.flush()
        execute(ctx, {'method': 'POST', 'headers': STD + headers, 'body': body},
                [{'status': s, 'headers': headers, 'body': body} for s in (200, 206)], t)


def execute(ctx, req, resps, label):
    import httpolice
    e = build.exchange(req, resps)
    ctx.step(4)
    httpolice.check_exchange(e)
    t = obs.text([e])
    h = obs.html([e])
    t.decode('utf-8')
    h.decode('utf-8')
    n = obs.notices(e)
    ctx.state((label, n))
    ctx.outcome(sum(len(v) for v in n.values()))
