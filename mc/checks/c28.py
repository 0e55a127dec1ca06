"""C28: conditional and range requests."""

import itertools

from mc import conn, corpus, rulecheck

ID = 'C28'
CLAIMED = True
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of combinations of preconditions, ranges, validators, statuses and multipart bodies; the notices of every exchange are compared '
             'with an independent executable model of the rules for conditional and range requests')
NOTE = '''Every set of up to three preconditions, with every range and method, is combined with every status and set of validators; partial responses with every
Content-Range, multipart body and metadata. The notices about them must be exactly those of the model.'''
ASSUMPTIONS = ['multipart bodies use CRLF line ends', 'URIs of requests and responses are simple ones']
BOUNDS = {
    'quick': 'sets of <=2 (GET, HEAD: <=3) of 23 preconditions x 8 methods x 9 statuses x 11 validator sets; range sets of <=2 of 14 specs x If-Range x 16 partial responses; '
             'Content-Range of 7 x 7 x 6 numbers; multipart bodies of <=3 of 7 parts; the corpus',
    'thorough': 'sets of <=3 preconditions for all methods x all validator sets; range sets of <=3; multipart bodies of <=4 parts'}
MIN_STATES = 300
CASE_TIMEOUT = 600
SCOPE = frozenset([1013, 1041, 1053, 1055, 1063, 1064, 1118, 1120, 1121, 1122, 1123, 1124, 1125, 1127, 1128, 1129, 1130, 1131, 1132, 1133, 1134, 1135, 1136, 1137, 1138, 1141, 1142, 1143,
                   1144, 1145, 1146, 1147, 1148, 1149, 1150, 1200, 1058])

OLDER, EQUAL, NEWER = ['Thu, 31 Dec 2015 18:%s GMT' % x for x in ('26:55', '26:56', '26:57')]
BROKEN = 'Thu, 31 Dec 2015 18:26 GMT'
EQUAL850, EQUAL_ASC = 'Thursday, 31-Dec-15 18:26:56 GMT', 'Thu Dec 31 18:26:56 2015'
PRE = ([('If-Match', v) for v in ('"a"', 'W/"a"', '*', '"b", W/"c"', 'a')] + [('If-None-Match', v) for v in ('"a"', 'W/"a"', '*', '"b", W/"a"', '"b"', 'w/"a"')] +
       [('If-Modified-Since', v) for v in (OLDER, EQUAL, NEWER, BROKEN, EQUAL850)] + [('If-Unmodified-Since', v) for v in (EQUAL, BROKEN)] +
       [('If-Range', v) for v in ('"a"', 'W/"a"', EQUAL)] + [('If', '(["a"])'), ('If-Schedule-Tag-Match', '"a"')])
REPEATED = [[('If-Match', '"a"'), ('If-Match', 'W/"b"')], [('If-Match', '*'), ('If-Match', 'W/"b"')], [('If-None-Match', '"b"'), ('If-None-Match', 'W/"a"')], [('If-None-Match', '*'), ('If-None-Match', '"a"')],
            [('If-None-Match', '"a'), ('If-None-Match', '"a"')], [('If-Modified-Since', OLDER), ('If-Modified-Since', NEWER)], [('If-Range', '"a"'), ('If-Range', 'W/"a"')],
            [('Overwrite', 'F')], [('if-none-match', '"a"')], [('If-None-Match', '"*"')], [('If-None-Match', '')], [('If-Match', ',')]]
METHODS = ['GET', 'HEAD', 'PUT', 'POST', 'OPTIONS', 'CONNECT', 'TRACE', 'FOO']
STATUSES = [200, 204, 206, 304, 412, 416, 428, 404, 103]
VALIDATORS = [[], [('ETag', '"a"')], [('ETag', 'W/"a"')], [('ETag', '"b"')], [('ETag', 'a')], [('Last-Modified', OLDER)], [('Last-Modified', EQUAL)], [('Last-Modified', NEWER)], [('Last-Modified', BROKEN)],
              [('ETag', '"a"'), ('Last-Modified', EQUAL)], [('ETag', '"b"'), ('Last-Modified', EQUAL)]]
MORE_STATUSES = [201, 202, 203, 205, 300, 301, 307, 308, 400, 401, 405, 409, 410, 415, 500, 501, 503, 101, 100, 226, 299]
SPECS = ['0-0', '1-0', '5-', '-3', '0-', '-0', '10-9', '9-10', '99999999999999999999-5', '5-99999999999999999999', 'x', '-', '007-6', '']
RANGES = [None, 'bytes=0-1', 'bytes=0-1,3-', 'Bytes=5-4', 'bytes=', 'items=1-0', 'items=1', 'x=0-1,5-', 'bytes=0-1,,', 'bytes= 0-1', 'bytes=2-1, 1-2']
IF_RANGE = [None, '"a"', 'W/"a"', '"b"', OLDER, EQUAL, EQUAL850, EQUAL_ASC, 'a']
PART = [
    (206, []), (206, [('Content-Range', 'bytes 0-1/3')]), (206, [('Content-Range', 'bytes 0-1/3'), ('ETag', '"a"')]), (206, [('Content-Range', 'bytes 0-1/3'), ('ETag', 'W/"a"')]),
    (206, [('Content-Range', 'bytes 0-1/3'), ('ETag', '"b"'), ('Last-Modified', EQUAL)]), (206, [('Content-Range', 'bytes 0-1/3'), ('Content-Type', 'text/plain')]),
    (206, [('Content-Range', 'x 7'), ('Content-Location', '/')]), (206, [('Content-Type', 'multipart/byteranges; boundary=xy')]),
    (206, [('Content-Type', 'Multipart/ByteRanges; boundary=xy'), ('Content-Range', 'bytes 0-1/3')]), (206, [('Content-Type', 'multipart/mixed; boundary=xy')]),
    (206, [('Content-Range', 'bytes */3')]), (416, []), (416, [('Content-Range', 'bytes */3')]), (416, [('Content-Range', 'bytes 0-1/3')]), (200, [('Content-Range', 'bytes 0-1/3')]), (200, [])]
META = [[], [('ETag', '"a"')], [('ETag', 'W/"a"')], [('Content-Location', '/')], [('Content-Location', 'http://example.com/')], [('Content-Location', '/b')], [('Last-Modified', EQUAL)],
        [('Content-Type', 'text/plain')], [('Content-Encoding', 'gzip')], [('Content-Language', 'en')], [('Date', EQUAL), ('Last-Modified', NEWER)], [('Date', EQUAL), ('Last-Modified', EQUAL)],
        [('Vary', '*')], [('Cache-Control', 'max-age=5')], [('Expires', EQUAL)], [('Accept-Ranges', 'bytes')], [('Range', 'bytes=1-0')], [('If-Match', '"a"')], [('If-Range', '"a"')],
        [('Content-MD5', 'Q2hlY2sgSW50ZWdyaXR5IQ==')], [('Content-Length', '5')]]
NUMBERS = ['0', '1', '4', '5', '007', '99999999999999999998', '99999999999999999999']
TOTALS = ['*', '0', '5', '6', '99999999999999999999', 'x']
PARTS = ['Content-Type: text/plain\r\nContent-Range: bytes 0-1/5\r\n\r\nab', 'Content-Range: bytes 0-1/5\r\n\r\nab', 'Content-Type: text/plain\r\n\r\nab', '\r\nab',
         'content-type:text/plain\r\ncontent-range:\r\n bytes 2-3/5\r\n\r\ncd', 'X-Content-Range: 1\r\nETag: "a"\r\n\r\nContent-Type: a/b', 'Content-Range: x\r\nContent-Type: text/html\r\n\r\n--xy-\r\n--x']
CONTENT_TYPES = ['multipart/byteranges; boundary=xy', 'multipart/byteranges;BOUNDARY="xy"', 'multipart/byteranges', 'multipart/mixed; boundary=xy', 'multipart/byteranges; a=b; boundary=zz']


def combos(values, n):
    for k in range(n + 1):
        yield from itertools.combinations(values, k)


def shards(tier):
    out = [['pre', m, i] for m in METHODS for i in range(-1, len(PRE))] + [['repeated', m] for m in METHODS] + [['any', m] for m in METHODS]
    out += [['range', i] for i in range(len(SPECS))] + [['if-range', i] for i in range(len(RANGES))] + [['content-range', i] for i in range(len(NUMBERS))]
    out += [['multipart', i] for i in range(-1, len(PARTS))] + [['meta', i] for i in range(len(META))] + [['corpus', i] for i in range(8)]
    return out


def cases(shard, tier):
    kind, i = shard[0], shard[-1]
    if kind == 'pre':
        method = shard[1]
        if i < 0:
            yield ('pre', method, [], tier)
            return
        n = 2 if method in ('GET', 'HEAD') or tier == 'thorough' else 1
        for more in combos(PRE[i + 1:], n):
            if len({n for n, _ in more} | {PRE[i][0]}) == len(more) + 1:
                yield ('pre', method, [PRE[i]] + list(more), tier)
    elif kind == 'repeated':
        for fields in REPEATED:
            yield ('pre', i, fields, 'thorough')
    elif kind == 'any':
        for p in range(-1, len(PRE)):
            yield ('any', i, p)
    elif kind == 'range':
        for more in combos(SPECS, 1 if tier == 'quick' else 2):
            yield ('range', [SPECS[i]] + list(more))
    elif kind == 'if-range':
        for c in IF_RANGE:
            yield ('if-range', RANGES[i], c)
    elif kind == 'content-range':
        for last, total in itertools.product(NUMBERS, TOTALS):
            yield ('content-range', NUMBERS[i], last, total)
    elif kind == 'multipart':
        if i < 0:
            yield ('multipart', [])
            return
        for k in range(3 if tier == 'quick' else 4):
            for more in itertools.product(range(len(PARTS)), repeat=k):
                yield ('multipart', [i] + list(more))
    elif kind == 'meta':
        for j in range(i, len(META)):
            yield ('meta', i, j)
    else:
        for k in range(len(corpus.load(10 ** 5))):
            if k % 8 == i:
                yield ('corpus', k)


def respond(kinds, body=b'x'):
    return [{'status': s, 'headers': h, 'body': b'' if s in (204, 304) or s < 200 else body} for s, h in kinds]


def ask(method, fields):
    return {'method': method, 'target': {'CONNECT': 'a:1'}.get(method, '/'), 'headers': [('Host', 'example.com'), ('User-Agent', 'x')] + [tuple(f) for f in fields]}


def check(ctx, req, resps):
    rulecheck.compare(ctx, req, resps, SCOPE)


finish = rulecheck.finisher(SCOPE)


def run(ctx, case):
    kind = case[0]
    if kind == 'x':
        check(ctx, case[1], case[2])
    elif kind == 'pre':
        _, method, fields, tier = case
        # Validators only matter for a successful response
        kinds = [(s, v) for s in STATUSES for v in VALIDATORS if s in (200, 206, 304) or v in VALIDATORS[:2]]
        if tier == 'quick' and len(fields) == 3:
            kinds = [(s, v) for s, v in kinds if s in (200, 304, 412) and len(v) < 2 or s == 428]
        check(ctx, ask(method, fields), respond(kinds))
        if len(fields) < 2:
            check(ctx, ask(method, fields + [('Range', 'bytes=0-1')]), respond(kinds))
            check(ctx, ask(method, fields + [('Range', 'bytes=0-1'), ('Content-Range', 'bytes 0-1/3'), ('Content-Type', 'text/plain')]), respond(kinds))
            check(ctx, dict(ask(method, fields), body=b'x'), respond(kinds[::4]))
            check(ctx, dict(ask(method, []), trailers=fields), respond(kinds[::4]))
    elif kind == 'any':
        _, method, p = case
        fields = [PRE[p]] if p >= 0 else []
        check(ctx, ask(method, fields), respond([(s, v) for s in MORE_STATUSES for v in VALIDATORS]))
        check(ctx, ask(method, fields), respond([(s, v) for s in MORE_STATUSES for v in VALIDATORS[:2]], b''))
    elif kind == 'range':
        value = 'bytes=' + ','.join(case[1])
        for m in ('GET', 'PUT'):
            check(ctx, ask(m, [('Range', value)]), respond(PART))
        check(ctx, None, respond([(s, h + [('Range', value)]) for s, h in PART[:4]]))
        check(ctx, ask('GET', [('Range', 'bytes=0-0'), ('Range', value)]), respond(PART[6:8]))
        check(ctx, dict(ask('GET', []), trailers=[('Range', value)]), respond(PART[6:8]))
    elif kind == 'if-range':
        _, rng, cond = case
        fields = [(n, v) for n, v in (('Range', rng), ('If-Range', cond)) if v is not None]
        for m in METHODS:
            check(ctx, ask(m, fields), respond(PART))
            check(ctx, ask(m, fields), respond(PART, b''))
        check(ctx, ask('GET', fields), respond([(206, h + more) for s, h in PART if s == 206 for more in META]))
        check(ctx, ask('GET', fields + [('If-Match', '"a"')]), respond(PART))
    elif kind == 'content-range':
        _, first, last, total = case
        for unit in ('bytes %s-%s/%s', 'BYTES %s-%s/%s', 'items %s-%s/%s', 'bytes=%s-%s/%s', 'bytes  %s-%s/%s'):
            v = unit % (first, last, total)
            check(ctx, ask('GET', [('Range', 'bytes=0-1')]), respond([(s, [('Content-Range', v)]) for s in (200, 206, 416, 304, 404, 503)]))
            check(ctx, ask('PUT', [('Content-Range', v)]), respond([(200, []), (206, []), (204, []), (404, [])]))
            check(ctx, None, respond([(206, [('Content-Range', 'bytes 0-1/3'), ('Content-Range', v)]), (103, [('Content-Range', v)])]))
    elif kind == 'multipart':
        text = '\r\n'.join('--xy\r\n' + PARTS[k] for k in case[1])
        bodies = [text + '\r\n--xy--\r\n', text + '\r\n--xy--', 'preamble\r\n' + text + '\r\n--xy-- \t\r\nepilogue\r\n--xy\r\n\r\nz', text]
        if not case[1]:
            del bodies[2]       # A delimiter that only occurs after the closing delimiter
        for ct in CONTENT_TYPES:
            kinds = [{'status': s, 'headers': [('Content-Type', ct)] + more, 'body': b.encode()}
                     for s in (206, 200) for more in ([], [('Content-Encoding', 'foo')]) for b in (bodies if s == 206 and not more else bodies[:1])]
            check(ctx, ask('GET', [('Range', 'bytes=0-1, 3-4')]), kinds)
            if len(case[1]) < 3:
                check(ctx, ask('GET', [('Range', 'bytes=0-1')]), kinds)
                check(ctx, ask('HEAD', [('Range', 'bytes=0-1')]), kinds)
                check(ctx, None, kinds)
    elif kind == 'meta':
        _, i, j = case
        fields = META[i] + META[j]
        kinds = [(s, fields) for s in (200, 206, 304, 412, 103, 203, 204, 404, 410, 301)]
        for m, more in (('GET', []), ('GET', [('If-None-Match', '"a"')]), ('GET', [('Range', 'bytes=0-1'), ('If-Range', '"a"')]), ('HEAD', []), ('PUT', [('If-Modified-Since', OLDER)])):
            check(ctx, ask(m, more), respond(kinds))
        check(ctx, dict(ask('PUT', fields), body=b'x'), [])
        check(ctx, None, respond(kinds))
    else:
        _, scheme, i, o = corpus.load(10 ** 5)[case[1]]
        for e in conn.parse(i, o, scheme):
            req = e.request and rulecheck.data_of(e.request, True)
            resps = [rulecheck.data_of(r, False) for r in e.responses]
            if not rulecheck.silenced(req, resps) and (req or resps):
                for p in PRE[::5] + [('Range', 'bytes=0-1')]:
                    for s in (None, 206, 304, 412, 416):
                        check(ctx, req and dict(req, headers=list(req['headers']) + [p]), [dict(r, status=s or r['status']) for r in resps])
