"""C25: bodies are checked against their declared type."""

import itertools

from mc import conn, corpus, rulecheck
from mc.ref import codings

ID = 'C25'
CLAIMED = True
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of short bodies over a token alphabet of each format, times media types, charsets, content codings and message contexts; the notices of '
             'every message are compared with independent recognisers of JSON, XML, forms and multipart')
NOTE = '''All token sequences up to a bound for JSON, XML, URL-encoded forms and multipart are put into requests and responses under every media type, charset,
content coding and status; the notices about bodies must be exactly those of recognisers written from the specifications of the formats.'''
ASSUMPTIONS = ['Python codecs decode the charsets of the space correctly', 'XML in encodings other than UTF-8, UTF-16, ISO-8859-1, US-ASCII and windows-1252 is not judged',
               'the bytes ":;<>?" in URL-encoded forms are not judged', 'charset names are those of the IANA registry; multipart bodies use CRLF, and boundaries have no quoted pairs']
BOUNDS = {
    'quick': 'JSON: sequences of <=3 of 24 tokens (4 of 14); XML: <=3 of 31 tokens, also within an element; forms: all bytes, pairs of 40; multipart: <=4 of 9 lines x 8 Content-Types; '
             '31 media types x 12 charsets x 20 bodies x 9 codings x 14 contexts',
    'thorough': 'JSON: <=4 tokens (5 of 14); XML: <=4 tokens; forms: all pairs of bytes; multipart: <=6 lines'}
MIN_STATES = 60
CASE_TIMEOUT = 600
SCOPE = frozenset([1035, 1036, 1037, 1038, 1039, 1040, 1041, 1042, 1139, 1140, 1213, 1214, 1215, 1227, 1275, 1280, 1281, 1282])

JSON = ['{', '}', '[', ']', ',', ':', '"a"', '""', '1', '-', '0', '.5', 'e1', 'true', 'null', 'NaN', '-Infinity', ' ', '\n', '"\\n\\u00e9"', '"\\x"', "'a'", '"\t"', '\xe9', '//', '\x0b']
JSON = [t.encode('utf-8') for t in JSON if t not in ('//', '\x0b')]
CORE = [b'{', b'}', b'[', b']', b',', b':', b'"a"', b'1', b'-', b'.5', b'e1', b'true', b'NaN', b' ']
XML = ['<a>', '</a>', '<b/>', '<b c="d" >', '</b>', "<b c='1' c=\"2\"/>", 'x', ' ', '&amp;', '&x;', '&#65;', '&#0;', '&', '<!-- x -->', '<!-- -- -->', '<![CDATA[<&]]>', ']]>', '<?p q?>', '<?xml version="1.0"?>',
       '<?xml version="1.0" encoding="utf-8"?>', '<', '>', '\xe9', '\x01', '<!DOCTYPE a>', '<!DOCTYPE a [<!ENTITY x "y">]>', '<p:b/>', '<p:b xmlns:p="u"/>', '<b c="<"/>', '<b c="&lt;&#x41;"/>', '<b c=d/>', '<A/>']
XML = [t.encode('utf-8') for t in XML]
SMALL_XML = [t for t in XML if len(t) < 18][:16]
FORM = list(b'a=&+%*-._ /"\'(){}[]\\|!@$#^~`,\n\r\t\x00\x7f\x80\xffZ09')
LINES = [b'--xy', b'--xy--', b'--xy ', b'--xyz', b'', b'a: b', b'x', b'--', b' --xy', b'--xy\t']
MULTIPART = ['multipart/mixed; boundary=xy', 'multipart/form-data; boundary="xy"', 'Multipart/Related; Boundary=xy', 'multipart/x; a=b; boundary=xy', 'multipart/mixed', 'multipart/mixed; boundary=z', 'multipart/mixed; boundary="x y"',
             'text/plain; boundary=xy']
TYPES = ['application/json', 'Application/JSON', 'application/problem+json', 'application/x+json', 'text/json', 'application/json-seq', 'application/jsonp', 'application/json-patch+json', 'application/merge-patch+json',
         'application/xml', 'text/xml', 'application/xhtml+xml', 'image/svg+xml', 'application/xml-dtd', 'application/xml-patch+xml', 'application/problem+xml', 'text/html', 'text/plain', 'plain/text', 'application/text',
         'application/x-www-form-urlencoded', 'Application/X-WWW-Form-URLEncoded', 'multipart/mixed', 'multipart/form-data; boundary=xy', 'application/octet-stream', 'text/event-stream', 'audio/vnd.qcelp', 'application/vnd.api+JSON',
         'foo/bar', 'json', 'text/javascript']
CHARSETS = [None, 'utf-8', 'UTF-8', '"utf-8"', 'us-ascii', 'iso-8859-1', 'Latin1', 'windows-1252', 'utf-16', 'utf-16le', 'x-unknown', 'utf8']
BODIES = [b'', b'{}', b'{', b'["\xc3\xa9"]', b'["\xe9"]', '{"a": 1}'.encode('utf-16'), '[]'.encode('utf-16-le'), '["\xe9"]'.encode('utf-16-be'), b'<a/>', b'<a>\xc3\xa9</a>', b'<a>\xe9</a>', '<a>\xe9</a>'.encode('utf-16'), b'\xef\xbb\xbf<a/>',
          b'<?xml version="1.0" encoding="iso-8859-1"?><a>\xe9</a>', b"<?xml version='1.0' encoding='x-unknown'?><a/>", b'<!DOCTYPE a [<!ENTITY b "c">]><a>&b;</a>', b'a=b&c=%41', b'a=b c', b'--xy\r\n\r\nx\r\n--xy--', b'\xff\xfe\xff',
          b'NaN', b'\xef\xbb\xbf{}', b'<a>\x93</a>', b'["\x93"]']


def coded(names, body):
    for n in names:
        body = codings.ENCODE[n](body)
    return body


CODINGS = [(None, lambda b: b), ('gzip', lambda b: coded(['gzip'], b)), ('GZip, br', lambda b: coded(['gzip', 'br'], b)), ('deflate', lambda b: coded(['deflate'], b)), ('gzip', lambda b: b), ('gzip', lambda b: coded(['gzip'], b)[:-1]),
           ('foo', lambda b: b), ('identity', lambda b: b), ('foo, gzip', lambda b: coded(['gzip'], b)), ('gzip, foo', lambda b: b), ('x-gzip', lambda b: coded(['gzip'], b)), ('br', lambda b: coded(['br'], b)[:-1]), ('"', lambda b: b),
           ('deflate, deflate', lambda b: coded(['deflate'] * 2, b)), ('gzip', lambda b: coded(['gzip'], b) + coded(['gzip'], b''))]
DATE = ('Date', 'Thu, 31 Dec 2015 18:26:56 GMT')
STATUSES = [200, 201, 204, 206, 304, 404, 415, 500, 100, 103]


def shards(tier):
    return ([['json', i] for i in range(-1, len(JSON))] + [['xml', i] for i in range(-1, len(XML))] + [['within', i] for i in range(len(XML))] + [['form', i] for i in range(8)] + [['multipart', i] for i in range(-1, len(LINES))] +
            [['context', i] for i in range(len(TYPES))] + [['patch', i] for i in range(len(TYPES))] + [['corpus', i] for i in range(8)])


CHUNK = 40


def batches(values, n=CHUNK):
    batch = []
    for v in values:
        batch.append(v)
        if len(batch) == n:
            yield batch
            batch = []
    if batch:
        yield batch


def starting(first, tokens, n):
    yield first
    for k in range(1, n):
        for more in itertools.product(tokens, repeat=k):
            yield first + b''.join(more)


def cases(shard, tier):
    kind, i = shard
    deep = tier == 'thorough'
    if kind == 'json':
        bodies = starting(JSON[i], JSON, 4 if deep else 3) if i >= 0 else [b'']
        if i >= 0 and JSON[i] in CORE:
            bodies = itertools.chain(bodies, starting(JSON[i], CORE, 5 if deep else 4))
        for b in batches(dict.fromkeys(bodies), 250):
            yield (kind, b)
    elif kind == 'xml':
        for b in batches(dict.fromkeys(starting(XML[i], XML, 4 if deep else 3)) if i >= 0 else [b''], 250):
            yield (kind, b)
    elif kind == 'within':
        for b in batches(dict.fromkeys(b'<a>%s</a>' % x for x in starting(XML[i], XML, 4 if deep else 3)), 250):
            yield ('xml', b)
    elif kind == 'form':
        for x in range(256):
            if x % 8 == i and x not in b':;<>?':
                more = [y for y in range(256) if y not in b':;<>?'] if deep else FORM
                yield (kind, [bytes([x])] + [bytes([y, x]) for y in more if deep or x in FORM] + [b'a=' + bytes([x]) + b'b&c'])
    elif kind == 'multipart':
        for b in batches(starting(LINES[i] + b'\r\n', [x + b'\r\n' for x in LINES], 6 if deep else 4) if i >= 0 else [b'', b'\r\n']):
            yield (kind, b)
    elif kind == 'context':
        for c in range(len(CHARSETS)):
            for e in range(len(CODINGS)):
                yield (kind, i, c, e)
    elif kind == 'patch':
        yield (kind, i)
    else:
        for k in range(len(corpus.load(10 ** 5))):
            if k % 8 == i:
                yield (kind, k)


def check(ctx, req, resps):
    rulecheck.compare(ctx, req, resps, SCOPE)


finish = rulecheck.finisher(SCOPE)


def run(ctx, case):
    kind = case[0]
    if kind == 'x':
        check(ctx, case[1], case[2])
    elif kind in ('json', 'xml', 'form'):
        ct = {'json': 'application/json', 'xml': 'application/xml', 'form': 'application/x-www-form-urlencoded'}[kind]
        check(ctx, {}, [{'headers': [('Content-Type', ct)], 'body': b} for b in case[1]])
        # The same as request bodies, a few of them
        for b in case[1][::25 if kind != 'form' else 5]:
            check(ctx, {'method': 'POST', 'headers': [('Host', 'a'), ('User-Agent', 'x'), ('Content-Type', ct), ('Content-Length', str(len(b)))], 'body': b}, [])
            check(ctx, {'method': 'POST'}, [{'status': 500, 'headers': [('Content-Type', {'json': 'application/problem+json', 'xml': 'image/svg+xml', 'form': 'text/plain'}[kind])], 'body': b}])
    elif kind == 'multipart':
        for ct in MULTIPART:
            check(ctx, {}, [{'headers': [('Content-Type', ct)], 'body': x} for b in case[1] for x in ((b, b[:-2]) if ct in MULTIPART[:2] else (b,))])
    elif kind == 'context':
        _, i, c, e = case
        ct = TYPES[i] + ('' if CHARSETS[c] is None else ';charset=%s' % CHARSETS[c])
        name, encode = CODINGS[e]
        headers = [('Content-Type', ct)] + ([('Content-Encoding', name)] if name else [])
        bodies = [encode(b) for b in BODIES]
        kinds = [{'status': 200, 'headers': headers, 'body': b} for b in bodies]
        check(ctx, {}, kinds)
        if e < 2 or c == 0:
            some = [{'status': s, 'headers': headers + more, 'body': b} for s in STATUSES for b in (bodies[2], b'', 'U', None) for more in ([],) if b in (b'', 'U', None) or s not in (204, 304, 100, 103)]
            check(ctx, {'method': 'GET', 'headers': [('Host', 'a'), ('User-Agent', 'x'), ('Range', 'bytes=0-0')]}, some)
            check(ctx, {'method': 'HEAD'}, [dict(k, body=b'') for k in kinds[:1]] + some[1::4])
            check(ctx, None, some)
            for b in bodies if c < 2 else bodies[:4]:
                check(ctx, {'method': 'POST', 'headers': [('Host', 'a'), ('User-Agent', 'x')] + headers + [('Content-Length', str(len(b)))], 'body': b}, [])
            for version in ('HTTP/1.1', 'HTTP/1.0', 'HTTP/2', None):
                for framing in ([], [('Content-Length', '0')], [('Transfer-Encoding', 'chunked')]):
                    for b in (b'', None, 'U'):
                        check(ctx, {'method': 'POST', 'version': version, 'headers': [('Host', 'a'), ('User-Agent', 'x')] + headers + framing, 'body': b}, [])
                        check(ctx, {'method': 'GET', 'version': version, 'headers': [('Host', 'a'), ('User-Agent', 'x')] + headers + framing, 'body': b}, [])
            check(ctx, {}, [{'headers': headers + [('Content-Encoding', 'gzip')], 'body': codings.gz(b)} for b in bodies])
            check(ctx, {}, [{'headers': [('Content-Encoding', 'gzip, br')] + headers, 'body': b} for b in bodies[:4]])
            check(ctx, {}, [{'headers': [('Content-Type', 'text/plain')] + headers, 'body': b} for b in bodies])
            check(ctx, {}, [{'headers': headers[1:], 'trailers': headers[:1], 'body': b} for b in bodies[:4]])
    elif kind == 'patch':
        i = case[1]
        for params in ('', ';charset=utf-8', '; a=b; A=c', ';charset=utf-8; charset=x'):
            for m in ('PATCH', 'PUT', 'patch'):
                check(ctx, {'method': m, 'headers': [('Host', 'a'), ('User-Agent', 'x'), ('Content-Type', TYPES[i] + params), ('Accept', 'text/json, plain/text'[:9 + i])], 'body': b'{}'},
                      [{'status': s, 'headers': h, 'body': b} for s in (200, 204, 415, 400, 201) for h in ([], [('Accept-Patch', TYPES[i] + params)], [('Accept-Patch', 'text/json, ' + TYPES[i])], [('Accept-Post', TYPES[i])])
                       for b in ((b'', b'x') if s != 204 else (b'',))])
            check(ctx, {'method': 'PATCH', 'headers': [('Content-Type', TYPES[i] + params), ('Host', 'a')], 'body': b''}, [{'status': 200}, {'status': 415}])
            check(ctx, {}, [{'headers': [('Link', '<a>; rel=x; type="%s"' % TYPES[i])], 'body': b'x'}, {'headers': [('Link', '<a>; rel=x; type=text/plain; type="%s"' % TYPES[i])]}])
    else:
        _, scheme, i, o = corpus.load(10 ** 5)[case[1]]
        for e in conn.parse(i, o, scheme):
            req = e.request and rulecheck.data_of(e.request, True)
            resps = [rulecheck.data_of(r, False) for r in e.responses]
            if not rulecheck.silenced(req, resps) and (req or resps):
                for ct in ('application/json', 'application/xml', 'application/x-www-form-urlencoded', 'multipart/mixed; boundary=xy', None):
                    for ce in ('gzip', None):
                        new = [(n, v) for n, v in (('Content-Type', ct), ('Content-Encoding', ce)) if v]
                        swap = lambda d: dict(d, headers=[h for h in d['headers'] if h[0].lower() not in ('content-type', 'content-encoding')] + new)
                        check(ctx, req and swap(req), [swap(r) for r in resps])
