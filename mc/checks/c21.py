"""C21: a HAR file is imported faithfully."""

import base64
import itertools
import json
import os
import shutil
import tempfile

from mc import conn

ID = 'C21'
CLAIMED = True
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of products of values for every HAR field the importer reads x creators, in files of many entries; every imported exchange is compared with an independent '
             'model of the mapping')
NOTE = '''The model states, from the HAR format and the documented quirks of producers, the method, scheme, target, version, fields, status, reason and the three forms of the body; the importer must produce
exactly one exchange per entry, in order, with exactly these values, and treat everything else as unknown.'''
ASSUMPTIONS = ['an empty query ("/?") is not told apart from none', 'text of a body whose encoding is neither absent nor base64 is not used', 'requests without Host keep the full URL as target']
BOUNDS = {
    'quick': 'request side: 7 creators x 6 versions x 5 methods x 14 URLs x 6 sets of fields x 3 sizes x 7 bodies; response side: 7 creators x 3 methods x 8 statuses x 3 x 3 sizes x 12 bodies x 3 sets of fields; '
             'all sequences of <= 3 of 6 kinds of entries in 1 or 2 files',
    'thorough': 'all pairs of request-side and response-side values from reduced alphabets'}
MIN_STATES = 500

CREATORS = ['WebInspector', 'Firefox', 'F12 Developer Tools', 'Fiddler', 'mitmproxy', 'fiddler', '']
VERSIONS = ['HTTP/1.1', 'HTTP/1.0', 'HTTP/2', 'h2', 'unknown', '']
METHODS = ['GET', 'POST', 'CONNECT', 'OPTIONS', 'connect']
# URL: (scheme, authority, target)
URLS = {
    'http://example.com/': ('http', 'example.com', '/'),
    'https://example.com/a/b?c=d&e': ('https', 'example.com', '/a/b?c=d&e'),
    'http://example.com:8080/a#frag': ('http', 'example.com:8080', '/a'),
    'http://example.com/a;b=1/c;d=2?e;f#g?h': ('http', 'example.com', '/a;b=1/c;d=2?e;f'),
    'http://example.com/;x': ('http', 'example.com', '/;x'),
    'http://example.com': ('http', 'example.com', '/'),
    'http://example.com?a': ('http', 'example.com', '/?a'),
    'http://[::1]:80//a//b?c?d': ('http', '[::1]:80', '//a//b?c?d'),
    'http://u:p@example.com/%7Ea%20b': ('http', 'u:p@example.com', '/%7Ea%20b'),
    'HTTP://EXAMPLE.com/A': ('http', 'EXAMPLE.com', '/A'),
    'https://example.com/\u00e9?\u044f': ('https', 'example.com', '/\u00e9?\u044f'),
    'ftp://example.com/x': ('ftp', 'example.com', '/x'),
    'http://example.com/a=http://b.c/d?e=http://f': ('http', 'example.com', '/a=http://b.c/d?e=http://f'),
    'https://example.com:443/?x=/': ('https', 'example.com:443', '/?x=/'),
}
FIELDS = [
    [],
    [('Host', 'example.com'), ('X', 'y')],
    [('a', 'b'), ('host', ''), ('A', 'c'), ('a', 'd')],
    [(':authority', 'example.com'), (':path', '/p'), ('x', ''), (':method', 'M')],
    [(':authority', 'example.com'), ('HOST', 'x'), (':x', 'y'), (':', 'z')],
    [('X-Host', 'example.com'), ('Content-Length', '5'), ('V', '\u00e9')],
]
POST = [None, 'null', {}, {'text': ''}, {'text': 'abc'}, {'text': 'A Fiddler body'}, {'mimeType': 'a/b', 'params': [{'name': 'x', 'value': 'y'}]}]
STATUSES = [0, 100, 200, 204, 299, 304, 404, 999]
B64 = base64.b64encode(b'\xff\x00\nabc').decode()
B64F = base64.b64encode(b'<Fiddler>').decode()
CONTENT = [{}, {'text': ''}, {'text': 'abc'}, {'text': 'Fiddler'}, {'text': B64, 'encoding': 'base64'}, {'text': B64, 'encoding': 'Base64'}, {'text': B64F, 'encoding': 'base64'}, {'text': 'abc=d', 'encoding': 'base64'},
           {'text': B64, 'encoding': ''}, {'text': 'abc', 'encoding': 'utf-8'}, {'text': '', 'encoding': 'base64'}, {'text': '\u044f'}]
RFIELDS = [[('Content-Type', 'text/plain')], [('EndTime', 'x'), ('ClientToServerBytes', '1'), ('ServerToClientBytes', '2'), ('endtime', 'y'), ('B', 'c')], [(':status', '200'), ('Content-Encoding', 'gzip'), ('a', '1'), ('a', '2')]]
BROWSERS = ('WebInspector', 'Firefox', 'F12 Developer Tools')


def request_entry(version, method, url, fields, size, post):
    d = {'method': method, 'url': url, 'httpVersion': version, 'headers': [{'name': n, 'value': v} for n, v in fields], 'bodySize': size, 'cookies': [], 'queryString': [], 'headersSize': -1}
    if post is not None:
        d['postData'] = None if post == 'null' else post
    return d


def response_entry(version, status, reason, fields, size, csize, content):
    return {'status': status, 'statusText': reason, 'httpVersion': version, 'headers': [{'name': n, 'value': v} for n, v in fields], 'bodySize': size, 'content': dict({'size': csize, 'mimeType': 'text/plain'}, **content),
            'redirectURL': '', 'cookies': [], 'headersSize': -1}


def visible(fields):
    return [(n, v) for n, v in fields if n[:1] != ':']


def version_of(creator, version):
    return version if version[:5] == 'HTTP/' and creator not in BROWSERS else None


def model(creator, req, resp):
    """(request facts, response facts or None). A body is (raw, decoded, text), each a value, None, 'U' for unavailable, or '?' for whatever follows from the others."""
    version, method, url, fields, size, post = req
    scheme, authority, target = URLS[url]
    fields = visible(fields)
    if method == 'CONNECT':
        target = authority
    elif not any(n.lower() == 'host' for n, _ in fields):
        target = url
    raw = b'' if size == 0 else 'U' if size > 0 else None
    text = post['text'] if isinstance(post, dict) and post.get('text') else None
    debug = creator == 'Fiddler' and method == 'CONNECT'
    if debug and text and 'Fiddler' in text:
        raw, text = b'', None
    out = (scheme, method, target, version_of(creator, version), fields, (raw, 'derived', text or 'derived'))
    version, status, reason, fields, size, csize, content = resp
    if status == 0:
        return out, None
    fields = visible(fields)
    debug = debug and 200 <= status < 300
    if debug:
        fields = [(n, v) for n, v in fields if n.lower() not in ('endtime', 'clienttoserverbytes', 'servertoclientbytes')]
    if size == 0 or csize == 0 or status == 304:
        raw = b''
    elif creator == 'Firefox':
        raw = None
    else:
        raw = 'U' if size > 0 or csize > 0 else None
    decoded = text = 'derived'
    t = content.get('text')
    if t and status != 304:
        if content.get('encoding', '').lower() == 'base64':
            try:
                data = base64.b64decode(t)
            except ValueError:
                data = None
            if data is not None:
                if debug and b'Fiddler' in data:
                    raw = b''
                else:
                    decoded = data
        elif 'encoding' not in content:
            text = t
    return out, (version_of(creator, version), status, reason, fields, (raw, decoded, text))


def shards(tier):
    out = [['req', c, k] for c in range(len(CREATORS)) for k in range(len(METHODS))] + [['resp', c, k] for c in range(len(CREATORS)) for k in range(3)] + [['seq', n] for n in range(6)]
    if tier == 'thorough':
        out += [['both', c, k] for c in range(len(CREATORS)) for k in range(len(METHODS))]
    return out


def cases(shard, tier):
    if shard[0] == 'seq':
        for k in range(3):
            for s in itertools.product(range(6), repeat=k):
                yield ('seq', [shard[1]] + list(s))
    elif shard[0] == 'req':
        for v in range(len(VERSIONS)):
            for f in range(len(FIELDS)):
                yield ('req', shard[1], shard[2], v, f)
    elif shard[0] == 'both':
        for s in range(len(STATUSES)):
            for f in range(3):
                for p in range(len(POST)):
                    yield ('both', shard[1], shard[2], s, f, p)
    else:
        for s in range(len(STATUSES)):
            for f in range(len(RFIELDS)):
                yield ('resp', shard[1], ['GET', 'CONNECT', 'HEAD'][shard[2]], s, f)


_dir = [None, None]


def scratch():
    if _dir[0] is None or _dir[1] != os.getpid():
        _dir[0], _dir[1] = tempfile.mkdtemp(prefix='verif-c21-'), os.getpid()
    return _dir[0]


def cleanup():
    if _dir[0] is not None and _dir[1] == os.getpid():
        shutil.rmtree(_dir[0], ignore_errors=True)
        _dir[0] = None


GET = ('HTTP/1.1', 'GET', 'http://example.com/', [('Host', 'example.com')], 0, None)
OK = ('HTTP/1.1', 200, 'OK', [('Content-Type', 'text/plain')], 3, 3, {'text': 'abc'})


def run(ctx, case):
    kind = case[0]
    if kind == 'seq':
        kinds = [(GET, OK), (('HTTP/1.1', 'POST', 'http://example.com/1', [], -1, {'text': 'x'}), OK), (GET, OK[:1] + (0, '') + OK[3:]), (('h2', 'GET', 'https://example.com:443/?x=/', [(':path', '/')], 5, None), OK),
                 (GET, ('HTTP/1.1', 404, '', [('A', 'b')], -1, -1, {})), (GET, ('HTTP/1.0', 304, 'x', [], 0, 5, {'text': 'abcde'}))]
        kinds = [((r[0], r[1], u, r[3], r[4], r[5]), p) for (r, p), u in zip(kinds, list(URLS))]
        pairs = [kinds[n] for n in case[1]]
        for creator in ('mitmproxy', 'Firefox'):
            for split in range(len(pairs) + 1):
                for bom in (False, True):
                    check(ctx, case, creator, [pairs[:split], pairs[split:]], bom)
        return
    creator = CREATORS[case[1]]
    if kind == 'req':
        pairs = [((VERSIONS[case[3]], METHODS[case[2]], u, FIELDS[case[4]], size, post), OK) for u in URLS for size in (-1, 0, 5) for post in POST]
    elif kind == 'both':
        pairs = [((VERSIONS[case[3] % 6], METHODS[case[2]], u, FIELDS[case[4]], size, POST[case[5]]), (VERSIONS[case[3] % 5], STATUSES[case[3]], 'r', RFIELDS[case[4]], a, b, c))
                 for u in list(URLS)[:2] for size in (-1, 0, 5) for a in (-1, 0, 7) for b in (-1, 0, 7) for c in CONTENT]
    else:
        req = GET[:1] + (case[2],) + GET[2:]
        pairs = [(req, (v, STATUSES[case[3]], ['', 'OK', '\u00e9'][n % 3], RFIELDS[case[4]], a, b, c)) for v in ('HTTP/1.1', 'h2') for a in (-1, 0, 7) for b in (-1, 0, 7) for n, c in enumerate(CONTENT)]
    check(ctx, case, creator, [pairs], False)


def check(ctx, case, creator, files, bom):
    from httpolice import inputs
    paths = []
    for n, pairs in enumerate(files):
        data = {'log': {'version': '1.2', 'creator': {'name': creator, 'version': '1'}, 'pages': [], 'entries': [
            {'request': request_entry(*a), 'response': response_entry(*b), 'startedDateTime': '2020-01-01T00:00:0%d' % (9 - k % 10), 'time': 1, 'cache': {}, 'timings': {}} for k, (a, b) in enumerate(pairs)]}}
        paths.append(os.path.join(scratch(), '%d.har' % n))
        with open(paths[-1], 'w', encoding='utf-8-sig' if bom else 'utf-8') as f:
            json.dump(data, f, ensure_ascii=bom)
    try:
        got = list(inputs.formats['har'](paths))
    except inputs.InputError as exc:
        ctx.violate('error', 'a good file is rejected: %s' % exc)
        return
    flat = [(p, a, b) for p, pairs in zip(paths, files) for a, b in pairs]
    ctx.step(len(flat))
    if len(got) != len(flat):
        ctx.violate('count', '%d exchanges for %d entries' % (len(got), len(flat)))
        return
    for e, (path, a, b) in zip(got, flat):
        req, resp = model(creator, a, b)
        compare(ctx, creator, a, b, path, e, req, resp)
    ctx.state((case, len(files)))
    ctx.outcome((case[0], creator))


def fields(entries):
    return [(n.decode('latin-1'), v.decode('latin-1')) for n, v in conn.fields_of(entries)]


def value(x):
    from httpolice.structure import Unavailable
    return 'U' if isinstance(x, Unavailable) else x


def same_body(got, want):
    raw, decoded, text = want
    if value(got.body) != raw:
        return 'body is %r instead of %r' % (got.body, raw)
    for name, w in (('decoded_body', decoded), ('unicode_body', text)):
        v = value(getattr(got, name))
        if w != 'derived':
            if v != w:
                return '%s is %r instead of %r' % (name, v, w)
        elif name == 'unicode_body' and decoded != 'derived':
            # Follows from the decoded body.
            pass
        elif raw == b'':
            if v not in (b'', '') and not (name == 'decoded_body' and text != 'derived'):
                return '%s of an empty body is %r' % (name, v)
        elif v not in (None, 'U'):
            return '%s is %r though not given' % (name, v)
    return None


def latin(xs):
    """Fields as HTTP would carry them."""
    return [(n, v.encode('latin-1', 'replace').decode('latin-1')) for n, v in xs]


def compare(ctx, creator, a, b, path, e, req, resp):
    def bad(key, msg):
        ctx.violate(key, 'by %r, %r, %r: %s' % (creator, a, b, msg))
    r = e.request
    if r is None:
        return bad('request', 'no request')
    scheme, method, target, version, fs, body = req
    for name, got, want in (('scheme', r.scheme, scheme), ('method', str(r.method), method), ('target', str(r.target), target), ('version', r.version and str(r.version), version),
                            ('fields', fields(r.header_entries), latin(fs)), ('trailers', fields(r.trailer_entries), [])):
        if got != want:
            bad('request-' + name, 'the %s is %r instead of %r' % (name, got, want))
    if r.is_to_proxy is not None:
        bad('proxy', 'is_to_proxy is %r' % r.is_to_proxy)
    if path not in (r.remark or ''):
        bad('remark', 'the remark is %r' % r.remark)
    x = same_body(r, body)
    if x:
        bad('request-body', x)
    if resp is None:
        if e.responses:
            bad('response', 'a response %r out of nothing' % e.responses)
        return
    if len(e.responses) != 1:
        return bad('response', 'responses %r' % e.responses)
    [p] = e.responses
    version, status, reason, fs, body = resp
    for name, got, want in (('version', p.version and str(p.version), version), ('status', int(p.status), status), ('reason', p.reason, reason), ('fields', fields(p.header_entries), latin(fs)),
                            ('trailers', fields(p.trailer_entries), [])):
        if got != want:
            bad('response-' + name, 'the %s is %r instead of %r' % (name, got, want))
    if p.request is not r:
        bad('response-request', 'the response belongs to another request')
    x = same_body(p, body)
    if x:
        bad('response-body', x)
