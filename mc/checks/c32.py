"""C32: a notice names exactly the parts that break its rule."""

import itertools

from mc import build, headerspace as hs, rulecheck
from mc.ref import facts, tables

ID = 'C32'
CLAIMED = True
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of sequences of right and wrong elements in every header with elements, of sets of fields, of parts of a body and of responses; what the notices '
             'name is compared with an independent model of which parts break each rule')
NOTE = '''Where a rule is about parts of a message (fields, directives, warning codes, parameters, preferences, protocols, media types, parts of a multipart body), all short
sequences of breaking and innocent parts are built, as one line, as several, and with trailers. The parts named by the notices must be exactly the breaking ones.'''
ASSUMPTIONS = ['rules that by design report one part only (1102, 1103, 1169, 1183, 1200, 1276, and 1304 about the first final response) must name the first one', 'what is named is read from the variables of the notice']
BOUNDS = {
    'quick': 'sequences of <=3 of 3..18 elements of 26 headers x 3 ways to write them x 7 contexts; all pairs of 91 fields and triples of 14, x 10 contexts; <=4 parts; <=4 responses',
    'thorough': 'sequences of <=4 elements; triples of all fields of the space'}
MIN_STATES = 300
CASE_TIMEOUT = 300
DATE = ('Date', hs.IMF)

ELEMENTS = {
    'Cache-Control': ['no-cache', 'no-store', 'max-age=1', 'max-age', 'max-age=x', 'max-age="1"', 'only-if-cached', 'public', 's-maxage=1', 'private=a', 'private="a"', 'no-store=1', 'min-fresh=1', 'max-stale', 'must-revalidate',
                      'stale-if-error=1', 'Foo', 'stale-while-revalidate=y'],
    'Warning': ['110 - "x"', '111 - "x"', '214 - "x"', '099 - "x"', '300 - "x"', '299 - "x"', '113 - "x" "%s"' % hs.IMF, '199 - "x" "Thu, 01 Jan 2015 00:00:00 GMT"', '214 - "x" "Fri, 02 Jan 2015 00:00:00 GMT"', '110 - "a,b"', '010 a "x"'],
    'Pragma': ['no-cache', 'foo', 'Foo=bar', 'bar="no-cache"', 'NO-CACHE'],
    'Prefer': ['respond-async', 'respond-async=1', 'wait', 'wait=x', 'wait=1', 'return=minimal', 'return=x', 'handling=lenient', 'Foo', 'foo=1; a=b', 'handling', 'return=representation'],
    'Preference-Applied': ['respond-async', 'respond-async=1', 'wait', 'wait=x', 'wait=1', 'return=minimal', 'Foo', 'foo=1', 'handling', 'return=Minimal'],
    'Connection': ['close', 'Host', 'te', 'cache-control', 'content-type', 'Upgrade', 'foo', 'Via', 'age', 'host'],
    'Forwarded': ['for=_x', 'for=1.2', 'by=_a;for=_b', 'for=_a;For=_b', 'proto=http', 'proto="1"', 'host="a b"', 'for="[::1]";by="x y";for=_z;by=_q', 'Foo=bar', 'by=9'],
    'Link': ['<a>; rel=next', '<a>', '<a>; rel=a; rel=b', '<a>; rel=a; Type="text/json"', '<a>; rel=a; type=x; type="a/b"', '<a>; rel=a; hreflang="en"; title=x; media=a; media=b', '<a>; rel="1"; anchor="%"', '<a>;rel=a;title="b,c"', '<a>; rev="?"; title*=x',
             '<a>; rel=a; title*=UTF-8\'\'x; title*=y'],
    'Alt-Svc': ['h2=":1"', 'h2="a"', 'w%3dx=":1"', 'w%3Dx=":2"', 'h%32=":1"; ma=x', 'h2=":1"; persist=2; ma=1', 'h3="b:x"; ma="-"', 'w%3A=":4"'],
    'WWW-Authenticate': ['Basic realm="x"', 'Basic', 'Basic abc', 'Basic realm="x", charset="x"', 'Basic realm="a", charset="utf-8", Foo=bar, baz=1', 'Basic charset=a, charset=b, x=y', 'Bearer', 'Bearer realm="x", Realm="y", scope=a, scope=b',
                         'Bearer error="invalid_token"', 'Bearer error=insufficient_scope, error_description="\\"", error_uri="^"', 'Bearer error="\\\\", scope="a  b"', 'Foo a=b'],
    'Proxy-Authenticate': ['Basic realm="x"', 'Basic', 'Basic abc', 'Basic realm="x", charset="x", foo=bar', 'Bearer error="invalid_token"', 'Foo'],
    'Accept-Patch': ['text/plain', 'application/json', 'Application/JSON-patch+json', 'text/json', 'application/merge-patch+json', 'foo/bar', 'plain/text;a=b', 'application/xml'],
    'Accept-Post': ['text/plain', 'text/json', 'Plain/Text', 'application/text;a=b', '*/*'],
    'Accept': ['text/plain', 'TEXT/*', 'Text/HTML;q=0.5', 'text/json', 'Plain/Text', 'application/text;a=b', '*/*', 'text/*', 'text/html;q=0.5', 'a/b;c="d,e"', 'a/b;c="d;e"'],
    'Accept-Encoding': ['gzip', 'x-gzip;q=1', 'X-Compress; q=0', 'x-compress', 'br;q=0.1', '*', 'identity'],
    'Accept-Language': ['en', '*', 'de;q=0.5', '*;q=0.5', 'FR'],
    'Accept-Charset': ['utf-8', '*', 'x;q=0.5', '*;q=0.5', 'Y'],
    'Upgrade': ['foo', 'foo/1', 'Foo', 'bar', 'h2c', 'h2', 'a/b'],
    'Trailer': ['X-Foo', 'a', 'b', 'Content-Type', 'expires'],
    'User-Agent': ['curl/1', 'curl', 'demo', '(x)', 'python-requests/2', 'libwww-perl/6 (a)'],
    'Expires': [hs.IMF, 'x', '0'], 'Age': ['1', 'x', '2'], 'Etag': ['"a"', 'W/"b"', 'x'], 'Vary': ['*', 'a', 'host', 'b'], 'If-Match': ['*', '"a"', 'W/"b"'],
    'Content-Type': ['text/plain', 'text/json', 'Application/JSON;charset=x', 'text/html;a=b;A=c;x=1;X=2', 'x'],
}
SEPARATOR = {'User-Agent': ' ', 'Content-Type': None, 'Expires': None, 'Age': None, 'Etag': None}

# Headers whose parameters are counted: sequences of parameters
PARAMS = {
    'Content-Type': ('text/plain', ';', ['a=b', 'A=c', 'charset=utf-8', 'Charset=x', 'b="a=b"', 'c=1']),
    'Content-Disposition': ('attachment', ';', ['a=b', 'A=c', 'filename=x', 'FILENAME="y"', "filename*=UTF-8''z", 'c=1']),
    'Strict-Transport-Security': ('foo', ';', ['max-age=1', 'Max-Age=x', 'max-age', 'includeSubDomains', 'includesubdomains=1', 'preload', 'Foo', 'bar=1', 'bar=2']),
    'WWW-Authenticate': ('Bearer x=y', ',', ['realm="a"', 'Realm="b"', 'scope=a', 'scope="a  b"', 'error=invalid_token', 'error=invalid_request', 'error_uri="^"', 'error_description="\\\\"', 'error="\\""', 'x=z']),
    'Proxy-Authenticate': ('Basic x=y', ',', ['realm="a"', 'Realm="b"', 'charset=x', 'charset="UTF-8"', 'error=invalid_token', 'x=z', 'y=1']),
    'Forwarded': ('for=_x', ';', ['For=_y', 'by=_x', 'BY=1', 'host="a b"', 'proto=http', 'proto="x y"', 'foo=a', 'foo=b']),
    'Link': ('<a>', ';', ['rel=a', 'Rel=b', 'rel="1 2"', 'title=x', 'title="y"', 'type="text/json"', 'type=x', 'media=a', 'media=b', 'rev="?"', 'hreflang=en', 'hreflang="e_n"', 'anchor="%"', 'foo=bar']),
    'Alt-Svc': ('h2=":1"', ';', ['ma=1', 'ma=x', 'persist=1', 'persist=2', 'ma="y"', 'foo=bar']),
    'Authorization': ('Foo x=y', ',', ['realm="a"', 'Realm=b', 'error=x', 'x=z']),
}

SIGNATURES = ['for_request', 'for_response', 'representation_metadata', 'precondition', 'proactive_conneg', 'bad_for_connection', 'bad_for_trailer', 'iana_status', 'rule']


def fields():
    """Some headers of every kind known to the registry, with a value each."""
    kinds = {}
    for n in sorted(tables.HEADER):
        kinds.setdefault(tuple(str(tables.header(n).get(k)) for k in SIGNATURES), []).append(n)
    names = sorted({n for k in kinds.values() for n in k[:2]} | {n for n in tables.HEADER if any(tables.header(n).get(k) for k in ('representation_metadata', 'precondition', 'bad_for_connection'))} |
                   {n for n in tables.HEADER if tables.header(n).get('for_request') is not tables.header(n).get('for_response')})
    names = [n for n in names if n not in ('Host', 'HTTPolice-Silence')]
    out = [(n, sample(n)) for n in names]
    return out + [('X-Foo', '1'), ('x-bar', '2'), ('X Y', '3'), ('', '4'), ('Z:', '5'), ('Keep-Alive', '6')]


def sample(name):
    space = hs.SPACE.get(name)
    return next((v for v in space[0] if v), 'x') if space else 'x'


CORE = ['Content-Length', 'Content-Encoding', 'ETag', 'Last-Modified', 'If-Match', 'If-None-Match', 'If-Modified-Since', 'X-Foo', 'x-bar', 'X Y', 'Allow', 'Referer', 'Expires', 'Connection']


def shards(tier):
    out = [['elements', n, i] for n in ELEMENTS for i in range(len(ELEMENTS[n]))] + [['params', n, i] for n in PARAMS for i in range(len(PARAMS[n][2]))]
    return out + [['fields', i] for i in range(16)] + [['parts', i] for i in range(4)] + [['statuses', i] for i in range(4)] + [['basic', 0], ['methods', 0]]


def cases(shard, tier):
    depth = 3 if tier == 'quick' else 4
    if shard[0] in ('elements', 'params'):
        kind, n, i = shard
        pool = ELEMENTS[n] if kind == 'elements' else PARAMS[n][2]
        yield (kind, n, (i,))
        for k in range(1, depth):
            # (the last element varies within a case)
            for more in itertools.product(range(len(pool)), repeat=k - 1):
                yield (kind, n, (i,) + more, True)
    elif shard[0] == 'fields':
        all_ = fields()
        for i in range(shard[1], len(all_), 16):
            yield ('fields', i, None)
            rest = range(i + 1, len(all_)) if tier == 'thorough' else [j for j in range(i + 1, len(all_)) if all_[j][0] in CORE]
            if tier == 'thorough' or all_[i][0] in CORE:
                for j in rest:
                    yield ('fields', i, j)
    elif shard[0] == 'parts':
        for k in range(5):
            for i, seq in enumerate(itertools.product(range(4), repeat=k)):
                if i % 4 == shard[1]:
                    yield ('parts', seq)
    elif shard[0] == 'statuses':
        for k in range(1, 5):
            for i, seq in enumerate(itertools.product((100, 101, 103, 200, 404, 304), repeat=k)):
                if i % 4 == shard[1]:
                    yield ('statuses', seq)
    else:
        yield (shard[0],)


def compare(ctx, req, resps):
    e = build.checked(req, resps)
    ids, want = facts.predict(req, resps)
    ctx.step()
    for k, m in enumerate(([e.request] if req is not None else [None]) + list(e.responses)):
        if m is None:
            continue
        got = {}
        for c in m.complaints:
            if c.id in facts.NAMED:
                got.setdefault(c.id, set()).add(facts.observed(c, e.responses))
        for i in sorted(set(got) | set(want[k])):
            g, w = got.get(i, set()), want[k].get(i, set())
            ctx.outcome((i, 'request' if k == 0 else 'response', min(len(w), 3)))
            ctx.state((i, k == 0, tuple(sorted(w))))
            if g != w:
                one = resps[:1] if k == 0 else [resps[k - 1]] if len(resps) > 4 else resps
                ctx.violate('named:%d' % i, '%s: notice %d on the %s should name %s, but names %s' % (
                    rulecheck.brief(req, one), i, 'request' if k == 0 else 'response %d' % k, said(w), said(g)), case=('x', req, resps))


def said(s):
    return ', '.join(sorted(' '.join(map(repr, t)) for t in s)) or 'nothing'


def finish(tier, outcomes, counters, total):
    seen = {i for i, _, n in outcomes if n}
    several = {i for i, _, n in outcomes if n > 1}
    counters['notices judged'] = len(facts.NAMED)
    counters['notices that named something'] = len(seen & set(facts.NAMED))
    counters['notices that named several parts'] = len(several)
    missing = sorted(set(facts.NAMED) - seen)
    if missing:
        counters['never raised: %s' % ' '.join(map(str, missing))] = len(missing)
    return []


BASE = [('Host', 'example.com'), ('User-Agent', 'demo')]
BACKGROUND = {      # Fields of the request, or of the response, that give the elements a meaning
    'Preference-Applied': [('Prefer', 'respond-async, wait=1, return=minimal')],
    'Upgrade': [('Upgrade', 'foo, foo/1, h2c, bar'), ('Connection', 'upgrade')],
}


def ways(name, values, sep):
    """Ways to write a list of elements: one line, several lines, the last in the trailer."""
    if sep is not None:
        yield [(name, ('%s ' % sep if sep != ' ' else ' ').join(values))], []
    if len(values) > 1 or sep is None:
        yield [(name, v) for v in values], []
        yield [(name, v) for v in values[:-1]], [(name.upper(), values[-1])]


def run(ctx, case):
    kind = case[0]
    if kind == 'x':
        compare(ctx, case[1], case[2])
    elif kind in ('elements', 'params'):
        n = case[1]
        pool = ELEMENTS[n] if kind == 'elements' else PARAMS[n][2]
        for seq in [case[2] + (j,) for j in range(len(pool))] if len(case) > 3 else [case[2]]:
            values = [pool[j] for j in seq]
            if kind == 'elements':
                todo = ways(n, values, SEPARATOR.get(n, ','))
            else:
                head, sep, _ = PARAMS[n]
                todo = [([(n, '%s%s %s' % (head, sep, ('%s ' % sep).join(values)))], [])]
                if len(values) > 1:
                    todo.append(([(n, '%s%s %s' % (head, sep, values[0])), (n, '%s%s%s' % (head, sep, sep.join(values[1:])))], []))
            for h, t in todo:
                base = [b for b in BASE if b[0] != n]
                for method in ('GET', 'POST') if len(seq) < 3 else ('GET',):
                    compare(ctx, {'method': method, 'headers': base + h, 'trailers': t}, [])
                resp = [DATE] + h
                more = BACKGROUND.get(n, [])
                statuses = (200, 304, 401, 403, 426, 101) if len(seq) < 3 else (200, 401) if 'Auth' in n else (200,)
                compare(ctx, {'headers': BASE + more}, [{'status': s, 'headers': resp, 'trailers': t} for s in statuses])
                if len(seq) < 3:
                    compare(ctx, None, [{'status': 200, 'headers': resp, 'trailers': t}])
    elif kind == 'fields':
        all_ = fields()
        _, i, j = case
        chosen = [all_[i]] + ([all_[j]] if j is not None else [])
        core = [x for x in all_ if x[0] in CORE]
        rest = all_[(j if j is not None else i) + 1:]
        if j is not None:
            rest = [x for x in rest if x in core]
        for last in [None] + rest:
            h = chosen + ([last] if last else [])
            for m, version in (('GET', 'HTTP/1.1'), ('HEAD', 'HTTP/1.1'), ('OPTIONS', 'HTTP/2')):
                compare(ctx, {'method': m, 'version': version, 'headers': BASE + h}, [])
            compare(ctx, {'headers': BASE + h[:1], 'trailers': h[1:] + h[:1]}, [{'status': 428, 'headers': [DATE] + h[1:]}])
            compare(ctx, {'headers': BASE + h}, [{'status': s, 'headers': [DATE], 'body': b'x'} for s in (428,)])
            compare(ctx, {'headers': BASE + [('Range', 'bytes=0-1'), ('If-Range', '"x"')]}, [{'status': s, 'headers': [DATE] + h} for s in (100, 200, 206, 304)] + [{'version': 'HTTP/2', 'headers': h}, {'headers': [DATE], 'trailers': h}])
            names = [n for n, _ in h if n and ' ' not in n and ':' not in n]
            compare(ctx, {'headers': BASE + h + [('Connection', ', '.join(names))]}, [{'headers': [DATE, ('Connection', ','.join(names[::-1])), ('Trailer', ', '.join(names[:1]))], 'trailers': h}])
    elif kind == 'parts':
        part = [b'', b'Content-Range: bytes 0-0/9\r\n', b'Content-Type: text/plain\r\n', b'content-type: text/plain\r\nCONTENT-RANGE: bytes 1-1/9\r\n']
        body = b''.join(b'--b\r\n%s\r\nx\r\n' % part[p] for p in case[1]) + b'--b--\r\n'
        compare(ctx, {'headers': BASE + [('Range', 'bytes=0-1,3-4')]}, [{'status': s, 'headers': [DATE, ('Content-Type', 'multipart/%s; boundary=b' % t)], 'body': body} for s in (206, 200) for t in ('byteranges', 'mixed')])
    elif kind == 'statuses':
        compare(ctx, {}, [{'status': s, 'headers': [DATE]} for s in case[1]])
        compare(ctx, None, [{'status': s, 'headers': [DATE]} for s in case[1]])
    elif kind == 'basic':
        values = ['Basic %s' % v for v in ('YTpi', 'YQ==', 'AAE6fwA=', 'YTp/Cg==', '!', 'a=b', '', 'YTpi=', 'AA==', 'YQ', 'YTpiY')] + ['Bearer x', 'Bearer a=b', 'Bearer', 'Foo', 'Foo x', 'Foo a=b', 'x y z']
        for a, b in itertools.product([None] + values, repeat=2):
            for scheme in ('http', 'https'):
                h = [(n, v) for n, v in (('Authorization', a), ('Proxy-Authorization', b)) if v is not None]
                compare(ctx, {'scheme': scheme, 'headers': BASE + h}, [{'headers': [DATE]}])
                compare(ctx, {'scheme': scheme, 'headers': BASE + h[::-1]}, [])
    else:
        for m in sorted(tables.METHOD) + ['foo', 'Bar', 'FOO']:
            for v in {m.lower(), m.capitalize(), m[:1].lower() + m[1:], m}:
                compare(ctx, {'method': v}, [])
