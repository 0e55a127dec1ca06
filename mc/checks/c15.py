"""C15: equivalent spellings get equal verdicts."""

import itertools
import re

from mc import build, conn, corpus, headerspace as hs, obs
from mc.checks import c29
from mc.ref import tables

ID = 'C15'
CLAIMED = True
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive application of every meaning-preserving rewriting at every place (and of pairs of them) to messages of a corpus and to seeds of every header; the sets of notices before and '
             'after are compared')
NOTE = '''Rewritings: case of every field name; case of every case-insensitive part of a value; whitespace around values (in the stream) and around list items; every split of a list field at a comma
and every join of two fields; empty list elements; every exchange of neighbours with different names. Allowed differences: 1151 for empty elements, 1032 for the place of Host, 1297 (about one field).'''
ASSUMPTIONS = ['lists of challenges are not split, their commas being ambiguous', 'fields that are malformed are not split or joined', 'which values are case-insensitive is listed in the check, from the RFCs']
BOUNDS = {
    'quick': '539 corpus connections and 57 special exchanges x every single rewriting; pairs of rewritings on every 12th; all header seeds, alone and with a companion field, on both sides x every single rewriting',
    'thorough': 'pairs of rewritings on every 2nd connection and on all header seeds'}
MIN_STATES = 400
CASE_TIMEOUT = 200

LISTS = {n.lower() for n, row in tables.HEADER.items() if row.get('rule') == 'multi'} | {'alt-svc', 'cache-control', 'forwarded', 'prefer', 'preference-applied'}
NOSPLIT = {'www-authenticate', 'proxy-authenticate'}
WHOLE = {'transfer-encoding', 'content-encoding', 'connection', 'te', 'accept-encoding', 'accept-charset', 'accept-language', 'content-language', 'expect', 'vary', 'trailer', 'access-control-allow-headers',
         'access-control-expose-headers', 'access-control-request-headers', 'host', 'httpolice-silence', 'accept-ranges'}
# Names of parameters and directives only / with the first token of each list element too
NAMES = {'forwarded', 'link', 'range'}
NAMES_AND_FIRST = {'content-type', 'accept', 'accept-patch', 'accept-post', 'content-disposition', 'cache-control', 'strict-transport-security', 'prefer', 'preference-applied', 'pragma'}
FIRST_ONLY = {'authorization', 'proxy-authorization', 'content-range'}
URIS = {'location', 'content-location', 'referer'}
# (request, response): exchanges where letter case, lists and repetition matter
EXTRA = [
    ({}, {'status': 401, 'headers': [('WWW-Authenticate', 'Basic realm="x", charset="utf-8"')]}),
    ({}, {'status': 401, 'headers': [('WWW-Authenticate', 'Basic realm="x", foo="y", charset="latin-1"')]}),
    ({}, {'status': 401, 'headers': [('WWW-Authenticate', 'Bearer realm="x", scope="a b", error="invalid_token", error_description="z", error_uri="http://a/"')]}),
    ({}, {'status': 401, 'headers': [('WWW-Authenticate', 'Bearer realm="x", error="insufficient_scope", foo=bar')]}),
    ({}, {'status': 407, 'headers': [('Proxy-Authenticate', 'Bearer realm="x"')]}),
    ({'headers': [('Host', 'a.b'), ('Authorization', 'Basic Zm9v')]}, {}),
    ({'headers': [('Host', 'a.b'), ('Authorization', 'Basic a=b')]}, {}),
    ({'headers': [('Host', 'a.b'), ('Authorization', 'Bearer a=b'), ('Proxy-Authorization', 'Bearer abc')]}, {}),
    ({'headers': [('Host', 'a.b'), ('Referer', 'https://a.b/')]}, {}),
    ({'scheme': 'https', 'headers': [('Host', 'a.b'), ('Upgrade', 'h2c, foo/1'), ('Connection', 'Upgrade, HTTP2-Settings'), ('HTTP2-Settings', 'AAA')]}, {}),
    ({'headers': [('Host', 'a.b'), ('Upgrade', 'h2c'), ('Connection', 'Upgrade'), ('HTTP2-Settings', 'AAA')]},
     {'status': 101, 'headers': [('Connection', 'upgrade'), ('Upgrade', 'h2c')]}),
    ({'headers': [('Host', 'a.b'), ('TE', 'trailers, gzip;q=0.5'), ('Connection', 'TE')]}, {}),
    ({'headers': [('Host', 'a.b'), ('TE', 'chunked')]}, {}),
    ({'version': 'HTTP/2', 'headers': [('Host', 'a.b'), ('TE', 'Trailers')]}, {}),
    ({'version': 'HTTP/2', 'headers': [('Host', 'a.b'), ('Keep-Alive', '1'), ('Upgrade', 'x'), ('Connection', 'upgrade')]}, {'version': 'HTTP/2', 'headers': [('Alt-Svc', 'h2=":1"')]}),
    ({'method': 'POST', 'headers': [('Host', 'a.b'), ('Expect', '100-continue'), ('Content-Length', '0')]}, {'status': 417}),
    ({'headers': [('Host', 'a.b'), ('Expect', '100-continue')]}, {}),
    ({'headers': [('Host', 'a.b'), ('Accept-Encoding', 'x-gzip;q=0.5, gzip'), ('Accept-Charset', '*, utf-8'), ('Accept-Language', 'en, *')]}, {'status': 406}),
    ({'headers': [('Host', 'a.b'), ('Accept', 'text/*;q=0.5, text/html;level=1;q=0.5, */*;q=0.1')]}, {'status': 406}),
    ({'headers': [('Host', 'a.b'), ('Accept-Language', 'en')]}, {'status': 406}),
    ({'headers': [('Host', 'a.b'), ('Cache-Control', 'no-cache, max-age=3, max-stale, min-fresh=3'), ('Pragma', 'No-Cache, foo=bar')]},
     {'headers': [('Age', '5'), ('Cache-Control', 'no-cache, no-store, private="a, b"'), ('Pragma', 'no-cache')]}),
    ({'headers': [('Host', 'a.b'), ('Cache-Control', 'public, immutable')]}, {'headers': [('Cache-Control', 'max-stale=3, max-age="5", only-if-cached, no-transform, immutable'), ('Warning', '214 - "x"')]}),
    ({}, {'headers': [('Cache-Control', 'private=a, public, no-store, s-maxage=1')]}),
    ({'headers': [('Host', 'a.b'), ('Prefer', 'respond-async, return=minimal, return=representation, handling=strict, handling=lenient, wait=5')]},
     {'headers': [('Preference-Applied', 'respond-async, return=minimal, foo=bar')]}),
    ({'headers': [('Host', 'a.b'), ('Forwarded', 'for=1.2.3.4;proto=http;for=_a, by=_b;host=x')]}, {}),
    ({'method': 'OPTIONS'}, {'headers': [('Allow', 'GET, PATCH'), ('Accept-Post', 'text/plain')]}),
    ({'method': 'PATCH', 'headers': [('Host', 'a.b'), ('Content-Type', 'application/merge-patch+json')], 'body': b'{}'}, {}),
    ({'method': 'PATCH', 'headers': [('Host', 'a.b'), ('Content-Type', 'application/json;charset="utf-8"')], 'body': b'{}'}, {'status': 415, 'headers': [('Accept-Patch', 'text/plain, application/json')]}),
    ({}, {'headers': [('Content-Type', 'application/json; charset=utf-8; charset=utf-8')], 'body': b'{'}),
    ({}, {'headers': [('Content-Type', 'application/problem+xml')], 'body': b'<'}),
    ({}, {'headers': [('Content-Type', 'text/x-json')], 'body': b'{'}),
    ({'method': 'POST', 'headers': [('Host', 'a.b'), ('Content-Type', 'application/x-www-form-urlencoded')], 'body': b'access_token=1&\xff'}, {}),
    ({'method': 'POST', 'headers': [('Host', 'a.b'), ('Content-Type', 'multipart/form-data; boundary=x')], 'body': b'y'}, {}),
    ({'headers': [('Host', 'a.b'), ('Range', 'bytes=0-1')]}, {'status': 206, 'headers': [('Content-Type', 'multipart/byteranges; boundary=x')],
      'body': b'--x\r\nContent-Type: text/plain\r\nContent-Range: bytes 0-1/3\r\n\r\nab\r\n--x--\r\n'}),
    ({'headers': [('Host', 'a.b'), ('Range', 'bytes=0-1'), ('If-Range', '"a"')]}, {'status': 206, 'headers': [('Content-Range', 'bytes 0-1/3'), ('ETag', '"A"'), ('Content-Type', 'text/plain')], 'body': b'ab'}),
    ({'headers': [('Host', 'a.b'), ('Range', 'bytes=9-')]}, {'status': 416}),
    ({'headers': [('Host', 'a.b'), ('If-None-Match', '"a", W/"b"'), ('If-Match', 'W/"a"')]}, {'headers': [('ETag', 'W/"b"')]}),
    ({}, {'headers': [('Vary', 'Host, accept-encoding')]}),
    ({}, {'headers': [('Strict-Transport-Security', 'max-age=0; includeSubDomains; foo; foo')]}),
    ({}, {'headers': [('Content-Disposition', "attachment; filename*=UTF-8''a; filename=\"b%20\"; filename=c")]}),
    ({}, {'status': 451, 'headers': [('Link', '<a>; rel="blocked-by"; title="x"')]}),
    ({}, {'status': 307, 'headers': [('Location', 'http://example.com/')]}),
    ({'method': 'DELETE'}, {'headers': [('Content-Location', 'http://example.com/')]}),
    ({}, {'status': 408, 'headers': [('Connection', 'close')]}),
    ({'method': 'CONNECT', 'target': 'a.b:80'}, {'headers': [('Connection', 'close, x'), ('Transfer-Encoding', 'chunked')]}),
    ({}, {'headers': [('Transfer-Encoding', 'gzip, chunked'), ('Trailer', 'X-Foo, ETag'), ('Connection', 'Date, Cache-Control')], 'trailers': [('X-Foo', '1'), ('ETag', '"a"'), ('Age', '3')]}),
    ({}, {'headers': [('Content-Encoding', 'x-gzip, foo')], 'body': b'abc'}),
    ({}, {'status': 426, 'headers': [('Upgrade', 'foo/1, bar'), ('Connection', 'upgrade')]}),
    ({}, {'headers': [('Alt-Svc', 'clear')]}),
    ({}, {'headers': [('Alt-Svc', 'h2=":1"; ma=a; persist=2; foo=bar, w%3Dx=":1"')]}),
    ({'headers': [('Host', 'a.b'), ('User-Agent', 'curl/7.1 (a; b) Foo')]}, {'headers': [('Via', '1.1 a (b), HTTP/2 c'), ('Warning', '214 a "b", 199 c "d" "Sun, 06 Nov 1994 08:49:37 GMT"'), ('Server', 'a/1 (c)')]}),
    ({'headers': [('Host', 'a.b'), ('HTTPolice-Silence', '1110 resp, 1070')]}, {}),
    ({'headers': [('host', 'a.b'), ('X-Forwarded-For', '1.2.3.4, 5.6.7.8'), ('Max-Forwards', '3'), ('X-Foo', 'bar')]}, {'headers': [('X-Content-Type-Options', 'NoSniff'), ('X-Foo', '1')]}),
    ({'headers': [('Host', 'a.b'), ('Content-Type', 'text/plain'), ('If-Modified-Since', 'Sun, 06 Nov 1994 08:49:37 GMT')]},
     {'status': 304, 'headers': [('Content-Language', 'en-US'), ('Last-Modified', 'Sun, 06 Nov 1994 08:49:37 GMT'), ('Content-Type', 'text/html')]}),
]
CASES = [str.upper, str.lower, str.swapcase, str.title]


def segments(value):
    """(start, end, quoted) of a value; comments, quoted strings and <...> count as quoted."""
    out, i, start = [], 0, 0
    while i < len(value):
        c = value[i]
        close = {'"': '"', '<': '>', '(': ')'}.get(c)
        if close:
            out.append((start, i, False))
            j, depth = i + 1, 1
            while j < len(value):
                if value[j] == '\\' and c != '<':
                    j += 2
                    continue
                if value[j] == close:
                    depth -= 1
                    if not depth:
                        break
                elif c == '(' and value[j] == '(':
                    depth += 1
                j += 1
            out.append((i, min(j + 1, len(value)), True))
            i = start = min(j + 1, len(value))
        else:
            i += 1
    out.append((start, i, False))
    return out


def commas(value):
    return [k for a, b, q in segments(value) if not q for k in range(a, b) if value[k] == ',']


_NAME = re.compile(r"([!#$%&'*+.^_`|~0-9A-Za-z-]+)(?=[ \t]*=[^=]|[ \t]*=$)")
_FIRST = re.compile(r"(?:^|(?<=[,;]))([ \t]*[!#$%&'*+.^_`|~0-9A-Za-z-]+(?:/[!#$%&'*+.^_`|~0-9A-Za-z-]+)?)(?=[ \t]*(?:$|[,; \t]))")


def recased(name, value, f):
    name = name.lower()
    if name in URIS:
        return re.sub(r'^([A-Za-z][A-Za-z0-9+.-]*://[^@/?#]*(?=$|[/?#]))', lambda m: f(m.group()), value)
    if name == 'content-type':
        value = re.sub(r'(?i)(;[ \t]*charset=)("[A-Za-z0-9-]*")', lambda m: m.group(1) + f(m.group(2)), value)
    if name in WHOLE:
        return ''.join(value[a:b] if q else f(value[a:b]) for a, b, q in segments(value))
    if name in ('authorization', 'proxy-authorization', 'content-range', 'www-authenticate'):
        if name == 'www-authenticate':
            # Only where there is one challenge
            if len(re.findall(r'(?:^|,)[ \t]*[A-Za-z0-9-]+[ \t]+[A-Za-z]', value)) > 1:
                return value
        value = re.sub(r'^[A-Za-z-]+(?=[ ]|$)', lambda m: f(m.group()), value)
        if name == 'www-authenticate':
            value = re.sub(r'(?i)(charset=)("?[A-Za-z0-9-]+"?)', lambda m: m.group(1) + f(m.group(2)), value)
            value = ''.join(value[a:b] if q else re.sub(r'([A-Za-z]+)(?=[ \t]*=)', lambda m: f(m.group()), value[a:b]) for a, b, q in segments(value))
        return value
    if name not in NAMES and name not in NAMES_AND_FIRST:
        return value
    out = ''
    for a, b, q in segments(value):
        part = value[a:b]
        if not q:
            part = _NAME.sub(lambda m: f(m.group()), part)
            if name in NAMES_AND_FIRST and (a == 0 or value[a - 1:a] != '"'):
                part = _FIRST.sub(lambda m: f(m.group()), part)
            if name == 'content-type':
                part = re.sub(r'(?i)(charset=)([A-Za-z0-9-]+)', lambda m: m.group(1) + f(m.group(2)), part)
        out += part
    return out


def rewritings(fields, bad, trailers=False):
    """[(label, new fields, allowed differences)]; `bad`: lower-case names of malformed fields."""
    out = []
    low = [n.lower() for n, _ in fields]

    def put(k, *items):
        return fields[:k] + list(items) + fields[k + 1:]
    for f in CASES[:3]:
        new = [(f(n), v) for n, v in fields]
        out.append(('names-%s' % f.__name__, new, ()))
    for k, (n, v) in enumerate(fields):
        for f in (str.lower, str.upper):
            if f(n) != n:
                out.append(('name', put(k, (f(n), v)), ()))
        for f in CASES:
            w = recased(n, v, f)
            if w != v:
                out.append(('case:' + low[k], put(k, (n, w)), ()))
        if k and low[k] != low[k - 1]:
            out.append(('swap', fields[:k - 1] + [fields[k], fields[k - 1]] + fields[k + 1:], (1032,)))
        if low[k] not in LISTS or low[k] in bad:
            continue
        if low[k] not in NOSPLIT:
            cs = commas(v)
            for c in (cs if not (low[k] == 'accept-ranges' and 'none' in v) else ()):
                a, b = v[:c].rstrip(' \t'), v[c + 1:].lstrip(' \t')
                if a and b and a.strip(', \t') and b.strip(', \t'):
                    out.append(('split:' + low[k], put(k, (n, a), (n, b)), (1297,)))
                    out.append(('split-apart:' + low[k], put(k, (n, a), ('X-Requested-With', 'x'), (n, b)), (1297, 1064, 1063, 1026)) if False else
                               ('split-case:' + low[k], put(k, (n.upper(), a), (n.lower(), b)), (1297,)))
                    for sep in (',', ' , ', ',\t', ', ', ' \t, \t '):
                        if a + sep + b != v:
                            out.append(('space:' + low[k], put(k, (n, a + sep + b)), ()))
                    for sep in (', ,', ',,', ' , , ,  '):
                        out.append(('empty:' + low[k], put(k, (n, a + sep + b)), (1151,)))
            if v.strip(' \t,') and v.strip() not in ('*', 'clear', 'none'):
                for w in (', ' + v, v + ',', ',' + v + ' ,'):
                    out.append(('empty-end:' + low[k], put(k, (n, w)), (1151,)))
        later = [j for j in range(k + 1, len(fields)) if low[j] == low[k]]
        if later and v.strip() not in ('*', 'clear', '', 'none') and fields[later[0]][1].strip() not in ('*', 'clear', '', 'none'):
            j = later[0]
            for sep in (', ', ',', ' ,\t'):
                out.append(('join:' + low[k], fields[:k] + [(n, v + sep + fields[j][1])] + fields[k + 1:j] + fields[j + 1:], (1297,)))
        if later and v.strip() == '' and fields[later[0]][1].strip() not in ('*', 'clear', '', 'none'):
            j = later[0]
            out.append(('join-empty:' + low[k], fields[:k] + fields[k + 1:], (1151,)))
    seen = set()
    return [x for x in out if not (tuple(x[1]) in seen or seen.add(tuple(x[1])))]


def shards(tier):
    return [['corpus', n] for n in range(64)] + [['pairs', n] for n in range(24)] + [['stream', n] for n in range(16)] + [['extra', n] for n in range(24)] + [['seed', n] for n in sorted(hs.SPACE)]


def cases(shard, tier):
    kind, n = shard
    size = len(corpus.load(6000))
    if kind == 'corpus':
        for i in range(n, size, 64):
            yield ('c', i, 1)
    elif kind == 'stream':
        for i in range(n, size, 16):
            yield ('s', i)
    elif kind == 'extra':
        for i in range(n, len(EXTRA), 24):
            for depth in (1, 2):
                yield ('e', i, depth)
    elif kind == 'pairs':
        for i in list(range(0, size, 12 if tier == 'quick' else 2))[n::24]:
            yield ('c', i, 2)
    else:
        for k, v in enumerate(hs.seeds(n)):
            for side in ('req', 'resp'):
                for more in (0, 1, 2):
                    yield ('h', n, k, side, more, 1 if tier == 'quick' else 2)


_corpus = []


def plain(m):
    return ([(n.decode('latin-1'), v.decode('latin-1')) for n, v in conn.fields_of(m.header_entries)],
            [(n.decode('latin-1'), v.decode('latin-1')) for n, v in conn.fields_of(m.trailer_entries)])


def rebuild(e, target, fields, trailers):
    import httpolice
    req = e.request
    new = None
    if req is not None:
        h, t = (fields, trailers) if target == 'req' else plain(req)
        new = httpolice.Request(req.scheme, req.method, req.target, req.version, h, req.body, t)
        new.is_to_proxy = req.is_to_proxy
    resps = []
    for k, r in enumerate(e.responses):
        h, t = (fields, trailers) if target == k else plain(r)
        resps.append(httpolice.Response(r.version, r.status, r.reason, h, r.body, t))
    out = httpolice.Exchange(new, resps)
    httpolice.check_exchange(out)
    return out


def malformed(m):
    return {c.context['place'].name.lower() for c in m.complaints if c.id == 1000 and hasattr(c.context.get('place'), 'name')} | \
        {e.name.lower() for c in m.complaints if c.id == 1158 for e in m.header_entries if c.context.get('entry') is e}


def run(ctx, case):
    kind = case[0]
    if kind == 's':
        return stream(ctx, case[1])
    if kind == 'c':
        if not _corpus:
            _corpus.extend(corpus.load(6000))
        _, scheme, inbound, outbound = _corpus[case[1]]
        exchanges = conn.parse(inbound, outbound, scheme)
        depth = case[2]
    elif kind == 'e':
        exchanges = [build.exchange(EXTRA[case[1]][0], [EXTRA[case[1]][1]])]
        depth = case[2]
    else:
        _, name, k, side, more, depth = case
        value = hs.seeds(name)[k]
        values = [value] + ([hs.seeds(name)[(k + 1) % len(hs.seeds(name))]] if more else [])
        if more == 2:
            values.append(value)
        fields = [(name, v) for v in values]
        others = [('Date', hs.IMF), ('X-Other', 'y')]
        if side == 'req':
            exchanges = [build.exchange({'headers': build.REQ['headers'] + fields[:1] + others + fields[1:]}, [{'headers': others}])]
        else:
            exchanges = [build.exchange({}, [{'status': 401 if 'uthent' in name else 200, 'headers': others + fields}])]
    for e in exchanges:
        if e.request is None and not e.responses:
            continue
        targets = [t for t, _ in [('req', e.request)] * (e.request is not None) + list(enumerate(e.responses))]
        for target in targets:
            m = e.request if target == 'req' else e.responses[target]
            fields, trailers = plain(m)
            base = rebuild(e, target, fields, trailers)
            want = obs.notice_sets(base)
            bm = base.request if target == 'req' else base.responses[target]
            bad = malformed(bm)
            ctx.state((want, len(fields)))
            singles = rewritings(fields, bad)
            for label, new, allowed in singles:
                compare(ctx, e, target, label, fields, new, trailers, want, allowed)
            if trailers:
                for label, new, allowed in rewritings(trailers, bad):
                    compare(ctx, e, target, 'trailer-' + label, trailers, None, new, want, allowed, fields)
            if depth == 2:
                # Second rewritings are applied to the result of the first.
                for label, new, allowed in singles[::1 if len(singles) < 25 else 4]:
                    again = rewritings(new, bad)
                    for label2, new2, allowed2 in again[::1 if len(again) < 25 else 4]:
                        compare(ctx, e, target, label + '+' + label2, fields, new2, trailers, want, tuple(allowed) + tuple(allowed2))


def compare(ctx, e, target, label, old, new, trailers, want, allowed, fields=None):
    got = obs.notice_sets(rebuild(e, target, fields if new is None else new, trailers))
    ctx.step()
    ctx.outcome(label.split(':')[0] if '+' not in label else 'pair')
    for part in want:
        diff = (want[part] ^ got[part]) - set(allowed)
        if diff:
            new = trailers if new is None else new
            ctx.violate(label, '%r instead of %r: the notices of the %s change by %s' % (
                [x for x in new if x not in old], [x for x in old if x not in new], part, ', '.join('%s%d' % ('+' if d in got[part] else '-', d) for d in sorted(diff))))
            return


_LINE = re.compile(rb'(?m)^([A-Za-z][A-Za-z0-9-]*):[ \t]*([^\r\n]*?)[ \t]*(\r?\n)(?![ \t])')


def stream(ctx, i):
    """Whitespace around values, and line endings, in the stream."""
    if not _corpus:
        _corpus.extend(corpus.load(6000))
    _, scheme, inbound, outbound = _corpus[i]
    base = [obs.notice_sets(e) for e in obs.analyse(inbound, outbound, scheme)]
    for which, data in enumerate((inbound, outbound)):
        head = re.search(rb'\r?\n\r?\n', data)
        if not head:
            continue
        end = head.end()
        for m in _LINE.finditer(data, 0, end):
            variants = []
            for before, after in ((b'', b''), (b' ', b' '), (b'\t', b'\t'), (b'  \t ', b' \t  '), (b'', b' ')):
                new = data[:m.start()] + m.group(1) + b':' + before + m.group(2) + after + m.group(3) + data[m.end():]
                if not m.group(2):
                    new = data[:m.start()] + m.group(1) + b':' + before + after + m.group(3) + data[m.end():]
                variants.append(('stream-space', new))
            name, value = m.group(1).decode('latin-1'), m.group(2).decode('latin-1')
            for f in CASES:
                line = f(name).encode('latin-1') + b': ' + m.group(2) + m.group(3)
                variants.append(('stream-name', data[:m.start()] + line + data[m.end():]))
                line = m.group(1) + b': ' + recased(name, value, f).encode('latin-1') + m.group(3)
                variants.append(('stream-case', data[:m.start()] + line + data[m.end():]))
            for label, new in dict((b, (a, b)) for a, b in variants).values():
                got = [obs.notice_sets(e) for e in obs.analyse(new if which == 0 else inbound, new if which else outbound, scheme)]
                ctx.step()
                ctx.outcome(label)
                if got != base:
                    ctx.violate(label, '%r rewritten in %r: notices %r instead of %r' % (m.group(), new[:m.end() + 40], got, base))
                    return


assert c29 and itertools
