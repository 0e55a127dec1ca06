"""C23: headers that consist of directives and parameters."""

import itertools

from mc import headerspace, rulecheck

ID = 'C23'
CLAIMED = True
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of sequences of directives and parameters over an alphabet for each header; the notices of every exchange are compared with an '
             'independent executable model of what each directive and parameter means')
NOTE = '''For each structured header, all sequences of directives or parameters up to length 3 over an alphabet of valid, repeated, case-varied, quoted, valueless
and wrong ones are put into messages (in one field or several); the notices about them must be exactly those of the model. Short token sequences cover every other header.'''
ASSUMPTIONS = ['a value that does not match the grammar of its field is judged by C13 only', 'edge values whose meaning is not defined are left out (see DESIGN.md)']
BOUNDS = {
    'quick': 'sequences of length <=3 over alphabets of 9 to 18 items for 14 headers; pairs of challenges and links; all values of C13 up to 1 token for every header, in both directions',
    'thorough': 'sequences of length <=4 for the alphabets of up to 14 items; all values of C13 up to 3 tokens'}
MIN_STATES = 700
CASE_TIMEOUT = 600
SCOPE = frozenset([1013, 1035, 1042, 1116, 1117, 1152, 1153, 1154, 1155, 1156, 1157, 1158, 1159, 1160, 1161, 1162, 1163, 1164, 1171, 1193, 1194, 1195, 1196, 1206, 1207, 1208, 1209, 1210, 1211,
                   1212, 1213, 1217, 1218, 1219, 1220, 1221, 1225, 1226, 1227, 1228, 1231, 1233, 1235, 1238, 1243, 1247, 1248, 1249, 1250, 1251, 1252, 1256, 1257, 1258, 1260, 1261, 1262, 1263, 1264, 1265,
                   1266, 1267, 1268, 1269, 1273, 1274, 1276, 1280, 1285, 1286, 1287, 1288, 1289, 1290, 1291, 1296, 1297, 1299, 1300, 1301, 1307, 1308, 1309, 1310, 1227, 1272])

CACHE = ['max-age=5', 'max-age="5"', 'max-age', 'max-age=x', 'Max-Age=0', 's-maxage=5', 'no-cache', 'no-cache="a"', 'no-cache=a', 'private', 'private="a b"', 'no-store', 'no-store=1', 'public',
         'must-revalidate', 'max-stale', 'max-stale="5"', 'min-fresh=5', 'only-if-cached', 'immutable', 'stale-if-error=5', 'foo', 'foo="a,b"', 'stale-while-revalidate=5']
HSTS = ['max-age=5', 'max-age=0', 'max-age="5"', 'max-age', 'max-age=x', 'max-age=-1', 'MAX-AGE=7', 'includeSubDomains', 'includesubdomains=1', 'preload', 'foo="bar"', '', 'includeSubDomains=']
PREFER = ['return=minimal', 'return=representation', 'return', 'return=x', 'Return=Minimal', 'return="minimal"', 'respond-async', 'respond-async=1', 'wait=5', 'wait="5"', 'wait=x', 'wait',
          'handling=strict', 'handling=LENIENT', 'foo', 'foo=bar', 'wait=5;a=b', 'return=""', 'handling=strict; return=minimal']
APPLIED = ['return=minimal', 'return=representation', 'Return="minimal"', 'respond-async', 'wait=5', 'wait=10', 'handling=strict', 'foo', 'foo=bar', 'return', 'wait=x']
FORWARDED = ['for=192.0.2.43', 'For="[2001:db8::1]:80"', 'for=[2001:db8::1]', 'for=unknown', 'for=_x', 'for=a.b', 'for="a:b"', 'by=1.2.3.4', 'by=x', 'host=a.b', 'host="a b"', 'host=""', 'proto=http', 'proto="x:"',
             'PROTO=1', 'foo=bar']
DISPOSITION = ['filename="a"', 'filename=a', 'filename="a%41"', 'filename="a\\"b"', 'filename="\xe9"', 'FileName="b"', "filename*=UTF-8''a", "filename*=UTF-8''%e2%82%ac", 'filename*=a', 'name=x', 'foo="\xe9"', 'name="%41"',
               'filename="a,b;c"', 'filename="%4"']
BASIC = ['realm="x"', 'realm=x', 'charset="utf-8"', 'charset=UTF-8', 'charset="latin-1"', 'foo=bar', 'Realm="y"', 'error="invalid_token"']
BEARER = ['realm="x"', 'realm=x', 'scope="a b"', 'scope="a  b"', 'scope=""', 'error="invalid_token"', 'error=invalid_request', 'error="insufficient_scope"', 'error="x"', 'error="\xe9"', 'error_description="a b"',
          'error_description="\xe9"', 'error_uri="http://a/"', 'error_uri="a b"', 'error_uri=x', 'foo=bar', 'Error="invalid_token"']
CREDENTIALS = ['Basic', 'basic Zm9vOmJhcg==', 'Basic Zm9v', 'Basic Zm9vOgE=', 'Basic Zm9', 'Basic realm="x"', 'Basic Og==', 'Basic fzo=', 'Basic Zm86/3/', 'Basic Zm9vOn8=', 'Basic Zjo6', 'Bearer', 'Bearer abc', 'bearer a=b', 'BEARER a==', 'Bearer realm=x',
               'Digest', 'Digest realm="x", nonce=y', 'Digest realm=x', 'Negotiate', 'Negotiate a87421000492aa874209af8bc028', 'Foo', 'Foo a', 'Foo a=b', 'Foo a="b", a=c', 'foo REALM=x', 'Foo realm="x", realm=y', 'Basic Zm9vOmJhcg', 'Basic =',
               'Bearer a, b=c', 'Hoba result=x']
LINK = ['rel=next', 'rel="next prev"', 'rel=""', 'REL=x', 'rel="http://a/"', 'rel="a,b"', 'rev=x', 'rev="A b"', 'title="a, b"', 'title=a', "title*=UTF-8''a", 'title*=x', 'media=print', 'media="a;b"', 'type="text/plain"', 'type=text/plain', 'type="a/b;c"', 'type=x',
        'hreflang=en', 'hreflang="en"', 'hreflang=a_b', 'anchor="#x"', 'anchor="a b"', 'foo', 'foo=bar', 'foo="a;b"', 'rel']
RELATED = ['rel=blocked-by', 'rel="Blocked-By x"', 'rel="x blocked-by"', 'rev=blocked-by', 'rel=blocked', 'rel=x; rel=blocked-by', 'rel=blocked-by; rel=x', 'rel=""', 'rel="blocked-by', 'Rel=BLOCKED-BY']
ACCEPT = ['a/b', 'a/b;q=0.5', 'A/B;q=1', 'a/*', 'a/*;q=0.5', '*/*', '*/*;q=0.50', 'c/d;q=0', 'a/b;c=d', '*/*;q=0', 'a/b;q=1.0;x=y', 'b/*;c=d']
CHARSET = ['utf-8', 'utf-8;q=0.5', '*', '*;q=0.5', 'ascii;q=0', '*;q=0', 'UTF-8;q=1.000']
ENCODING = ['gzip', 'gzip;q=0.5', 'x-gzip', 'x-gzip;q=1', 'X-Compress;q=0', 'identity', '*', '*;q=0.5', 'identity;q=0', 'compress']
LANGUAGE = ['en', 'en;q=0.5', 'en-gb', '*', '*;q=0.5', 'de-CH-1901;q=0', '*;q=0']
ALT = ['h2=":1"', 'h2="a.b:1"', 'h2=""', 'h2=:1', 'h%32=":1"', 'H2=":1"', 'w%3Dx%3Ay="[::1]:8"', 'w%3dx=":1"', 'h2="a"', 'h2=":x"', 'x%41=":1"', '%=":1"', 'clear', 'x%25=":1"']
ALT_PARAMS = ['ma=5', 'ma="5"', 'ma=x', 'persist=1', 'persist=0', 'persist="1"', 'foo=bar', 'foo="a,b"', 'ma=', 'MA=x']
TYPE_PARAMS = ['charset=utf-8', 'Charset="x"', 'charset=y', 'a=b', 'A="b"', 'boundary=x', 'a="x;y"', 'q=1']
TYPES = ['text/plain', 'application/json', 'Application/JSON', 'text/x-foo', 'text/javascript', 'application/json-patch+json', 'application/x-www-form-urlencoded', 'multipart/form-data', 'application/merge-patch+json', 'a/b', 'audio/vnd.qcelp', 'text']
PATCH_TYPES = ['application/json', 'application/json-patch+json', 'Application/merge-patch+json', 'text/plain;a=b', 'application/xml', 'application/xml-patch+xml', 'multipart/form-data', 'a/b', 'application/json;charset=x', '*/*']
WARNING = ['110 - "x"', '299 a:80 "x"', '300 - "x"', '099 - "x"', '214 - "a, b" "Thu, 31 Dec 2015 18:26:56 GMT"', '110 - "x" "Thu, 31 Dec 2015 18:26:57 GMT"', '199 - "x" "Thu Dec 31 18:26:56 2015"', '110 - "x" "y"', '999 a "\xe9"']
PRAGMA = ['no-cache', 'NO-CACHE', 'foo', 'foo=bar', 'a="b,c"']
UPGRADE = ['h2', 'h2c', 'h2c/1', 'foo', 'foo/1', 'HTTP/2.0', 'h2/x']
VARY = ['host', 'Host', 'accept', '*', 'prefer', 'Prefer', 'x']
DATE = ('Date', 'Thu, 31 Dec 2015 18:26:56 GMT')
TLS = {'scheme': 'https'}


def sequences(values, n, seps):
    """Strings joined in every way."""
    for k in range(1, n + 1):
        for items in itertools.product(values, repeat=k):
            for sep in itertools.product(seps, repeat=k - 1):
                yield ''.join(x + y for x, y in zip(items, sep + ('',)))


def size(tier):
    return 3 if tier == 'quick' else 4


def with_first(first, values, n, seps):
    yield first
    for rest in sequences(values, n - 1, seps):
        for s in seps:
            yield first + s + rest


SIMPLE = {
    # kind: (alphabet, separators)
    'cache-request': (CACHE, (', ',)), 'cache-response': (CACHE, (', ',)), 'hsts': (HSTS, ('; ',)), 'prefer': (PREFER, (', ',)), 'applied': (APPLIED, (', ',)),
    'forwarded': (FORWARDED, (';', ', ')), 'accept': (ACCEPT, (', ',)), 'accept-charset': (CHARSET, (',',)), 'accept-encoding': (ENCODING, (', ',)),
    'accept-language': (LANGUAGE, (', ',)), 'warning': (WARNING, (', ',)), 'pragma': (PRAGMA, (', ',)), 'upgrade': (UPGRADE, (', ',)), 'vary': (VARY, (', ',)),
    'accept-patch': (PATCH_TYPES, (', ',))}
PARAMETERS = {
    'disposition': (DISPOSITION, '; '), 'link': (LINK, '; '), 'related': (RELATED, ', '), 'alt-svc': (ALT_PARAMS, '; '), 'type': (TYPE_PARAMS, '; '), 'basic': (BASIC, ', '), 'bearer': (BEARER, ', ')}
SINGLE_FIELD = {'hsts', 'disposition', 'type'}
CHUNK = 60


def shards(tier):
    out = [[kind, i] for kind, (values, _) in list(SIMPLE.items()) + list(PARAMETERS.items()) for i in range(len(values))]
    out += [['credentials', i] for i in range(4)] + [['fields', kind] for kind in list(SIMPLE)] + [['mixed', i] for i in range(6)]
    out += [['values', name] for name in sorted(headerspace.SPACE) if name not in EXCLUDED]
    return out


def chunked(values, n=CHUNK):
    batch = []
    for v in values:
        batch.append(v)
        if len(batch) == n:
            yield batch
            batch = []
    if batch:
        yield batch


# Their effects on the rest of the message are complicated; other checks (C03, C04, C09, C16, C27) have them
EXCLUDED = {'HTTPolice-Silence', 'Expect'}


def cases(shard, tier):
    kind, i = shard
    n = size(tier)
    if kind in SIMPLE:
        values, seps = SIMPLE[kind]
        for batch in chunked(with_first(values[i], values, n if len(values) < 14 else 3, seps)):
            yield (kind, batch)
    elif kind in PARAMETERS:
        values, sep = PARAMETERS[kind]
        if i == 0:
            yield (kind, [''])
        for batch in chunked(with_first(values[i], values, n if len(values) < 15 else 3 if len(values) < 25 or tier == 'thorough' else 2, (sep,))):
            yield (kind, batch)
    elif kind == 'credentials':
        for k, c in enumerate(CREDENTIALS):
            if k % 4 == i:
                yield (kind, c)
    elif kind == 'fields':
        values, _ = SIMPLE[i]
        for a in values:
            yield (kind, i, a)
    elif kind == 'mixed':
        for a in range(12):
            yield (kind, i, a)
    else:
        for batch in chunked(dict.fromkeys(v.decode('iso-8859-1') for v in itertools.chain(
                headerspace.seeds(i), headerspace.sequences(i, 1 if tier == 'quick' else 3)))):
            yield (kind, i, batch)


def check(ctx, req, resps):
    rulecheck.compare(ctx, req, resps, SCOPE)


finish = rulecheck.finisher(SCOPE)
NAMES = {'cache-request': 'Cache-Control', 'cache-response': 'Cache-Control', 'hsts': 'Strict-Transport-Security', 'applied': 'Preference-Applied', 'forwarded': 'Forwarded'}


def base(**kw):
    headers = [('Host', 'example.com'), ('User-Agent', 'x')] + kw.pop('headers', [])
    return dict({'headers': headers}, **kw)


def fields(kind, values):
    name = NAMES.get(kind, kind.title())
    return [[(name, v)] for v in values]


def simple(ctx, kind, options):
    """Each option is a list of header fields."""
    if kind == 'cache-request':
        for h in options:
            check(ctx, base(headers=h), [])
        for h in options[::7]:
            for m in ('POST', 'FOO', 'OPTIONS'):
                check(ctx, base(method=m, headers=h + [('Pragma', 'no-cache')]), [{'headers': [DATE]}])
    elif kind in ('cache-response', 'pragma', 'warning', 'upgrade', 'accept-patch', 'vary'):
        both = [{'status': s, 'headers': [DATE] + h} for h in options for s in (200,)]
        check(ctx, base(), both)
        check(ctx, base(scheme='https', method='PATCH', headers=[('Content-Type', 'text/plain')], body=b'x'), both[::3])
        if kind == 'accept-patch':
            check(ctx, base(), [{'headers': [('Allow', a), ('Accept-Post', h[0][1])]} for h in options for a in ('GET', 'POST, PATCH')])
        check(ctx, base(method='OPTIONS', target='*'), [{'headers': [('Allow', 'GET')] + h} for h in options[::5]])
        if kind != 'cache-response' and kind != 'accept-patch':
            for h in options:
                check(ctx, base(headers=[DATE] + h), [])
        for h in options[::11]:
            check(ctx, base(scheme='https', method='POST', headers=h, trailers=[('Foo', '1')]), [{'status': 103, 'headers': h}, {'status': 415, 'headers': h, 'trailers': h}, {'status': 407, 'headers': h}])
    elif kind == 'hsts':
        for scheme in ('https', 'http'):
            check(ctx, base(scheme=scheme), [{'headers': h} for h in options])
    elif kind == 'prefer':
        for h in options:
            check(ctx, base(headers=h), [])
            check(ctx, base(method='POST', headers=h), [{'headers': [('Preference-Applied', 'return=minimal, foo=bar')]}, {'headers': [('Preference-Applied', 'Handling="strict", wait=5')]}])
    elif kind == 'applied':
        for m in ('GET', 'POST'):
            for asked in ([], ['return=minimal, foo, wait=5'], ['return=representation', 'foo=bar;x'], ['RETURN=minimal', 'handling=lenient'], ['respond-async=1', 'wait=x']):
                kinds = [{'headers': h} for h in options]
                check(ctx, base(method=m, headers=[('Prefer', a) for a in asked]), kinds)
        check(ctx, base(), [{'headers': h + [('Vary', v)]} for h in options[::3] for v in ('prefer', '*', 'Prefer, x', 'x')])
        check(ctx, None, [{'headers': h} for h in options])
    elif kind == 'forwarded':
        for h in options:
            check(ctx, base(headers=h), [])
    else:
        for h in options:
            check(ctx, base(headers=h), [{'status': 406, 'body': b'x'}])


def run(ctx, case):
    kind = case[0]
    if kind == 'x':
        check(ctx, case[1], case[2])
    elif kind in SIMPLE:
        simple(ctx, kind, fields(kind, case[1]))
    elif kind == 'fields':
        # Spread over two fields
        _, kind, a = case
        values, _ = SIMPLE[kind]
        simple(ctx, kind, [sum(fields(kind, [a, b]), []) for b in values] + [sum(fields(kind, ['', a]), []), sum(fields(kind, [',' + a, a + ' ,']), [])])
    elif kind == 'disposition':
        values = ['%s; %s' % (t, v) if v else t for v in case[1] for t in ('attachment', 'inline', 'x')]
        check(ctx, base(), [{'headers': [('Content-Disposition', v)]} for v in values])
        check(ctx, base(method='PUT', body=b'x', headers=[('Content-Disposition', values[-1])]), [])
        check(ctx, None, [{'headers': [('Content-Disposition', a), ('Content-Disposition', b)]} for a, b in zip(values[::5], values[3::5])])
    elif kind == 'link':
        values = ['<a>; ' + v if v else '<>' for v in case[1]] + ['<%s>; %s' % (t, v) for v in case[1][::9] for t in ('a,b', 'a;b', 'http://a.b/?c', '')] + \
            ['<a>; %s, <b>; %s' % (v, w) for v, w in zip(case[1], case[1][1:] + case[1][:1])]
        check(ctx, base(), [{'status': 451, 'headers': [('Link', v)], 'body': b'x'} for v in values])
        for v in values[::7]:
            check(ctx, base(headers=[('Link', v), ('Link', '<c>;rel=x')], method='PUT', body=b'x'), [])
    elif kind == 'related':
        values = [', '.join('<a>; ' + p for p in v.split(', ')) for v in case[1] if v]
        check(ctx, base(), [{'status': s, 'headers': [('Link', v)], 'body': b'x'} for v in values for s in (451, 200)])
        check(ctx, base(), [{'status': 451, 'headers': [('Link', v), ('Link', w)]} for v, w in zip(values, values[1:])])
    elif kind == 'alt-svc':
        values = ['%s%s' % (p, v and '; ' + v) for v in case[1] for p in (ALT if len(v.split('; ')) < 3 else ALT[:2])]
        values += ['%s, %s' % (v, w) for v, w in list(zip(values, values[1:]))[::1 if len(case[1][0]) < 12 else 5]]
        check(ctx, base(), [{'headers': [('Alt-Svc', v)]} for v in values])
        check(ctx, base(scheme='https'), [{'status': 421, 'headers': [('Alt-Svc', v)] + [('Alt-Svc', w)]} for v, w in zip(values[::9], values[5::9])])
        check(ctx, base(version='HTTP/2'), [{'version': 'HTTP/2', 'status': s, 'headers': [('Alt-Svc', v)]} for v in values[::30] for s in (200, 421)])
    elif kind == 'type':
        values = ['%s; %s' % (t, v) if v else t for v in case[1] for t in (TYPES if len(v.split('; ')) < 3 else TYPES[:2])]
        check(ctx, base(), [{'headers': [('Content-Type', v)], 'body': b'{}'} for v in values if not v.startswith('multipart')])
        for v in values[::9]:
            check(ctx, base(method='PATCH', headers=[('Content-Type', v)], body=b'{}'), [{'status': 415, 'body': b'x'}, {'status': 200}])
    elif kind in ('basic', 'bearer'):
        scheme = kind.title()
        for name, status in (('WWW-Authenticate', 401), ('Proxy-Authenticate', 407)):
            kinds = [{'status': status, 'headers': [(name, '%s %s' % (scheme, v) if v else scheme)]} for v in case[1] if status == 401 or v.count(', ') < 2]
            check(ctx, base(scheme='https'), kinds)
        challenges = ['%s %s' % (scheme, v) if v else scheme for v in case[1]]
        kinds = [{'status': s, 'headers': [('WWW-Authenticate', v)]} for v in challenges for s in (400, 403, 200)]
        check(ctx, base(scheme='http', headers=[('Authorization', 'Bearer abc')]), kinds)
        challenges = [c for c in challenges if c.count(', ') < (2 if kind == 'bearer' else 3)]
        more = ['Digest realm="x", nonce=y', 'Negotiate', 'BASIC realm="x"', 'bearer error="invalid_token"', 'Foo', 'Bearer abc=', 'Basic abc', 'Foo realm=x']
        kinds = [{'status': 401, 'headers': [('WWW-Authenticate', '%s, %s' % (x, v))]} for k, v in enumerate(challenges) for x in (more[k % 8], more[k * 3 % 8])]
        kinds += [{'status': 401, 'headers': [('WWW-Authenticate', '%s, %s' % (v, x)), ('WWW-Authenticate', x)]} for v, x in zip(challenges, itertools.cycle(more))]
        for req in (base(headers=[('Authorization', 'Bearer abc')]), base(target='/?access_token=a', scheme='https', headers=[('Authorization', 'Basic abc')]),
                    base(method='POST', body=b'access_token=a', scheme='https', headers=[('Content-Type', 'application/x-www-form-urlencoded')]), base(target='/?access_token=a', scheme='https'), base(scheme='https')):
            check(ctx, req, kinds)
        check(ctx, None, kinds[::3])
    elif kind == 'credentials':
        for name in ('Authorization', 'Proxy-Authorization'):
            for more in ({}, TLS, {'method': 'POST', 'version': 'HTTP/2', 'scheme': None}):
                for extra in ([], [('Authorization', 'Basic Og==')]):
                    check(ctx, base(headers=[(name, case[1])] + extra, **more),
                          [{'status': 401, 'headers': [('WWW-Authenticate', v)]} for v in ['Bearer', 'Bearer realm="x"', 'bearer error="invalid_token"', 'Basic realm="x"', 'Bearer error_uri="a"', 'Foo, Bearer realm=x']])
    elif kind == 'mixed':
        _, i, a = case
        groups = [CACHE, HSTS, DISPOSITION, BEARER, LINK, ALT, TYPES, WARNING, APPLIED, PATCH_TYPES, BASIC, VARY]
        names = ['Cache-Control', 'Strict-Transport-Security', 'Content-Disposition', 'WWW-Authenticate', 'Link', 'Alt-Svc', 'Content-Type', 'Warning', 'Preference-Applied', 'Accept-Patch', 'Proxy-Authenticate', 'Vary']
        b = (a + 1 + i) % 12
        prefix = {2: 'attachment; ', 3: 'Bearer ', 4: '<a>; ', 10: 'Basic '}
        if a != 6 and b != 6:
            check(ctx, base(), [{'status': s, 'headers': [(names[a], prefix.get(a, '') + x), (names[b], prefix.get(b, '') + y)]} for x in groups[a] for y in groups[b][:12] for s in (200, 401)])
    else:
        _, name, values = case
        check(ctx, base(scheme='https'), [{'headers': [DATE, (name, v)], 'body': b'x'} for v in values])
        check(ctx, base(scheme='http', version='HTTP/1.0'), [{'status': 401, 'version': 'HTTP/1.0', 'headers': [(name, v)], 'body': b'x'} for v in values])
        for v in values:
            check(ctx, base(headers=[(name, v)]), [])
            check(ctx, base(method='POST', scheme='https', version='HTTP/2', headers=[(name, v)], body=b'x'), [{'version': 'HTTP/2'}])
