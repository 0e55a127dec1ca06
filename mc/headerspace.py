"""The space of header values explored by C13 and C14: seeds, their single edits, and token sequences."""

import itertools

from mc.ref.grammars import HEADERS

IMF, RFC850, ASC = 'Sun, 06 Nov 1994 08:49:37 GMT', 'Sunday, 06-Nov-94 08:49:37 GMT', 'Sun Nov  6 08:49:37 1994'
DATE_TOKENS = ['Sun', 'Sunday', ', ', ' ', '06 Nov 1994', '06-Nov-94', 'Nov  6', 'Nov 16', '08:49:37', 'GMT', '1994', '6', 'sun']
DATES = ([IMF, RFC850, ASC, 'Tue, 31 Dec 2019 23:59:59 GMT', 'Wed Feb 29 00:00:00 2012', 'Saturday, 01-May-10 11:11:11 GMT'],
         DATE_TOKENS)
URIS = ['http://u:p@example.com:80/a%20b/;c=d?q=1&r=/?#f', '//[::1]:8/x', '/a/b?c', 'a:b', '../x;y', 'http://[v1.a:b]/',
        'http://[1:2:3:4:5:6:7:8]', 'http://[1::1.2.3.4%25eth0]/', 'http://192.168.0.255/', '', '?q', '#f', 'a/b:c', '/',
        'urn:isbn:0-1', 'http://[fe80::]:', 'x+y-z.1:', 'mailto:a@b', '*', 'http://[1:2::3:4]/', 'http://[::ffff:250.251.1.09]/']
URI_TOKENS = ['http', ':', '/', '//', '?', '#', 'a', '@', '[::1]', '[', ']', '%41', '%', '1.2.3.4', '256', ';', '|', ' ']
HOSTS = ['example.com', 'example.com:80', '[::1]:80', '1.2.3.4', '', ':', 'a_b~%41!:0', '[1:2:3:4:5:6:1.2.3.4]', '[vF.x]',
         '[::1%25z]', '[1::8]']
HOST_TOKENS = ['a', ':', '80', '[::1]', '[', ']', '1.2.3.4', '.', '%41', '%', '@', '/', ' ', '::', '1', 'v1.x']
LANG_TOKENS = ['en', 'zh-cmn', '-', 'Hans', 'US', '419', 'x', 'a', 'abcde', '1abc', 'abcdefghi', 'i-klingon', ',', ' ', '1', 'abcd']
LANGS = ['en', 'zh-cmn-Hans-CN', 'de-419-DE', 'sl-rozaj-biske-1994', 'x-private-1', 'en-a-bbb-ccc-x-d', 'i-klingon', 'art-lojban',
         'en-GB-oed', 'abcdefgh', 'abcd', 'a-b', 'de-CH-1901', 'zh-min-nan', 'en, de', ', en,,de ,']
TOKENS = ['a', 'A1', ',', ' ', '\t', '=', ';', '"', '"x"', '"\\""', '/', '(', '\xe9']
LIST0 = ['', 'a', 'a, b', ',a,,b,', ' ,', ', a ,\tb', "!#$%&'*+-.^_`|~09azAZ"]
PARAMS = ['a/b', 'a/b;c=d', 'a/b ;\tc="d \\" e"; f=g', 'a/b;c=""', 'text/html;charset=utf-8']
MT_TOKENS = ['a', '/', ';', '=', '"x"', ',', '*', ' ', 'q', 'q=0.5', '"', '\\', '\xe9', '*/*', '/*']
CRED = ['Basic Zm9v', 'Basic', 'Digest realm="a b", nonce=c', 'X a=b,c="d",', 'X a==', 'X ,a=b ,, c = d', 'X  a', 'X a-._~+/0=']
CRED_TOKENS = ['Basic', ' ', 'a', '=', '==', '"x"', ',', ', ', 'a=b', 'a="b"', '\t', '/', '"']
PAR_TOKENS = ['a', '=', ';', '"x"', ',', ' ', '\t', '"', '\\', 'b', 'wait', '1', '/']

SPACE = {
    'Accept': (['*/*', 'text/*;q=0.3, text/html;q=0.7, text/html;level=1, */*;q=0.500', 'a/b;c=d;q=1.000;e;f=g;h="i"', 'a/b;c="d"; q=0'] + LIST0[:3],
               MT_TOKENS + ['q=1.0', 'q=1.1', 'a/b']),
    'Accept-Charset': (['utf-8', '*;q=0, iso-8859-1;q=1.0', 'a ; q=0.123,,'], ['a', '*', ';', 'q=0.5', 'q=', '1', '0.', ',', ' ', '0001', ';q=1.000', '=']),
    'Accept-Encoding': (['gzip', '', 'gzip;q=1.0, identity; q=0.5, *;q=0'], ['gzip', '*', ';', 'q=0.5', 'Q=1', ',', ' ', '=', 'identity', ';q=0', '0.1234']),
    'Accept-Language': (['da, en-gb;q=0.8, *;q=0', 'abcdefgh-12345678', '*'], LANG_TOKENS + [';q=0.1', '*']),
    'Accept-Patch': (PARAMS + ['a/b,c/d;e=f'], MT_TOKENS),
    'Accept-Post': (PARAMS + ['', '*/*', 'a/*;q=1, b/c'], MT_TOKENS),
    'Accept-Ranges': (['bytes', 'none', 'none, bytes', 'x,bytes,'], ['bytes', 'none', 'a', ',', ' ', '=', '"']),
    'Access-Control-Allow-Credentials': (['true'], ['true', 'TRUE', ' ', ',', 'e', 'false']),
    'Access-Control-Allow-Headers': (LIST0, TOKENS),
    'Access-Control-Allow-Methods': (LIST0, TOKENS),
    'Access-Control-Allow-Origin': (['*', 'null', 'https://example.com:8080', 'a+b://[::1]'], URI_TOKENS + ['null', '*', '://', 'NULL']),
    'Access-Control-Expose-Headers': (LIST0, TOKENS),
    'Access-Control-Max-Age': (['0', '123456789012345678901234567890'], ['0', '9', 'a', '-', '.', ' ', '"']),
    'Access-Control-Request-Headers': (LIST0[1:], TOKENS),
    'Access-Control-Request-Method': (['GET', "x!#$%&'*+-.^_`|~"], TOKENS),
    'Age': (['0', '99999999999999999999'], ['0', '9', 'a', '-', '.', ' ', '"', ',']),
    'Allow': (LIST0, TOKENS),
    'Alt-Svc': (['clear', 'h2="alt.example.com:8000", h2=":443"; ma=3600 ;persist="1"', 'w%3Dx%3Ay="";a=b'],
                ['clear', 'CLEAR', 'h2', '=', '":1"', '":1', ';', ',', ' ', 'ma', '1', '"x"', 'h2=":1"']),
    'Alt-Used': (HOSTS, HOST_TOKENS),
    'Authorization': (CRED, CRED_TOKENS),
    'Cache-Control': (['no-cache', 'max-age=1, private="a, b",, x', 's-maxage="10"', ',a=b,'], PAR_TOKENS + ['no-cache', 'max-age=5', ',,']),
    'Connection': (LIST0[1:], TOKENS),
    'Content-Disposition': (['attachment; filename=a.txt', 'inline;filename="a \\" b" ; filename* = UTF-8\'en-US\'%e2%82%aC-a', 'x; y = z',
                             "form-data; filename*=utf-8''"],
                            ['attachment', 'filename', 'filename*', '=', ';', ' ', 'a', '"x"', "UTF-8''%41", "''", "'en'", '%', 'filename*=x', "b''c", '"']),
    'Content-Encoding': (LIST0[1:], TOKENS),
    'Content-Language': (LANGS, LANG_TOKENS),
    'Content-Length': (['0', '1024', '99999999999999999999'], ['0', '9', 'a', '-', '+', ' ', ',', '"']),
    'Content-Location': (URIS, URI_TOKENS),
    'Content-Range': (['bytes 0-9/10', 'bytes 5-6/*', 'bytes */7', 'BYTES 1-2/3', 'x y z\x01\x7f', 'x '],
                      ['bytes', 'x', ' ', '0', '-', '/', '*', '1-2/3', '\x80', '=', '\x00', '\t']),
    'Content-Type': (PARAMS, MT_TOKENS),
    'Cross-Origin-Resource-Policy': (['same-origin', 'same-site'], ['same', '-', 'origin', 'site', 'Same', ' ', ',', 'same-origin']),
    'Date': DATES,
    'ETag': (['"a"', 'W/"a!#[]~\x80\xff\\"', '""'], ['W/', 'w/', '"', 'a', ' ', '""', '\\', '\xff', '\x7f', '*', ',']),
    'Expect': (['100-continue', '100-Continue'], ['100', '-', 'continue', '100-continue', ' ', ',', '=', ';']),
    'Expires': DATES,
    'Forwarded': (['for=_a;by="[::1]:80";host="x";proto=http', 'for=1.2.3.4,, for=unknown', ';;for=a;', ',for=x;,'], PAR_TOKENS + ['for', 'for=a', ';;']),
    'HTTP2-Settings': (['AAMAAABkAAQAAP__', 'a=', 'a=='], ['A', '-', '_', '+', '/', '=', '==', '.', '~', ' ', '9', ',', '"']),
    'HTTPolice-Silence': (['1234', '1234 resp, 1235', '', '1 \tRESP,,2'], ['1', '1234', ' ', 'resp', ',', 'Resp', '\t', 'x', '-']),
    'Host': (HOSTS, HOST_TOKENS),
    'If-Match': (['*', '"a"', 'W/"a", "b"', ',"a",,"b c"'[:9]], ['W/', '"', 'a', ' ', '""', ',', '*', '"a"', '\xff', 'w/']),
    'If-Modified-Since': DATES,
    'If-None-Match': (['*', '"a"', 'W/"a" ,, "b"'], ['W/', '"', 'a', ' ', '""', ',', '*', '"a"', '\xff', 'w/']),
    'If-Range': (['"a"', 'W/"b"'] + DATES[0][:3], ['W/', '"a"', '"', ' '] + DATE_TOKENS[:11]),
    'If-Unmodified-Since': DATES,
    'Last-Modified': DATES,
    'Link': (['<http://e.x/>; rel=next', '</a>;rel="x y"; title*=UTF-8\'\'%41 ,<>', '<a> ;b; c = d;e ="f"', ''],
             ['<', '>', 'a', ';', '=', '"x"', ',', ' ', 'rel', '<a>', '<a>;rel=x', 'title*', "UTF-8''a", '"']),
    'Location': (URIS, URI_TOKENS),
    'Max-Forwards': (['0', '10'], ['0', '9', 'a', '-', '.', ' ', ',']),
    'Origin': (['null', 'https://example.com', 'http://1.2.3.4:80', 'x://'], URI_TOKENS + ['null', '*', '://', 'NULL']),
    'Pragma': (['no-cache', 'a=b, c="d", No-Cache,', 'no-cachex=1'], PAR_TOKENS + ['no-cache', 'NO-CACHE', 'no-cach']),
    'Prefer': (['respond-async, wait=100;a;b="c" ; ;d', 'a=""', 'return=minimal'], PAR_TOKENS + ['; ', ';;']),
    'Preference-Applied': (['a', 'wait=1, b="c",'], PAR_TOKENS),
    'Proxy-Authenticate': (CRED + ['a b=c, d e="f", g', 'a b, c d=='], CRED_TOKENS),
    'Proxy-Authorization': (CRED, CRED_TOKENS),
    'Range': (['bytes=0-9', 'bytes=-5', 'Bytes=1-, 2-3,-4', 'x=y-z,!~', 'bytes=,0-1'],
              ['bytes', 'BYTES', 'x', '=', '0', '-', ',', ' ', '0-1', '-1', '\x7f', '"', '\x80']),
    'Referer': (URIS, URI_TOKENS),
    'Retry-After': (DATES[0][:3] + ['0', '120'], ['0', '9', '-', '.', ' '] + DATE_TOKENS[:9]),
    'Server': (['Apache/2.4.1 (Unix) OpenSSL/1.0', 'a', 'a (b(c\\)d)e) f/g', 'a\t(\xe9)'], ['a', '/', '1', ' ', '(', ')', '(x)', '\\', '\\)', ',', '\xe9', '"', '\t']),
    'Strict-Transport-Security': (['max-age=31536000; includeSubDomains', ';;max-age = "1" ;;a', ''], PAR_TOKENS + ['max-age', ';;']),
    'TE': (['trailers', '', 'gzip;q=0.5, chunked', 'x;a=b; c="d";q=1.000', 'a ; q=0', 'deflate'],
           ['trailers', 'gzip', 'chunked', 'x', ';', 'q=0.5', 'a=b', '=', ',', ' ', ';q=1', 'q', '"x"', 'compress']),
    'Trailer': (LIST0[1:], TOKENS),
    'Transfer-Encoding': (['chunked', 'gzip, chunked', 'x;a=b ; c = "d",,', 'x;q=1'],
                          ['chunked', 'gzip', 'x', ';', 'a=b', '=', ',', ' ', 'q=1', '"x"', '"', 'chunke', 'compress']),
    'Upgrade': (['a', 'HTTP/2.0, h2c,, b/1'], ['a', '/', 'HTTP/2.0', ',', ' ', '1', '"', '=', '//']),
    'User-Agent': (['Mozilla/5.0 (X11; Linux) a/b', '\xe9'[:0] + 'x (a \\( (\xe9))  (b)'], ['a', '/', '1', ' ', '(', ')', '(x)', '\\', '\\)', ',', '\xe9', '"', '\t']),
    'Vary': (['*', 'accept', 'a, b', ',*,'], TOKENS[:9] + ['*', 'accept']),
    'Via': (['1.1 a', 'HTTP/1.0 [::1]:80 (x(y)), 1.1 b\t(c\\))', '2 x:'], ['1.1', ' ', 'a', '/', ':', '80', '(x)', '(', ')', ',', '[::1]', 'HTTP/', '\t', '"']),
    'WWW-Authenticate': (CRED + ['a b=c, d e="f", g', 'a b, c d=='], CRED_TOKENS),
    'Warning': (['110 - "x"', '199 a:80 "y \\"" "%s", 299 b "c"' % IMF, '112 [::1] "" "%s"' % ASC],
                ['110', ' ', '-', '"x"', '"', 'a', ':80', ',', '"%s"' % IMF, '"%s' % IMF, '11', '1', '"%s"' % RFC850]),
    'X-Content-Type-Options': (['nosniff', 'NoSniff'], ['nosniff', 'no', 'sniff', ' ', ',', 'x', '"']),
}
assert sorted(SPACE) == sorted(HEADERS), set(SPACE) ^ set(HEADERS)

REPS = [0, 1, 8, 9, 10, 13, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 52, 53, 54, 57, 58, 59, 60, 61,
        62, 63, 64, 65, 70, 71, 88, 90, 91, 92, 93, 94, 95, 96, 97, 102, 103, 120, 122, 123, 124, 125, 126, 127, 128, 160, 255]
FEW = [9, 32, 34, 37, 40, 42, 44, 47, 48, 53, 58, 59, 61, 65, 71, 92, 122, 127, 233]


def seeds(name):
    return [s.encode('iso-8859-1') for s in SPACE[name][0]]


def sequences(name, n):
    tokens = [t.encode('iso-8859-1') for t in SPACE[name][1]]
    seen = set()
    for k in range(n + 1):
        for combo in itertools.product(tokens, repeat=k):
            v = b''.join(combo)
            if v == v.strip(b' \t') and v not in seen:
                seen.add(v)
                yield v


def edits(seed, tier):
    """All single-byte edits with representative bytes; truncations; duplications."""
    chars = range(256) if tier == 'thorough' else REPS if len(seed) <= 12 else FEW
    seen = {seed}
    for i in range(len(seed) + 1):
        out = [seed[:i], seed[:i] + seed[i + 1:], seed[:i] + seed[i:i + 2] + seed[i:]]
        for c in chars:
            c = bytes([c])
            out.append(seed[:i] + c + seed[i + 1:])
            out.append(seed[:i] + c + seed[i:])
        for v in out:
            v = v.strip(b' \t')
            if v not in seen:
                seen.add(v)
                yield v


CHUNK = 400


def groups(names, tier, n):
    """(name, [values]) in chunks."""
    for name in names:
        batch = []
        done = set()
        for v in itertools.chain(seeds(name), sequences(name, n), *[edits(s, tier) for s in seeds(name)]):
            if v in done:
                continue
            done.add(v)
            batch.append(v)
            if len(batch) == CHUNK:
                yield name, batch
                batch = []
        if batch:
            yield name, batch


def message(name, value):
    """A message with just this header, in the direction where it is defined."""
    import httpolice
    from mc.ref import tables
    info = tables.header(name)
    if info.get('for_request') and not info.get('for_response'):
        return httpolice.Request('http', 'GET', '/', 'HTTP/1.1', [(name, value)], b'')
    return httpolice.Response('HTTP/1.1', 200, 'OK', [(name, value)], b'')
