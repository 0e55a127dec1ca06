"""C26: conversion helpers translate faithfully."""

import itertools

from mc import build, conn, corpus, obs

ID = 'C26'
CLAIMED = True
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of header lists and environments up to a size over alphabets of names and values; results compared with an independent model, and messages built from converted '
             'environments compared with the messages they were made from')
NOTE = '''pop_pseudo_headers: the dictionary, and the list modified in place, for every list of up to 5 entries. headers_from_cgi: names, values, order, Host first, nothing else taken, the environment left
alone, for every ordered selection of up to 4 variables; and corpus requests carried through an environment give the same notices.'''
ASSUMPTIONS = ['the case of header names made from variables does not matter', 'an empty CONTENT_TYPE or CONTENT_LENGTH means absent (RFC 3875)', 'of repeated pseudo-headers the last one is returned']
BOUNDS = {
    'quick': 'all lists of <= 5 entries over 9; all ordered selections of <= 3 of 24 variables (a third of those of 4) with 2-5 values each; several hundred corpus requests',
    'thorough': 'lists of <= 6; selections of <= 5'}
MIN_STATES = 300

ENTRIES = [(':method', 'GET'), (':path', '/a:b'), (':path', b'/2'), (':', ''), ('Host', 'x'), ('a', b'\xff'), ('a:', ':x'), ('', ''), ('X-Y', ':method')]

VARS = {
    'HTTP_HOST': ['example.com', ''], 'CONTENT_LENGTH': ['24', 24, '', 0], 'CONTENT_TYPE': ['text/plain', ''], 'HTTP_USER_AGENT': ['x', 'caf\u00e9'], 'HTTP_IF_NONE_MATCH': ['*', '"a", "b"'],
    'HTTP_X_FOO_BAR': ['', b'\xff\xfe', 5], 'HTTP_TE': ['trailers'], 'HTTP_DNT': [1, '0'], 'HTTP__A': ['x'], 'HTTP_X1_2': ['y'],
    'REQUEST_METHOD': ['GET'], 'SERVER_NAME': ['HTTP_HOST'], 'HTTPS': ['on'], 'http_accept': ['x'], 'wsgi.version': [(1, 0)], 'PATH_INFO': ['/HTTP_X'], 'XHTTP_Y': ['z'], 'HTTPS_SERVER_SUBJECT': ['x'], 'CONTENT_LENGTH_X': ['1'], 'HTTP': ['x'], 'CONTENT_ENCODING': ['gzip'], 'HTTP2': ['on'], 'REDIRECT_HTTP_X': ['y'], 'QUERY_STRING': ['']}


def shards(tier):
    return [['pop', n] for n in range(len(ENTRIES))] + [['cgi', n] for n in range(len(VARS))] + [['corpus', n] for n in range(8)]


def cases(shard, tier):
    kind, n = shard
    if kind == 'pop':
        if n == 0:
            yield ('pop', [])
        for k in range(5 if tier == 'quick' else 6):
            for rest in itertools.product(range(len(ENTRIES)), repeat=k):
                yield ('pop', [n] + list(rest))
    elif kind == 'cgi':
        names = list(VARS)
        if n == 0:
            yield ('cgi', [])
        for k in range(4 if tier == 'quick' else 5):
            others = [x for x in range(len(names)) if x != n]
            for rest in itertools.permutations(others, k):
                if k == 3 and tier == 'quick' and (sum(rest) + n) % 3:
                    continue
                yield ('cgi', [n] + list(rest))
    else:
        for i in range(n, len(corpus.load()), 8):
            yield ('corpus', i)


def run(ctx, case):
    from httpolice import helpers
    kind, arg = case
    if kind == 'pop':
        entries = [ENTRIES[n] for n in arg]
        given = list(entries)
        got = helpers.pop_pseudo_headers(given)
        ctx.step()
        want = {}
        for name, v in entries:
            if name[:1] == ':':
                want[name] = v
        rest = [x for x in entries if x[0][:1] != ':']
        if dict(got) != want:
            ctx.violate('pop-result', '%r: %r instead of %r' % (entries, got, want))
        if given != rest:
            ctx.violate('pop-rest', '%r: %r left instead of %r' % (entries, given, rest))
        ctx.state((len(want), len(rest)))
        ctx.outcome((len(want), len(rest)))
    elif kind == 'cgi':
        names = [list(VARS)[n] for n in arg]
        for values in itertools.product(*[VARS[n] for n in names]):
            env = dict(zip(names, values))
            cgi(ctx, env)
    else:
        through(ctx, arg)


def text(v):
    return v if isinstance(v, bytes) else str(v).encode('latin-1')


def model(env):
    known = {}
    for n, v in env.items():
        if n[:5] == 'HTTP_':
            known[n[5:].replace('_', '-').lower()] = text(v)
        elif n in ('CONTENT_TYPE', 'CONTENT_LENGTH') and text(v):
            known[n.replace('_', '-').lower()] = text(v)
    return known


def cgi(ctx, env):
    from httpolice import helpers
    before = list(env.items())
    got = helpers.headers_from_cgi(env)
    ctx.step()
    if list(env.items()) != before:
        ctx.violate('cgi-env', 'the environment %r was changed to %r' % (before, env))
    want = model(env)
    if any(not isinstance(n, str) or not isinstance(v, (str, bytes)) for n, v in got):
        ctx.violate('cgi-types', '%r: %r cannot be passed to Request' % (env, got))
        return
    plain = [(n.lower(), text(v)) for n, v in got]
    if sorted(plain) != sorted(want.items()):
        ctx.violate('cgi-fields', '%r: %r instead of %r' % (env, plain, sorted(want.items())))
    if want.get('host') and plain[:1] != [('host', want['host'])]:
        ctx.violate('cgi-host', '%r: Host is not first in %r' % (env, plain))
    rest = [x for x in plain if x[0] not in ('host', 'content-length', 'content-type')]
    if rest != [x for x in want.items() if x[0] not in ('host', 'content-length', 'content-type')]:
        ctx.violate('cgi-order', '%r: order %r' % (env, plain))
    ctx.state((sorted(env), [bool(v) for v in env.values()]))
    ctx.outcome(len(got))


def through(ctx, i):
    """A request carried through an environment, as a server does, is judged as the same request."""
    import httpolice
    from httpolice import helpers
    _, scheme, inbound, outbound = corpus.load()[i]
    for e in conn.parse(inbound, outbound, scheme):
        r = e.request
        if r is None or r.version is None:
            continue
        fields = [(n.decode('latin-1'), v.decode('latin-1')) for n, v in conn.fields_of(r.header_entries)]
        low = [n.lower() for n, _ in fields]
        if len(set(low)) != len(low) or any('_' in n or not n.isascii() for n in low) or any(n in ('content-length', 'content-type') and not v for n, v in fields for n in [n.lower()]):
            continue
        env = {'REQUEST_METHOD': str(r.method), 'SERVER_NAME': 'x', 'wsgi.input': object()}
        for n, v in fields:
            key = n.upper().replace('-', '_')
            env[key if key in ('CONTENT_TYPE', 'CONTENT_LENGTH') else 'HTTP_' + key] = v
        body = r.body
        first = [x for x in fields if x[0].lower() == 'host' and x[1]]
        second = [x for k in ('content-length', 'content-type') for x in fields if x[0].lower() == k]
        order = first + second + [x for x in fields if x not in first + second]

        def judge(headers):
            new = httpolice.Request(scheme, str(r.method), str(r.target), str(r.version), headers, body)
            ex = httpolice.Exchange(new, [])
            httpolice.check_exchange(ex)
            return obs.notices(ex)
        a, b = judge(helpers.headers_from_cgi(env)), judge(order)
        ctx.step()
        ctx.state(('through', i))
        if a != b:
            ctx.violate('through', 'request %r is judged %r after conversion, %r before' % (fields, a, b))


assert build
