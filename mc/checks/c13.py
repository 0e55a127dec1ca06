"""C13: a header is reported as malformed exactly when it breaks its grammar."""

import itertools

from mc import headerspace as hs
from mc.ref import abnf, cover, grammars, tables

ID = 'C13'
CLAIMED = True
LEVEL = 'model_checking'
TECHNIQUE = ('explicit-state exploration of automata compiled from the ABNF of the specifications: every transition of every state is taken '
             'and its target confirmed on the real parser; plus exhaustive enumeration of token sequences and single edits')
NOTE = '''For all 68 headers with a known grammar, the targets and the arguments: a word through every transition of every automaton state (at the ends of each
range of bytes), completed, not completed, and told from neighbouring states; every token sequence up to length 3 (thorough 4) over a per-header alphabet and every
single-byte edit of seed values; presence of notice 1000 must equal rejection by a DFA compiled from the RFC's own ABNF. Likewise
directive and parameter arguments (1158, 1257, 1266), request targets (1045), methods (1292), field names (1293), reasons (1294).'''
ASSUMPTIONS = [
    'names that a grammar special-cases (q, bytes, filename, no-cache, chunked...) are not also extension names of that grammar',
    'field values carry no leading or trailing whitespace (HTTP strips it)',
    'comments nest at most %d deep in the reference' % 5]
BOUNDS = {
    'quick': 'automata up to 1500 states (all but Link, Via and Warning are smaller), in the larger ones two of each kind of similar states, one header of each group with the same grammar; token sequences <= 3 (alphabets of 6-16 tokens), single edits with 19-58 representative bytes',
    'thorough': 'automata up to 6000 states each, all 256 bytes in every state, all headers; token sequences <= 4, single edits with all 256 bytes'}
MIN_STATES = 5000

# (header, template of the value, notice) with the argument written as a token or a quoted-string: rule of the argument
ARGS = [
    ('Cache-Control', 'max-age=%s', 1158, 'delta-seconds'), ('Cache-Control', 'x, s-maxage=%s', 1158, 'delta-seconds'),
    ('Cache-Control', 'stale-if-error=%s', 1158, 'delta-seconds'), ('Cache-Control', 'stale-while-revalidate=%s, y', 1158, 'delta-seconds'),
    ('Cache-Control', 'no-cache=%s', 1158, 'field-name-list'), ('Cache-Control', 'private=%s', 1158, 'field-name-list'),
    ('Cache-Control', 'max-stale=%s', 1158, 'delta-seconds'), ('Cache-Control', 'min-fresh=%s', 1158, 'delta-seconds'),
    ('Cache-Control', 'foo=%s', 1158, None), ('Strict-Transport-Security', 'max-age=%s', 1158, 'delta-seconds'),
    ('Strict-Transport-Security', 'foo=%s', 1158, None),
    ('Forwarded', 'for=%s', 1158, 'node'), ('Forwarded', 'proto=http;by=%s', 1158, 'node'), ('Forwarded', 'host=%s', 1158, 'host-header'),
    ('Forwarded', 'proto=%s, for=_a', 1158, 'scheme'), ('Forwarded', 'foo=%s', 1158, None),
    ('Alt-Svc', 'h2=":1"; ma=%s', 1158, 'delta-seconds'), ('Alt-Svc', 'h2=":1"; persist=%s; x=y', 1158, 'persist'),
    ('Alt-Svc', 'h2=%s', 1257, 'alt-authority'), ('Alt-Svc', 'a=":1", h2=%s', 1257, 'alt-authority'),
    ('Prefer', 'return=%s', 1158, 'return'), ('Prefer', 'handling=%s;a=b', 1158, 'handling'), ('Prefer', 'a, wait=%s', 1158, 'delta-seconds'),
    ('Preference-Applied', 'return=%s', 1158, 'return'), ('Preference-Applied', 'handling=%s', 1158, 'handling'),
    ('Link', '</>; rel=%s', 1158, 'rel'), ('Link', '</>; rel=a; rev=%s', 1158, 'rel'), ('Link', '</>; rel=a; anchor=%s', 1158, 'uri-reference'),
    ('Link', '</>; rel=a; hreflang=%s', 1158, 'language-tag'), ('Link', '</>; rel=a; type=%s', 1158, 'link-type'),
    ('Link', '</>; rel=a; title*=%s', 1158, 'ext-value'), ('Link', '</>; rel=a; title=%s', 1158, None),
]
NODES = ['1.2.3.4', '1.2.3.4:80', '[::1]', '[::1]:_x', 'unknown', 'unknown:12345', '_a.b-c_d', '_a:123456', '_', '::1', '_a:', '1.2.3',
         '[1.2.3.4]', '_a:_', 'Unknown:1', '[::1]:0', 'host', '_a!']
NUM = ['0', '007', '12345678901234567890', '1.0', '-1', '+1', '1 ', ' 1', 'a', '0x1', '1,2', '\xb2', '1_0', '']
ARG_VALUES = {
    'delta-seconds': NUM, 'persist': NUM + ['1', '2', '11'],
    'field-name-list': ['', 'a', 'a,b', 'a, b ,c', ',', ',a', 'a b', 'a=b', ' a', 'a,,b', '"a"', 'a;b', '\xe9'],
    'node': NODES, 'host-header': hs.HOSTS + ['a b', 'a:b', '[::1', '/'],
    'scheme': ['http', 'HTTPS', 'x+y-z.1', '1x', 'h_', '', 'http:', 'a b', 'a'],
    'alt-authority': [':443', 'a:1', 'a', '', ':', '[::1]:1', 'a:b', ' :1', '1.2.3.4:5', 'a b:1', 'a:1 '],
    'return': ['minimal', 'representation', 'Minimal', 'minima', 'minimalx', 'min imal'],
    'handling': ['strict', 'lenient', 'STRICT', 'stric', 'strictx'],
    'rel': ['next', 'a.b-1', 'a b', 'a  b', ' a', 'a ', 'Next', '1a', 'http://e.x/#', 'a http://e.x/', '', 'a,b', 'a\tb', 'x:', 'aB', 'a_b'],
    'uri-reference': hs.URIS + ['a b', '<a>', '%zz', 'http://[::1', '^'],
    'language-tag': hs.LANGS + ['*', 'en_US', '', 'en-', '-en', 'x', 'a'],
    'link-type': ['a/b', 'text/html', 'a', 'a/', '/b', 'a/b;c=d', 'a/b/c', '1/2', '+/a', 'a/+', 'a.b+c/d-e', 'a*/b', 'a/b*', 'a' * 127 + '/b', 'a' * 128 + '/b'],
    'ext-value': ["UTF-8''a", "utf-8'en'%41b", "UTF-8'en-'a", "''a", 'a', "UTF-8''%4", "UTF-8'' ", "x{}''a", "UTF-8''", "UTF-8''a'b", "UTF-8''*", "UTF-8''%zz",
                  "ISO-8859-1'x-a'%ff", "UTF-8'''"],
    None: ['', 'a', 'a b', '\xe9', '"', '0', '\\'],
}
BEARER = [('scope', ['a', 'a b', 'a  b', ' a', 'a ', '', 'a"b', 'a\\b', '!#[]~', 'a\tb', '\xe9']),
          ('error', ['a', 'a b', '', ' ', '\xe9', 'a"', '\\', '~!', '\x7f'[:0] + 'x\ty']),
          ('error_description', ['a b', '', '\xe9', '"', 'x\\', ' ']),
          ('error_uri', hs.URIS + ['a b', '%', '^', '"'])]
METHODS = ['GET', 'get', '', 'A B', 'A(', "!#$%&'*+-.^_`|~09azAZ", '\xe9', 'A/1', '"', 'A\t', 'G\x00', '@', 'A{', 'A:B', 'A,B', 'A;', '=', '\u20ac', '\x7f']
NAMES = ['A', 'a-b', '', 'a b', 'a:', ':a', 'a(', "!#$%&'*+-.^_`|~09azAZ", '\xe9', 'a/', '"', 'a\t', '\x00', 'a@', 'x[', 'x\\', 'X]', 'x=', 'x?', 'x<', '\u20ac']
REASONS = ['OK', '', ' ', 'a\tb', '\xe9\xff', 'a\nb', 'a\rb', '\x00', '\x7f', '\x01', '~!"', '\x80', '\u20ac', ' x ', '\x1f']
TARGETS = hs.URIS + hs.HOSTS + ['/a?b#c', 'a', '/', '//', '//a', '/a//b', '/?', '/%', '/a b', '/"', '/a|b', '/\xe9', 'http:', 'http:/', 'http://a#b',
                                'http://', '**', '/*', 'user@a:1', 'user:p@a:1', 'a:b', '/{', '/^', '/`', "/!$&'()*+,;=:@-._~0", '/?/?:@', '/[', 'HTTP://X', '1http://x']


# Headers whose automaton is the same as that of another header.
SAME = {'Access-Control-Allow-Methods', 'Access-Control-Expose-Headers', 'Age', 'Allow', 'Connection', 'Content-Encoding', 'Content-Length', 'Expires', 'Host', 'If-Modified-Since',
        'If-None-Match', 'If-Unmodified-Since', 'Last-Modified', 'Max-Forwards', 'Preference-Applied', 'Proxy-Authorization', 'Referer', 'Trailer', 'User-Agent', 'Vary', 'WWW-Authenticate'}
LARGE = {'Location': 6, 'Via': 8, 'Link': 3, 'Warning': 4, 'Content-Location': 2, 'Referer': 2, 'Alt-Used': 1, 'Host': 1, 'Origin': 1, 'Access-Control-Allow-Origin': 1, 'Content-Language': 1}
_automata = {}


def automaton(kind, name, tier):
    if (kind, name) not in _automata:
        limit = 1500 if tier == 'quick' else 6000
        if kind == 'header':
            dfas = grammars.header(name)
        elif kind == 'target':
            dfas = [grammars.G.rule(f) for f in forms(name)]
        else:
            dfas = grammars.G.rule(name)
        _automata[kind, name] = cover.Automaton(dfas, limit)
    return _automata[kind, name]


def forms(method):
    return {'CONNECT': ['authority-form'], 'OPTIONS': ['origin-form', 'absolute-form', 'asterisk-form']}.get(method, ['origin-form', 'absolute-form'])


def covers(tier):
    for name in grammars.HEADERS:
        if tier == 'thorough' or name not in SAME:
            parts = LARGE.get(name, 1) * (1 if tier == 'quick' else 4)
            for part in range(parts):
                yield ['cover', 'header', name, part, parts]
    for method in ('OPTIONS', 'CONNECT') if tier == 'quick' else ('GET', 'OPTIONS', 'CONNECT'):
        for part in range(6):
            yield ['cover', 'target', method, part, 6]
    for n, (_, _, _, rule) in enumerate(ARGS):
        if rule and (tier == 'thorough' or rule not in ('uri-reference', 'host-header', 'language-tag', 'alt-authority', 'node') and rule not in [a[3] for a in ARGS[:n]]):
            yield ['cover', 'arg', n, 0, 1]


def shards(tier):
    out = [['headers', name] for name in grammars.HEADERS]
    # Big ones first.
    out.sort(key=lambda s: -sum(len(x) for x in hs.SPACE[s[1]][0]) * len(hs.SPACE[s[1]][1]))
    return list(covers(tier)) + [['args', n] for n in range(len(ARGS))] + [['bearer'], ['lines', 0], ['lines', 1]] + \
        [['places', n] for n in range(8)] + [['full', n] for n in range(4)] + out


def cases(shard, tier):
    if shard[0] == 'headers':
        for name, values in hs.groups([shard[1]], tier, 4 if tier == 'thorough' else 3):
            yield ('headers', name, values)
    elif shard[0] == 'cover':
        _, kind, name, part, parts = shard
        auto = automaton(kind, ARGS[name][3] if kind == 'arg' else name, tier)
        states = list(auto.distinct()) if tier == 'quick' and (name in LARGE and name != 'Location' or kind == 'arg' and len(auto.access) > 100) else None
        words = cover.transition_words(auto, tier == 'thorough', part, parts, states)
        if kind != 'arg':
            while True:
                batch = list(itertools.islice(words, hs.CHUNK))
                if not batch:
                    break
                yield (kind + 's', name, [w for w in batch if w == w.strip(b' \t') and w.count(b'(') <= abnf.DEPTH])
        else:
            for w in words:
                yield (kind, name, w.decode('iso-8859-1'))
    elif shard[0] == 'args':
        n = shard[1]
        rule = ARGS[n][3]
        for v in ARG_VALUES[rule]:
            yield ('arg', n, v)
        if rule:
            tokens = sorted(set(''.join(ARG_VALUES[rule])))
            for k in range(4):
                for combo in itertools.product(tokens if k < 2 or tier == 'thorough' and k < 3 else tokens[:12], repeat=k):
                    if k < 3 or tier == 'thorough':
                        yield ('arg', n, ''.join(combo))
    elif shard[0] == 'bearer':
        for param, values in BEARER:
            for v in values:
                yield ('bearer', param, v)
    elif shard == ['lines', 0]:
        for v in METHODS + [chr(c) for c in range(256)] + ['a%sb' % chr(c) for c in range(256)]:
            yield ('method', v)
        for v in NAMES + [chr(c) for c in range(256)] + ['a%sb' % chr(c) for c in range(256)]:
            yield ('name', v)
        for v in REASONS + [chr(c) for c in range(256)]:
            yield ('reason', v)
    elif shard == ['lines', 1]:
        for method in ('GET', 'CONNECT', 'OPTIONS', 'options', 'connect', 'FOO', 'HEAD', 'POST'):
            for v in TARGETS + ['/%s' % chr(c) for c in range(256)] + ['a%s' % chr(c) for c in range(256)]:
                yield ('target', method, v)
            for combo in itertools.product(['http', '/', ':', '//', '?', '*', 'a', '@', '80', '[::1]', '%41', '#'], repeat=3):
                yield ('target', method, ''.join(combo))
    elif shard[0] == 'places':
        for name in grammars.HEADERS[shard[1]::8]:
            values = hs.seeds(name)[:2] + [b'\x00', hs.seeds(name)[0] + b'\x00']
            for n in range(4 if tier == 'thorough' else 3):
                for combo in itertools.product(range(len(values)), repeat=n):
                    yield ('places', name, [values[i] for i in combo], tier)
    elif shard[0] == 'full':
        for name in grammars.HEADERS[shard[1]::4]:
            for v in hs.seeds(name) + [b'', b'\x00', b',', b'"'] + list(hs.edits(hs.seeds(name)[0], 'quick'))[:200]:
                yield ('full', name, v.strip(b' \t'))


def errors(msg, notice):
    return [c for c in msg.complaints if c.id == notice]


def quoted(v):
    return '"' + v.replace('\\', '\\\\').replace('"', '\\"') + '"'


def spellings(v):
    if grammars.G.rule('token').accepts(v.encode('iso-8859-1')):
        yield v
    if grammars.G.rule('quoted-string').accepts(quoted(v).encode('iso-8859-1')):
        yield quoted(v)


def accepts(rule, v):
    try:
        v = v.encode('iso-8859-1')
    except UnicodeError:
        return False
    return grammars.G.rule(rule).accepts(v)


def run(ctx, case):
    import httpolice
    kind = case[0]
    if kind == 'headers':
        _, name, values = case
        dfa = grammars.header(name)
        for v in values:
            msg = hs.message(name, v)
            value = msg.headers[httpolice.structure.FieldName(name)].value
            got = bool(errors(msg, 1000))
            want = not dfa.accepts(v)
            ctx.step()
            ctx.state((name, dfa.run(v)))
            ctx.outcome('malformed' if want else 'well-formed')
            if got != want:
                ctx.violate('header:' + name, '%s: %r %s syntax error, but %s' % (
                    name, v, 'gets a' if got else 'gets no', 'does not match the grammar' if want else 'matches the grammar'),
                            case=('headers', name, [v]))
            elif not want and isinstance(value, httpolice.structure.Unavailable) and \
                    not errors(msg, 1222) and not errors(msg, 1223):
                ctx.violate('value:' + name, '%s: %r is well-formed but has no value' % (name, v), case=('headers', name, [v]))
    elif kind == 'arg':
        name, template, notice, rule = ARGS[case[1]]
        for spelling in spellings(case[2]):
            if name in ('Prefer', 'Preference-Applied') and case[2] == '':
                continue        # equivalent to no value (RFC 7240)
            if notice == 1257 and not spelling.startswith('"'):
                continue
            value = (template % spelling).encode('iso-8859-1')
            msg = hs.message(name, value)
            msg.headers[httpolice.structure.FieldName(name)].value      # pylint: disable=expression-not-assigned
            want = [] if rule is None or accepts(rule, case[2]) else [notice]
            got = [c.id for c in msg.complaints if c.id in (1000, 1158, 1257, 1266)]
            ctx.step()
            ctx.state((case[1], bool(want)))
            ctx.outcome('argument malformed' if want else 'argument well-formed')
            ctx.expect('arg:%s:%s' % (name, rule), got, want, '%s: %r' % (name, value))
    elif kind == 'bearer':
        _, param, v = case
        rule = {'scope': r'[!#-\[\]-~]+( [!#-\[\]-~]+)*', 'error': r'[ !#-\[\]-~]+', 'error_description': r'[ !#-\[\]-~]+'}.get(param)
        import re
        want = not (re.fullmatch(rule, v) if rule else accepts('uri-reference', v))
        for spelling in spellings(v):
            resp = httpolice.Response('HTTP/1.1', 401, 'Unauthorized', [
                ('WWW-Authenticate', ('Bearer realm="x", %s=%s' % (param, spelling)).encode('iso-8859-1'))], b'')
            httpolice.check_exchange(httpolice.Exchange(None, [resp]))
            ctx.step()
            ctx.outcome('bearer')
            ctx.state((param, want))
            ctx.expect('bearer:' + param, [c.id for c in resp.complaints if c.id in (1000, 1266)], [1266] if want else [],
                       '%s=%s' % (param, spelling))
    elif kind in ('method', 'name', 'reason', 'target'):
        if kind == 'method':
            args, notice, want = (case[1], '/', []), 1292, not accepts('token', case[1])
        elif kind == 'name':
            args, notice, want = ('GET', '/', [(case[1], b'x')]), 1293, not accepts('token', case[1])
        elif kind == 'reason':
            resp = httpolice.Response('HTTP/1.1', 200, case[1], [], b'')
            httpolice.check_exchange(httpolice.Exchange(None, [resp]))
            ok = all(c == '\t' or 32 <= ord(c) <= 126 or 128 <= ord(c) <= 255 for c in case[1])
            ctx.step()
            ctx.expect('reason', len(errors(resp, 1294)), 0 if ok else 1, 'reason %r' % case[1])
            return
        else:
            method, target = case[1:]
            args, notice, want = (method, target, []), 1045, not any(accepts(f, target) for f in forms(method))
        req = httpolice.Request('http', args[0], args[1], 'HTTP/1.1', args[2], b'')
        httpolice.check_exchange(httpolice.Exchange(req, []))
        ctx.step()
        ctx.state((kind, case[1] if kind == 'target' else '', want))
        ctx.outcome('%s %s' % (kind, want))
        ctx.expect(kind, len(errors(req, notice)), 1 if want else 0, '%s %r' % (kind, case[1:]))
    elif kind == 'targets':
        rules = [grammars.G.rule(f) for f in forms(case[1])]
        for v in case[2]:
            req = httpolice.Request('http', case[1], v.decode('iso-8859-1'), 'HTTP/1.1', [], b'')
            known = req.target_form
            want = not any(r.accepts(v) for r in rules)
            ctx.step()
            ctx.outcome('%s %s' % (kind, want))
            if len(errors(req, 1045)) != want or isinstance(known, httpolice.structure.Unavailable) != want:
                ctx.violate('targets:%s' % case[1], '%s %r: %s' % (case[1], v, 'should be malformed' if want else 'should be well-formed'), case=(kind, case[1], [v]))
    elif kind == 'places':
        places(ctx, *case[1:])
    elif kind == 'full':
        _, name, v = case
        for value in (v, v.decode('iso-8859-1')):
            msg = hs.message(name, value)
            is_req = isinstance(msg, httpolice.Request)
            httpolice.check_exchange(httpolice.Exchange(msg if is_req else None, [] if is_req else [msg]))
            ctx.step()
            ctx.outcome('full')
            ctx.expect('full:' + name, len(errors(msg, 1000)), 0 if grammars.header(name).accepts(v) else 1, '%s: %r' % (name, value))


def places(ctx, name, values, tier):
    """Each field line with this name is judged by itself, also in trailers and in either kind of message."""
    import httpolice
    dfa = grammars.header(name)
    bad = [not dfa.accepts(v) for v in values]
    for kind in ('request', 'response'):
        for split in range(len(values) + 1):
            headers = [('A', b'x')] + [(name.upper(), v) for v in values[:split]]
            trailer = [(name.lower(), v) for v in values[split:]]
            if kind == 'request':
                msg = httpolice.Request('https', 'POST', '/', 'HTTP/1.1', headers, None, trailer)
                exch = httpolice.Exchange(msg, [])
            else:
                msg = httpolice.Response('HTTP/1.1', 200, 'OK', headers, None, trailer)
                exch = httpolice.Exchange(None, [msg])
            httpolice.check_exchange(exch)
            in_trailer = not tables.bad_for_trailer(name)
            want = [(0, 1 + n) for n in range(split) if bad[n]]
            want += [(1, n - split) for n in range(split, len(values)) if bad[n] and in_trailer]
            got = []
            for c in errors(msg, 1000):
                place = c.context['place']
                got += [(0, n) for n, e in enumerate(msg.header_entries) if e is place]
                got += [(1, n) for n, e in enumerate(msg.trailer_entries) if e is place]
            ctx.step()
            ctx.state((name, len(want)))
            ctx.outcome('places')
            ctx.expect('places:' + name, sorted(got), want, '%s of %s: %r' % (name, kind, (headers, trailer)))
