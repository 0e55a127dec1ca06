"""C04: message bodies survive every framing and coding."""

import itertools

from mc import conn
from mc.ref import codings as rc, tables

ID = 'C04'
CLAIMED = True
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of coding stacks, chunkings, trailers and corruptions, executed on the real '
             'parser and decoder; encode/decode round trip as oracle')
NOTE = '''Every stack of up to 3 content codings times up to 2 transfer codings times body and chunking is encoded by
the checker and must be recovered exactly; every composition of a short body into chunks with every chunk-syntax
variant; every truncation and byte corruption of coded data must give the exact body or "unavailable" plus a notice; every known header as trailer field.'''
ASSUMPTIONS = ['zlib and brotli encoders used by the checker are correct',
               'trailing bytes after a complete zlib (deflate) stream are not judged']
BOUNDS = {
    'quick': 'content stacks <= 3 of 6 codings, transfer stacks <= 2 of 4, 6 bodies; all chunk compositions of 8 bytes; '
             'all truncations and all single-byte changes (4 masks) of coded bodies; 223 trailer fields x 5 values',
    'thorough': 'content stacks <= 4, 11-byte compositions, all 255 changes of each byte, pairs of trailer fields'}
MIN_STATES = 1000

SCOPE = frozenset([1001, 1002, 1003, 1005, 1027, 1036, 1037, 1000])
BODIES = [b'', b'a', b'\r\n0\r\n\r\n', b'{"a": [1, 2, "\xc3\xa9"]}', bytes(range(256)) * 3, b'0\r\n\r\nHTTP/1.1 200 OK\r\n\r\n']
CODINGS = ['gzip', 'x-gzip', 'deflate', 'br', 'foo', 'GZip']
BAD = ['identity', 'compress', 'x-compress', 'zstd', 'gzip2', 'Deflat', 'aes128gcm', 'chunked']
TCODINGS = ['gzip', 'x-gzip', 'deflate', 'Deflate', 'foo']


def encode(data, stack):
    for c in stack:
        f = rc.ENCODE.get(c.lower())
        data = f(data) if f else b'<' + data + b'>'
    return data


def chunk(data, sizes, style=0):
    out = b''
    pos = 0
    k = 0
    while pos < len(data):
        n = min(sizes[k % len(sizes)], len(data) - pos)
        k += 1
        out += chunk_line(n, style) + data[pos:pos + n] + b'\r\n'
        pos += n
    return out + chunk_line(0, style) + b'\r\n'


STYLES = [b'%x\r\n', b'%X\r\n', b'000%x\r\n', b'%x;ext\r\n', b'%x;a=b;c="d;e \\" 0"\r\n', b'%x \r\n', b'%x\t ; x=y\r\n',
          b'0000000000000000000000000000%X;\r\n']


def chunk_line(n, style):
    return STYLES[style] % n


def stacks(alphabet, depth):
    for n in range(depth + 1):
        yield from itertools.product(alphabet, repeat=n)


def shards(tier):
    depth = 4 if tier == 'thorough' else 3
    out = [('stack', c) for n in range(min(2, depth) + 1) for c in itertools.product(CODINGS, repeat=n)]
    out += [('declared', c) for c in ('gzip', 'deflate', 'br', '')]
    out += [('compose', s) for s in range(len(STYLES))]
    out += [('corrupt', c, where) for c in ('gzip', 'deflate', 'br') for where in ('content', 'transfer')]
    names = sorted(tables.HEADER) + ['X-Unknown-Header', 'Foo']
    out += [('trailer', tuple(names[i::16])) for i in range(16)]
    out.append(('members',))
    return out


CHUNKINGS = [(1000000,), (1,), (3, 1, 7), (4096, 1)]


def cases(shard, tier):
    kind = shard[0]
    depth = 4 if tier == 'thorough' else 3
    if kind == 'stack':
        prefix = shard[1]
        more = depth - 2 if len(prefix) == 2 else 0
        for rest in stacks(CODINGS, more):
            for b in range(len(BODIES)):
                for te in stacks(TCODINGS, 2):
                    if len(prefix) + len(rest) == 3 and len(te) == 2:
                        continue
                    yield ('stack', prefix + rest, te, b, (len(te) + b) % 4)
        if len(prefix) < 2:
            for b in range(len(BODIES)):
                for ch in range(4):
                    for form in range(4):
                        for te in ((), ('gzip',)):
                            yield ('form', prefix, te, b, ch, form)
    elif kind == 'declared':
        real = (shard[1],) if shard[1] else ()
        for declared in stacks(['gzip', 'deflate', 'br', 'x-gzip'] + BAD, 2):
            for b in (1, 3, 4):
                yield ('declared', real, declared, b)
                yield ('declared', real + ('deflate',), declared, b)
        for text in ('@', 'gzip,@', 'gzip;x=1', '', ',', 'gzip gzip', 'gzip,,', ', gzip', '"gzip"'):
            for extra in (None, 'gzip'):
                yield ('malformed', real, text, extra, 3)
                yield ('malformed', real, text, extra, 0)
    elif kind == 'compose':
        n = 11 if tier == 'thorough' else 8
        body = b'\r\n0;\r\nabcde'[:n]
        for mask in range(1 << (n - 1)):
            sizes, run_ = [], 1
            for i in range(n - 1):
                if mask >> i & 1:
                    sizes.append(run_)
                    run_ = 1
                else:
                    run_ += 1
            sizes.append(run_)
            for dr in (0, 1):
                yield ('compose', shard[1], body, tuple(sizes), dr)
    elif kind == 'corrupt':
        for b in (1, 3, 4):
            data = encode(BODIES[b], (shard[1],))
            for n in range(len(data)):
                yield ('cut', shard[1], shard[2], b, n)
            if shard[1] == 'br':
                continue
            masks = range(1, 256) if tier == 'thorough' else (0x01, 0x20, 0x80, 0xff)
            for n in range(len(data)):
                for m in masks:
                    yield ('flip', shard[1], shard[2], b, n, m)
    elif kind == 'trailer':
        for name in shard[1]:
            for value in ('\x00', 'a', '"a"', 'gzip', '1'):
                for announced in (0, 1, 2):
                    for side in (0, 1):
                        yield ('trailer', name, value, announced, side)
        if tier == 'thorough':
            for a in shard[1]:
                for b in sorted(tables.HEADER):
                    yield ('trailer2', a, b)
    elif kind == 'members':
        for n in range(1, 4):
            for parts in itertools.product([b'', b'a', b'hello ' * 20], repeat=n):
                for where in ('content', 'transfer'):
                    for cut in (0, 1, 9):
                        yield ('members', parts, where, cut)


def message(side, headers, wire):
    from httpolice import check_exchange
    head = b''.join(b'%s: %s\r\n' % h for h in headers) + b'\r\n'
    if side == 0:
        ex = conn.parse(b'POST / HTTP/1.1\r\n' + head + wire + b'GET /next HTTP/1.1\r\n\r\n', None)
        assert len(ex) >= 1
        if len(ex) != 2 or ex[1].request is None or ex[1].request.target != '/next':
            follow = 'broken'
        else:
            follow = 'ok'
        msg = ex[0].request
    else:
        ex = conn.parse(b'GET / HTTP/1.1\r\n\r\nGET / HTTP/1.1\r\n\r\n', b'HTTP/1.1 200 OK\r\n' + head + wire + b'HTTP/1.1 204 x\r\n\r\n')
        follow = 'ok' if len(ex) == 2 and [int(r.status) for r in ex[1].responses] == [204] else 'broken'
        msg = ex[0].responses[0] if ex[0].responses else None
    check_exchange(ex[0])
    return msg, follow


def value(x):
    return conn.body_of(x)


def decode(data, declared):
    """-> (result or 'unavailable', notices)"""
    todo = list(declared)
    while todo and data:
        c = todo.pop().lower()
        f = rc.DECODE.get(c)
        if f is None:
            return 'unavailable', {1036}
        try:
            data = f(data)
        except rc.Corrupt:
            return 'unavailable', {1037}
    return data, set()


def transfer(data, te):
    todo = list(te)
    while todo:
        c = todo.pop().lower()
        f = rc.DECODE.get(c)
        if f is None:
            return 'unavailable', {1002 if c == 'chunked' else 1003}
        try:
            data = f(data)
        except rc.Corrupt:
            return 'unavailable', {1027}
    return data, set()


def expect(ctx, key, msg, follow, body, decoded, notices, what):
    ctx.step(3)
    if msg is None:
        ctx.violate(key + '-lost', 'message not reconstructed: %s' % what)
        return
    got = (value(msg.body), value(msg.decoded_body), frozenset(c.id for c in msg.complaints if c.id in SCOPE), follow)
    ctx.expect(key, got, (body, decoded, frozenset(notices), 'ok'), what)
    ctx.outcome((body == 'unavailable', decoded == 'unavailable', tuple(sorted(notices))))


def run(ctx, case):
    ctx.state(case)
    kind = case[0]
    if kind in ('stack', 'form'):
        if kind == 'stack':
            _, ce, te, b, ch = case
            form, sides = 0, (0, 1)
        else:
            _, ce, te, b, ch, form = case
            sides = (0, 1)
        content = encode(BODIES[b], ce)
        wire = chunk(encode(content, te), CHUNKINGS[ch], (b + ch) % len(STYLES))
        headers = []
        if ce:
            if form == 0:
                headers.append((b'Content-Encoding', ', '.join(ce).encode()))
            elif form == 1:
                headers += [(b'content-encoding', c.encode()) for c in ce]
            elif form == 2:
                headers.append((b'CONTENT-ENCODING', (',' + ' , ,'.join(ce) + ',').encode()))
            else:
                headers.append((b'Content-Encoding', ','.join(c.upper() for c in ce).encode()))
        if form == 1:
            headers += [(b'transfer-encoding', c.encode()) for c in te + ('chunked',)]
        else:
            headers.append((b'Transfer-Encoding', (', ' if form != 3 else ',').join(te + ('chunked',)).encode()))
        body, n1 = transfer(encode(content, te), te)
        if body == 'unavailable':
            decoded, n2 = 'unavailable', set()
        else:
            decoded, n2 = decode(body, ce)
            if all(c.lower() in rc.ENCODE for c in ce):
                assert decoded == BODIES[b], case
        for side in sides:
            msg, follow = message(side, headers, wire)
            expect(ctx, 'round-trip', msg, follow, body, decoded, n1 | n2, 'codings %r, transfer codings %r' % (ce, te))
            if not te and form == 0:
                h2 = [h for h in headers if h[0] != b'Transfer-Encoding'] + [(b'Content-Length', b'%d' % len(content))]
                msg, follow = message(side, h2, content)
                expect(ctx, 'round-trip-length', msg, follow, body, decoded, n2, 'codings %r with Content-Length' % (ce,))
    elif kind == 'declared':
        _, real, declared, b = case
        data = encode(BODIES[b], real)
        headers = [(b'Content-Length', b'%d' % len(data))]
        if declared:
            headers.append((b'Content-Encoding', ', '.join(declared).encode()))
        decoded, notices = decode(data, declared)
        for side in (0, 1):
            msg, follow = message(side, headers, data)
            expect(ctx, 'declared', msg, follow, data, decoded, notices, 'data coded %r declared %r' % (real, declared))
        if 'br' not in declared and all(c != 'chunked' for c in declared):
            body, notices = transfer(data, declared)
            headers = [(b'Transfer-Encoding', ', '.join(declared + ('chunked',)).encode())]
            for side in (0, 1):
                msg, follow = message(side, headers, chunk(data, (5,)))
                expect(ctx, 'declared-transfer', msg, follow, body, body, notices, 'data coded %r declared in TE %r' % (real, declared))
    elif kind == 'malformed':
        _, real, text, extra, b = case
        data = encode(BODIES[b], real) if b else b''
        headers = [(b'Content-Encoding', text.encode()), (b'Content-Length', b'%d' % len(data))]
        if extra:
            headers.append((b'content-encoding', extra.encode()))
        empty = text in ('gzip,,', ', gzip')
        declared = (['gzip'] if empty else [None]) + ([extra] if extra else [])
        notices = set() if empty else {1000}
        decoded = data
        while declared and decoded not in (b'', 'unavailable'):
            c = declared.pop()
            if c is None:
                decoded = 'unavailable'
            else:
                decoded, n = decode(decoded, (c,))
                notices |= n
        msg, follow = message(1, headers, data)
        expect(ctx, 'malformed', msg, follow, data, decoded, notices, 'Content-Encoding %r then %r' % (text, extra))
    elif kind == 'compose':
        _, style, body, sizes, side = case
        msg, follow = message(side, [(b'Transfer-Encoding', b'chunked')], chunk(body, sizes, style))
        expect(ctx, 'chunks', msg, follow, body, body, (), 'chunks %r' % (sizes,))
    elif kind in ('cut', 'flip'):
        _, coding, where, b, n = case[:5]
        data = encode(BODIES[b], (coding,))
        if kind == 'cut':
            data = data[:n]
        else:
            data = data[:n] + bytes([data[n] ^ case[5]]) + data[n + 1:]
        if where == 'content':
            headers = [(b'Content-Encoding', coding.encode()), (b'Content-Length', b'%d' % len(data))]
            wire = data
            bad = 1037
        elif coding == 'br':
            return
        else:
            headers = [(b'Transfer-Encoding', coding.encode() + b', chunked')]
            wire = chunk(data, (7,))
            bad = 1027
        msg, follow = message(n % 2, headers, wire)
        got = value(msg.decoded_body)
        notices = {c.id for c in msg.complaints if c.id in SCOPE}
        ctx.step(3)
        ctx.outcome((kind, got == 'unavailable'))
        ctx.expect('desync', follow, 'ok', 'next message')
        if data == b'':
            if got not in (b'', 'unavailable'):
                ctx.violate('wrong-data', '%r' % got)
        elif got == 'unavailable':
            ctx.expect('unavailable-notice', notices, {bad}, 'notices for corrupt %s' % coding)
        elif kind == 'cut' or got != BODIES[b] or notices:
            ctx.violate('wrong-data', 'corrupt %s data decoded to %r, notices %r' % (coding, got, notices))
    elif kind == 'members':
        _, parts, where, cut = case
        data = b''.join(rc.gz(p) for p in parts)
        data = data[:len(data) - cut]
        if where == 'content':
            headers = [(b'Content-Encoding', b'gzip'), (b'Content-Length', b'%d' % len(data))]
            decoded, notices = decode(data, ('gzip',))
            body, wire = data, data
        else:
            headers = [(b'Transfer-Encoding', b'gzip, chunked')]
            body, notices = transfer(data, ('gzip',))
            decoded, wire = body, chunk(data, (30,))
        if not cut:
            assert decoded == b''.join(parts)
        msg, follow = message(1, headers, wire)
        expect(ctx, 'members', msg, follow, body, decoded, notices, 'gzip members %r' % (parts,))
    elif kind == 'trailer':
        _trailer(ctx, *case[1:])
    elif kind == 'trailer2':
        _, a, b = case
        wire = b'1\r\nx\r\n0\r\n%s: \x00\r\n%s: \x00\r\n\r\n' % (a.encode(), b.encode())
        msg, follow = message(1, [(b'Transfer-Encoding', b'chunked')], wire)
        ids = [c.id for c in msg.complaints]
        want = 0
        for n in ([a, b] if a != b else [a]):
            want += tables.bad_for_trailer(n) * (2 if a == b else 1)
        ctx.expect('forbidden-count', ids.count(1026), want, 'trailer fields %s, %s' % (a, b))
        ctx.expect('trailer-fields', conn.fields_of(msg.trailer_entries), [(a.encode(), b'\0'), (b.encode(), b'\0')])
        ctx.step(2)
        ctx.outcome('trailer2')


def _trailer(ctx, name, val, announced, side):
    """A trailer field is merged with the headers, unless that is forbidden."""
    n, v = name.encode(), val.encode('latin-1')
    headers = [(b'Transfer-Encoding', b'chunked')]
    if announced == 1:
        headers.append((b'Trailer', b'foo, ' + n.upper()))
    elif announced == 2:
        headers.append((b'Trailer', b'X-Other'))
    wire = b'3\r\nabc\r\n0\r\n' + n + b': ' + v + b'\r\n\r\n'
    msg, follow = message(side, headers, wire)
    ctx.step(4)
    bad = tables.bad_for_trailer(name)
    ctx.outcome(('trailer', bad, announced))
    ids = {c.id for c in msg.complaints}
    ctx.expect('trailer-follow', follow, 'ok', 'next message')
    ctx.expect('trailer-body', (value(msg.body), conn.fields_of(msg.trailer_entries)), (b'abc', [(n, v)]), name)
    ctx.expect('trailer-forbidden', 1026 in ids, bad, 'notice 1026 for %s in trailer' % name)
    # `Trailer` cannot announce itself usefully; it is among the forbidden.
    ctx.expect('trailer-announced', 1030 in ids, announced != 1, 'notice 1030 for %s in trailer' % name)
    view = msg.headers[type(msg.header_entries[0].name)(name)]
    in_head = [h for h in headers if h[0].lower() == n.lower()]
    ctx.expect('trailer-merged', bool(view.is_present), bool(in_head) or not bad, '%s present as header' % name)
    # Being merged or not must show in the verdict: a malformed value is an
    # error only where it counts.
    if tables.header(name).get('syntax_symbol') and val == '\x00':
        ctx.expect('trailer-verdict', 1000 in ids, not bad, 'syntax error for %s in trailer' % name)
    # A forbidden trailer field must have no influence.
    if bad:
        ctx.expect('trailer-influence', (value(msg.decoded_body), 1000 in ids, 1013 in ids), (b'abc', False, False), name)
