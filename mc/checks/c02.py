"""C02: damaged connections: every byte is parsed or reported."""

import itertools

from mc import conn
from mc.checks import c01
from mc.ref import framing

ID = 'C02'
CLAIMED = True
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of damaged connections (token sequences, every truncation and '
             'byte corruption) executed on the real parser and compared with an independent executable framing model')
NOTE = '''The reference model (mc/ref/framing.py) is run on every explored connection together with
the implementation; exchanges, bodies, trailers, framing notices and complaint boxes must be
equal. Trusted: the reference model as a reading of RFC 7230 section 3.'''
ASSUMPTIONS = ['the reference framing model reads RFC 7230 section 3 correctly',
               'an empty direction counts as one unparseable message']
BOUNDS = {
    'quick': 'token sequences to length 4 (5 after a message head) per direction; every truncation, deletion, '
             'substitution and insertion from critical byte sets over the corpus; framing-header decision table',
    'thorough': 'token sequences to length 5 (6 after a message head); pairs of truncations; two-byte corruptions of the core corpus'}
MIN_STATES = 1000

SCOPE = framing.FRAMING_NOTICES

IN_TOKENS = [b'GET / HTTP/1.1\r\n', b'POST /p HTTP/1.1\r\n', b'\r\n', b'\n', b' ', b'A: b\r\n', b'Content-Length: 3\r\n',
             b'Transfer-Encoding: chunked\r\n', b'3\r\n', b'abc', b'0\r\n', b'\r', b':', b'X']
OUT_TOKENS = [b'HTTP/1.1 200 OK\r\n', b'HTTP/1.1 204 \r\n', b'HTTP/1.0 100 C\r\n', b'\r\n', b'\n', b' ', b'A: b\r\n',
              b'Content-Length: 3\r\n', b'Transfer-Encoding: chunked\r\n', b'3\r\n', b'abc', b'0\r\n', b'\r', b'HTTP/1.1 101 S\r\n']
FIXED_OUT = [b'', b'HTTP/1.1 204 x\r\n\r\n', b'HTTP/1.1 200 OK\r\nContent-Length: 1\r\n\r\naHTTP/1.1 304 N\r\n\r\n', None]
FIXED_IN = [b'GET / HTTP/1.1\r\n\r\n', b'HEAD / HTTP/1.1\r\n\r\nGET / HTTP/1.1\r\n\r\n', None,
            b'CONNECT a:1 HTTP/1.1\r\n\r\nx']

CRITICAL = [b'\x00', b' ', b'\t', b'\r', b'\n', b':', b'0', b'9', b'f', b'G', b';', b',', b'-', b'+', b'/', b'\xff']

CLS = [None, b'0', b'3', b'03', b' 3 ', b'+3', b'-3', b'3,3', b'3, 3', b'abc', b'', b'0x3', b'1073741824', b'1073741825',
       b'9' * 5000, b'0' * 600 + b'3', b'3;x', b'3.0', b'\xb3', b'1_0']
TES = [None, b'chunked', b'Chunked', b'gzip, chunked', b'chunked, gzip', b'chunked, chunked', b'identity', b'chunked;x=y',
       b'@', b'', b'gzip', b', chunked', b'chunked,', b'chunked , ,', b'foo, chunked', b'foo;a="b,c", chunked', b'foo', b'"chunked"',
       b'x-gzip , chunked', b'deflate,chunked', b'compress, chunked', b'chunked chunked', b'foo ;a = b,chunked', b'chunkedx']
WIRES = [b'', b'abc', b'abcd', b'3\r\nabc\r\n0\r\n\r\n', b'3\r\nabc\r\n0\r\n\r\nGET', b'0\r\n\r\n', b'3\nabc\n0\n\n',
         b'3\r\nabcd\r\n0\r\n\r\n', b'3\r\nabc\r\n0\r\nT: 1\r\n\r\n', b'3\r\nabc\r\n0\r\nT: 1\r\n f\r\n\r\n',
         b'3\r\nabc\r\n0\r\nT\r\n\r\n', b'40000001\r\nabc', b'f' * 5000 + b'\r\nabc', b'3\r\nabc\r\n3fffffff\r\n']


def corpus():
    """Valid connections whose damage is explored."""
    gz = c01.gz(b'hello')
    yield ('basic',
           b'GET /a HTTP/1.1\r\nHost: x\r\n\r\nPOST /b HTTP/1.1\r\nContent-Length: 5\r\n\r\nhello',
           b'HTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\nabcHTTP/1.1 404 Not Found\r\nContent-Length: 0\r\n\r\n')
    yield ('chunked',
           b'POST /b HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n3;e=1\r\nabc\r\nA\r\n0123456789\r\n0\r\nT: v\r\n\r\n'
           b'GET /a HTTP/1.1\r\n\r\n',
           b'HTTP/1.1 100 Continue\r\n\r\nHTTP/1.1 200 OK\r\nTransfer-Encoding: gzip, chunked\r\n\r\n%x\r\n%s\r\n00\r\n\r\n'
           b'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n1\r\nz\r\n0\r\n\r\n' % (len(gz), gz))
    yield ('heads',
           b'HEAD /a HTTP/1.0\r\n\r\nGET /c HTTP/1.1\r\nHost: x\r\n\r\n',
           b'HTTP/1.1 200 OK\r\nContent-Length: 30\r\n\r\nHTTP/1.1 304 Not Modified\r\nContent-Length: 3\r\nE: "a"\r\n\r\n')
    yield ('fold',
           b'GET /a HTTP/1.1\nHost: x\nX: a\n b\n\tc\n\n',
           b'HTTP/1.1 204 No\r\nX: a\r\n  b\r\n\r\n')
    yield ('close',
           b'GET /a HTTP/1.1\r\nHost: x\r\n\r\n',
           b'HTTP/1.1 200 OK\r\nConnection: close\r\n\r\nHTTP/1.1 200 OK\r\n\r\n')
    yield ('tunnel',
           b'CONNECT a:1 HTTP/1.1\r\nHost: a:1\r\n\r\n\x16\x03',
           b'HTTP/1.1 200 OK\r\n\r\n\x16\x03\x01')
    yield ('switch',
           b'GET / HTTP/1.1\r\nUpgrade: x\r\n\r\n\x00\x01\x02',
           b'HTTP/1.1 101 S\r\nUpgrade: x\r\n\r\n\x00')
    yield ('multi',
           b'GET /1 HTTP/1.1\r\n\r\nGET /2 HTTP/1.1\r\n\r\nGET /3 HTTP/1.1\r\n\r\n',
           b'HTTP/1.1 103 E\r\n\r\nHTTP/1.1 200 OK\r\nContent-Length: 1\r\n\r\n1'
           b'HTTP/1.1 204 N\r\n\r\nHTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n1\r\n3\r\n0\r\n\r\n')


CORPUS = {name: (i, o) for name, i, o in corpus()}


def shards(tier):
    out = []
    for t in range(len(IN_TOKENS)):
        out.append(('tok-in', t))
        out.append(('tok-out', t))
    for name in CORPUS:
        for side in (0, 1):
            out.append(('damage', name, side))
    for m in (b'GET', b'HEAD', b'CONNECT'):
        out.append(('table-out', m))
    for n in range(len(WIRES)):
        out.append(('table-in', n))
    out.append(('lines',))
    for c in CHUNK_ALPHABET:
        out.append(('chunksize', c))
    return out


CHUNK_ALPHABET = [b'0', b'1', b'a', b'F', b'G', b'-', b'+', b' ', b'\t', b'x', b'_', b';', b'"', b'\xa0', b'\xb2', b'\r']


def _tokens(alphabet, first, depth, heads):
    for n in range(0, depth):
        for rest in itertools.product(range(len(alphabet)), repeat=n):
            yield b''.join([alphabet[first]] + [alphabet[i] for i in rest])
    if first in heads:
        for rest in itertools.product(range(len(alphabet)), repeat=depth):
            yield b''.join([alphabet[first]] + [alphabet[i] for i in rest])


def cases(shard, tier):
    kind = shard[0]
    depth = 5 if tier == 'thorough' else 4
    if kind == 'tok-in':
        for n, data in enumerate(_tokens(IN_TOKENS, shard[1], depth, (1,))):
            yield (data, FIXED_OUT[n % 4])
            if len(data) < 60:
                yield (data, FIXED_OUT[(n + 2) % 4])
    elif kind == 'tok-out':
        for n, data in enumerate(_tokens(OUT_TOKENS, shard[1], depth, (0, 2))):
            yield (FIXED_IN[n % 4], data)
            if len(data) < 60:
                yield (FIXED_IN[(n + 2) % 4], data)
    elif kind == 'damage':
        pair = CORPUS[shard[1]]
        side = shard[2]
        base = pair[side]

        def with_(data):
            return (data, pair[1]) if side == 0 else (pair[0], data)
        yield pair
        yield with_(None)
        for i in range(len(base)):
            yield with_(base[:i])
            yield with_(base[i:])
            yield with_(base[:i] + base[i + 1:])
            for c in CRITICAL:
                yield with_(base[:i] + c + base[i + 1:])
                yield with_(base[:i] + c + base[i:])
            yield with_(base[:i] + b'\r\n' + base[i:])
            yield with_(base[:i] + b'\r\n\r\n' + base[i:])
            yield with_(base[:i] + b' ' + base[i:] + b'\r\n')
        for i in range(len(base)):
            for j in range(i + 1, min(len(base), i + 40)):
                yield with_(base[:i] + base[j:])        # lost segment
        for junk in (b'\r\n', b'\n', b'x', b'\x00\x00', base, base[:20]):
            yield with_(base + junk)
            yield with_(junk + base)
        if side == 0:
            step = 1 if tier == 'thorough' else 3
            for i in range(0, len(base), step):
                for j in range(0, len(pair[1]), step):
                    yield (base[:i], pair[1][:j])
        if tier == 'thorough':
            few = [b'\r', b'\n', b' ', b':', b'0', b'5']
            for i in range(len(base)):
                for j in range(i + 1, len(base)):
                    for c in few:
                        for d in few:
                            x = bytearray(base)
                            x[i:i + 1] = c
                            x[j:j + 1] = d
                            yield with_(bytes(x))
    elif kind == 'table-in':
        wire = WIRES[shard[1]]
        for cl in CLS:
            for cl2 in (None, b'3', b'x'):
                for te in TES:
                    for te2 in ((None, b'chunked') if cl2 is None else (None,)):
                        yield (_head(b'POST / HTTP/1.1', cl, cl2, te, te2) + wire + b'GET /2 HTTP/1.1\r\n\r\n',
                               b'HTTP/1.1 204 x\r\n\r\nHTTP/1.1 204 y\r\n\r\n')
    elif kind == 'table-out':
        req = shard[1] + b' / HTTP/1.1\r\n\r\n' + b'GET /2 HTTP/1.1\r\n\r\n'
        for status in (b'100', b'101', b'199', b'200', b'204', b'205', b'299', b'300', b'304', b'404', b'999', b'099'):
            for cl in CLS:
                for te in TES:
                    for wire in (WIRES if tier == 'thorough' or (cl in CLS[:3]) else WIRES[1:4]):
                        yield (req, _head(b'HTTP/1.1 ' + status + b' x', cl, None, te, None) + wire + b'HTTP/1.1 204 n\r\n\r\n')
    elif kind == 'lines':
        yield from _lines()
    elif kind == 'chunksize':
        head = b'POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n'
        tail = b'0123456789abcdefX\r\n0\r\n\r\n'
        for n in range(0, 3 if tier == 'quick' else 4):
            for rest in itertools.product(CHUNK_ALPHABET, repeat=n):
                size = shard[1] + b''.join(rest)
                for k in (1, 10, 15, 16):
                    yield (head + size + b'\r\n' + tail[-(k + 8):], b'HTTP/1.1 204 x\r\n\r\n')


def _head(start, cl, cl2, te, te2):
    h = start + b'\r\n'
    for n, v in ((b'Content-Length', cl), (b'Transfer-Encoding', te), (b'content-length', cl2), (b'transfer-encoding', te2)):
        if v is not None:
            h += n + b': ' + v + b'\r\n'
    return h + b'\r\n'


def _lines():
    """Start-line syntax and line lengths."""
    out = b'HTTP/1.1 204 x\r\n\r\n'
    versions = [b'HTTP/1.1', b'HTTP/1.0', b'HTTP/2.0', b'HTTP/9.9', b'HTTP/1', b'HTTP/11', b'HTTP/1.', b'http/1.1', b'HTTP/1.10',
                b'HTTP/1,1', b'', b'1.1', b'HTTPS/1.1', b'HTTP/\xb2.1', b' HTTP/1.1', b'HTTP/1.1 ', b'HTTP/A.1', b'HTTP//1.1']
    for v in versions:
        for m in (b'GET', b'', b'G@T', b'G T', b'\xff'):
            for t in (b'/', b'', b'/ /', b'*', b'\xff'):
                for sep in (b' ', b'  ', b'\t'):
                    yield (m + sep + t + sep + v + b'\r\n\r\n', out)
        for s in (b'200', b'20', b'2000', b'abc', b'', b'+20', b'-12', b'2 0', b'\xb200', b'000', b'999'):
            for r in (b'', b'OK', b'a  b ', b'\xff', b'\t'):
                for sep in (b' ', b'  ', b'\t'):
                    for tail in (b'\r\n\r\n', b'\n\n', b'\r\n'):
                        yield (b'GET / HTTP/1.1\r\n\r\n', v + sep + s + sep + r + tail)
            yield (b'GET / HTTP/1.1\r\n\r\n', v + b' ' + s + b'\r\n\r\n')
    for n in (16000, 16381, 16382, 16383, 16384, 16385, 16386, 20000, 32768, 32770):
        for nl in (b'\r\n', b'\n', b''):
            pad = b'x' * n
            yield (b'GET /' + pad[14:] + b' HTTP/1.1' + nl + nl, out)
            yield (b'GET / HTTP/1.1\r\nX: ' + pad[3:] + nl + nl, out)
            yield (b'GET / HTTP/1.1\r\nX: a\r\n' + b' ' + pad[1:] + nl + nl, out)
            yield (b'GET / HTTP/1.1\r\n\r\n', b'HTTP/1.1 200 ' + pad[13:] + nl + nl)
            yield (b'GET / HTTP/1.1\r\n\r\n', b'HTTP/1.1 200 O\r\nTransfer-Encoding: chunked\r\n\r\n0;' + pad[2:] + nl + nl)
    for name in (b'', b' ', b'A ', b' A', b'A\tB', b'\xff', b'A:B', b'\x00', b'"', b'A\r', b'\rA'):
        for value in (b'', b' ', b'\t x \t', b':', b'\x00', b'a\rb', b'\r', b'\xa0x\xa0', b'\x0bx\x0c'):
            for colon in (b':', b' :', b''):
                yield (b'GET / HTTP/1.1\r\n' + name + colon + value + b'\r\nB: c\r\n\r\n', out)
                yield (b'GET / HTTP/1.1\r\n\r\n', b'HTTP/1.1 204 x\r\n' + name + colon + value + b'\r\nB: c\r\n\r\n')
                yield (b'GET / HTTP/1.1\r\n\r\n', b'HTTP/1.1 200 x\r\nTransfer-Encoding: chunked\r\n\r\n0\r\n' +
                       name + colon + value + b'\r\nB: c\r\n\r\n')


def run(ctx, case):
    inbound, outbound = case
    if inbound is None and outbound is None:
        return
    want = framing.connection(inbound, outbound)
    for item in want:
        if item[0] == 'exchange':
            for m in ([item[1]] if item[1] else []) + item[2]:
                m['notices'] = frozenset(m['notices'])
    actual = conn.describe(conn.parse(inbound, outbound), SCOPE)
    ctx.step(len(want) + sum(len(x[2]) for x in want if x[0] == 'exchange'))
    ctx.state((inbound, outbound))
    ctx.outcome(','.join(str(x[1]) if x[0] == 'box' else
                         'E%d' % len(x[2]) for x in want))
    if actual != want:
        ctx.violate(conn.kind_of_diff(actual, want), conn.diff(actual, want))
