"""C03: the verdict depends on the bytes, not on how they are delivered."""

import io
import itertools
import os
import shutil
import tempfile

from mc import conn, corpus, obs
from mc.checks import c02

ID = 'C03'
CLAIMED = True
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of delivery schedules (read splits, buffer sizes, input formats) '
             'on the real reader, compared with whole-buffer delivery')
NOTE = '''For every corpus connection all single split points of each direction, all fixed read sizes and
buffer sizes from a set, all 2^n read schedules over windows around framing boundaries, and all input formats, orders and pairings
are executed; exchanges, notices with order and the text report must be identical to those of the
undivided bytes. Assumes the raw file blocks (no EAGAIN).'''
ASSUMPTIONS = ['the underlying file is in blocking mode',
               'a regular file delivers its bytes like an in-memory buffer of the same content']
BOUNDS = {
    'quick': '8 framing connections and ~130 small captures: every split point, read sizes 1..17 and buffer sizes 1,2,3,7,16; '
             'all subsets of split points in windows of 9 bytes; 5 input formats',
    'thorough': 'additionally all pairs of split points of the framing connections, windows of 12 bytes, all captures'}
MIN_STATES = 200

LONG = {
    'longline': (b'GET /%s HTTP/1.1\r\nHost: x\r\n\r\nGET /2 HTTP/1.1\r\nHost: x\r\nX: %s\r\n\r\n' % (b'a' * 16000, b'b' * 16379),
                 b'HTTP/1.1 200 OK\r\nContent-Length: 40000\r\n\r\n' + b'c' * 40000 + b'HTTP/1.1 204 N\r\nX: ' + b'd' * 16400 + b'\r\n\r\n'),
    'longchunks': (b'POST / HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\n' +
                   b''.join(b'%x\r\n%s\r\n' % (n, b'z' * n) for n in (8190, 8191, 8192, 8193, 1, 20000)) + b'0\r\n\r\n',
                   b'HTTP/1.1 200 OK\r\n\r\n' + b'\r\n' * 9000),
}


class Slow(io.RawIOBase):

    """A raw stream that returns its data in the given pieces."""

    def __init__(self, data, cuts=(), size=None):
        super().__init__()
        self.data, self.pos, self.cuts, self.size = data, 0, sorted(cuts), size

    def readable(self):
        return True

    def seekable(self):
        return True

    def tell(self):
        return self.pos

    def seek(self, offset, whence=0):
        if whence == 1:
            offset += self.pos
        elif whence == 2:
            offset += len(self.data)
        self.pos = offset
        return offset

    def readinto(self, b):
        n = len(b)
        if self.size:
            n = min(n, self.size)
        for c in self.cuts:
            if c > self.pos:
                n = min(n, c - self.pos)
                break
        piece = self.data[self.pos:self.pos + n]
        b[:len(piece)] = piece
        self.pos += len(piece)
        return len(piece)


def all_connections(tier):
    for name, (i, o) in c02.CORPUS.items():
        yield (name, 'http', i, o)
        yield (name + '-cut', 'http', i[:-1], o[:-2])
    for name, scheme, i, o in corpus.load(None if tier == 'thorough' else 420):
        yield (name, scheme, i, o)


def shards(tier):
    items = list(all_connections(tier))
    out = [('cuts', tuple(x[0] for x in g)) for g in corpus.chunks(items, 40)]
    for name in c02.CORPUS:
        for side in (0, 1):
            out.append(('windows', name, side))
            if tier == 'thorough':
                out.append(('pairs', name, side))
    out += [('long', name) for name in LONG]
    out += [('formats', tuple(x[0] for x in g)) for g in corpus.chunks(items, 24)]
    return out


_ITEMS = {}


def item(name, tier='thorough'):
    if not _ITEMS:
        _ITEMS.update((x[0], x) for x in all_connections('thorough'))
        _ITEMS.update((n, (n, 'http') + v) for n, v in LONG.items())
    return _ITEMS[name]


SIZES = (1, 2, 3, 4, 5, 6, 7, 8, 11, 13, 16, 17)
BUFFERS = (1, 2, 3, 7, 16)


def cases(shard, tier):
    kind = shard[0]
    if kind == 'cuts':
        for name in shard[1]:
            x = item(name)
            for side in (0, 1):
                data = x[2 + side]
                for c in range(1, len(data)):
                    yield ('slow', name, side, (c,), None, None)
                for s in SIZES:
                    yield ('slow', name, side, (), s, None)
                for b in BUFFERS:
                    yield ('slow', name, side, (), None, b)
                    yield ('slow', name, side, (), 3, b)
    elif kind == 'pairs':
        data = item(shard[1])[2 + shard[2]]
        for c in itertools.combinations(range(1, len(data)), 2):
            yield ('slow', shard[1], shard[2], c, None, None)
    elif kind == 'windows':
        data = item(shard[1])[2 + shard[2]]
        width = 12 if tier == 'thorough' else 9
        for start in sorted(set(_boundaries(data))):
            lo = max(1, start - width // 2)
            points = list(range(lo, min(len(data), lo + width)))
            for n in range(3, len(points) + 1):
                for c in itertools.combinations(points, n):
                    yield ('slow', shard[1], shard[2], c, None, None)
    elif kind == 'long':
        for side in (0, 1):
            data = item(shard[1])[2 + side]
            for c in list(range(8186, 8200)) + list(range(16376, 16400)) + list(range(24570, 24580)):
                yield ('slow', shard[1], side, (c,), None, None)
            for s in (1, 7, 8191, 8192, 8193, 16383, 16384, 16385):
                yield ('slow', shard[1], side, (), s, None)
            for b in (1, 2, 100, 8191, 8193, 16384, 65536):
                yield ('slow', shard[1], side, (), None, b)
                yield ('slow', shard[1], side, (), 5000, b)
    elif kind == 'formats':
        for name in shard[1]:
            yield ('formats', name)
            yield ('twice', name)


def _boundaries(data):
    # around the end of each of the first lines, and the very end
    out = [len(data) - 3]
    pos = -1
    for _ in range(8):
        pos = data.find(b'\n', pos + 1)
        if pos < 0:
            break
        out.append(pos)
    step = max(1, len(out) // 4)
    return out[:1] + out[1::step]


_REF = {}


def reference(name):
    if name not in _REF:
        if len(_REF) > 60:
            _REF.clear()
        _, scheme, i, o = item(name)
        e = obs.analyse(i, o, scheme)
        _REF[name] = (obs.full(e), obs.text(e))
    return _REF[name]


def run(ctx, case):
    if case[0] == 'slow':
        _, name, side, cuts, size, buf = case
        _slow(ctx, name, side, cuts, size, buf)
    elif case[0] == 'formats':
        _formats(ctx, case[1])
    else:
        _twice(ctx, case[1])


def _slow(ctx, name, side, cuts, size, buf):
    from httpolice import check_exchange
    from httpolice.framing1 import parse_streams
    _, scheme, i, o = item(name)
    data = [i, o]
    streams = []
    for n in (0, 1):
        raw = Slow(data[n], cuts, size) if n == side else io.BytesIO(data[n])
        streams.append(conn.stream(None, 'io'[n], raw, buf if n == side else None))
    exchanges = list(parse_streams(streams[0], streams[1], scheme))
    full, text = reference(name)
    ctx.step(len(cuts) + 1)
    ctx.state((name, side, cuts, size, buf))
    ctx.outcome('same')
    # What the connection parser extracts and complains of is compared for each
    # schedule; the (much costlier) rules see only that, and run on a subset.
    if len(cuts) <= 1 and (size or buf or cuts[0] % 8 == 0):
        for e in exchanges:
            check_exchange(e)
        ctx.expect('slow-verdict', (obs.full(exchanges), obs.text(exchanges)), (full, text), 'verdict with delivery %r' % (case_str(cuts, size, buf),))
    else:
        key = (name, 'parsed')
        if key not in _REF:
            _REF[key] = [(obs.raw(e), obs.notices(e)) for e in conn.parse(i, o, scheme)]
        ctx.expect('slow-exchanges', [(obs.raw(e), obs.notices(e)) for e in exchanges], _REF[key],
                   'exchanges with delivery %r' % (case_str(cuts, size, buf),))


def case_str(cuts, size, buf):
    return {'split at': cuts, 'read size': size, 'buffer': buf}


def cleanup():
    pass


def _write(path, data):
    with open(path, 'wb') as f:
        f.write(data)


def _via(fmt, paths):
    from httpolice import check_exchange
    from httpolice.inputs import formats
    exchanges = []
    for e in formats[fmt](paths):
        check_exchange(e)
        exchanges.append(e)
    return exchanges


MARK = b'======== BEGIN INBOUND STREAM ========\r\n', b'======== BEGIN OUTBOUND STREAM ========\r\n'


def _sniffable(i, o):
    """Which of the two files the documentation lets us recognise."""
    import re
    first = o.split(b'\n', 1)[0]
    if re.match(rb'HTTP/1\.[0-9] [0-9]{3} ', first):
        return True
    return False


def _formats(ctx, name):
    _, scheme, i, o = item(name)
    tmp = tempfile.mkdtemp(prefix='verif-c03-')
    try:
        pi, po = os.path.join(tmp, 'in'), os.path.join(tmp, 'out')
        _write(pi, i)
        _write(po, o)
        want = {}
        for s in ('http', 'https', None):
            e = obs.analyse(i, o, s)
            want[s] = (obs.full(e), obs.text(e))

        def check(label, got, expected):
            ctx.step()
            ctx.outcome(label)
            ctx.state((name, label))
            ctx.expect('format-' + label, (obs.full(got), obs.text(got)), expected, '%s input of %s' % (label, name))

        check('streams', _via('streams', [pi, po]), want['http'])
        # Damaged one-direction inputs
        e = obs.analyse(i, None)
        check('req-stream', _via('req-stream', [pi]), (obs.full(e), obs.text(e)))
        e = obs.analyse(None, o)
        check('resp-stream', _via('resp-stream', [po]), (obs.full(e), obs.text(e)))
        if MARK[0] not in i + o and MARK[1] not in i:
            for ext, s in (('.https', 'https'), ('.noscheme', None), ('.x', 'http'), ('', 'http')):
                for pre in (b'', b'# notices\n1000 1001\r\n', '\u2014 HTTP/1.1 200 OK\r\n'.encode()):
                    pc = os.path.join(tmp, 'comb' + ext)
                    _write(pc, pre + MARK[0] + i + MARK[1] + o)
                    check('combined' + ext, _via('combined', [pc]), want[s])
        if _sniffable(i, o):
            for order in (0, 1):
                # The client's file may come first or second in the listing.
                d = os.path.join(tmp, 'flow%d' % order)
                os.mkdir(d)
                a, b = ('10.0.0.1-1000', '10.0.0.2-80') if order == 0 else ('10.0.0.3-1000', '10.0.0.2-80')
                _write(os.path.join(d, '1400000000-%s-%s-10' % (a, b)), i)
                _write(os.path.join(d, '1400000000-%s-%s-20' % (b, a)), o)
                check('tcpflow', _via('tcpflow', [d]), want['http'])
                d = os.path.join(tmp, 'pick%d' % order)
                os.mkdir(d)
                x, y = ('clnt', 'serv') if order == 0 else ('serv', 'clnt')
                _write(os.path.join(d, 'tcpick_000001_10.0.0.1_10.0.0.2_80.%s.dat' % x), i)
                _write(os.path.join(d, 'tcpick_000001_10.0.0.1_10.0.0.2_80.%s.dat' % y), o)
                check('tcpick', _via('tcpick', [d]), want['http'])
    finally:
        shutil.rmtree(tmp)


def _twice(ctx, name):
    """Several files given to one run are analysed like each of them alone."""
    _, _, i, o = item(name)
    tmp = tempfile.mkdtemp(prefix='verif-c03-')
    try:
        p = []
        for n, data in enumerate((i, o, b'GET / HTTP/1.1\r\nHost: x\r\n\r\n', b'HTTP/1.1 204 No\r\n\r\n')):
            p.append(os.path.join(tmp, 'f%d' % n))
            _write(p[-1], data)

        def alone(inbound, outbound):
            e = obs.analyse(inbound, outbound)
            return obs.full(e), obs.text(e)
        one = alone(i, None)
        two = alone(b'GET / HTTP/1.1\r\nHost: x\r\n\r\n', None)
        got = _via('req-stream', [p[0], p[2]])
        # Order between different connections follows the time known for them
        # (C20), so only the multiset is compared here.
        ctx.expect('several-req', sorted(map(repr, obs.full(got))), sorted(map(repr, one[0] + two[0])), 'two request streams')
        one = alone(None, o)
        two = alone(None, b'HTTP/1.1 204 No\r\n\r\n')
        got = _via('resp-stream', [p[3], p[1]])
        ctx.expect('several-resp', sorted(map(repr, obs.full(got))), sorted(map(repr, one[0] + two[0])), 'two response streams')
        one = alone(i, o)
        two = alone(b'GET / HTTP/1.1\r\nHost: x\r\n\r\n', b'HTTP/1.1 204 No\r\n\r\n')
        got = _via('streams', [p[2], p[3], p[0], p[1]])
        ctx.expect('several', sorted(map(repr, obs.full(got))), sorted(map(repr, one[0] + two[0])), 'two connections')
        ctx.step(3)
        ctx.state((name, 'twice'))
        ctx.outcome('several')
    finally:
        shutil.rmtree(tmp)
