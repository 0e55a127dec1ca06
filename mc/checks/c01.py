"""C01: well-formed connections are reconstructed exactly.

Expected results come from the *generator* of the connection, not from a parser.
"""

import itertools
import zlib

from mc import conn

ID = 'C01'
CLAIMED = True
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of all message sequences up to a depth over an alphabet of '
             'message shapes, executed on the real connection parser')
NOTE = '''Every connection of up to 2 exchanges (quick) or 3 (thorough) over 20+ request and 30+
response shapes, plus interim-response runs and tunnels, is serialised and parsed by the real
code, and compared field by field with what was serialised. Assumes message shapes outside the alphabet behave like those in it.'''
ASSUMPTIONS = [
    'message shapes outside the alphabet are framed by the same rules as those in it',
    'the connection parser has no state beyond the two streams (checked separately by C07)']
BOUNDS = {
    'quick': 'all 1- and 2-exchange connections over the full alphabet, all 3-exchange ones over the core alphabet',
    'thorough': 'all 1- to 3-exchange connections over the full request/response alphabets (responses core for depth 3), 4 over a small core'}
MIN_STATES = 100

# Every notice that would mean that something was wrong with the framing.
PROBLEMS = frozenset([1001, 1002, 1003, 1004, 1005, 1006, 1007, 1008, 1009,
                      1010, 1016, 1027, 1224, 1298])
SCOPE = PROBLEMS | {1011, 1012}

CONFUSING = b'HTTP/1.1 200 OK\r\n\r\nGET /x HTTP/1.1\r\n\r\n0\r\n\r\n'


def gz(data):
    c = zlib.compressobj(9, zlib.DEFLATED, 16 + zlib.MAX_WBITS)
    return c.compress(data) + c.flush()


def chunked(pieces, trailer=(), ext=b'', size=lambda n: b'%x' % n, last=b'0'):
    out = b''
    for p in pieces:
        out += size(len(p)) + ext + b'\r\n' + p + b'\r\n'
    out += last + ext + b'\r\n'
    for n, v in trailer:
        out += n + b': ' + v + b'\r\n'
    return out + b'\r\n'


# A body form: (name, header fields, bytes on the wire, body, trailer fields)
def _forms():
    b10 = b'0123456789'
    tr = ((b'X-Trail', b'one'), (b'X-Trail', b'two'))
    yield 'cl0', ((b'Content-Length', b'0'),), b'', b'', ()
    yield 'cl1', ((b'content-LENGTH', b'1'),), b'\n', b'\n', ()
    yield 'cl', ((b'Content-Length', b'%d' % len(CONFUSING)),), CONFUSING, CONFUSING, ()
    yield 'cl007', ((b'Content-Length', b'0010'),), b10, b10, ()
    yield 'ch0', ((b'Transfer-Encoding', b'chunked'),), chunked([]), b'', ()
    yield 'ch1', ((b'Transfer-Encoding', b'chunked'),), chunked([CONFUSING]), CONFUSING, ()
    yield 'ch3', ((b'Transfer-encoding', b'Chunked'),), \
        chunked([b'0\r\n', b'\r\n', b'a' * 17], ext=b';a=b', size=lambda n: b'00%X' % n, last=b'000'), \
        b'0\r\n\r\n' + b'a' * 17, ()
    yield 'chT', ((b'Transfer-Encoding', b'chunked'), (b'Trailer', b'X-Trail')), \
        chunked([b10], tr), b10, tr
    yield 'chgz', ((b'Transfer-Encoding', b'gzip, chunked'),), chunked([gz(b10)]), b10, ()
    yield 'chgz2', ((b'Transfer-Encoding', b'deflate'), (b'Transfer-Encoding', b'chunked')), \
        chunked([zlib.compress(b10)[:5], zlib.compress(b10)[5:]]), b10, ()
    yield 'chcl', ((b'Transfer-Encoding', b'chunked'), (b'Content-Length', b'3')), \
        chunked([b10]), b10, ()


FORMS = {f[0]: f[1:] for f in _forms()}
NOBODY = ((), b'', b'', ())
LONG = b'v' * 9000


def req(method, form=None, target=b'/', version=b'HTTP/1.1', pre=((b'Host', b'a'),)):
    headers, wire, body, trailer = FORMS[form] if form else NOBODY
    headers = pre + headers
    data = method + b' ' + target + b' ' + version + b'\r\n'
    data += b''.join(n + b': ' + v + b'\r\n' for n, v in headers) + b'\r\n' + wire
    return data, {'method': method, 'target': target, 'version': version,
                  'headers': list(headers), 'body': body, 'trailer': list(trailer)}


def _requests():
    r = {}
    r['get'] = req(b'GET')
    r['get0'] = req(b'GET', None, b'http://a/b?c', b'HTTP/1.0', ())
    r['getcl'] = req(b'GET', 'cl')
    r['head'] = req(b'HEAD', None, b'/h')
    r['headcl'] = req(b'HEAD', 'cl1', b'/h')
    r['opt'] = req(b'OPTIONS', None, b'*')
    r['ext'] = req(b'FOO-bar', None, b'/%20?x=1', b'HTTP/1.1',
                   ((b'Host', b'a'), (b'X-Empty', b''), (b'X-Colon', b'a: b:c'), (b'X', LONG)))
    r['lower'] = req(b'get')
    r['connect'] = req(b'CONNECT', None, b'a:443')
    for f in FORMS:
        r['post-' + f] = req(b'POST', f)
    r['put-ver9'] = req(b'PUT', 'ch1', b'/', b'HTTP/1.9')
    return r


REQUESTS = _requests()


def resp(status, form=None, reason=b'OK', version=b'HTTP/1.1', pre=(), close=None, bodyless=False,
         close_body=None):
    headers, wire, body, trailer = FORMS[form] if form else NOBODY
    headers = tuple(pre) + tuple(headers)
    if close is not None:
        wire, body, trailer = close, close if close_body is None else close_body, ()
    if bodyless:
        wire, body, trailer = b'', b'', ()
    data = version + b' %d ' % status + reason + b'\r\n'
    data += b''.join(n + b':' + v + b'\r\n' for n, v in headers) + b'\r\n' + wire
    return data, {'version': version, 'status': status, 'reason': reason,
                  'headers': list(headers), 'body': body, 'trailer': list(trailer)}


# name -> function(request method) -> (data, expected, ends_connection)
def _responses():
    r = {}

    def add(name, *args, **kw):
        def make(method):
            kw2 = dict(kw)
            if method == b'HEAD':
                kw2['bodyless'] = True
            closing = kw.get('close') is not None and method != b'HEAD'
            return resp(*args, **kw2) + (closing,)
        r[name] = make

    for f in FORMS:
        add('200-' + f, 200, f)
    add('404', 404, 'cl1', b'Not Found At All')
    add('599', 599, 'ch1', b'')
    add('205', 205, 'cl0', b'Reset Content', b'HTTP/1.0')
    add('200x', 200, 'cl', b'\xe9 :/', b'HTTP/2.5', ((b'Set-Cookie', b'a=b'), (b'Set-Cookie', b'c=d'), (b'Via', LONG)))
    add('204', 204, None, bodyless=True)
    add('204cl', 204, 'cl', bodyless=True)
    add('204ch', 204, 'ch1', bodyless=True)
    add('304', 304, None, bodyless=True)
    add('304cl', 304, 'cl', bodyless=True)
    add('304ch', 304, 'ch3', bodyless=True)
    add('close', 200, None, close=CONFUSING)
    add('close0', 500, None, close=b'')
    add('closegz', 200, None, pre=((b'Transfer-Encoding', b'gzip'),), close=gz(b'abc'), close_body=b'abc')
    return r


RESPONSES = _responses()
INTERIM = {
    '100': resp(100, None, b'Continue', bodyless=True),
    '102cl': resp(102, 'cl', b'Processing', bodyless=True),
    '103': resp(103, None, b'Early Hints', b'HTTP/1.1', ((b'Link', b'</a>; rel=preload'),)),
    '199ch': resp(199, 'ch1', b'', bodyless=True),
}
CORE_REQ = ['get', 'head', 'post-cl', 'post-chT', 'get0']
CORE_RESP = ['200-cl', '200-ch3', '200-chT', '204cl', '304ch', '404', 'close']
SMALL_REQ = ['get', 'head', 'post-ch1']
SMALL_RESP = ['200-cl', '200-ch1', '304cl']


def shards(tier):
    full_req, full_resp = list(REQUESTS), list(RESPONSES)
    out = []
    for a in full_req:
        out.append(('seq', 1, [a], full_req, full_resp))
        out.append(('seq', 2, [a], full_req, full_resp))
        out.append(('interim', 1, [a], full_req, None))
    for a in CORE_REQ:
        out.append(('seq', 3, [a], CORE_REQ, CORE_RESP))
    if tier == 'thorough':
        for a in full_req:
            out.append(('seq', 3, [a], CORE_REQ + ['connect', 'post-chgz'], CORE_RESP))
        for a in SMALL_REQ:
            out.append(('seq', 4, [a], SMALL_REQ, SMALL_RESP))
            out.append(('seq', 5, [a], SMALL_REQ, SMALL_RESP))
    for a in full_req:
        out.append(('tunnel', 1, [a], None, None))
    return out


def cases(shard, tier):
    kind, depth, first, reqs, resps = shard
    if kind == 'seq':
        for rest in itertools.product(reqs, repeat=depth - 1):
            names = first + list(rest)
            for rs in itertools.product(resps, repeat=depth):
                yield ('seq', tuple(names), tuple((r,) for r in rs))
    elif kind == 'interim':
        for n in range(0, 4 if tier == 'quick' else 5):
            for pre in itertools.product(INTERIM, repeat=n):
                for last in ('200-cl', '304ch', 'close', None):
                    yield ('seq', (first[0], 'get'),
                           (pre + ((last,) if last else ()), ('200-ch1',)))
    else:
        for status in (101, 200, 299):
            for pre in ((), ('100',), ('103', '100')):
                for tail_in in (b'', b'\x00\x01', CONFUSING):
                    for tail_out in (b'', b'\x00\x01', CONFUSING):
                        yield ('tunnel', first[0], pre, status, tail_in, tail_out)


def _run_seq(ctx, case):
    _, reqs, resps = case
    inbound = outbound = b''
    expected = []
    open_ = True
    for rq, rs in zip(reqs, resps):
        if not open_:
            return              # a close-delimited response ends the connection
        data, exp = REQUESTS[rq]
        inbound += data
        method = exp['method']
        exp_resps = []
        final_seen = False
        for name in rs:
            if name in INTERIM:
                data, e = INTERIM[name]
            else:
                data, e, closing = RESPONSES[name](method)
                final_seen = True
                if method == b'CONNECT' and 200 <= e['status'] <= 299:
                    return      # covered by the tunnel cases
                if closing:
                    open_ = False
            outbound += data
            exp_resps.append(e)
        expected.append((exp, exp_resps))
        if not final_seen:
            open_ = False       # nothing more can follow on the connection
            break
    missing = not open_ and not final_seen
    actual = conn.describe(conn.parse(inbound, outbound), SCOPE)
    ctx.step(len(expected) + sum(len(r) for _, r in expected))
    want = []
    for n, (rq, rs) in enumerate(expected):
        want.append(('exchange', dict(rq, notices=frozenset()),
                     [dict(r, notices=frozenset()) for r in rs]))
    ctx.state(('seq', reqs, resps))
    ctx.outcome('ok' if actual == want else 'differs')
    if missing:
        # A connection with no final response at all is complete as far as it
        # goes; whatever else is said about it is C02's business.
        actual = actual[:len(want)]
    if actual != want:
        ctx.violate('seq:' + conn.kind_of_diff(actual, want), conn.diff(actual, want))


def _run_tunnel(ctx, case):
    _, rq, pre, status, tail_in, tail_out = case
    data, exp = REQUESTS[rq]
    method = exp['method']
    if status != 101 and method != b'CONNECT':
        return
    inbound = data + tail_in
    outbound = b''.join(INTERIM[p][0] for p in pre)
    exp_resps = [dict(INTERIM[p][1], notices=frozenset()) for p in pre]
    data, e = resp(status, None, b'Go', pre=((b'Upgrade', b'x'),))
    outbound += data + tail_out
    note = 1011 if status == 101 else 1012
    exp_resps.append(dict(e, body=b'', notices=frozenset([note])))
    want = [('exchange', dict(exp, notices=frozenset()), exp_resps)]
    if tail_in:
        want.append(('box', 1007))
    if tail_out:
        want.append(('box', 1010))
    actual = conn.describe(conn.parse(inbound, outbound), SCOPE)
    ctx.step(1 + len(exp_resps))
    ctx.state(case)
    ctx.outcome('tunnel')
    if actual != want:
        ctx.violate('tunnel:' + conn.kind_of_diff(actual, want), conn.diff(actual, want))


def run(ctx, case):
    if case[0] == 'seq':
        _run_seq(ctx, case)
    else:
        _run_tunnel(ctx, case)
