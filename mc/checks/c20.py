"""C20: exchanges of several connections are reported in time order."""

import datetime
import email.utils
import itertools
import os
import shutil
import tempfile

ID = 'C20'
CLAIMED = True
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of the times (known, unknown, contradictory, from any source) of the exchanges of up to 3 connections, merged by the real inputs; the order is compared with '
             'that of an independent step-by-step model of the merge')
NOTE = '''State: the position of every connection. Model: the next exchange comes from the connection whose next exchange has the earliest known time; an exchange with no time has that of the one
before it, the first one that of its connection; nothing of a connection happens before the connection starts; the earlier connection wins ties. Checked: exactly the predicted order, each
exchange once, for tcpflow (start times known), tcpick and pairs of stream files (not known).'''
ASSUMPTIONS = ['connections are numbered by start time, then file name (tcpflow), by counter (tcpick), or as given (streams)']
BOUNDS = {
    'quick': '2 connections of <= 2 and <= 3 exchanges, 3 connections of <= 2, over 3 times or none x 3 start times; 12 sources of a time; one-sided and unrecognisable connections; 2 directories',
    'thorough': '2 connections of <= 3 exchanges each, 4 connections of 1, 4 times'}
MIN_STATES = 300
T0 = 1469847441

# How the time of an exchange is known: (request Date, [(status, Date, Age)], time or None); relative to d
SOURCES = {
    'resp': lambda d: (None, [(200, d, None)], d),
    'req': lambda d: (d, [(200, None, None)], d),
    'req-first': lambda d: (d, [(200, d + 15, '3')], d),
    'age': lambda d: (None, [(200, d - 7, '7')], d),
    'bad-age': lambda d: (None, [(200, d, 'x')], d),
    'huge-age': lambda d: (None, [(200, d, '9' * 30)], d),
    'interim': lambda d: (None, [(100, d, None), (200, d + 15, None)], d),
    'final': lambda d: (None, [(100, None, None), (200, d, None)], d),
    'interim-bad': lambda d: (None, [(100, 'x', '5'), (200, d - 2, '2')], d),
    'bad-req': lambda d: ('Sun', [(200, d, None)], d),
    'unknown': lambda d: (None, [(200, None, '3')], None),
    'garbage': lambda d: ('x', [(200, '0', None)], None),
}
ALT = sorted(SOURCES)


def date(x):
    return x if isinstance(x, str) else email.utils.formatdate(T0 + x, usegmt=True)


def exchange(k, j, time, source):
    """(request bytes, response bytes, time)"""
    req_date, resps, known = SOURCES[source](time) if time is not None else (None, [(200, None, None)], None)
    req = b'GET /%d/%d HTTP/1.1\r\nHost: x\r\n' % (k, j)
    if req_date is not None:
        req += b'Date: %s\r\n' % date(req_date).encode()
    out = b''
    for status, d, age in resps:
        out += b'HTTP/1.1 %d c%dx%d\r\n' % (status, k, j)
        if d is not None:
            out += b'Date: %s\r\n' % date(d).encode()
        if age is not None:
            out += b'Age: %s\r\n' % age.encode()
        out += b'\r\n' if status < 200 else b'Content-Length: 0\r\n\r\n'
    return req + b'\r\n', out, known


# A connection: (start time, [times], source, kind); kind is both, client, server, or junk


def build(k, c):
    """(client bytes or None, server bytes or None, [(label, time)])"""
    start, times, source, kind = c
    reqs, resps, labels = b'', b'', []
    if kind in ('client', 'server'):
        labels.append(('box', k, 1278))
    if kind == 'junk':
        return b'\x16\x03x', b'\x16\x03y', [(('box', k, 1279), None)]
    out = [(x, None) for x in labels]
    for j, t in enumerate(times):
        a, b, known = exchange(k, j, t, source)
        reqs, resps = reqs + a, resps + b
        if kind == 'client':
            # Without responses only the date of the request is known.
            known = known if t is not None and not isinstance(SOURCES[source](t)[0], (str, type(None))) else None
        out.append(((k, j), known))
    return (None if kind == 'server' else reqs), (None if kind == 'client' else resps), out


def merge(conns):
    """The model. conns: [(start, [(label, time)])] -> labels in order."""
    state = []
    for start, items in conns:
        times = []
        last = start
        for n, (_, t) in enumerate(items):
            if t is None:
                t = last
            elif n == 0 and start is not None:
                t = max(t, start)
            times.append(t)
            last = t
        state.append([0, times, items])
    order = []
    while True:
        best = None
        for s in state:
            if s[0] < len(s[1]):
                t = s[1][s[0]]
                if best is None or (t is None) > (best[0] is None) or (t is not None and best[0] is not None and t < best[0]):
                    best = (t, s)
                if t is None:
                    break
        if best is None:
            return order
        s = best[1]
        order.append(s[2][s[0]][0])
        s[0] += 1


_dir = [None, None]


def scratch():
    if _dir[0] is None or _dir[1] != os.getpid():
        _dir[0], _dir[1] = tempfile.mkdtemp(prefix='verif-c20-'), os.getpid()
    return _dir[0]


def cleanup():
    if _dir[0] is not None and _dir[1] == os.getpid():
        shutil.rmtree(_dir[0], ignore_errors=True)
        _dir[0] = None


def shapes(n, times, starts):
    return [(s, list(t), 'resp', 'both') for s in starts for k in range(1, n + 1) for t in itertools.product(times, repeat=k)]


T3, T4 = [None, 0, 10, 20], [None, 0, 10, 20, 30]
OTHER = [(0, [], 'resp', 'junk'), (10, [], 'resp', 'junk'), (0, [0, 20], 'req', 'client'), (10, [None, 10], 'req', 'client'), (0, [10], 'resp', 'server'), (10, [None, 0, 20], 'resp', 'server'), (20, [0], 'resp', 'client')]


def shards(tier):
    out = [['flow2', n] for n in range(24)] + [['flow3', n] for n in range(24)] + [['pick', n] for n in range(8)] + [['streams', n] for n in range(8)] + [['source', n] for n in range(len(ALT))]
    out += [['other', n] for n in range(4)] + [['dirs', n] for n in range(4)]
    if tier == 'thorough':
        out += [['flow4', n] for n in range(24)]
    return out


def cases(shard, tier):
    kind, n = shard
    if kind == 'flow2':
        a = shapes(2 if tier == 'quick' else 3, T3, [0, 10, 20])
        b = shapes(3, T3 if tier == 'quick' else T4, [0, 10, 20])
        for x in a[n::24]:
            for y in b:
                yield ('tcpflow', [x, y])
    elif kind == 'flow3':
        a = shapes(2, [None, 0, 10], [0, 10])
        for x in a[n::24]:
            for y, z in itertools.product(a, repeat=2):
                yield ('tcpflow', [x, y, z])
    elif kind == 'flow4':
        a = shapes(1, T3, [0, 10])
        for c in list(itertools.product(a, repeat=4))[n::24]:
            yield ('tcpflow', list(c))
    elif kind in ('pick', 'streams'):
        a = shapes(2, T3, [None])
        fmt = 'tcpick' if kind == 'pick' else 'streams'
        for x in a[n::8]:
            for y in a:
                yield (fmt, [x, y])
            for y, z in itertools.product(shapes(1, T3, [None]), repeat=2):
                yield (fmt, [x, y, z])
                yield (fmt, [y, z, x])
    elif kind == 'source':
        for s in [0, 10]:
            for t in itertools.product([0, 10, 20], repeat=2):
                for u in itertools.product(T3, repeat=2):
                    for s2 in [0, 10]:
                        yield ('tcpflow', [(s, list(t), ALT[n], 'both'), (s2, list(u), 'resp', 'both')])
                    yield ('tcpick', [(None, list(t), ALT[n], 'both'), (None, list(u), 'resp', 'both')])
        for m in ALT:
            for t, u in itertools.product([0, 10, 20], repeat=2):
                yield ('tcpflow', [(0, [t], ALT[n], 'both'), (0, [u], m, 'both'), (10, [5, None, 25], 'resp', 'both')])
    elif kind == 'other':
        for x in OTHER[n::4]:
            for y in OTHER + shapes(2, T3, [0, 10]):
                for fmt in ('tcpflow', 'tcpick'):
                    yield (fmt, [x, y])
                    yield (fmt, [y, x])
                    yield (fmt, [y, x, (0, [0, None, 20], 'resp', 'both')])
    else:
        for x in shapes(2, T3, [0, 10])[n::4]:
            for y in shapes(2, T3, [0, 10]):
                yield ('dirs', [x, y])


def run(ctx, case):
    fmt, conns = case
    root = scratch()
    for x in os.listdir(root):
        shutil.rmtree(os.path.join(root, x))
    files = [build(k, c) for k, c in enumerate(conns)]
    numbered = []
    dirs = []
    paths = []
    for k, (c, (a, b, items)) in enumerate(zip(conns, files)):
        d = os.path.join(root, 'd%d' % (k if fmt in ('dirs', 'streams') else 0))
        if d not in dirs:
            dirs.append(d)
            os.mkdir(d)
        for side, data in (('c', a), ('s', b)):
            if data is None:
                continue
            if fmt in ('tcpflow', 'dirs'):
                t = T0 + c[0] + (2 if side == 's' else 0)
                name = '%d-%s-0' % (t, '10.0.0.%d-100-10.0.0.9-80' % k if side == 'c' else '10.0.0.9-80-10.0.0.%d-100' % k)
            elif fmt == 'tcpick':
                name = 'tcpick_%d_10.0.0.1_10.0.0.2_http.%s.dat' % (k + 1, 'clnt' if side == 'c' else 'serv')
            else:
                name = side
            paths.append(os.path.join(d, name))
            with open(paths[-1], 'wb') as f:
                f.write(data)
        start = c[0]
        if start is not None and c[3] == 'server':
            start += 2
        # The number of the connection
        sort = (start, min(os.path.basename(p) for p in paths if os.path.dirname(p) == d)) if fmt == 'tcpflow' else None
        if fmt == 'tcpflow':
            first = [p for p in paths[-(2 if a is not None and b is not None else 1):]]
            sort = (start, min(os.path.basename(p) for p in first if os.path.basename(p).startswith('%d-' % (T0 + start))))
        numbered.append((sort, k, start if fmt in ('tcpflow', 'dirs') else None, items))
    if fmt == 'tcpflow':
        numbered.sort(key=lambda x: x[0])
    want = merge([(start, items) for _, _, start, items in numbered])
    from httpolice import inputs
    real = 'tcpflow' if fmt == 'dirs' else fmt
    got = [label(e) for e in inputs.formats[real](paths if fmt == 'streams' else dirs)]
    ctx.step(len(want))
    if sorted(got, key=repr) != sorted(want, key=repr):
        ctx.violate('set:' + fmt, '%r: exchanges %r instead of %r' % (conns, got, want))
    elif got != want:
        inner = any([x for x in got if own(x) == k] != [x for x in want if own(x) == k] for k in range(len(conns)))
        ctx.violate(('within:' if inner else 'order:') + fmt, '%r: order %r instead of %r' % (conns, got, want))
    ctx.state(want)
    ctx.outcome((fmt, len(want)))


def own(x):
    return x[1] if x[0] == 'box' else x[0]


def label(e):
    if e.request is not None:
        _, k, j = str(e.request.target).split('/')
        return (int(k), int(j))
    if e.responses:
        k, j = e.responses[-1].reason[1:].split('x')
        return (int(k), int(j))
    [c] = e.notices
    path = c.context.get('path') or c.context.get('path1')
    name = os.path.basename(path)
    if name.startswith('tcpick'):
        return ('box', int(name.split('_')[1]) - 1, c.id)
    a, b = name.split('-')[1], name.split('-')[3]
    return ('box', int((b if a.endswith('.9') else a).split('.')[-1]), c.id)
