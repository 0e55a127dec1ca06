"""C19: capture files of one connection are paired and none is lost."""

import contextlib
import itertools
import os
import re
import shutil
import tempfile

from mc import conn, obs

ID = 'C19'
CLAIMED = True
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of directories (subsets of stream files, their contents, names and time stamps) x directory listing orders, read by the real inputs under a controlled '
             'os.listdir; the exchanges are compared with an independent model of pairing and roles')
NOTE = '''The model pairs files by the addresses, ports and counters in their names, finds the client and the server from the first line of each file, and parses the two directions with the
library itself. Checked: same exchanges for each connection, in order; a box naming the file for a one-sided or unrecognisable connection; nothing else; an error for a file that cannot be
placed; the same result for every listing order.'''
ASSUMPTIONS = ['which direction is which is not judged when both sides of a connection look like the same role', 'order between connections is C20']
BOUNDS = {
    'quick': 'tcpflow and tcpick; all subsets of 6 files of 3 connections x up to 120 listing orders x 3 families of addresses; all pairs of 17 contents for one connection, 4 x 17 for two; 70 file names; 2 directories',
    'thorough': 'up to 720 listing orders; all pairs of contents for 2 connections'}
MIN_STATES = 300

D = b'Date: Sun, 06 Nov 1994 08:49:37 GMT\r\nContent-Length: 0\r\n\r\n'


def contents(tag):
    t = tag.encode()
    return {
        'C1': b'GET /%s/1 HTTP/1.1\r\nHost: %s\r\nUser-Agent: x\r\n\r\n' % (t, t),
        'C2': b'GET /%s/1 HTTP/1.1\r\nHost: %s\r\nUser-Agent: x\r\n\r\nPOST /%s/2 HTTP/1.1\r\nHost: y\r\nContent-Length: 3\r\n\r\nabc' % (t, t, t),
        'C-lf': b'GET /%s/lf HTTP/1.0\nUser-Agent: x\n\n' % t,
        'C-long': b'GET /%s/%s HTTP/1.1\r\nHost: x\r\n\r\n' % (t, b'y' * 70000),
        'S-long': b'HTTP/1.1 200 %s %s\r\n' % (t, b'y' * 9000) + D,
        'C-cut': b'GET /%s/cut HTTP/1.1\r\nHo' % t,
        'C-line': b'GET /%s/cut HTTP/1.1' % t,
        'C-odd': b'f/@o /%s/odd HTTP/1.9\r\n\r\n' % t,
        'S1': b'HTTP/1.1 200 %s\r\n' % t + D,
        'S2': b'HTTP/1.1 100 %s\r\n\r\nHTTP/1.1 404 b\r\n' % t + D + b'HTTP/1.1 500 c\r\n' + D,
        'S-cut': b'HTTP/1.1 200 %s\r\nFoo' % t,
        'S-line': b'HTTP/1.0 299 ',
        'none': b'',
        'tls': b'\x16\x03\x01\x02\x00\x01\x00' + t,
        'pri': b'PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n' + t,
        'smtp': b'220 %s ESMTP HTTP/1.1\r\n' % t,
        'almost': b'HTTP/1.1 20 %s\r\n\r\n' % t,
    }


KINDS = list(contents('x'))


def role(data):
    line = data.split(b'\n', 1)[0]
    if len(line) >= 13 and line[:7] == b'HTTP/1.' and line[7:8].isdigit() and line[8:9] == b' ' and line[9:12].isdigit() and line[12:13] == b' ':
        return 'server'
    words = line.rstrip().split(b' ')
    if len(words) == 3 and words[0] and words[1] and words[2][:7] == b'HTTP/1.' and len(words[2]) == 8 and words[2][7:].isdigit():
        return 'client'
    return None


# Three connections: (client address, client port, server address, server port)
FAMILIES = [
    [('010.000.000.001', '50001', '010.000.000.002', '00080'), ('010.000.000.001', '50002', '010.000.000.002', '00080'), ('010.000.000.003', '50001', '010.000.000.002', '00080')],
    # Same host, and ports swapped; one address is a prefix of the other
    [('127.000.000.001', '08080', '127.000.000.001', '00080'), ('127.000.000.001', '00080', '127.000.000.010', '08080'), ('127.000.000.010', '00080', '127.000.000.001', '08080')],
    [('::1', '1', '::1', '80'), ('fe80::1', '180', '::1', '80'), ('::1', '80', 'fe80::1', '1')],
]


def tcpflow_name(c, direction, t):
    a, ap, b, bp = c
    if direction == 's':
        a, ap, b, bp = b, bp, a, ap
    return '%d-%s-%s-%s-%s-0' % (t, a, ap, b, bp)


def tcpick_name(c, direction, t):
    a, _, b, _ = c
    return 'tcpick_%06d_%s_%s_http.%s.dat' % (t, a, b, 'clnt' if direction == 'c' else 'serv')


def parse_name(fmt, name):
    """None, 'skip', or (connection, direction)."""
    if fmt == 'tcpflow':
        if name in ('report.xml', 'alerts.txt'):
            return 'skip'
        f = name.split('-')
        if len(f) != 6 or not all(f) or not all(f[k].isdigit() and f[k].isascii() for k in (0, 2, 4, 5)):
            return None
        a, b = (f[1], f[2]), (f[3], f[4])
        if int(f[0]) > 10 ** 11:
            return None
        return (frozenset([a, b]), a)
    if not name.startswith('tcpick_') or not name.endswith('.dat'):
        return None
    f = name[len('tcpick_'):-len('.dat')].split('_', 3)
    if len(f) != 4 or not all(f) or not f[0].isdigit():
        return None
    service, dot, side = f[3].rpartition('.')
    if side not in ('clnt', 'serv') or not dot or not service or '.' in service:
        return None
    return ((int(f[0]), f[1], f[2]), side)


def model(fmt, dirs):
    """'error', or [([exchanges as facts] or 'vague', first-seen key)] per connection."""
    out = []
    for d, files in dirs:
        conns = {}
        for name in sorted(files):
            p = parse_name(fmt, name)
            if p is None:
                return 'error'
            if p == 'skip':
                continue
            sides = conns.setdefault(p[0], {})
            if p[1] in sides:
                return 'error'
            sides[p[1]] = (os.path.join(d, name), files[name])
        for c, sides in conns.items():
            out.append(connection(list(sides.values())))
    return out


def connection(sides):
    seq = []
    if len(sides) == 1:
        seq.append(('box', 1278, (sides[0][0],)))
    roles = [role(data) for _, data in sides]
    client = server = None
    if roles.count('server') == 1:
        k = roles.index('server')
        server, client = sides[k], (sides[1 - k] if len(sides) == 2 else None)
    elif roles.count('client') == 1 and 'server' not in roles:
        k = roles.index('client')
        client, server = sides[k], (sides[1 - k] if len(sides) == 2 else None)
    elif any(roles):
        return ('vague', [p for p, _ in sides])
    else:
        return ('exact', seq + [('box', 1279, tuple(sorted(p for p, _ in sides)))])
    return ('exact', seq + facts(parse(client, server)))


_parsed = {}


def parse(client, server):
    from httpolice.framing1 import parse_streams
    a = client and conn.stream(client[1], client[0])
    b = server and conn.stream(server[1], server[0])
    return list(parse_streams(a, b, 'http'))


PATHS = ('path', 'path1', 'path2')


def facts(exchanges):
    out = []
    for e in exchanges:
        if e.request is None and not e.responses:
            for c in e.notices:
                names = [c.context[k] for k in PATHS if k in c.context and c.context[k] != '(none)']
                if 'stream' in c.context:
                    names.append(c.context['stream'].name)
                out.append(('box', c.id, tuple(sorted(names))))
        else:
            out.append((repr(obs.raw(e)), repr(obs.notices(e))))
    return out


@contextlib.contextmanager
def listing(order):
    real, real_scan = os.listdir, os.scandir

    def fake(path='.'):
        names = sorted(real(path))
        return [names[k] for k in order] if len(names) == len(order) else names

    class Scan(list):
        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def close(self):
            pass

    def scan(path='.'):
        with real_scan(path) as it:
            entries = sorted(it, key=lambda e: e.name)
        return Scan([entries[k] for k in order] if len(entries) == len(order) else entries)
    os.listdir, os.scandir = fake, scan
    try:
        yield
    finally:
        os.listdir, os.scandir = real, real_scan


_dir = [None, None]


def scratch():
    if _dir[0] is None or _dir[1] != os.getpid():
        _dir[0], _dir[1] = tempfile.mkdtemp(prefix='verif-c19-'), os.getpid()
    return _dir[0]


def cleanup():
    if _dir[0] is not None and _dir[1] == os.getpid():
        shutil.rmtree(_dir[0], ignore_errors=True)
        _dir[0] = None


def write(dirs):
    """[{name: data}] -> [(path, {name: data})]"""
    out = []
    for n, files in enumerate(dirs):
        d = os.path.join(scratch(), 'd%d' % n)
        shutil.rmtree(d, ignore_errors=True)
        os.mkdir(d)
        for name, data in files.items():
            with open(os.path.join(d, name), 'wb') as f:
                f.write(data)
        out.append((d, files))
    return out


def actual(fmt, paths):
    from httpolice import inputs
    try:
        return list(inputs.formats[fmt](paths))
    except inputs.InputError as exc:
        return str(exc)


SUBSETS = [s for k in range(1, 7) for s in itertools.combinations(range(6), k)]


def orders(n, tier):
    perms = list(itertools.permutations(range(n))) if n <= (5 if tier == 'quick' else 6) else None
    if perms is None:
        ident = list(range(n))
        perms = [ident, ident[::-1]] + [ident[k:] + ident[:k] for k in range(1, n)] + [ident[:k] + [ident[k + 1], ident[k]] + ident[k + 2:] for k in range(n - 1)]
    return [list(p) for p in perms]


NAMES = {
    'tcpflow': ['report.xml', 'alerts.txt', 'report.xml.bak', 'REPORT.XML', 'alerts.txt~', '.DS_Store', 'x', '1', '1-2', '1-a-1-b-2', '1-a-1-b-2-0-0', 'x-a-1-b-2-0', '1-a-x-b-2-0', '1-a-1-b-x-0', '1-a-1-b-2-x',
                '-a-1-b-2-0', '1--1-b-2-0', '1-a--b-2-0', '1-a-1--2-0', '1-a-1-b--0', '1-a-1-b-2-', '1-a-1-b-2-0 ', ' 1-a-1-b-2-0', '1-a-1-b-2-0.gz', '1-a-1-b-2-0.html', '1-a-1-b-2-1', '01-a-1-b-2-0', '1-a-1-b-2-00',
                '1-b-2-a-1-0', '1-b-2-a-1-7', '99999999999-a-1-b-2-0', '999999999999999-a-1-b-2-0', '99999999999999999999999999-a-1-b-2-0', '0-a-1-b-2-0', '2-a-1-b-3-0', '2-a-01-b-2-0', '1.5-a-1-b-2-0', '-1-a-1-b-2-0', '1-a:1-b:2-0',
                'tcpick_000001_a_b_http.clnt.dat', 'packets', 'flow.xml'],
    'tcpick': ['tcpick_1_a_b_http.clnt.dat', 'tcpick_1_a_b_http.serv.dat', 'tcpick_01_a_b_http.clnt.dat', 'tcpick_1_b_a_http.serv.dat', 'tcpick_1_a_b_80.clnt.dat', 'tcpick_2_a_b_http.clnt.dat', 'tcpick_1_a_b.clnt.dat',
               'tcpick_a_b_http.clnt.dat', 'tcpick_1_a_b_http.both.dat', 'tcpick_1_a_b_http.dat', 'tcpick_1_a_b_http.clnt', 'tcpick_1_a_b_http.clnt.dat.gz', 'xtcpick_1_a_b_http.clnt.dat', 'tcpick_x_a_b_http.clnt.dat',
               'tcpick__a_b_http.clnt.dat', 'tcpick_1__b_http.clnt.dat', 'tcpick_1_a__http.clnt.dat', 'tcpick_1_a_b_.clnt.dat', 'tcpick_1_a_b_ht.tp.clnt.dat', 'tcpick_1_a_b_c_http.clnt.dat', 'TCPICK_1_a_b_http.clnt.dat', 'report.xml',
               'alerts.txt', '.hidden', 'x', 'tcpick_1_a_b_http.CLNT.dat', 'tcpick_1_a.b.c_d.e.f_http.serv.dat', 'tcpick_1_a_a_http.clnt.dat', 'tcpick_1_a_a_http.serv.dat'],
}


def shards(tier):
    out = []
    for fmt in ('tcpflow', 'tcpick'):
        out += [[fmt, 'subset', fam, k] for fam in range(len(FAMILIES)) for k in range(4)]
        out += [[fmt, 'pair', k] for k in range(len(KINDS))]
        out += [[fmt, 'two', k] for k in range(len(KINDS))]
        out += [[fmt, 'names', k] for k in range(4)]
        out += [[fmt, 'dirs', 0]]
    return out


def cases(shard, tier):
    fmt, what = shard[:2]
    if what == 'subset':
        _, _, fam, k = shard
        for s in SUBSETS[k::4]:
            for times in range(3):
                yield (fmt, 'subset', fam, s, times, tier)
    elif what == 'pair':
        a = KINDS[shard[2]]
        for b in KINDS + [None]:
            for swap in (0, 1):
                yield (fmt, 'pair', a, b, swap)
    elif what == 'two':
        a = KINDS[shard[2]]
        for b in (KINDS if tier == 'thorough' else ['C1', 'S2', 'none', 'tls']):
            for c, d in itertools.product(KINDS, repeat=2) if tier == 'thorough' else [('C1', 'S1'), ('C2', 'S2'), ('tls', 'tls'), ('S1', 'C1'), ('C-cut', 'S1')]:
                yield (fmt, 'two', a, b, c, d)
    elif what == 'names':
        names = NAMES[fmt]
        for a in names[shard[2]::4]:
            yield (fmt, 'names', [a])
            for b in names:
                if a != b:
                    yield (fmt, 'names', [a, b])
    else:
        for a, b in itertools.product(SUBSETS[::5], SUBSETS[::6]):
            yield (fmt, 'dirs', a, b)


def make(fmt, fam, subset, times):
    """Files of three connections: file 2k is what the client of the k-th one sent."""
    files = {}
    for n in subset:
        k, d = n // 2, 'cs'[n % 2]
        t = [1469847441, 1469847441 + n, 1469847441 - n][times]
        if fmt == 'tcpick':
            t = [k + 1, 7 - k, 10 * k + 9][times]
        name = (tcpflow_name if fmt == 'tcpflow' else tcpick_name)(FAMILIES[fam][k], d, t)
        files[name] = contents('k%d' % k)[['C2', 'C1', 'C-lf'][k] if d == 'c' else ['S2', 'S1', 'S1'][k]]
    return files


def run(ctx, case):
    fmt, what = case[:2]
    everyorder = 'quick'
    if what == 'subset':
        _, _, fam, subset, times, everyorder = case
        dirs = [make(fmt, fam, subset, times)]
    elif what in ('pair', 'two'):
        name = tcpflow_name if fmt == 'tcpflow' else tcpick_name
        plan = [(case[2], case[3], case[4] if what == 'pair' else 0)] + ([(case[4], case[5], 1)] if what == 'two' else [])
        files = {}
        for k, (a, b, swap) in enumerate(plan):
            for d, kind in zip('cs'[::-1 if swap else 1], (a, b)):
                if kind is not None:
                    files[name(FAMILIES[0][k], d, 1469847441 if fmt == 'tcpflow' else k + 1)] = contents('k%d%s' % (k, d))[kind]
        dirs = [files]
    elif what == 'names':
        base = {'tcpflow': '1-a-1-b-2-0', 'tcpick': 'tcpick_7_a_b_http.clnt.dat'}[fmt]
        files = {base: contents('base')['C1']}
        for n, extra in enumerate(case[2]):
            files[extra] = contents('n%d' % n)['S1']
        dirs = [files]
    else:
        dirs = [make(fmt, 0, case[2], 0), make(fmt, 0, case[3], 0)]
    try:
        written = write(dirs)
    except OSError:
        ctx.outcome('unwritable')
        return
    want = model(fmt, written)
    paths = [p for p, _ in written]
    n = len(dirs[0])
    seen = None
    every = orders(n, everyorder) if what == 'subset' else [list(range(n)), list(range(n))[::-1]]
    for order in every:
        ctx.step()
        with listing(order):
            got = actual(fmt, paths)
        if seen is None:
            seen = got if isinstance(got, str) else facts(got)
            judge(ctx, fmt, dirs, want, got, paths)
        elif isinstance(got, str) != isinstance(seen, str) or not isinstance(got, str) and facts(got) != seen:
            ctx.violate('order:' + fmt, 'listing %r of %r gives %r instead of %r' % (order, sorted(dirs[0]), got if isinstance(got, str) else facts(got), seen))
            break
    ctx.state((fmt, what, [sorted(d) for d in dirs], [role(x) for d in dirs for x in d.values()], len(seen)))
    ctx.outcome((fmt, what, want if want == 'error' else ' '.join(sorted(x[0] for x in want))))


def judge(ctx, fmt, dirs, want, got, paths):
    names = [sorted(d) for d in dirs]
    if want == 'error' or isinstance(got, str):
        if want != 'error':
            ctx.violate('error:' + fmt, '%r: error %r for a directory of good files' % (names, got))
        elif not isinstance(got, str):
            ctx.violate('no-error:' + fmt, '%r: no error for a file that cannot be placed; %r' % (names, facts(got)))
        elif not any(n in got for d in dirs for n in d):
            ctx.violate('error-text:' + fmt, '%r: the error %r names no file' % (names, got))
        return
    left = facts(got)
    vague = [p for kind, ps in want if kind == 'vague' for p in ps]
    for kind, seq in want:
        if kind == 'vague':
            continue
        at = -1
        for x in seq:
            where = [n for n, y in enumerate(left) if y == x and n > at]
            if not where:
                ctx.violate('lost:' + fmt, '%r: nothing like %r among %r' % (names, x, facts(got)))
                return
            at = where[0]
            left[at] = None
    rest = [x for x in left if x is not None]
    if rest and not vague:
        ctx.violate('extra:' + fmt, '%r: unexpected %r' % (names, rest))
    if vague and not rest:
        ctx.violate('vague:' + fmt, '%r: nothing about %r' % (names, vague))
    if vague and not any(x[0] == 'box' or re.search(r'\b1[0-9]{3}\b', x[1]) for x in rest):
        ctx.violate('vague-quiet:' + fmt, '%r: no complaint about %r' % (names, vague))
