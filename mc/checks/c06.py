"""C06: the command line always ends in a report or a clear error."""

import copy
import itertools
import json
import os
import re
import shutil
import tempfile

ID = 'C06'
CLAIMED = True
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of input files (token sequences per format), of HAR documents (every node of base documents replaced by every '
             'value of a pool or deleted), and of directory listings, each run through the real command line with both report formats')
NOTE = '''For every input of the bounded space, run_cli must either write a complete report (and nothing to stderr), or write exactly one line
"httpolice: ..." to stderr that names the input, and return 1. Any exception, second line, other status or non-termination is a violation.'''
ASSUMPTIONS = ['the process can open the files it is given', 'arguments are accepted by argparse']
BOUNDS = {
    'quick': 'sequences of up to 3 of 12 pieces per stream format; one HAR node replaced (20 values) or deleted in 3 documents; directories of up to 2 of 40 names',
    'thorough': 'sequences of up to 4 pieces; two HAR nodes replaced (7 values); directories of up to 3 names'}
MIN_STATES = 200

IN, OUT = b'======== BEGIN INBOUND STREAM ========\r\n', b'======== BEGIN OUTBOUND STREAM ========\r\n'
PIECES = [b'GET / HTTP/1.1\r\n', b'HTTP/1.1 200 OK\r\n', b'Host: x\r\n', b'\r\n', b'\xff\x00<', IN, OUT, b'Content-Length: 3\r\n', b'Transfer-Encoding: chunked\r\n',
          b'3\r\nabc\r\n', b'\n', b'HTTP/1.1 101 X\r\n\r\n']
REMOVE = ['__remove__']
VALUES = [REMOVE, None, True, False, 0, -1, 1, 1.5, 1e300, 10 ** 400, '', 'x', '\ud800', '\n', 'http://[::1', [], {}, [None], [[]], {'name': 1}, 'a' * 2000, 'HTTP/1.1', 304, '200',
          [{}], [{'name': 'a'}], [{'name': '\ud800', 'value': '\ud800'}], [{'name': None, 'value': None}], [{'name': ':path', 'value': 5}], 'base64', 'é€']
FEW = [REMOVE, None, -1, '', 'x', [], {}]

HAR1 = {'log': {'version': '1.2', 'creator': {'name': 'Test', 'version': '1'}, 'entries': [
    {'startedDateTime': '2016-01-01T00:00:00Z', 'time': 1,
     'request': {'method': 'POST', 'url': 'http://example.com/a?b=c', 'httpVersion': 'HTTP/1.1', 'cookies': [],
                 'headers': [{'name': 'Host', 'value': 'example.com'}, {'name': 'Content-Type', 'value': 'text/plain'}], 'queryString': [],
                 'postData': {'mimeType': 'text/plain', 'text': 'hello', 'params': []}, 'headersSize': -1, 'bodySize': 5},
     'response': {'status': 200, 'statusText': 'OK', 'httpVersion': 'HTTP/1.1', 'cookies': [],
                  'headers': [{'name': 'Content-Type', 'value': 'text/html'}], 'content': {'size': 3, 'mimeType': 'text/html', 'text': 'YWJj', 'encoding': 'base64'},
                  'redirectURL': '', 'headersSize': -1, 'bodySize': 3},
     'cache': {}, 'timings': {'send': 0, 'wait': 0, 'receive': 0}}]}}
HAR2 = copy.deepcopy(HAR1)
HAR2['log']['creator']['name'] = 'Fiddler'
HAR2['log']['entries'][0]['request'].update(method='CONNECT', url='http://example.com:443', bodySize=9)
HAR2['log']['entries'][0]['request']['postData']['text'] = 'A Fiddler thing'
HAR2['log']['entries'][0]['response']['headers'].append({'name': 'EndTime', 'value': 'x'})
HAR3 = copy.deepcopy(HAR1)
HAR3['log']['creator']['name'] = 'Firefox'
HAR3['log']['entries'][0]['request'].update(method='GET', bodySize=-1, httpVersion='h2', headers=[{'name': ':path', 'value': '/'}])
del HAR3['log']['entries'][0]['request']['postData']
HAR3['log']['entries'][0]['response']['content'] = {'size': 7, 'mimeType': 'application/json', 'text': '{"a":1}'}
HARS = [HAR1, HAR2, HAR3]
RAW_HARS = [b'', b'null', b'[]', b'{}', b'1', b'"', b'\xff\xfe{\x00}\x00', b'\xef\xbb\xbf', b'\xef\xbb\xbf{}', b'{"log": NaN}', b'[' * 100000, b'{"log":' * 50000, b'\x00', b'{"a": "\xff"}',
            b'{"log": {"creator": {"name": "x"}, "entries": []}}', b'\xef\xbb\xbf{"log": {"creator": {"name": "x"}, "entries": []}}', b'9' * 5000,
            b'{"log": {"creator": {"name": "x"}, "entries": {}}}', b'{"log": {"creator": {"name": "x"}, "entries": "abc"}}', b'{"log": {"creator": {"name": []}, "entries": [5]}}',
            b'{"log": {"creator": {"name": "x"}, "entries": [' + b'{"request":' * 3 + b'1}}}]}}', b'{} {}', b'-Infinity', b'{"log": ' + b'1' * 5000 + b'}']

REQ, RESP = b'GET / HTTP/1.1\r\nHost: x\r\n\r\n', b'HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n'
CONTENTS = [REQ, RESP, b'', b'\xff\x00\r\n']
FLOW = ['1454300000-10.0.0.1-1001-10.0.0.2-80-1', '1454300000-10.0.0.2-80-10.0.0.1-1001-1', '1454300001-10.0.0.1-1001-10.0.0.2-80-2', '0-a-1-b-2-0',
        '99999999999999999999-a-1-b-2-0', '99999999999-a-1-b-2-0', '253402300800-a-1-b-2-0', 'x-a-1-b-2-0', '1-a-1-b-2', '1-a-x-b-2-0', 'report.xml', 'alerts.txt', 'README',
        '1-a--1-b-2-0', '1-\u00e9-1-b-2-0', b'1-\xff-1-b-2-0', '1-a-1-b-2-0.txt', ' ', '\n', '1-a-1-a-1-0', '1-::1-1-::2-2-0', '\u0661-a-1-b-2-0', '1' * 200 + '-a-1-b-2-0', '-1-a-1-b-2-0']
PICK = ['tcpick_000001_10.0.0.1_10.0.0.2_http.clnt.dat', 'tcpick_000001_10.0.0.1_10.0.0.2_http.serv.dat', 'tcpick_1_10.0.0.1_10.0.0.2_80.clnt.dat', 'tcpick_1_10.0.0.2_10.0.0.1_80.serv.dat',
        'tcpick_2_a_b_c.clnt.dat', 'tcpick_2_a_b_c.serv.dat', 'tcpick_a_b_c.clnt.dat', 'tcpick_2_a_b_c.both.dat', 'tcpick__a_b_c.clnt.dat', 'x', 'tcpick_2_a_b_.clnt.dat', 'tcpick_2_a_b_c.clnt.dat.bak',
        b'tcpick_2_\xff_b_c.clnt.dat', 'tcpick_2_\u00e9_b_c.clnt.dat', 'tcpick_' + '9' * 200 + '_a_b_c.clnt.dat', 'tcpick_\u0662_a_b_c.serv.dat', 'tcpick_3_a_a_c.clnt.dat', '\n', ' ']
OPTIONS = [[], ['-o', 'html'], ['-s', '1277', '--fail-on', 'comment'], ['-o', 'html', '-s', '1000', '-s', '99999', '--fail-on', 'error', '--fail-on', 'debug']]


def paths_of(node, prefix=()):
    yield prefix
    if isinstance(node, dict):
        for k in sorted(node):
            yield from paths_of(node[k], prefix + (k,))
    elif isinstance(node, list):
        for k in range(len(node)):
            yield from paths_of(node[k], prefix + (k,))


def replaced(doc, path, value):
    doc = copy.deepcopy(doc)
    if not path:
        return {} if value is REMOVE or value == REMOVE else value
    node = doc
    for k in path[:-1]:
        try:
            node = node[k]
        except (KeyError, IndexError, TypeError):
            return None
    try:
        if value == REMOVE:
            del node[path[-1]]
        else:
            node[path[-1]] = value
    except (KeyError, IndexError, TypeError):
        return None
    return doc


def shards(tier):
    out = [['pieces', f, i] for f in ('req-stream', 'resp-stream', 'combined', 'streams', 'har') for i in range(len(PIECES))]
    out += [['har', d, i] for d in range(len(HARS)) for i in range(6)] + [['raw']] + [['paths']] + [['size']]
    out += [['dir', f, i] for f, names in (('tcpflow', FLOW), ('tcpick', PICK)) for i in range(len(names))]
    return out


def cases(shard, tier):
    deep = tier == 'thorough'
    if shard[0] == 'pieces':
        _, fmt, i = shard
        if i == 0:
            yield ('pieces', fmt, [])
        for k in range(4 if deep else 3):
            for combo in itertools.product(range(len(PIECES)), repeat=k):
                yield ('pieces', fmt, [i] + list(combo))
    elif shard[0] == 'har':
        _, d, i = shard
        ps = list(paths_of(HARS[d]))
        for p in ps[i::6]:
            for v in range(len(VALUES)):
                yield ('har', d, [(p, v)])
            if deep:
                for q in ps:
                    if q > p if len(q) == len(p) else str(q) > str(p):
                        for v, w in itertools.product(range(len(FEW)), repeat=2):
                            yield ('har', d, [(p, VALUES.index(FEW[v])), (q, VALUES.index(FEW[w]))])
    elif shard[0] == 'raw':
        for n in range(len(RAW_HARS)):
            yield ('raw', n)
    elif shard[0] == 'paths':
        for fmt in ('streams', 'req-stream', 'resp-stream', 'tcpick', 'tcpflow', 'combined', 'har'):
            for kinds in itertools.chain(*[itertools.product(('file', 'missing', 'dir', 'dangling', 'bytes', 'unicode', 'empty', ''), repeat=k) for k in (1, 2, 3 if deep else 2)]):
                yield ('paths', fmt, list(kinds))
    elif shard[0] == 'size':
        for fmt in ('req-stream', 'resp-stream', 'combined', 'har'):
            for n in range(8):
                yield ('size', fmt, n)
    else:
        _, fmt, i = shard
        names = FLOW if fmt == 'tcpflow' else PICK
        for c in range(len(CONTENTS)):
            yield ('dir', fmt, [(i, c)])
        for j in range(i + 1, len(names)):
            for c1, c2 in [(0, 1), (1, 0), (0, 0), (1, 1), (2, 3), (3, 2)]:
                yield ('dir', fmt, [(i, c1), (j, c2)])
            if deep:
                for k in range(j + 1, len(names)):
                    yield ('dir', fmt, [(i, 0), (j, 1), (k, 0)])
        yield ('dir', fmt, [(i, 'dir')])
        yield ('dir', fmt, [(i, 'dangling')])


BIG = [b'GET / HTTP/1.1\r\nX: ' + b'a' * 20000 + b'\r\n\r\n', b'HTTP/1.1 200 OK\r\nContent-Length: ' + b'9' * 5000 + b'\r\n\r\nx',
       b'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n' + b'f' * 5000 + b'\r\n\r\nx', b'GET / HTTP/1.1\r\n' + b'A: b\r\n' * 400 + b'\r\n',
       b'HTTP/1.1 100 C\r\n\r\n' * 400, b'GET / HTTP/1.1\r\n\r\n' * 300, b'HTTP/1.1 200 OK\r\nContent-Type: application/json\r\n\r\n' + b'[' * 50000,
       b'GET / HTTP/1.1\r\nUser-Agent: ' + b'(' * 300 + b')' * 300 + b'\r\n\r\n']

_dir = [None, None]
_seen = {}


def scratch():
    if _dir[0] is None or _dir[1] != os.getpid():
        _dir[0], _dir[1] = tempfile.mkdtemp(prefix='verif-c06-'), os.getpid()
    d = os.path.join(_dir[0], 'w')
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    return d


def cleanup():
    if _dir[0] is not None and _dir[1] == os.getpid():
        shutil.rmtree(_dir[0], ignore_errors=True)
        _dir[0] = None


def put(d, name, data):
    path = os.path.join(os.fsencode(d), name if isinstance(name, bytes) else os.fsencode(name))
    with open(path, 'wb') as f:
        f.write(data)
    return os.fsdecode(path)


def run(ctx, case):
    kind = case[0]
    d = scratch()
    names = None
    if kind == 'pieces':
        data = b''.join(PIECES[i] for i in case[2])
        args = [case[1], put(d, 'f', data)]
        if case[1] == 'streams':
            args.append(put(d, 'g', data[::-1] if len(case[2]) % 2 else RESP))
    elif kind == 'har':
        doc = HARS[case[1]]
        for p, v in case[2]:
            doc = replaced(doc, p, VALUES[v])
            if doc is None:
                return
        args = ['har', put(d, 'f.har', json.dumps(doc).encode('utf-8'))]
    elif kind == 'raw':
        args = ['har', put(d, 'f.har', RAW_HARS[case[1]])]
    elif kind == 'size':
        data = BIG[case[2]]
        if case[1] == 'combined':
            data = IN + (data + OUT if data.startswith(b'G') else OUT + data)
        elif case[1] == 'har':
            doc = copy.deepcopy(HAR3)
            doc['log']['entries'][0]['response']['content']['text'] = data.decode()
            doc['log']['entries'] *= 30
            data = json.dumps(doc).encode()
        args = [case[1], put(d, 'f', data)]
    elif kind == 'paths':
        args = [case[1]]
        for n, k in enumerate(case[2]):
            p = os.path.join(d, 'p%d' % n)
            if k in ('file', 'empty'):
                put(d, 'p%d' % n, {'har': b'{"log": {"creator": {"name": "x"}, "entries": []}}', 'combined': IN + REQ + OUT + RESP}.get(case[1], REQ) if k == 'file' else b'')
            elif k == 'dir':
                os.mkdir(p)
            elif k == 'dangling':
                os.symlink(p + 'missing', p)
            elif k == 'bytes':
                p = put(d, b'p\xff%d' % n, REQ)
            elif k == 'unicode':
                p = put(d, 'p\u20ac%d.https' % n, REQ)
            elif k == '':
                p = ''
            args.append(p)
    else:
        pool = FLOW if case[1] == 'tcpflow' else PICK
        names = []
        for i, c in case[2]:
            if c == 'dir':
                os.mkdir(os.path.join(os.fsencode(d), os.fsencode(pool[i])))
            elif c == 'dangling':
                os.symlink('missing-target', os.path.join(os.fsencode(d), os.fsencode(pool[i])))
            else:
                put(d, pool[i], CONTENTS[c])
            names.append(pool[i])
        args = [case[1], d]
    outcomes = []
    for options in OPTIONS[:2] if kind in ('har', 'pieces') else OPTIONS:
        outcomes.append(cli(ctx, args, options, case))
    good = set(o[0] for o in outcomes)
    if len(good) > 1:
        ctx.violate('inconsistent', 'some runs gave a report, some an error: %r' % (outcomes,))
    ctx.state((case[0], case[1] if kind != 'raw' else 0, outcomes))
    ctx.state(_seen.pop('ids', None))
    ctx.outcome(outcomes[0][0])


def cli(ctx, args, options, case):
    from httpolice import cli as impl
    from httpolice.util.text import MockStdio
    ctx.step()
    parsed = impl.parse_args(['httpolice', '-i', args[0]] + options + ['--'] + args[1:])
    out, err = MockStdio(), MockStdio()
    rc = impl.run_cli(parsed, out, err)
    report, message = out.buffer.getvalue(), err.buffer.getvalue()
    try:
        report.decode('utf-8')
        text = message.decode('utf-8', 'surrogateescape')
    except UnicodeError as exc:
        ctx.violate('encoding', 'the output is not UTF-8: %s' % exc)
        return ('bad',)
    if not options:
        _seen['ids'] = re.findall(rb'(?m)^[CDE] [0-9]+ |^---.*$', report)
    if message == b'':
        if rc not in (0, 1) or (rc == 1 and '--fail-on' not in options):
            ctx.violate('status', 'exit status %r with no error message' % rc)
        if 'html' in options and not report.rstrip().endswith(b'</html>'):
            ctx.violate('incomplete', 'incomplete HTML report')
        return ('report', rc if '--fail-on' not in options else 0)
    if rc != 1:
        ctx.violate('status', 'exit status %r with message %r' % (rc, text))
    if not text.startswith('httpolice: ') or not text.endswith('\n') or \
            (text.count('\n') != 1 and '\n' not in ''.join(os.fsdecode(n) for n in os.listdir(args[1]) if os.path.isdir(args[1]))
             if len(args) == 2 and os.path.isdir(args[1]) else text.count('\n') != 1):
        ctx.violate('message', 'not one clear error message: %r' % text)
    named = any(_shown(p, text) for p in args[1:] if p) or 'number of input streams' in text or "''" in text
    if not named and len(args) == 2 and os.path.isdir(args[1]):
        named = any(_shown(n, text) for n in os.listdir(args[1]))
    if not named:
        ctx.violate('unnamed', 'the error does not say which input is wrong: %r' % text)
    return ('error', rc)


def _shown(p, text):
    return p in text or repr(p)[1:-1] in text or p.encode('utf-8', 'replace').decode() in text
