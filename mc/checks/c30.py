"""C30: the HTML report shows every message as it was received."""

import codecs
import itertools
import json
import re

from mc import build, corpus, headerspace as hs, obs, report
from mc.ref import bodies, codings, grammars, tables

ID = 'C30'
CLAIMED = True
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of header values, start lines, header lists and bodies; the displayed message is read back from the HTML report and '
             'compared with the bytes given and with an independent decoder of bodies')
NOTE = '''Every header value of the C13 space (all token sequences to a bound and single edits, for all headers with a grammar), products of start-line
parts, header lists and trailers with repeated names, and products of body x type x charset x content coding x transfer coding x status are rendered, with
and without checking; the text of each part must be the text received.'''
ASSUMPTIONS = ['characters that HTML cannot carry are shown as U+FFFD', 'a body shown in full or up to 1000 characters, CR LF shown as a line break',
               'leading and trailing whitespace of a reason phrase is not judged']
BOUNDS = {
    'quick': 'header token sequences <= 2 and single edits of seeds (the valid ones, and every tenth invalid one); all products of 11 methods/6 targets/5 versions etc.; 40 bodies x 16 types x 6 codings',
    'thorough': 'header token sequences <= 3 and all single edits with all bytes'}
MIN_STATES = 5000

METHODS = ['GET', 'POST', 'HEAD', 'CONNECT', 'FOO', 'get', 'BASELINE-CONTROL', 'M<>', 'a b', '', 'P\x00']
TARGETS = ['/', '/a?b=<c>&d="e"', '*', 'http://h/\xe9', '', '/\x85\ud800', '/' + 'x' * 3000]
VERSIONS = ['HTTP/1.0', 'HTTP/1.1', 'HTTP/2', None, 'HTTP/9.9', 'x<y']
STATUSES = [100, 101, 200, 204, 299, 304, 404, 599, 999, 1000, 99]
REASONS = ['OK', 'Not Found', '', None, 'a<b>', 'x\xe9 y', 'a\x7fb', 'a  b']
FIELDS = [('A', 'x'), ('A', 'y'), ('a', ''), ('Date', hs.IMF), ('Content-Type', 'text/html;charset=utf-8'), ('Accept', 'text/*, */*;q=0'), ('Cache-Control', 'no-cache,max-age=x'),
          ('cache-control', 'MAX-AGE=1'), ('Foo<', '&lt;'), ('X-\xe9', '\xe9\xff'), ('Via', '1.1 \x00 b'), ('Warning', '110 - "x y"'), ('Allow', 'GET , ,POST'), ('ETag', 'W/"a')]
REMARKS = [None, 'from x:1', 'a <b> "c"']

LONG = 'abc\u20ac ' * 240
BODIES = [b'', b'x', b'a\nb\r\nc', b'\n\nlead', b' sp ', b'<b>&amp;</b>', b'{"a": 1, "b": [1, 2.50, "\xc3\xa9"]}', b'{"b":1,"a":{}}', b'[]', b'null', b' "s" ', b'{bad', b'NaN', b'1e400',
          b'[1,\n2]', b'\xff\xfe\x00', b'\xe9\xe8', b'\xc3\xa9\xe2\x82\xac', b'a\x00b\x1bc', b'\x85\xa0', LONG.encode(), LONG.encode()[:1000 + 0], b'x' * 1000, b'x' * 1001,
          ('["%s"]' % ('y' * 1500)).encode(), b'"\\u0000\\ud800"', 'abc'.encode('utf-16'), '{"k":"\u20ac"}'.encode('utf-16'), '\u3042'.encode('shift-jis'), b'+AGE-', b'a=b&c=d', b'<a>x</a>',
          b'x' * 999 + b'\x00\x00', b'\xf0\x9f\x98\x80', b'\xef\xbb\xbf{}', b'', b'--x\r\n\r\n--x--\r\n', None, 'U']
TYPES = [None, 'text/plain', 'text/plain;charset=utf-8', 'text/plain; charset=iso-8859-1', 'text/plain;charset="ISO-8859-1"', 'text/plain;charset=shift_jis', 'text/plain;charset=utf-16',
         'text/plain;charset=nonsense', 'text/plain;charset=base64', 'application/json', 'application/json; charset=utf-16', 'application/problem+json', 'application/json;charset=latin1',
         'text/xml', 'bad type', 'image/png', 'text/plain;charset=utf-7', 'text/plain;charset=us-ascii', 'application/jsonx', 'multipart/byteranges;boundary=x']
CODINGS = [(), ('gzip',), ('deflate',), ('br',), ('gzip', 'deflate'), ('x-gzip',), ('x-y',), ('gzip', 'BAD'), ('identity?',)]
TES = [None, 'chunked', 'gzip, chunked']
MODES = ['req', 'resp200', 'resp206', 'resp304', 'head', 'noreq']


def shards(tier):
    n = 2 if tier == 'quick' else 3
    out = [['values', name] for name in sorted(hs.SPACE)]
    out.sort(key=lambda s: -sum(len(x) for x in hs.SPACE[s[1]][0]) * len(hs.SPACE[s[1]][1]))
    out = [s + [n] for s in out]
    return out + [['line', n] for n in range(len(METHODS))] + [['status', n] for n in range(len(STATUSES))] + [['fields', n] for n in range(len(FIELDS))] + \
        [['body', b] for b in range(len(BODIES))] + [['corpus', n] for n in range(16)]


BATCH = 20


def cases(shard, tier):
    kind = shard[0]
    if kind == 'values':
        dfa = grammars.header(shard[1])
        for name, values in hs.groups([shard[1]], tier, shard[2]):
            # Annotations need a valid value; of the others, which are shown raw, quick takes every tenth.
            values = [v for n, v in enumerate(values) if tier == 'thorough' or n % 10 == 0 or dfa.accepts(v)]
            for i in range(0, len(values), BATCH):
                yield ('values', name, values[i:i + BATCH])
    elif kind == 'line':
        for t, v, s in itertools.product(range(len(TARGETS)), range(len(VERSIONS)), range(3)):
            yield ('line', shard[1], t, v, s)
    elif kind == 'status':
        for v, r, s in itertools.product(range(len(VERSIONS)), range(len(REASONS)), range(3)):
            yield ('status', shard[1], v, r, s)
    elif kind == 'fields':
        for a, b in itertools.product(range(len(FIELDS)), repeat=2):
            yield ('fields', (shard[1], a, b), 1)
        for a, b in itertools.product(range(len(FIELDS)), repeat=2):
            yield ('fields', (shard[1], a, b), 2)
        yield ('fields', tuple((shard[1] * 3 + k) % len(FIELDS) for k in range(len(FIELDS))), 4)
        yield ('fields', tuple((shard[1] + 5 * k) % len(FIELDS) for k in range(4 * len(FIELDS))), 9)
    elif kind == 'body':
        for t, c, te, m in itertools.product(range(len(TYPES)), range(len(CODINGS)), range(len(TES)), range(len(MODES))):
            if tier == 'quick' and ((te == 2 or m in (2, 3, 5)) and c > 1):
                continue
            yield ('body', shard[1], t, c, te, m)
    else:
        for i, _ in list(enumerate(corpus.load()))[shard[1]::16]:
            yield ('corpus', i)


_corpus = []


def run(ctx, case):
    import httpolice
    kind = case[0]
    if kind == 'values':
        _, name, values = case
        request = tables.header(name).get('for_request') and not tables.header(name).get('for_response')
        if request:
            exchanges = [build.exchange({'headers': [(name, v)]}, []) for v in values]
        else:
            exchanges = [build.exchange(None, [{'headers': [(name, v)]} for v in values])]
        for e in exchanges:
            for m in ([e.request] if e.request else []) + e.responses:
                _ = m.headers[m.header_entries[0].name].value   # the parsing that produces annotations
        want = [('req' if request else 'resp', {'headers': [(name, v)]}) for v in values]
        return judge(ctx, exchanges, want, [(name, v) for v in values])
    if kind == 'line':
        _, m, t, v, s = case
        d = {'method': METHODS[m], 'target': TARGETS[t], 'version': VERSIONS[v], 'scheme': [None, 'http', 'https'][s], 'remark': REMARKS[s], 'headers': FIELDS[s:s + 2]}
        e = build.exchange(d, [])
        if s:
            httpolice.check_exchange(e)
        return judge(ctx, [e], [('req', d)], [case])
    if kind == 'status':
        _, st, v, r, s = case
        d = {'status': STATUSES[st], 'version': VERSIONS[v], 'reason': REASONS[r], 'remark': REMARKS[s], 'headers': FIELDS[s + 3:s + 5]}
        req = {'headers': build.REQ['headers']}
        e = build.exchange(req if s else None, [d])
        if s != 1:
            httpolice.check_exchange(e)
        return judge(ctx, [e], ([('req', req)] if s else []) + [('resp', d)], [case])
    if kind == 'fields':
        _, picks, split = case
        fields = [FIELDS[i] for i in picks]
        req = {'headers': fields[:split], 'trailers': fields[split:]}
        resp = {'headers': fields[split:], 'trailers': fields[:split]}
        out = []
        for check in (False, True):
            e = build.exchange(req, [resp, resp])
            if check:
                httpolice.check_exchange(e)
            out.append(e)
        return judge(ctx, out, [('req', req), ('resp', resp), ('resp', resp)] * 2, [case])
    if kind == 'body':
        _, b, t, c, te, m = case
        body = BODIES[b]
        headers = []
        if TYPES[t]:
            headers.append(('Content-Type', TYPES[t]))
        if CODINGS[c]:
            headers.append(('Content-Encoding', ', '.join(CODINGS[c])))
            if isinstance(body, bytes):
                for x in CODINGS[c]:
                    body = codings.ENCODE.get(x, lambda y: y)(body)
        if TES[te]:
            headers.append(('Transfer-Encoding', TES[te]))
        d = {'headers': headers, 'body': body, 'trailers': []}
        mode = MODES[m]
        if mode == 'req':
            d['method'] = 'POST'
            e, want = build.checked(d, []), [('req', d)]
        else:
            d['status'] = {'resp206': 206, 'resp304': 304}.get(mode, 200)
            req = None if mode == 'noreq' else dict(build.REQ, method='HEAD' if mode == 'head' else 'GET')
            e = build.checked(req, [d])
            want = ([('req', req)] if req else []) + [('resp', d)]
        want[-1][1]['mode'] = mode
        return judge(ctx, [e], want, [case])
    from mc import conn
    if not _corpus:
        _corpus.extend(corpus.load())
    _, scheme, inbound, outbound = _corpus[case[1]]
    exchanges = conn.parse(inbound, outbound, scheme)
    want = []
    for e in exchanges:
        if e.request:
            want.append(('req', plain(e.request, method=str(e.request.method), target=str(e.request.target))))
        for r in e.responses:
            want.append(('resp', plain(r, status=int(r.status), reason=r.reason)))
        if e.request and not inbound.startswith(b'CUT'):
            for part in (str(e.request.method), str(e.request.target)):
                assert part.encode('latin-1') in inbound
    for n in (0, 1):
        if n:
            for e in exchanges:
                httpolice.check_exchange(e)
        judge(ctx, exchanges, want, [case + (n,)])


def plain(m, **kw):
    from mc import conn
    kw.update(version=None if m.version is None else str(m.version), headers=conn.fields_of(m.header_entries), trailers=conn.fields_of(m.trailer_entries),
              body=None if m.body is None else m.body if isinstance(m.body, bytes) else 'U', remark=m.remark, mode='corpus')
    return kw


def uni(x):
    return x.decode('iso-8859-1') if isinstance(x, bytes) else x


def lines(s):
    return s.replace('\r\n', '\n').replace('\r', '\n')


def show(s):
    return lines(report.clean(uni(s), newlines=False))


def judge(ctx, exchanges, want, states):
    ctx.step(len(want))
    root = report.parse_html(obs.html(exchanges))
    sections = [s['node'] for e in report.html_exchanges(root) for s in e['sections']]
    if not ctx.expect('messages', len(sections), len(want), 'number of messages shown'):
        return
    for (kind, d), s in zip(want, sections):
        if not message(ctx, kind, d, s.cls('message-display')[0]):
            return
    for x in states:
        ctx.state(x)


def message(ctx, kind, d, node):
    d = dict(build.REQ if kind == 'req' else build.RESP, **d)
    h2 = node.find(lambda n: n.tag == 'h2')[0]
    spans = [lines(n.text()) for n in h2.find(lambda n: n.tag == 'span')]
    version = [] if d['version'] is None else [show(d['version'])]
    if kind == 'req':
        if not ctx.expect('request-line', spans, [show(d['method']), show(d['target'])] + version, 'request line'):
            return False
    else:
        if not ctx.expect('status-line', [spans[:-1], spans[-1].strip().split(' ')[0]], [version, str(d['status'])], 'status line'):
            return False
        reason = show(d['reason']) if d['reason'] else tables.STATUS.get(d['status'], {}).get('title') or '(unknown)'
        if not ctx.expect('reason', spans[-1].strip(), ('%d %s' % (d['status'], reason)).strip(), 'status and reason'):
            return False
    remark = [lines(n.text()).strip() for n in node.cls('message-remark')]
    if not ctx.expect('remark', remark, [show(d['remark'])] if d['remark'] else [], 'remark'):
        return False
    # Header fields
    trailers = node.cls('trailer')
    inside = [n for t in trailers for n in t.cls('header-entry')]
    for key, got, want in (('headers', [n for n in node.cls('header-entry') if n not in inside], d['headers']), ('trailers', inside, d['trailers'] or [])):
        got = [lines(n.text()) for n in got]
        want = [show(uni(k) + ': ' + uni(v)) for k, v in want]
        if got != want:
            for g, w in itertools.zip_longest(got, want):
                if g != w:
                    ctx.violate(key, '%s shown as %r instead of %r' % (key, g, w))
                    return False
    # The body
    shown = node.cls('body-display')
    got = None
    if shown:
        head = [report.squash(n.text()) for n in shown[0].find(lambda n: n.tag == 'h3')]
        pre = [lines(n.text()) for n in shown[0].find(lambda n: n.tag == 'pre')]
        got = (head[0] if head else None, pre[0] if pre else None)
    ok = displayed(kind, d)
    if got not in ok:
        ctx.violate('body', 'body %.200r (%r) shown as %.400r, not as one of %.600r' % (d['body'], d['headers'], got, ok))
        return False
    ctx.outcome((kind, (got or [''])[0]))
    return True


PARAM = re.compile(r';[ \t]*([^=;\s]+)=("(?:[^"\\]|\\.)*"|[^;"\s]+)[ \t]*')
JSON = re.compile(r'application/json|[^/]+/[^/]+\+json', re.I)


def displayed(kind, d):
    """The acceptable (heading, text) of the body display; None: no display."""
    body = d['body']
    if body is None:
        return [('Body is unknown', None)]
    if isinstance(body, str):
        return [('Body is present, but not available for inspection', None)]
    headers = [(uni(k).lower(), uni(v)) for k, v in d['headers'] + list(d['trailers'] or [])]
    types = [v for k, v in headers if k == 'content-type']
    ces = [x.strip().lower() for k, v in headers if k == 'content-encoding' for x in v.split(',') if x.strip()]
    has_te = any(k == 'transfer-encoding' and v.strip(', \t') for k, v in headers)
    te = ['removing Transfer-Encoding'] if has_te else []
    ce = ['removing Content-Encoding'] if ces else []
    decoded = body
    for c in reversed(ces):
        if not decoded:
            break
        try:
            if not re.fullmatch("[!#$%&'*+.^_`|~0-9a-z-]+", c) or c not in codings.DECODE:
                raise codings.Corrupt
            decoded = codings.DECODE[c](decoded)
        except codings.Corrupt:
            decoded = None
            break
    if decoded is None:
        return [shown_as(body.decode('utf-8', 'replace'), te)]
    charset, media = 'utf-8', ''
    if types:
        m = re.fullmatch(r'([!#$%&\'*+.^_`|~0-9A-Za-z-]+/[!#$%&\'*+.^_`|~0-9A-Za-z-]+)[ \t]*((?:;[ \t]*[^=;\s]+=(?:"(?:[^"\\]|\\.)*"|[^;"\s]+)[ \t]*)*)', types[-1].strip())
        if m:
            media = m.group(1)
            for k, v in PARAM.findall(m.group(2)):
                if k.lower() == 'charset':
                    charset = re.sub(r'\\(.)', r'\1', v[1:-1]) if v.startswith('"') else v
                    break
    try:
        name = codecs.lookup(charset).name
        text = decoded.decode(name)
    except (LookupError, UnicodeError):
        return [shown_as(decoded.decode('utf-8', 'replace'), te + ce)]
    cs = ['decoding from %s' % name] if name != 'utf-8' else []
    full = kind == 'req' or not (d['status'] in (204, 304) or d['status'] < 200 or (d['status'] == 206 and media.lower() != 'multipart/byteranges') or d.get('mode') == 'head')
    asis = shown_as(text, te + ce + cs)
    if JSON.fullmatch(media) and full:
        try:
            if not bodies.is_json(text):
                return [asis]           # NaN and Infinity
            data = json.loads(text)
        except (ValueError, RecursionError):
            return [asis]
        pretty = shown_as(json.dumps(data, indent=2, ensure_ascii=False), te + ce + cs + ['pretty-printing'])
        if data is None or d.get('mode') == 'corpus':
            return [asis, pretty]
        return [pretty]
    return [asis]


def shown_as(text, transforms):
    if not text:
        return None
    if len(text) > 1000:
        text = text[:1000]
        transforms = transforms + ['taking the first 1000 characters']
    clean = report.clean(text, newlines=False)
    if clean != text:
        transforms = transforms + ['replacing non-printable characters with the \ufffd sign']
    if len(transforms) > 2:
        head = ', '.join(transforms[:-1]) + ', and ' + transforms[-1]
    else:
        head = ' and '.join(transforms)
    return ('Body after ' + head if head else None, lines(clean))
