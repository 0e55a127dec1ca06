"""C29: a report points at what each notice is about."""

import itertools
import json
import os
import re

from mc import build, corpus, headerspace as hs, obs, report
from mc.ref import tables

ID = 'C29'
CLAIMED = True
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of notice-raising exchanges x arrangements of their fields; the reference sets read from the HTML report are compared with those '
             'computed, from a frozen table of what each notice refers to, by an independent resolver over the message as received')
NOTE = '''References are resolved independently: from a table of what each notice is about and the raw fields of the exchange (by name, by position, last of a single-valued
header, no forbidden trailers). Arrangements: as captured, every field duplicated before or after itself, reversed, fields moved to trailers, with interim responses, pairs
of messages. For notices about one field line, that line must hold what the notice quotes, wherever it is put among well-formed lines of the same header.'''
ASSUMPTIONS = ['identifiers are unique within one exchange only (as the scripts of the report expect)', 'a reference with no visible target is allowed only where the resolver finds none']
BOUNDS = {
    'quick': '539 corpus connections x 6 arrangements; header seeds and about 50 edits of each header x 3 arrangements; 90 ill-formed lines x all positions among 2 well-formed ones',
    'thorough': 'all edits of header seeds; all pairs of ill-formed lines'}
MIN_STATES = 400

VIEWS = {}
for _n in tables.HEADER:
    VIEWS[_n.lower().replace('-', '_')] = _n

# Ill-formed or questionable lines, and a good line of the same header: notice id -> the ill-formed one must be referenced
LINES = [
    ('Cache-Control', 'max-age', 'public', 1156), ('Cache-Control', 'no-store=1', 'public', 1157), ('Cache-Control', 'max-age=x', 'public', 1158), ('Cache-Control', 's-maxage=-1', 'no-cache', 1158),
    ('Forwarded', 'for', 'for=_x', 1000), ('Forwarded', 'for=a b', 'for=_x', 1000), ('Forwarded', 'for=1.2', 'for=_y', 1158), ('Forwarded', 'for=_a;for=_b', 'for=_c', 1296), ('Forwarded', 'for=_a, by=_b', 'for=_z', 1297),
    ('Prefer', 'wait=x', 'respond-async', 1158), ('Prefer', 'respond-async=1', 'wait=1', 1157), ('Prefer', 'return', 'wait=2', 1156),
    ('Preference-Applied', 'wait=x', 'respond-async', 1158), ('Preference-Applied', 'return', 'wait=1', 1156),
    ('Alt-Svc', 'h2=":1"; ma=x', 'h3=":2"', 1158), ('Alt-Svc', 'h2=":1"; persist=2', 'h3=":2"', 1158),
    ('Via', '1.1 a (x, y)', '1.0 b', None), ('Accept', 'a/b;c="d,e"', 'text/html', 1299), ('Accept', 'a/b;c="d;e"', 'text/html', 1300), ('Link', '</a>;rel="x,y"', '</b>; rel=next', None), ('TE', 'trailers;a="b,c"', 'gzip', None),
    ('Accept-Language', 'e_n', 'en', 1000), ('Allow', 'GET;', 'POST', 1000), ('ETag', 'x', '"y"', 1000), ('Date', 'x', hs.IMF, 1000), ('Content-Type', 'x', 'text/plain', 1000), ('Warning', 'x', '110 - "y"', 1000),
    ('Vary', '"', 'accept', 1000), ('WWW-Authenticate', 'Basic "', 'Foo realm="x"', 1000), ('Content-Length', 'x', '1', 1000), ('Age', '-', '1', 1000), ('Upgrade', '/', 'a', 1000), ('Trailer', '/', 'X', 1000),
    ('If-Match', 'x', '"y"', 1000), ('Connection', '/', 'close', 1000), ('Content-Encoding', '/', 'gzip', 1000), ('Strict-Transport-Security', 'max-age=x', 'max-age=1', 1158), ('Range', 'x', 'bytes=1-', 1000),
    ('Pragma', '/', 'no-cache', 1000), ('Expect', 'x', '100-continue', 1000), ('Server', '/', 'x', 1000), ('Origin', '/', 'null', 1000), ('Access-Control-Allow-Methods', '/', 'GET', 1000),
]
ARRANGE = ['plain', 'reversed', 'dup-before', 'dup-after', 'trailer', 'interim']


def shards(tier):
    return [['corpus', a, n] for a in ARRANGE for n in range(4)] + [['header', n] for n in sorted(hs.SPACE)] + [['lines', n] for n in range(len(LINES))] + \
        [['mixed', n] for n in range(8)]


def cases(shard, tier):
    if shard[0] == 'corpus':
        for i, _ in list(enumerate(corpus.load(6000)))[shard[2]::4]:
            yield ('corpus', i, shard[1])
    elif shard[0] == 'header':
        name = shard[1]
        values = list(dict.fromkeys(v for s in hs.seeds(name) for v in [s] + list(hs.edits(s, 'quick'))))
        values = values if tier == 'thorough' else hs.seeds(name) + values[1::max(12, len(values) // 50)]
        for i in range(0, len(values), 3):
            for a in ('plain', 'dup-after', 'trailer'):
                yield ('header', name, values[i:i + 3], a)
    elif shard[0] == 'lines':
        n = shard[1]
        for side in ('request', 'response'):
            for good in range(3):
                for pos in range(good + 1):
                    for split in range(good + 2):
                        yield ('line', n, side, good, pos, split)
    else:
        picks = list(range(len(LINES)))
        for a, b in itertools.product(picks[shard[1]::8], picks):
            for side in ('request', 'response'):
                yield ('two', a, b, side)


_corpus = []


def run(ctx, case):
    import httpolice
    from mc import conn
    kind = case[0]
    if kind == 'corpus':
        if not _corpus:
            _corpus.extend(corpus.load(6000))
        _, scheme, inbound, outbound = _corpus[case[1]]
        exchanges = conn.parse(inbound, outbound, scheme)
        for e in exchanges:
            if case[2] != 'plain':
                e = httpolice.Exchange(e.request and fresh(e.request), [fresh(r) for r in e.responses])
                for m in messages(e):
                    rearrange(m, case[2])
            if case[2] == 'interim' and e.responses:
                extra = httpolice.Response('HTTP/1.1', 100, 'Continue', [('Date', 'x'), ('Content-Length', '0'), ('Transfer-Encoding', 'chunked')], b'')
                e = httpolice.Exchange(e.request, [extra] + list(e.responses))
            httpolice.check_exchange(e)
            judge(ctx, e)
        return
    if kind == 'header':
        _, name, values, a = case
        fields = build.REQ['headers'] + [(name, v) for v in values]
        e = build.exchange({'headers': fields}, [{'headers': fields[1:]}, {'status': 401, 'headers': fields[2:]}])
        for m in [e.request] + list(e.responses):
            rearrange(m, a)
        httpolice.check_exchange(e)
        judge(ctx, e)
        return
    if kind == 'line':
        _, n, side, good, pos, split = case
        name, bad, ok, notice = LINES[n]
        values = [ok] * good
        values.insert(pos, bad)
        fields = [('A', 'b')] + [(name, v) for v in values]
        d = {'headers': build.REQ['headers'] + fields[:split + 1], 'trailers': fields[split + 1:]}
        e = build.exchange(d if side == 'request' else None, [] if side == 'request' else [d])
    else:
        _, a, b, side = case
        d = {'headers': build.REQ['headers'] + [('A', 'b')] + [(LINES[a][0], LINES[a][1]), (LINES[b][0], LINES[b][1])]}
        e = build.exchange(d if side == 'request' else {}, [{}, d] if side == 'response' else [{}])
    httpolice.check_exchange(e)
    judge(ctx, e)
    if kind == 'line':
        # The line the notice is about.
        m = e.request or e.responses[0]
        for c in m.complaints:
            if c.id == notice and ('entry' in c.context or 'place' in c.context):
                place = c.context.get('entry', c.context.get('place'))
                if uni(place.value) != bad:
                    ctx.violate('line:%s:%d' % (name, notice), 'notice %d is about %r, but refers to %r' % (notice, bad, place))


def fresh(m):
    import httpolice
    args = (m.version, list(m.header_entries), m.body, list(m.trailer_entries))
    if isinstance(m, httpolice.Request):
        return httpolice.Request(m.scheme, m.method, m.target, *args)
    return httpolice.Response(args[0], m.status, m.reason, *args[1:])


def rearrange(m, how):
    entries = list(m.header_entries)
    copy = lambda x: type(x)(x.name, x.value)       # noqa: E731
    if how == 'reversed':
        m.header_entries[:] = entries[::-1]
    elif how == 'dup-before':
        m.header_entries[:] = [copy(x) for x in entries[::-1]] + entries
    elif how == 'dup-after':
        m.header_entries[:] = [y for x in entries for y in (x, copy(x))]
    elif how == 'trailer':
        m.trailer_entries[:] = [copy(x) for x in entries]
    else:
        return
    m.rebuild_headers()
    m.annotations.clear()


def uni(x):
    return x.decode('iso-8859-1') if isinstance(x, bytes) else x


def messages(e):
    return ([e.request] if e.request is not None else []) + list(e.responses)


def judge(ctx, e):
    ctx.step()
    if not (e.request or e.responses or e.complaints):
        return
    root = report.parse_html(obs.html([e]))
    [ex] = report.html_exchanges(root)
    msgs = messages(e)
    # The identifiers of the visible parts
    where = {}
    parts = {}
    for k, (m, s) in enumerate(zip(msgs, ex['sections'])):
        display = s['node'].cls('message-display')[0]
        nodes = [n for n in display.find(lambda n: 'data-ref-id' in n.attrs)]
        names = []
        if m is e.request:
            names += ['method', 'target'] + (['version'] if m.version else [])
        else:
            names += (['version'] if m.version else []) + ['status']
        names += [('h', i) for i in range(len(m.header_entries))]
        trailer = [('t', i) for i in range(len(m.trailer_entries))]
        body = display.cls('body-display')
        names += (['displayable_body'] if body else []) + trailer
        if len(names) != len(nodes):
            ctx.violate('targets', '%d referable parts shown instead of %d' % (len(nodes), len(names)))
            return
        for name, n in zip(names, nodes):
            ref = n.attrs['data-ref-id']
            if name == 'target' and len(str(m.target)) < 2:
                pass
            elif ref in where:
                ctx.violate('ids', 'identifier %s used for %r and %r' % (ref, where[ref], (k, name)))
                return
            where[ref] = (k, name)
            parts[k, name] = ref
    for owner, shown in [(m, s['notices']) for m, s in zip(msgs, ex['sections'])] + [(e, ex['notices'])]:
        for c, n in zip(owner.complaints, shown):
            got = [sorted(set(str(where[r]) for r in span.attrs['data-ref-to'].split() if r in where))
                   for span in n['node'].find(lambda x: 'data-ref-to' in x.attrs)]
            want = [sorted(set(str(x) for x in r if x in parts)) for r in expected(c, e)]
            if c.id not in REFS:
                continue        # a notice that did not exist
            got, want = sorted(g for g in got if g), sorted(w for w in want if w)
            ctx.step()
            ctx.outcome((c.id, len(want)))
            ctx.state((c.id, str(want)))
            if got != want:
                ctx.violate('refs:%d' % c.id, 'notice %d refers to %r instead of %r\n(%r)' % (c.id, got, want, list(where.values())))
            quoted(ctx, c, n, e)


with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data', 'refs.json')) as _f:
    REFS = {int(k): v for k, v in json.load(_f).items()}


def expected(c, e):
    """Sets of parts that this notice should refer to."""
    return [resolve(x.split('.'), c.context, e) if kind == 'var' else magic(kind, x, c.context.get('msg'), e) for kind, x in REFS.get(c.id, [])]


def index(m, e):
    for k, x in enumerate(messages(e)):
        if x is m:
            return k
    return None


def by_name(m, name, e):
    """Header lines that make up this header of the message."""
    k = index(m, e)
    low = name.lower()
    out = [(k, ('h', i)) for i, x in enumerate(m.header_entries) if str(x.name).lower() == low]
    if not tables.bad_for_trailer(name):
        out += [(k, ('t', i)) for i, x in enumerate(m.trailer_entries) if str(x.name).lower() == low]
    if tables.header(name).get('rule') == 'single' or low == 'strict-transport-security':
        out = out[-1:]
    return out


def magic(tag, text, msg, e):
    if msg is None or index(msg, e) is None:
        return []
    k = index(msg, e)
    is_req = msg is e.request
    if tag == 'h':
        return by_name(msg, text, e)
    if tag == 'm':
        if is_req:
            return [(k, 'method')] if str(msg.method) == text else []
        return [(0, 'method')] if e.request is not None and str(e.request.method) == text else []
    return [(k, 'status')] if not is_req and str(int(msg.status)) == text else []


def resolve(path, context, e):
    from httpolice.header import HeaderView
    from httpolice.structure import HeaderEntry
    obj = context[path[0]]
    rest = path[1:]
    if index(obj, e) is None and rest:
        return []
    while rest:
        k = index(obj, e)
        step = rest.pop(0)
        if step == 'request':
            obj = e.request
            if obj is None:
                return []
        elif step == 'headers':
            return by_name(obj, VIEWS[rest[0]], e) if len(rest) == 1 else []
        elif step in ('method', 'target', 'version', 'status', 'displayable_body') and not rest:
            return [(k, step)]
        else:
            return []
    return flat(obj, e, HeaderEntry, HeaderView)


def flat(obj, e, HeaderEntry, HeaderView):
    if isinstance(obj, HeaderView):
        return by_name(obj.message, str(obj.name), e)
    if isinstance(obj, list):
        return [y for x in obj for y in flat(x, e, HeaderEntry, HeaderView)]
    for k, m in enumerate(messages(e)):
        for letter, entries in (('h', m.header_entries), ('t', m.trailer_entries)):
            for i, x in enumerate(entries):
                if x is obj:
                    return [(k, (letter, i))]
        for name in ('method', 'target', 'version', 'status', 'displayable_body'):
            if getattr(m, name, None) is obj and obj is not None:
                return [(k, name)]
    return []


QUOTED = {'name', 'directive', 'param', 'directive1', 'directive2', 'pragma', 'protocol', 'wildcard'}


def quoted(ctx, c, n, e):
    """Names quoted from a header line are in that line; the name of the header is shown."""
    from httpolice.structure import HeaderEntry
    entry = [v for v in c.context.values() if isinstance(v, HeaderEntry)]
    if len(entry) != 1:
        return
    value = re.sub(r'\\(.)', r'\1', uni(entry[0].value)).lower()
    for key in QUOTED & set(c.context):
        text = str(c.context[key]).lower()
        if text not in value:
            ctx.violate('quote:%d' % c.id, 'notice %d quotes %s %r, which is not in %r' % (c.id, key, text, entry[0]))
    name = report.clean(tables.canonical(str(entry[0].name)))
    if c.id in (1000, 1158, 1026, 1030) and name.lower() not in n['title'].lower():
        ctx.violate('name:%d' % c.id, 'notice %d is titled %r, but is about %r' % (c.id, n['title'], entry[0]))
