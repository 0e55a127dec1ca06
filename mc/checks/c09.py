"""C09: silencing hides exactly the named notices."""

import io
import itertools
import os
import re
import shutil
import tempfile

from mc import build, conn, corpus, obs, report

ID = 'C09'
CLAIMED = True
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of exchanges x sets of silenced notices x ways of silencing them; the notices left, and what both reports show of each of them, are compared '
             'with the unsilenced analysis filtered by an independent model of the scopes')
NOTE = '''Ways: the API on the exchange, request or response, before or after the check and with any kind of iterable; -s on the real command line in both formats; the HTTPolice-Silence
header in the request (with and without "resp"), in each response, in list spellings, in two fields, malformed. The unsilenced analysis of the same exchange, filtered by scope, predicts
ids, order, and the full text of every notice shown.'''
ASSUMPTIONS = ['"resp" in the header of a response has no specified meaning and is not used', 'a field that is malformed silences nothing, and does not disable another field that is well-formed']
BOUNDS = {
    'quick': '539 corpus connections and 14 built exchanges x all sets of at most 2 raised ids (at most 1 of more than 8; and all of them, all but one, unraised ids) x up to 20 ways of silencing',
    'thorough': 'sets of at most 3; every way for every set'}
MIN_STATES = 400
CASE_TIMEOUT = 150

H = [('Host', 'h'), ('User-Agent', 'a')]
BUILT = [
    # Several responses, the same notices on both sides
    ({'headers': H + [('Date', 'x'), ('X-Foo', 'y'), ('Connection', 'close, ;')]}, [{'status': 100, 'reason': 'C', 'headers': [('Date', 'x')]}, {'status': 102, 'reason': 'x', 'headers': [('X-Foo', 'y')]},
                                                              {'headers': [('Date', 'x'), ('X-Foo', 'y'), ('Age', '-')], 'body': b'abc'}]),
    ({'headers': [('Date', 'x'), ('Cache-Control', 'max-age, no-store=1, max-age=x')]}, [{'headers': [('Date', 'x'), ('Cache-Control', 'max-age, no-store=1, max-age=x')]},
                                                                                         {'headers': [('Date', 'x'), ('Cache-Control', 'max-age')]}]),
    ({'method': 'FOO', 'headers': H + [('Content-Type', 'application/json'), ('Expect', '100-continue')], 'body': b'{'}, [{'status': 101}, {'status': 200, 'headers': [('Content-Type', 'application/json')], 'body': b'{'}]),
    (None, [{'status': 99, 'reason': '\u20ac', 'headers': [('Content-Length', '1'), ('Content-Length', '2')]}, {'status': 600, 'headers': [('Content-Length', 'x')]}]),
    ({'version': 'HTTP/2', 'headers': [('Connection', 'close'), ('Upgrade', 'foo')]}, [{'version': 'HTTP/2', 'headers': [('Connection', 'close'), ('Upgrade', 'foo')]}]),
    ({'headers': H + [('If-Modified-Since', 'x')], 'trailers': [('X-Y', 'z'), ('Host', 'w')]}, [{'status': 304, 'headers': [('Set-Cookie', 'a')], 'trailers': [('X-Y', 'z'), ('Host', 'w')]}]),
    ({'headers': [('Accept', ', ')]}, []),
]
UNRAISED = [0, 1, 999, 1277, 10000, 99999]


def shards(tier):
    return [['c', n] for n in range(64)] + [['b', n] for n in range(len(BUILT))] + [['cli', n] for n in range(48)]


def cases(shard, tier):
    if shard[0] == 'b':
        for k in range(16):
            yield ('b', shard[1], 3, k)
    else:
        for i in range(len(corpus.load(6000)))[shard[1]::64 if shard[0] == 'c' else 48]:
            yield (shard[0], i, 2 if tier == 'quick' else 3)


_corpus = []
_dir = [None, None]


def scratch():
    if _dir[0] is None or _dir[1] != os.getpid():
        _dir[0], _dir[1] = tempfile.mkdtemp(prefix='verif-c09-'), os.getpid()
    return _dir[0]


def cleanup():
    if _dir[0] is not None and _dir[1] == os.getpid():
        shutil.rmtree(_dir[0], ignore_errors=True)
        _dir[0] = None


def make(kind, i):
    if kind == 'b':
        req, resps = BUILT[i]
        return [build.exchange(req, resps)]
    if not _corpus:
        _corpus.extend(corpus.load(6000))
    _, scheme, inbound, outbound = _corpus[i]
    return conn.parse(inbound, outbound, scheme)


def shown(exchanges):
    """What the reports show: per exchange, per part, [(id, text)] from HTML; and the lines of the text report."""
    html = []
    for ex in report.html_exchanges(report.parse_html(obs.html(exchanges))):
        html.append([[(int(n['id']), n['short'], report.squash(n['node'].text())) for n in s['notices']] for s in ex['sections']] +
                    [[(int(n['id']), n['short'], report.squash(n['node'].text())) for n in ex['notices']]])
    return html


def parts(e):
    return ([] if e.request is None else [('req', e.request)]) + list(enumerate(e.responses)) + [('exch', e)]


def fresh(exchanges, field=None, target=None):
    """Rebuild the messages, with more fields at the end of one of them."""
    import httpolice
    out = []
    for e in exchanges:
        def more(entries, here):
            return [(x.name, x.value) for x in entries] + (field if here else [])
        req = e.request
        if req is not None:
            new = httpolice.Request(req.scheme, req.method, req.target, req.version, more(req.header_entries, target == 'req'), req.body, more(req.trailer_entries, False))
            new.is_to_proxy = req.is_to_proxy
            req = new
        resps = [httpolice.Response(r.version, r.status, r.reason, more(r.header_entries, target == k), r.body, more(r.trailer_entries, False)) for k, r in enumerate(e.responses)]
        if req is not None or resps:
            out.append(httpolice.Exchange(req, resps))
    return out


def check(exchanges):
    import httpolice
    for e in exchanges:
        httpolice.check_exchange(e)
    return exchanges


class Base:
    """The unsilenced analysis. complaints: per exchange, {part: [(id, text)]}"""

    def __init__(self, exchanges):
        self.exchanges = exchanges
        self.items = []
        visible = [e for e in exchanges if e.request or e.responses or e.complaints]
        html = shown(visible)
        for e, h in zip(visible, html):
            self.items.append(dict(zip([k for k, _ in parts(e)], h)))
        self.labels = [[k for k, _ in parts(e)] for e in visible]


def expected(base, hidden):
    """hidden(n, part) -> set of ids."""
    out = []
    for n, items in enumerate(base.items):
        out.append({k: [x for x in v if x[0] not in hidden(n, k)] for k, v in items.items()})
    return [x for x in out if list(x) != ['exch'] or x['exch']]


def observed(ctx, exchanges, full=True):
    seen = [e for e in exchanges if e.request or e.responses or e.complaints]
    out = []
    if not full:
        return [{k: [(c.id,) for c in o.notices] for k, o in parts(e)} for e in seen]
    for e, h in zip(seen, shown(seen)):
        got = dict(zip([k for k, _ in parts(e)], h))
        for k, o in parts(e):
            if [c.id for c in o.notices] != [x[0] for x in got[k]]:
                ctx.violate('report', 'the report shows %r where the notices are %r' % ([x[0] for x in got[k]], [c.id for c in o.notices]))
        out.append(got)
    t = report.check_text(obs.text(seen), seen)
    if t:
        ctx.violate('text', t)
    return out


def brief(xs):
    return [x[0] if isinstance(x, tuple) else x for x in xs]


def compare(ctx, way, ids, got, want, drop=None):
    ctx.step()
    ctx.outcome(way.split(':')[0])
    if not any(len(x) > 1 for g in got for v in g.values() for x in v):
        # Only the ids were asked for.
        got, want = [[{k: [x[:1] for x in v] for k, v in g.items()} for g in side] for side in (got, want)]
    if drop:
        got, want = [[{k: [x for x in v if not drop(k, x)] for k, v in g.items()} for g in side] for side in (got, want)]
    if got != want:
        what = 'other exchanges'
        for g, w in zip(got, want):
            if g != w:
                part = [k for k in w if g.get(k) != w[k]][:1]
                what = '%s: %r instead of %r' % (part, brief(g.get(part[0], [])), brief(w[part[0]])) if part else 'other parts'
                if part and brief(g.get(part[0], [])) == brief(w[part[0]]):
                    what = '%s: %r instead of %r' % (part, [x for x in g[part[0]] if x not in w[part[0]]][:1], [x for x in w[part[0]] if x not in g[part[0]]][:1])
        ctx.violate('silence:' + way, 'silencing %r by %s leaves %s' % (sorted(ids), way, what))


def sets(raised, upto):
    raised = sorted(raised)
    out = [frozenset(c) for k in range(upto + 1) for c in itertools.combinations(raised, k)]
    if len(raised) > 8:
        out = [s for s in out if len(s) < upto]
    out += [frozenset(raised)] + [frozenset(raised) - {n} for n in raised[:8]]
    out += [frozenset(UNRAISED)] + [frozenset([u] + raised[:1]) for u in UNRAISED]
    return list(dict.fromkeys(out))


SPELL = [
    lambda xs: ', '.join(xs), lambda xs: ','.join(xs), lambda xs: ' ,\t'.join(xs), lambda xs: ', ,' + ',,'.join(xs) + ',', lambda xs: ', '.join(reversed(xs)),
    lambda xs: ', '.join(xs + xs)]
NAMES = ['HTTPolice-Silence', 'Httpolice-silence', 'HTTPOLICE-SILENCE', 'httpolice-silence']
BAD = ['%s;', '%s req', '-%s', '%s %s', 'x%s', '%s resp resp', '%sresp', '"%s"']


def run(ctx, case):
    (kind, i, upto), pick = case[:3], case[3:]
    if kind == 'cli':
        return cli(ctx, i, upto)
    base = Base(check(make(kind, i)))
    raised = set(x[0] for items in base.items for v in items.values() for x in v)
    plain = Base(check(fresh(make(kind, i))))
    ctx.state((kind, i, len(base.items), sorted(raised)))
    for num, ids in enumerate(sets(raised, upto)):
        if pick and num % 16 != pick[0]:
            continue
        every = upto > 2 or num % 5 == 0 or len(ids) == 1 and num < 4
        # On the exchange: everything in it
        want = expected(base, lambda n, k: ids)
        arg = [list, set, tuple, frozenset, iter, lambda x: (y for y in x)][num % 6]
        es = make(kind, i)
        for e in es:
            e.silence(arg(ids))
        compare(ctx, 'exchange-before', ids, observed(ctx, check(es), every), want)
        es = check(make(kind, i))
        for e in es:
            for one in sorted(ids):
                e.silence([one])
        compare(ctx, 'exchange-after', ids, observed(ctx, es, every), want)
        # On one message only
        for target in (['req', 0, 1] if every else ['req', 0]):
            want = expected(base, lambda n, k: ids if k == target else ())
            for when in ('before', 'after') if every else (['before', 'after'][num % 2],):
                es = make(kind, i)
                if not any(target == k for e in es for k, _ in parts(e)):
                    break
                if when == 'after':
                    check(es)
                for e in es:
                    for k, o in parts(e):
                        if k == target:
                            o.silence(arg(ids))
                if when == 'before':
                    check(es)
                compare(ctx, '%s-%s' % ('request' if target == 'req' else 'response', when), ids, observed(ctx, es, every), want)
        headers(ctx, kind, i, plain, ids, num, every)
        if kind == 'c':
            spliced(ctx, i, base, ids, num)


def headers(ctx, kind, i, base, ids, num, every):
    if not ids:
        return
    xs = ['%d' % n for n in sorted(ids)]
    # In the request, without "resp"
    join = SPELL[num % len(SPELL)]
    name = NAMES[num % len(NAMES)]
    sp = [' ', '\t', '  ', ' \t '][num // 2 % 4]
    resp = [' resp', '\tresp', ' Resp', '  RESP'][num // 3 % 4]
    has_req = any('req' in items for items in base.items)
    plans = []
    if has_req:
        plans.append(('request-header', 'req', [join(xs)], lambda n, k: ids if k == 'req' else ()))
        plans.append(('request-header-resp', 'req', [join([x + resp for x in xs])], lambda n, k: ids if isinstance(k, int) else ()))
        if every:
            plans.append(('request-header-both', 'req', [join(xs + [x + resp for x in xs])], lambda n, k: ids if k != 'exch' else ()))
            half = sorted(ids)[::2]
            rest = sorted(ids)[1::2]
            plans.append(('request-header-mixed', 'req', [join(['%d' % x for x in half] + ['%d%s' % (x, resp) for x in rest])],
                          lambda n, k: half if k == 'req' else rest if k != 'exch' else ()))
            plans.append(('request-header-lines', 'req', [xs[0]] + [join([x]) for x in xs[1:]] + [''], lambda n, k: ids if k == 'req' else ()))
            plans.append(('request-header-badline', 'req', [join(xs), 'x y z'], lambda n, k: ids if k == 'req' else ()))
            plans.append(('request-header-malformed', 'req', [BAD[num % len(BAD)].replace('%s', xs[0])] , lambda n, k: ()))
    for target in range(max([sum(isinstance(k, int) for k in items) for items in base.items] or [0])):
        plans.append(('response-header', target, [join(xs)], lambda n, k, target=target: ids if k == target else ()))
        if every:
            plans.append(('response-header-lines', target, [join([x]) for x in xs], lambda n, k, target=target: ids if k == target else ()))
            plans.append(('response-header-malformed', target, [BAD[num % len(BAD)].replace('%s', xs[0])], lambda n, k: ()))
    for way, target, values, hidden in plans:
        es = check(fresh(make(kind, i), [(name, v.encode() if num % 2 else v) for v in values], target))
        # A malformed field is itself reported.
        own = any(b in way for b in ('badline', 'malformed'))
        if own:
            for e in es:
                for k, o in parts(e):
                    if k == target and 1000 not in (hidden(0, k) or ()) and not any(c.id == 1000 and c.context.get('place') is o.header_entries[-1] for c in o.notices):
                        ctx.violate('malformed', 'the malformed field %r is not reported' % values)
        # Other complaints about the silence field itself depend on how it is spelled.
        scoped = (lambda n, k: hidden(n, k) if k == 'req' or 'req' in base.items[n] else ()) if target == 'req' else hidden
        compare(ctx, way, ids, observed(ctx, es, every), expected(base, scoped), lambda k, x: k == target and x[0] in (1000, 1014, 1151) and (len(x) < 3 or 'httpolice-silence' in x[2].lower()))


FIRST = re.compile(rb'\A(?:HTTP/1\.[01] [0-9]{3} [^\r\n]*|[A-Z]+ [!-~]+ HTTP/1\.[01])\r?\n(?:[A-Za-z-]+:[ -~]*\r?\n)*(?=\r?\n)')


def spliced(ctx, i, base, ids, num):
    """The header in the stream itself, in the first message of either direction."""
    if not ids:
        return
    _, scheme, inbound, outbound = _corpus[i]
    value = SPELL[0](['%d' % n for n in sorted(ids)])
    for target, data in (('req', inbound), (0, outbound)):
        m = FIRST.match(data)
        if not m or not base.items or target not in base.items[0]:
            continue
        data = data[:m.end()] + b'HTTPolice-Silence: ' + value.encode() + b'\r\n' + data[m.end():]
        es = check(conn.parse(data, outbound, scheme) if target == 'req' else conn.parse(inbound, data, scheme))
        want = expected(base, lambda n, k: ids if n == 0 and k == target else ())
        compare(ctx, 'spliced:%s' % ('request' if target == 'req' else 'response'), ids, observed(ctx, es, False), want)


def cli(ctx, i, upto):
    from httpolice import cli as impl
    from httpolice.util.text import MockStdio
    if not _corpus:
        _corpus.extend(corpus.load(6000))
    _, scheme, inbound, outbound = _corpus[i]
    base = Base(check(make('c', i)))
    raised = set(x[0] for items in base.items for v in items.values() for x in v)
    path = os.path.join(scratch(), 'c' + {'http': '', 'https': '.https', None: '.noscheme'}[scheme])
    with open(path, 'wb') as f:
        f.write(b'======== BEGIN INBOUND STREAM ========\r\n' + inbound + b'======== BEGIN OUTBOUND STREAM ========\r\n' + outbound)
    for num, ids in enumerate(sets(raised, 1 if upto == 2 else 2)):
        opts = []
        for n in sorted(ids, reverse=num % 2):
            opts += [['-s', '%d' % n], ['--silence', '%d' % n], ['--silence=%d' % n], ['-s%d' % n]][num % 4]
        threshold = ['comment', 'error', 'debug'][num % 3]
        for fmt in ('html', 'text'):
            stdout, stderr = MockStdio(), io.StringIO()
            argv = ['httpolice', '-i', 'combined', '-o', fmt, '--fail-on', threshold] + opts + [path]
            if num % 2:
                argv = argv[:1] + opts + argv[1:-1 - len(opts)] + argv[-1:]
            code = impl.run_cli(impl.parse_args(argv), stdout, stderr)
            data = stdout.buffer.getvalue().replace(('%s (inbound)' % path).encode(), b'in').replace(('%s (outbound)' % path).encode(), b'out')
            want = expected(base, lambda n, k: ids)
            level = {'C': 1, 'E': 2, 'D': 0}
            fails = any(level[x[1]] >= {'debug': 0, 'comment': 1, 'error': 2}[threshold] for w in want for v in w.values() for x in v)
            if code != int(fails):
                ctx.violate('cli-status', '%r: exit status %r instead of %d' % (argv, code, fails))
            if fmt == 'html':
                got = []
                for ex in report.html_exchanges(report.parse_html(data)):
                    got.append([[(int(n['id']), n['short'], report.squash(n['node'].text())) for n in s['notices']] for s in ex['sections']] +
                               [[(int(n['id']), n['short'], report.squash(n['node'].text())) for n in ex['notices']]])
                compare(ctx, 'cli-html', ids, [dict(enumerate(g)) for g in got], [dict(enumerate(w.values())) for w in want])
            else:
                lines = [(x[2], x[1]) for x in report.text_lines(data) if x[0] == 'notice']
                flat = [(x[0], x[1]) for w in want for v in w.values() for x in v]
                ctx.step()
                if lines != flat:
                    ctx.violate('cli-text', '%r: lines %r instead of %r' % (argv, lines, flat))
