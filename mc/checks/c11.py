"""C11: hostile message content cannot break a report."""

import itertools
import re

from mc import build, corpus, headerspace as hs, obs, report

ID = 'C11'
CLAIMED = True
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of hostile strings in every slot and every pair of slots of a message, in every header value of the corpus, and '
             'around header seeds; both reports are tokenised and their structure compared with the one predicted from the notices')
NOTE = '''Every report of the space is parsed strictly: element names, attribute names and attribute values must come from the closed vocabulary of
the report, the tree must be the one predicted from the number and kind of messages and notices, the text report must have exactly one line per
marker and notice, and both must be valid UTF-8 without control characters.'''
ASSUMPTIONS = ['lines of the text report end with LF']
BOUNDS = {
    'quick': '30 hostile strings in each of 12 slots x 7 contexts, 10 in each pair of slots; 3 hostile strings around each corpus header value and header seed',
    'thorough': 'all hostile strings in each pair of slots; 12 hostile strings around each corpus header value and header seed'}
MIN_STATES = 400

HOSTILE = ['<script>alert(1)</script>', '"><b onmouseover="x', "'><i>", '</pre></code></div><h1>', '&lt;b&gt;', '&amp;quot;', '&#60;b&#62;', '-->', '<!--', ']]>', '<![CDATA[',
           '\nE 1000 fake\n', '\r\nC 1277 fake', '\r', '\x0bE 1000 x', '\x0c', '\x1cE 1000 x', '\x85E 1000 x', '\u2028E 1000 x', '\x00', '\x1b[31m', '\x7f', '\x9b', '\ud800', '\udfff\ud800',
           '\ufffe', '---- CUT HERE ----', '------------ request: GET /', '\u202e', '<', '&', '"', '</textarea></title>', 'javascript:alert(1)', '\ufdd0', '\U0001f600']
CORE = [0, 1, 3, 4, 8, 11, 13, 19, 23, 26]
SLOTS = ['method', 'target', 'req.version', 'resp.version', 'reason', 'req.name', 'req.value', 'resp.name', 'resp.value', 'req.body', 'resp.body', 'trailer', 'remark',
         'trailer-name', 'scheme', 'param', 'json']
CTX = [
    ({}, [{}]), ({'method': 'CONNECT', 'target': 'h:1'}, [{'status': 200}]), ({'method': 'OPTIONS', 'target': '*'}, [{'status': 405}]),
    ({'version': 'HTTP/2', 'scheme': 'https'}, [{'version': 'HTTP/2', 'status': 302}]), (None, [{'status': 206}]), ({}, [{'status': 103}, {'status': 401}]), ({}, [])]
# Headers whose values are quoted in notices: '%s' is replaced.
VALUES = [('X', '%s'), ('Cache-Control', '%s=1, max-age=%s, no-cache="%s"'), ('WWW-Authenticate', 'Bearer error="%s", foo=%s'), ('Link', '<%s>; rel="%s"; %s=x'),
          ('Content-Type', 'text/%s; charset="%s"; charset=a'), ('Warning', '110 - "%s" "x"'), ('Forwarded', 'for="%s"; for=%s'), ('Prefer', '%s="%s"'), ('Preference-Applied', '%s=%s'),
          ('Pragma', '%s'), ('Upgrade', '%s/%s'), ('Transfer-Encoding', '%s'), ('Content-Encoding', '%s'), ('Content-Disposition', 'a; filename="%s"; filename="%s"'),
          ('Strict-Transport-Security', '%s; %s'), ('Alt-Svc', 'a="%s"; ma=%s'), ('Accept', '%s/*, %s/x'), ('User-Agent', '%s (%s)'), ('HTTPolice-Silence', '%s'), ('Location', '%s'),
          ('Authorization', 'Basic %s'), ('Accept-Patch', 'a/%s'), ('Date', '%s'), ('ETag', '"%s"')]

TAGS = {'html', 'head', 'body', 'title', 'meta', 'style', 'script', 'base', 'h1', 'h2', 'h3', 'hr', 'div', 'section', 'p', 'code', 'span', 'pre', 'a', 'abbr', 'q', 'cite'}
ATTRS = {'class', 'data-ref-id', 'data-ref-to', 'href', 'title', 'lang', 'charset', 'name', 'content', 'type', 'target'}
CLASSES = {'report', 'exchange', 'message-display', 'message-remark', 'StatusCode', 'header-entry', 'body-display', 'trailer', 'complaints', 'notice', 'error', 'comment', 'debug',
           'severity', 'ident'}
HREF = re.compile(r'https?://[A-Za-z0-9._~:/?#\[\]@!$&\'()*+,;=%-]+')
CONTROL = re.compile('[\x00-\x08\x0b\x0c\x0e-\x1f\x7f-\x9f]')


def shards(tier):
    return [['slot', s, c] for s in SLOTS for c in range(len(CTX))] + [['pair', a, b] for a, b in itertools.combinations(SLOTS, 2)] + \
        [['corpus', n] for n in range(32)] + [['header', n] for n in sorted(hs.SPACE)] + [['values', n] for n in range(len(VALUES))]


def cases(shard, tier):
    few = [0, 11, 1] if tier == 'quick' else CORE + [12, 22]
    if shard[0] == 'slot':
        for n in range(len(HOSTILE)):
            yield ('slots', shard[2], [(shard[1], n)])
    elif shard[0] == 'pair':
        for x, y in itertools.product(CORE if tier == 'quick' else range(len(HOSTILE)), repeat=2):
            yield ('slots', (x + y) % 4, [(shard[1], x), (shard[2], y)])
    elif shard[0] == 'corpus':
        for i, item in list(enumerate(corpus.load(4000)))[shard[1]::32]:
            for n in few:
                yield ('corpus', i, n)
    elif shard[0] == 'header':
        name = shard[1]
        for v in hs.seeds(name):
            for n in few:
                for i in sorted(set([0, len(v) // 2, len(v)])):
                    yield ('header', name, v[:i] + HOSTILE[n].encode('latin-1', 'replace') + v[i:])
    else:
        name, template = VALUES[shard[1]]
        for n in range(len(HOSTILE)):
            for side in (0, 1, 2):
                yield ('value', shard[1], n, side)


_corpus = []


def run(ctx, case):
    import httpolice
    from mc import conn
    if case[0] == 'slots':
        req, resps = CTX[case[1]]
        req = None if req is None else dict(build.REQ, **req)
        resps = [dict(build.RESP, **r) for r in resps]
        for m in ([req] if req else []) + resps:
            m['headers'] = list(m['headers'])
        for slot, n in case[2]:
            fill(req, resps, slot, HOSTILE[n])
        e = build.checked(req, resps)
    elif case[0] == 'header':
        _, name, value = case
        e = build.checked({'headers': build.REQ['headers'] + [(name, value)]}, [{'status': 401, 'headers': [(name, value)]}])
    elif case[0] == 'value':
        _, k, n, side = case
        name, template = VALUES[k]
        value = template.replace('%s', HOSTILE[n])
        if side == 2:
            value = template.replace('%s', 'a' + HOSTILE[n].replace('"', '\\"') + 'b')
        e = build.checked({'headers': build.REQ['headers'] + ([(name, value)] if side != 1 else []), 'target': '/?access_token=' + HOSTILE[n]},
                          [{'status': 401, 'headers': [(name, value)] if side else [], 'trailers': [(name, value)]}])
    else:
        if not _corpus:
            _corpus.extend(corpus.load(4000))
        _, scheme, inbound, outbound = _corpus[case[1]]
        hostile = HOSTILE[case[2]].encode('utf-8')
        exchanges = conn.parse(inbound, outbound, scheme)
        for e in exchanges:
            for m in ([e.request] if e.request else []) + e.responses:
                n = len(m.header_entries)
                for i in range(n):
                    entry = m.header_entries[i]
                    m.header_entries[i] = type(entry)(entry.name, entry.value + b' ' + hostile if i % 2 else hostile + entry.value)
                m.rebuild_headers()
                m.annotations.clear()
            httpolice.check_exchange(e)
        judge(ctx, exchanges)
        return
    judge(ctx, [e])


def fill(req, resps, slot, text):
    if slot in ('method', 'target', 'scheme') and req:
        req[slot] = {'target': '/' + text}.get(slot, text)
    elif slot == 'req.version' and req:
        req['version'] = text
    elif slot == 'resp.version':
        for r in resps:
            r['version'] = text
    elif slot == 'reason':
        for r in resps:
            r['reason'] = text
    elif slot in ('req.name', 'req.value') and req:
        req['headers'].append((text, 'v') if slot == 'req.name' else ('X-A', text))
    elif slot in ('resp.name', 'resp.value'):
        for r in resps:
            r['headers'].append((text, 'v') if slot == 'resp.name' else ('X-A', text))
    elif slot == 'req.body' and req:
        req['body'] = text.encode('utf-8', 'surrogatepass')
    elif slot == 'resp.body':
        for r in resps:
            r['body'] = text.encode('utf-8', 'surrogatepass')
            r['headers'].append(('Content-Type', 'application/x-www-form-urlencoded'))
    elif slot == 'json':
        import json
        for r in resps:
            r['body'] = json.dumps({text: [text]}).encode()
            r['headers'].append(('Content-Type', 'application/json'))
    elif slot == 'trailer' or slot == 'trailer-name':
        for r in resps + ([req] if req else []):
            r['trailers'] = [('X-T', text)] if slot == 'trailer' else [(text, 'x')]
    elif slot == 'remark':
        for r in resps + ([req] if req else []):
            r['remark'] = text
    elif slot == 'param':
        for r in resps:
            r['headers'].append(('Content-Type', 'text/plain; a="%s"; a=x' % text))


def judge(ctx, exchanges):
    ctx.step(2)
    t, h = obs.text(exchanges), obs.html(exchanges)
    for what, data, problem in (('text', t, report.check_text), ('html', h, report.check_html)):
        try:
            s = data.decode('utf-8')
        except UnicodeError as exc:
            ctx.violate('%s-utf8' % what, str(exc))
            continue
        c = CONTROL.search(s) or ('\r' in s and what == 'text')
        if c:
            ctx.violate('%s-control' % what, 'control character in the report: %r' % c)
        p = problem(data, exchanges)
        if p:
            ctx.violate('%s-structure' % what, p)
            return
    root = report.parse_html(h)
    skeleton = vocabulary(ctx, root)
    if skeleton is not None:
        shape(ctx, root, exchanges)
    ctx.state(report.expected(exchanges))
    ctx.outcome(sum(len(n) for e in exchanges for n in obs.notices(e).values()))


def vocabulary(ctx, root):
    for n in root.walk():
        if n.tag == '#root':
            continue
        if n.tag not in TAGS:
            return ctx.violate('html-tag', 'unexpected <%s>' % n.tag)
        for k, v in n.attrs.items():
            good = k in ATTRS
            if k == 'class':
                good = all(c in CLASSES for c in v.split())
            elif k.startswith('data-ref'):
                good = re.fullmatch('[0-9 ]*', v or '')
            elif k == 'href':
                good = HREF.fullmatch(v)
            elif k == 'title':
                good = n.tag in ('a', 'abbr') and not any(x in v for x in ('alert', 'onmouseover', 'E 1000', 'CUT'))
            if not good:
                return ctx.violate('html-attribute', '<%s %s=%r>' % (n.tag, k, v))
    scripts = root.find(lambda n: n.tag in ('script', 'style', 'base'))
    heads = [n for n in scripts if n.parent.tag == 'head']
    if len(scripts) != 3 or len(heads) != 3:
        return ctx.violate('html-script', 'unexpected script or style elements')
    return True


def shape(ctx, root, exchanges):
    """Numbers of message parts."""
    for e, got in zip([e for e in exchanges if e.request or e.responses or e.notices], report.html_exchanges(root)):
        msgs = ([e.request] if e.request else []) + list(e.responses)
        for m, s in zip(msgs, got['sections']):
            shown = len(s['node'].cls('header-entry'))
            want = len(m.header_entries) + len(m.trailer_entries)
            if shown != want:
                ctx.violate('html-fields', '%d header fields shown instead of %d' % (shown, want))
            if len(s['node'].find(lambda n: n.tag == 'h2')) != 1:
                ctx.violate('html-heading', 'not one start line in a message')
            if len(s['node'].cls('body-display')) > 1 or len(s['node'].cls('message-remark')) != (1 if m.remark else 0):
                ctx.violate('html-parts', 'body or remark shown a wrong number of times')
