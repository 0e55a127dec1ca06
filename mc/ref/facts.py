"""Which parts of a message break each rule? An independent model, on top of mc.ref.rules, of what the notices name.

`facts(m)` returns {notice: set of tuples of strings}, for the notices in NAMED, of a message of the model."""

import base64
import re

from mc.ref import multipart, rules, tables, values as V
from mc.ref.values import BAD

# What is read off a notice: the variables of its text (see `observed`)
NAMED = {
    1013: ['header'], 1026: ['entry'], 1030: ['header'], 1034: ['header'], 1042: ['param'], 1052: ['header'], 1053: ['header'], 1063: ['header'], 1064: ['header'],
    1093: ['library'], 1102: ['protocol'], 1103: ['protocol'], 1116: ['coding'], 1127: ['header'], 1130: ['header'], 1131: ['header'], 1141: ['part_num'], 1142: ['part_num'],
    1146: ['header'], 1152: ['directive'], 1153: ['directive'], 1154: ['directive'], 1155: ['directive'], 1156: ['entry', 'name'], 1157: ['entry', 'name'], 1158: ['name', 'value'], 1160: ['pragma'],
    1163: ['code'], 1164: ['code'], 1165: ['code'], 1169: ['code'], 1171: ['directive'], 1183: ['code'], 1193: ['directive1', 'directive2'], 1197: ['header'], 1200: ['header'],
    1206: ['header'], 1207: ['header', 'param'], 1208: ['header', 'charset'], 1209: ['header'], 1210: ['header'], 1211: ['header'], 1212: ['header', 'char'], 1220: ['directive'], 1225: ['name'],
    1227: ['patch_type'], 1238: ['directive1', 'directive2'], 1244: ['header'], 1247: ['param'], 1256: ['actual', 'correct'], 1257: ['authority'], 1261: ['header'], 1262: ['header'],
    1265: ['param'], 1266: ['param', 'value'], 1268: ['error_code', 'expected_status'], 1269: ['param'], 1273: ['header'], 1274: ['header'], 1276: ['header'], 1277: ['headers'],
    1280: ['header'], 1282: ['bad', 'good'], 1285: ['name'], 1286: ['name', 'value'], 1293: ['header'], 1295: ['uppercase'], 1296: ['entry', 'param'], 1297: ['entry', 'n_elements'],
    1299: ['entry'], 1300: ['entry'], 1304: ['previous']}


def observed(complaint, responses):
    """The same, from a complaint of the tool."""
    return tuple(show(complaint.context.get(k), responses, k) for k in NAMED[complaint.id])


def show(x, responses, key):
    from httpolice.header import HeaderView
    from httpolice.structure import HeaderEntry, Parametrized, Versioned
    if isinstance(x, HeaderEntry):
        return line(str(x.name), x.value.decode('iso-8859-1')) if key == 'entry' else str(x.name).lower()
    if isinstance(x, HeaderView):
        return str(x.name).lower()
    if isinstance(x, list):
        return ' '.join(show(y, responses, key) for y in x)
    if any(x is r for r in responses):
        return str([x is r for r in responses].index(True))
    if isinstance(x, Versioned):
        return str(x.item) if x.version is None else '%s/%s' % (x.item, x.version)
    if isinstance(x, Parametrized):
        x = x.item
    return str(int(x)) if isinstance(x, int) else str(x) if key in ('value', 'uppercase', 'error_code', 'authority', 'actual', 'correct', 'protocol', 'library', 'charset', 'bad', 'good') else str(x).lower()


def line(name, value):
    return '%s: %s' % (name.lower(), value)


def lines(f, trailers=True):
    """[(name, value)] of the fields that count."""
    return f.headers + [(n, v) for n, v in f.trailers if not tables.bad_for_trailer(n)]


def duplicates(names):
    return {n for n in names if names.count(n) > 1}


def facts(m, number=0, finals=()):
    out = {}
    f, flag = m.f, rules.flag

    def add(id_, *what):
        if id_ in m.ids:
            out.setdefault(id_, set()).add(tuple(str(x) for x in what))
    for n in f.names:
        if flag(n, 'iana_status') in ('deprecated', 'obsoleted'):
            add(1197, n)
        if not V.matches('token', n):
            add(1293, n)
        if (len(f.values(n)) > 1 and rules.single(n)) or (rules.multi(n) and n in V.SINGULAR and f.mixed(n, V.SINGULAR[n])):
            add(1013, n)
        for id_, condition in ((1063, flag(n, 'for_request') is False), (1053, flag(n, 'representation_metadata') and flag(n, 'for_request') is not False), (1131, flag(n, 'precondition')), (1130, n in rules.PRECONDITIONS),
                               (1064, flag(n, 'for_response') is False), (1127, flag(n, 'representation_metadata') and n not in ('etag', 'last-modified', 'content-location')),
                               (1052, flag(n, 'representation_metadata')), (1146, flag(n, 'representation_metadata') and n not in ('etag', 'content-location')),
                               (1244, n in ('connection', 'transfer-encoding', 'keep-alive'))):
            if condition:
                add(id_, n)
    is_request = isinstance(m, rules.Request)
    if is_request and m.version == 'HTTP/2' and f.present('te'):
        te = [e.partition(';')[0].strip(' \t').lower() for e in f.list('te')]
        if (te or f.broken('te')) and (te != ['trailers'] or f.broken('te')):
            add(1244, 'te')
    add(1277, ' '.join(n for n in f.names if n.startswith('x-') and not tables.known(n)))
    for n, v in f.trailers:
        if tables.bad_for_trailer(n):
            add(1026, line(n, v))
        if n not in f.tokens('trailer'):
            add(1030, n)
    for o in m.connection:
        if flag(o, 'bad_for_connection'):
            add(1034, o)
    for n in duplicates([n for n, _ in m.media_params]):
        add(1042, n)
    add(1280, 'content-type')
    for code, when in m.warnings:
        if not 100 <= code <= 299:
            add(1163, code)
        dt = f.date('date')
        if when not in (None, BAD) and dt not in (None, BAD) and when != dt:
            add(1164, code)
        if 100 <= code <= 199:
            add(1165, code)
    for p in m.pragma:
        if p != 'no-cache':
            add(1160, V.pair(p)[0])
    for n, v in lines(f):
        if not V.good(n, v):
            continue
        for id_, sep in ((1299, ','), (1300, ';')):
            inner = rules.link_text(v) if n == 'link' else ''.join(p for p in V.quoted_parts(v) if not (n == 'warning' and V.date(p[1:-1]) is not BAD))
            if flag(n, 'quoted_comma_bad' if sep == ',' else 'quoted_semicolon_bad') and sep in inner:
                add(id_, line(n, v))
        if n == 'forwarded':
            groups = [[V.pair(p) for p in V.cut(e, ';') if p] for e in V.elements(v)]
            for g in groups:
                for d in duplicates([x for x, _ in g]):
                    add(1296, line(n, v), d)
                for k, raw in g:
                    rule = {'by': 'node', 'for': 'node', 'host': 'Host-header', 'proto': 'scheme'}.get(k)
                    if rule and not V.matches(rule, V.unquote(raw)):
                        add(1158, k, V.unquote(raw))
            if len(groups) > 1 and all(len(g) == 1 for g in groups) and not duplicates([g[0][0] for g in groups]):
                add(1297, line(n, v), len(groups))
        pairs = []
        if n == 'cache-control':
            pairs = [(d, V.pair(e)[1]) for d, e in zip(V.cache_directives(v), V.elements(v))]
        elif n in ('prefer', 'preference-applied'):
            pairs = [(d, V.pair(V.cut(e, ';')[0])[1]) for d, e in zip(V.preferences(v), V.elements(v))]
        for (k, arg, ids), raw in pairs:
            for id_ in ids:
                if id_ in (1154, 1155):
                    add(id_, k)
                elif id_ == 1158:
                    add(id_, k, V.unquote(raw))
                else:
                    add(id_, line(n, v), k)
        if n == 'strict-transport-security':
            for p in filter(None, V.cut(v, ';')):
                k, raw = V.pair(p)
                if k == 'max-age' and raw is None:
                    add(1156, line(n, v), k)
                elif k == 'max-age' and not V.matches('delta-seconds', V.unquote(raw)):
                    add(1158, k, V.unquote(raw))
                elif k == 'includesubdomains' and raw is not None:
                    add(1157, line(n, v), k)
    for params in rules.links(m):
        seen = set()
        for n, raw in params:
            if n in ('rel', 'media', 'title', 'title*', 'type'):
                if n in seen:
                    add(1225, n)
                    continue
                seen.add(n)
            arg = V.unquote(raw)
            if raw is not None and n in rules.LINK_RULES and not V.matches(rules.LINK_RULES[n], arg):
                add(1158, n, arg)
    bad_types(m, add)
    alternatives(m, add)
    cache = m.cache
    for n, arg, _ in cache.all:
        row = tables.T['cache_directive'].get(n, {})
        if is_request:
            if row.get('for_request') is False:
                add(1152, n)
            if n in ('max-age', 'max-stale', 'min-fresh', 'no-cache', 'no-store', 'only-if-cached'):
                add(1171, n)
        elif row.get('for_response') is False:
            add(1153, n)
    opposite = ([('max-stale', 'min-fresh'), ('stale-if-error', 'min-fresh'), ('max-stale', 'no-cache'), ('max-age', 'no-cache')] if is_request else
                [('public', 'no-store'), ('private', 'public'), ('private', 'no-store'), ('must-revalidate', 'stale-while-revalidate'), ('must-revalidate', 'stale-if-error')])
    for a, b in opposite:
        if cache.on(a) and cache.on(b):
            add(1193, a, b)
    (of_request if is_request else of_response)(m, add, number, finals)
    return out


BAD_TYPES = {'plain/text': 'text/plain', 'application/text': 'text/plain', 'text/json': 'application/json'}


def bad_types(m, add):
    f = m.f
    types = [V.parametrized(v)[0] for v in f.values('content-type') if V.good('content-type', v)]
    types += [V.parametrized(e)[0] for n in ('accept', 'accept-patch', 'accept-post') for v in f.values(n) if V.good(n, v) for e in V.elements(v)]
    for params in rules.links(m):
        types += [V.unquote(raw) or '' for n, raw in params[:[n for n, _ in params].index('type') + 1] if n == 'type'] if 'type' in [n for n, _ in params] else []
    for t in types:
        if t.lower() in BAD_TYPES:
            add(1282, t, BAD_TYPES[t.lower()])


def alternatives(m, add):
    for v in m.f.values('alt-svc'):
        if not V.good('alt-svc', v) or v == 'clear':
            continue
        for e in V.elements(v):
            head, *params = V.cut(e, ';')
            proto, _, authority = head.partition('=')
            decoded = re.sub('%([0-9A-Fa-f]{2})', lambda x: chr(int(x.group(1), 16)), proto)
            encoded = ''.join(c if re.match(r"[!#$&'*+.^_`|~0-9A-Za-z-]$", c) else '%%%02X' % ord(c) for c in decoded)
            if encoded != proto:
                add(1256, proto, encoded)
            if not V.matches('alt-authority', V.unquote(authority)):
                add(1257, V.unquote(authority))
            for p in params:
                k, _, raw = p.partition('=')
                rule = {'ma': 'delta-seconds', 'persist': 'persist'}.get(k)
                if rule and not V.matches(rule, V.unquote(raw)):
                    add(1158, k, V.unquote(raw))


def of_request(q, add, number, finals):
    f = q.f
    add(1295, q.method.upper())
    if f.okay('user-agent'):
        products = re.sub(r'\((?:[^()\\]|\\.|\((?:[^()\\]|\\.|\([^()]*\))*\))*\)', ' ', f.one('user-agent')).split()
        if products:
            add(1093, products[0])
    for e in f.list('accept-encoding'):
        item, params = V.parametrized(e)
        if item.lower() in ('x-gzip', 'x-compress') and params:
            add(1116, item.lower())
    for n in ('authorization', 'proxy-authorization'):
        if not f.okay(n):
            continue
        scheme, rest = V.credentials(f.one(n))
        if scheme == 'basic':
            if not isinstance(rest, str):
                add(1209, n)
                continue
            try:
                plain = base64.b64decode(rest)
            except ValueError:
                add(1210, n)
                continue
            if b':' not in plain:
                add(1211, n)
            for c in plain:
                if c < 32 or c == 127:
                    add(1212, n, hex(c))
        elif scheme == 'bearer':
            add(1261, n)
            if not isinstance(rest, str):
                add(1262, n)
        elif not rest:
            add(1274, n)
    for n in ('accept', 'accept-charset', 'accept-encoding', 'accept-language'):
        if rules.subsumed(f, n):
            add(1276, n)
    for n in duplicates([n for n, _, _ in q.prefer]):
        add(1285, n)


def of_response(r, add, number, finals):
    f, q, cache, status = r.f, r.q, r.cache, r.status
    for n in finals:
        add(1304, n)
    early = [c for c, _ in r.warnings if 100 <= c <= 199]
    if early:
        add(1169, early[0])
    for code in (110, 111):
        if code in r.codes:
            add(1183, code)
            break
    for a, b in (('max-age', 'no-cache'), ('max-age', 'no-store'), ('s-maxage', 'private'), ('s-maxage', 'no-cache'), ('s-maxage', 'no-store')):
        if cache.on(a) and cache.bare(b):
            add(1238, a, b)
    for e in f.list('accept-patch'):
        item = V.parametrized(e)[0].lower()
        if rules.suitable_for_patch(item) is False:
            add(1227, item)
    if f.okay('content-disposition'):
        for n in duplicates([n for n, _ in V.parametrized(f.one('content-disposition'))[1]]):
            add(1247, n)
    if f.okay('strict-transport-security'):
        for n in duplicates([V.pair(p)[0] for p in V.cut(f.one('strict-transport-security'), ';') if p]):
            add(1220, n)
    if r.status == 206 and r.media == 'multipart/byteranges':
        for i, names in enumerate(rules.byteranges_parts(r) or ()):
            if 'content-range' not in names:
                add(1141, i + 1)
            if 'content-type' not in names:
                add(1142, i + 1)
    for name, cs in r.challenges.items():
        for scheme, rest in cs:
            challenge(r, add, name, scheme, rest)
    if q:
        for p in r.upgrade:
            if p in q.upgrade:
                add(1102, p)
                add(1103, p)
                break
        for n in q.f.names:
            if rules.flag(n, 'precondition'):
                add(1200, n)
                break
        asked = {(n, a) for n, a, _ in q.prefer}
        for n, a, _ in r.applied:
            if (n, a) not in asked:
                a = a[1] if isinstance(a, tuple) else a
                add(1286, n, '' if a is None else '=%s' % a)


def challenge(r, add, name, scheme, rest):
    if scheme == 'basic':
        if isinstance(rest, str):
            add(1273, name)
            return
        params = [(n, V.unquote(v)) for n, v in rest or []]
        if 'realm' not in [n for n, _ in params]:
            add(1206, name)
        for n, v in params:
            if n == 'charset' and v.lower() != 'utf-8':
                add(1208, name, v)
            if n not in ('charset', 'realm'):
                add(1207, name, n)
    if scheme != 'bearer' or name != 'www-authenticate' or not isinstance(rest, list):
        return
    params = [(n, V.unquote(v)) for n, v in rest]
    for n in duplicates([n for n, _ in params]):
        if n in ('realm', 'scope', 'error', 'error_description', 'error_uri'):
            add(1265, n)
    first = {}
    for n, v in params:
        first.setdefault(n, v)
    for n, rule in (('scope', r'[\x21\x23-\x5b\x5d-\x7e]+( [\x21\x23-\x5b\x5d-\x7e]+)*\Z'), ('error', r'[\x20\x21\x23-\x5b\x5d-\x7e]+\Z'), ('error_description', r'[\x20\x21\x23-\x5b\x5d-\x7e]+\Z')):
        if n in first and not re.match(rule, first[n]):
            add(1266, n, first[n])
    if 'error_uri' in first and not V.matches('uri-reference', first['error_uri']):
        add(1266, 'error_uri', first['error_uri'])
    code = first.get('error')
    if code in rules.EXPECTED and r.status != rules.EXPECTED[code]:
        add(1268, code, rules.EXPECTED[code])
    for n in ('error', 'error_description', 'error_uri'):
        if n in first:
            add(1269, n)


def predict(req, resps):
    """[facts of the request or None, of each response...], together with the notices of each."""
    from mc import build
    q = None
    out = []
    ids = rules.predict(req, resps)
    if req is not None:
        q = rules.Request(dict(build.REQ, **req))
        q.ids = set(ids[0])
        out.append(facts(q))
    else:
        out.append(None)
    finals = []
    for k, d in enumerate(resps):
        r = rules.Response(dict(build.RESP, **d), q)
        r.ids = set(ids[k + 1])
        out.append(facts(r, k, finals[:1]))
        if r.family != 1:
            finals.append(k)
    return ids, out
