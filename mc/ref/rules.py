"""An independent model of the rules: which notices should an exchange get?

An exchange is plain data (see mc.build). `predict` returns the notices of the request and of each response, limited to RULES:
those that depend on the meaning of messages (syntax errors of field values are the business of C13)."""

import base64
import re
import urllib.parse
from datetime import datetime, timedelta

from mc.ref import bodies, multipart, tables, values as V
from mc.ref.values import BAD

METHODS, STATUS, MEDIA, PRODUCT = tables.METHOD, tables.STATUS, tables.T['media_type'], tables.T['product']
OLD = ('HTTP/1.0', 'HTTP/1.1')
PRECONDITIONS = {'if-match', 'if-none-match', 'if-modified-since', 'if-unmodified-since', 'if-range'}


def row(name):
    return tables.header(name)


def flag(name, key):
    return row(name).get(key)



class Message:
    def __init__(self, d):
        self.d = d
        self.version = d['version']
        self.body = d['body']           # bytes, None (unknown), 'U' (there is one, but it is unavailable)
        self.f = V.Fields(d['headers'], d['trailers'])
        self.cache = V.Cache(self.f)
        self.ids = set()
        self.old = self.version in OLD
        f = self.f
        self.warnings = [w for v in f.values('warning') if V.good('warning', v) for w in V.warnings(v)]
        self.codes = {c for c, _ in self.warnings}
        self.connection = f.tokens('connection')
        self.pragma = [e.lower() for e in f.list('pragma')]
        self.media, self.media_params = None, []
        if f.okay('content-type'):
            self.media, self.media_params = V.parametrized(f.one('content-type'))
            self.media = self.media.lower()
        self.codings = [e.split(';')[0].strip(' \t').lower() for e in f.list('transfer-encoding')]
        self.upgrade = f.list('upgrade')
        self.prefer = [p for v in f.values('prefer') if V.good('prefer', v) for p in V.preferences(v)]
        self.applied = [p for v in f.values('preference-applied') if V.good('preference-applied', v) for p in V.preferences(v)]

    def add(self, id_, condition=True):
        if condition:
            self.ids.add(id_)

    def form(self):
        """The names in a URL-encoded form in the body (with nonblank values)."""
        if self.media != 'application/x-www-form-urlencoded' or not isinstance(self.body, bytes) or self.f.present('content-encoding'):
            return None
        if not re.match(rb'[A-Za-z0-9*._%&=+:;<>?-]*\Z', self.body):
            return None
        return names_of(self.body.decode('ascii'))


def names_of(query):
    out = set()
    for part in query.split('&'):
        k, eq, v = part.partition('=')
        if eq and v:
            out.add(urllib.parse.unquote(k.replace('+', ' ')))
    return out


def suitable_for_patch(media):
    return MEDIA.get(media, {}).get('patch')


def common(m, tls, is_response):
    """Rules for any message; returns whether it was transformed by a proxy."""
    f, add = m.f, m.add
    early = is_response and m.status == 103
    for n in f.names:
        add(1197, flag(n, 'iana_status') in ('deprecated', 'obsoleted'))
        add(1277, n.startswith('x-') and not tables.known(n))
        add(1293, not V.matches('token', n))
        add(1013, len(f.values(n)) > 1 and single(n))
        if multi(n) and n in V.SINGULAR:
            add(1013, f.mixed(n, V.SINGULAR[n]))
    for n in f.names:
        for v in f.values(n):
            if V.good(n, v):
                inner = ''.join(p for p in V.quoted_parts(v) if not (n == 'warning' and V.date(p[1:-1]) is not BAD)) if n != 'link' else link_text(v)
                add(1299, flag(n, 'quoted_comma_bad') and ',' in inner)
                add(1300, flag(n, 'quoted_semicolon_bad') and ';' in inner)
    add(1026, any(tables.bad_for_trailer(n) for n, _ in f.trailers))
    add(1054, m.version == 'HTTP/1.1' and f.present('trailer') and 'chunked' not in m.codings)
    announced = f.tokens('trailer')
    add(1030, any(n not in announced for n, _ in f.trailers))
    add(1020, f.present('transfer-encoding') and f.present('content-length'))
    add(1034, any(flag(o, 'bad_for_connection') for o in m.connection))
    if m.media is not None:
        add(1035, MEDIA.get(m.media, {}).get('deprecated'))
        names = [n for n, _ in m.media_params]
        add(1042, len(set(names)) < len(names))
        add(1280, m.media == 'application/json' and 'charset' in names)
    add(1163, any(not 100 <= c <= 299 for c in m.codes))
    dt = f.date('date')
    add(1164, any(d not in (None, BAD) and dt not in (None, BAD) and d != dt for _, d in m.warnings))
    add(1160, any(p != 'no-cache' for p in m.pragma))
    for _, _, ids in m.cache.all + m.prefer + m.applied:
        m.ids.update(ids)
    forwarded_rules(m)
    link_rules(m)
    for v in f.values('strict-transport-security'):
        if V.good('strict-transport-security', v):
            hsts_value(m, v)
    for v in f.values('range'):
        if V.good('range', v) and v.lower().startswith('bytes='):
            for e in V.elements(v.partition('=')[2]):
                first, _, last = e.partition('-')
                add(1133, first and last and int(first) > int(last))
    for v in f.values('content-range'):
        if V.good('content-range', v) and v.lower().startswith('bytes '):
            bounds, _, complete = v[6:].partition('/')
            if bounds != '*':
                first, last = map(int, bounds.split('-'))
                add(1148, last < first or (complete != '*' and int(complete) <= last))
    alt_svc_rules(m)
    for p in m.upgrade:
        proto = p.partition('/')[0]
        add(1228, proto == 'h2')
        add(1233, proto == 'h2c' and tls)
    if early:
        return None
    add(1050, f.present('upgrade') and 'upgrade' not in m.connection)
    transformed = None
    if is_response and m.status == 203:
        add(1190)
        transformed = True
    elif 214 in m.codes:
        add(1189)
        transformed = True
    if transformed:
        add(1191, 214 not in m.codes)
        add(1192, m.cache.on('no-transform'))
    if m.version == 'HTTP/2':
        add(1244, any(f.present(n) or n in f.names for n in ('connection', 'transfer-encoding', 'keep-alive')))
        add(1245, 'upgrade' in f.names)
    return transformed


def single(n):
    return row(n).get('rule') == 'single' or n == 'strict-transport-security'


def multi(n):
    return row(n).get('rule') in ('multi', 'special') and n != 'strict-transport-security'


def target_form(method, target):
    if method == 'CONNECT':
        return 'authority' if V.matches('authority-form', target) else None
    if method == 'OPTIONS' and target == '*':
        return 'asterisk'
    if V.matches('origin-form', target):
        return 'origin'
    if V.matches('absolute-form', target):
        return 'absolute'
    return None


class Request(Message):
    def __init__(self, d):
        super().__init__(d)
        self.method, self.target, self.scheme = d['method'], d['target'], d['scheme']
        self.row = METHODS.get(self.method, {})
        self.tls = {'http': False, 'https': True}.get(self.scheme)
        self.target_form = target_form(self.method, self.target)
        f = self.f
        if self.body:
            self.has_body = True
        elif self.old:
            self.has_body = f.present('content-length') or f.present('transfer-encoding')
        else:
            self.has_body = None
        self.preconditions = {n for n in f.names if flag(n, 'precondition')}
        self.conneg = {n for n in f.names if flag(n, 'proactive_conneg')}
        if self.target_form == 'absolute':
            self.uri = self.target
        elif not self.scheme or self.target_form is None:
            self.uri = None
        else:
            authority = self.target if self.target_form == 'authority' else f.one('host')
            if authority is None or authority is BAD:
                self.uri = None
            else:
                self.uri = '%s://%s%s' % (self.scheme, authority, self.target if self.target_form == 'origin' else '')
        if 'is_to_proxy' in d:
            self.to_proxy = d['is_to_proxy']
        else:
            self.to_proxy = self.target_form == 'absolute' if self.old else None
        query = self.target.partition('#')[0].partition('?')[2] if self.target_form in ('origin', 'absolute') else ''
        self.query = names_of(query)
        self.credentials = None
        if f.okay('authorization'):
            self.credentials = V.credentials(f.one('authorization'))
        self.ranges = f.one('range') if f.okay('range') else None


def request_rules(q):
    f, add, method = q.f, q.add, q.method
    common(q, q.tls, False)
    q.ids |= bodies.rules(q, q.has_body is not False)
    add(1292, not V.matches('token', method))
    add(1045, q.target_form is None)
    add(1295, method != method.upper() and method.upper() in METHODS)
    add(1041, q.body and not f.present('content-type'))
    framed = f.present('content-length') or f.present('transfer-encoding')
    add(1021, q.old and q.row.get('defines_body') and not framed)
    add(1022, q.row.get('defines_body') is False and q.body == b'' and f.present('content-length'))
    te = [e.partition(';')[0].strip(' \t').lower() for e in f.list('te')]
    add(1028, 'chunked' in te)
    something = bool(te) or f.broken('te')
    add(1244, q.version == 'HTTP/2' and something and not (te == ['trailers'] and not f.broken('te')))
    add(1029, q.version == 'HTTP/1.1' and something and 'te' not in q.connection)
    add(1031, q.version == 'HTTP/1.1' and not f.present('host'))
    add(1032, f.present('host') and f.headers[0][0] != 'host')
    for n in f.names:
        if flag(n, 'for_request') is False:
            add(1063)
        elif flag(n, 'representation_metadata'):
            add(1053, q.has_body is False)
    if q.body:
        add({'GET': 1056, 'HEAD': 1057, 'DELETE': 1059, 'CONNECT': 1061}.get(method), method in ('GET', 'HEAD', 'DELETE', 'CONNECT'))
        add(1062, method == 'OPTIONS' and not f.present('content-type'))
    add(1066, f.okay('expect') and f.one('expect').lower() == '100-continue' and q.has_body is False)
    add(1067, f.present('max-forwards') and method not in ('OPTIONS', 'TRACE'))
    add(1068, f.okay('referer') and q.tls is False and f.one('referer').lower().startswith('https:'))
    if not f.present('user-agent'):
        add(1070)
    elif f.okay('user-agent'):
        products = [p.partition('/')[0] for p in re.sub(r'\((?:[^()\\]|\\.|\((?:[^()\\]|\\.|\([^()]*\))*\))*\)', ' ', f.one('user-agent')).split()]
        add(1093, products and all(PRODUCT.get(p, {}).get('library') for p in products))
    for e in f.list('accept-encoding'):
        item, params = V.parametrized(e)
        add(1116, item.lower() in ('x-gzip', 'x-compress') and params)
    add(1120, any(e.startswith('W/') for e in f.list('if-match')))
    add(1131, method == 'HEAD' and q.preconditions)
    if method in ('CONNECT', 'OPTIONS', 'TRACE'):
        add(1130, PRECONDITIONS & set(f.names))
    elif method not in ('GET', 'HEAD'):
        add(1122, f.present('if-modified-since'))
    add(1132, f.present('range') and method != 'GET')
    add(1134, f.present('if-range') and not f.present('range'))
    add(1135, f.okay('if-range') and f.one('if-range').startswith('W/'))
    cache = q.cache
    for n, arg, ids in cache.all:
        add(1152, tables.T['cache_directive'].get(n, {}).get('for_request') is False)
        add(1159, n == 'no-cache' and arg is not None)
        add(1171, q.row.get('cacheable') is False and n in ('max-age', 'max-stale', 'min-fresh', 'no-cache', 'no-store', 'only-if-cached'))
    add(1161, cache.on('no-cache') and 'no-cache' not in q.pragma)
    add(1165, any(100 <= c <= 199 for c in q.codes))
    for a, b in (('max-stale', 'min-fresh'), ('stale-if-error', 'min-fresh'), ('max-stale', 'no-cache'), ('max-age', 'no-cache')):
        add(1193, cache.on(a) and cache.on(b))
    for n in ('authorization', 'proxy-authorization'):
        if f.okay(n):
            credential_rules(q, *V.credentials(f.one(n)))
        for v in f.values(n):
            if V.good(n, v):
                unquoted_realm(q, V.credentials(v)[1])
    add(1213, method == 'PATCH' and q.media and suitable_for_patch(q.media) is False)
    settings = f.one('http2-settings')
    for p in q.upgrade:
        if p.partition('/')[0] == 'h2c':
            add(1231, not f.present('http2-settings'))
    add(1230, settings and 'http2-settings' not in q.connection)
    add(1234, settings not in (None, BAD) and re.search('[^A-Za-z0-9_-]', settings))
    if 'access_token' in q.query:
        add(1270)
        add(1271, q.tls is False)
        add(1272, not cache.on('no-store'))
    add(1271, 'access_token' in (q.form() or ()) and q.tls is False)
    add(1276, any(subsumed(f, n) for n in ('accept', 'accept-charset', 'accept-encoding', 'accept-language')))
    names = [n for n, _, _ in q.prefer]
    add(1285, len(set(names)) < len(names))
    first = {}
    said = set()
    for n, arg, ids in q.prefer:
        first.setdefault(n, True if arg is None else arg)
        said.add((n, arg))
    add(1287, first.get('respond-async') and q.row.get('safe'))
    add(1288, first.get('return') == 'minimal' and method == 'GET')
    add(1289, {('return', 'minimal'), ('return', 'representation')} <= said)
    add(1290, {('handling', 'strict'), ('handling', 'lenient')} <= said)


def unquoted_realm(m, rest):
    if isinstance(rest, list):
        m.add(1196, any(n == 'realm' and not V.is_quoted(v) for n, v in rest))


def credential_rules(q, scheme, rest):
    add = q.add
    if scheme == 'basic':
        if not isinstance(rest, str):
            add(1209)
            return
        try:
            plain = base64.b64decode(rest)
        except ValueError:
            add(1210)
            return
        add(1211, b':' not in plain)
        add(1212, re.search(rb'[\x00-\x1f\x7f]', plain))
    elif scheme == 'bearer':
        add(1261, q.tls is False)
        add(1262, not isinstance(rest, str))
    else:
        add(1274, not rest)


def subsumed(f, name):
    items = []
    for e in f.list(name) if name != 'accept' else [x for v in f.values(name) if V.good(name, v) for x in V.elements(v)]:
        item, params = V.parametrized(e)
        q = [v for n, v in params if n == 'q']
        items.append((item.lower(), float(q[0]) if q else 1.0))
    for a, qa in items:
        for b, qb in items:
            if a == b or qa != qb:
                continue
            if a in ('*', '*/*') or (a.endswith('/*') and b.startswith(a[:-1])):
                return True
    return False


def forwarded_rules(q):
    for v in q.f.values('forwarded'):
        if not V.good('forwarded', v):
            continue
        groups = [[V.pair(p) for p in V.cut(e, ';') if p] for e in V.elements(v)]
        for g in groups:
            names = [n for n, _ in g]
            q.add(1296, len(set(names)) < len(names))
            for n, raw in g:
                arg = V.unquote(raw)
                rule = {'by': 'node', 'for': 'node', 'host': 'Host-header', 'proto': 'scheme'}.get(n)
                q.add(1158, rule and not V.matches(rule, arg))
        if len(groups) > 1 and all(len(g) == 1 for g in groups):
            names = [g[0][0] for g in groups]
            q.add(1297, len(set(names)) == len(names))


class Response(Message):
    def __init__(self, d, request):
        self.status = d['status']
        super().__init__(d)
        self.reason = d['reason']
        self.q = request
        self.family = self.status // 100 if self.status >= 0 else 0
        self.challenges = {n: [c for v in self.f.values(n) if V.good(n, v) for c in V.challenges(v)] for n in ('www-authenticate', 'proxy-authenticate')}


def greater(a, b):
    return a not in (None, BAD) and b not in (None, BAD) and a > b


def response_rules(r, previous_final):
    f, add, status, q, cache = r.f, r.add, r.status, r.q, r.cache
    tls = q.tls if q else None
    family = r.family
    transformed = common(r, tls, True)
    full = family != 1 and status not in (204, 304) and (status != 206 or r.media == 'multipart/byteranges') and (q.method != 'HEAD' if q else bool(r.body))
    r.ids |= bodies.rules(r, full)
    add(1304, previous_final)
    add(1294, r.reason is not None and re.search('[^\t -~\x80-\xff]', r.reason))
    add(1167, not 100 <= status <= 599)

    by_close = None
    if f.present('content-length') or 'chunked' in r.codings or family == 1 or status in (204, 304) or r.version == 'HTTP/2':
        by_close = False
    elif q:
        if q.method == 'HEAD' or (q.method == 'CONNECT' and family == 2):
            by_close = False
        elif r.old:
            by_close = True
            add(1025)
            add(1047, r.version == 'HTTP/1.1' and 'close' not in r.connection)

    add(1064, any(flag(n, 'for_response') is False for n in f.names))
    if status == 101:
        add(1048, not f.present('upgrade'))
        add(1246, r.version == 'HTTP/2')
    add(1240, status == 204 and r.body)
    add(1076, status == 205 and r.body)
    if not f.present('location'):
        add({301: 1078, 302: 1079, 303: 1080, 307: 1084, 308: 1205}.get(status), status in (301, 302, 303, 307, 308))
    add({305: 1082, 306: 1083, 402: 1088}.get(status), status in (305, 306, 402))
    add(1089, status == 405 and not f.present('allow'))
    add(1094, status == 408 and r.version in ('HTTP/1.0', 'HTTP/1.1') and 'close' not in r.connection)
    add(1110, not f.present('date') and family in (2, 3, 4))
    location = f.one('location') if f.okay('location') else None
    add(1111, status == 201 and location and location.partition('#')[2])
    add(1118, greater(f.date('last-modified'), f.date('date')))
    if status == 304:
        add(1127, any(flag(n, 'representation_metadata') and n not in ('etag', 'last-modified', 'content-location') for n in f.names))
    byteranges = r.media == 'multipart/byteranges'
    if status == 206:
        if byteranges:
            add(1143, f.present('content-range'))
            for names in byteranges_parts(r) or ():
                add(1141, 'content-range' not in names)
                add(1142, 'content-type' not in names)
        else:
            add(1138, not f.present('content-range'))
    for n, arg, ids in cache.all:
        add(1153, tables.T['cache_directive'].get(n, {}).get('for_response') is False)
    add(1162, 'no-cache' in r.pragma)
    add(1243, status == 451 and not any('blocked-by' in rel for rel in link_rels(r)))
    disposition_rules(r)
    if f.present('alt-svc'):
        add(1258, r.version == 'HTTP/2')
        add(1260, status == 421)
    hsts_rules(r)
    for e in f.list('accept-patch'):
        add(1227, suitable_for_patch(V.parametrized(e)[0].lower()) is False)
    for a, b in (('public', 'no-store'), ('private', 'public'), ('private', 'no-store'), ('must-revalidate', 'stale-while-revalidate'), ('must-revalidate', 'stale-if-error')):
        add(1193, cache.on(a) and cache.on(b))
    for a, b in (('max-age', 'no-cache'), ('max-age', 'no-store'), ('s-maxage', 'private'), ('s-maxage', 'no-cache'), ('s-maxage', 'no-store')):
        add(1238, cache.on(a) and cache.bare(b))
    vary = f.tokens('vary')
    add(1235, 'host' in vary)
    add(1194, status == 401 and not f.present('www-authenticate'))
    add(1195, status == 407 and not f.present('proxy-authenticate'))
    for n, cs in r.challenges.items():
        for scheme, rest in cs:
            challenge_rules(r, n, scheme, rest)

    early = status == 103
    from_cache = stale = False
    if not early:
        if family == 1 or status == 204:
            add(1018, f.present('transfer-encoding'))
            add(1023, f.present('content-length'))
        if family == 1:
            add(1198, 'close' in r.connection)
            add(1052, any(flag(n, 'representation_metadata') for n in f.names))
        add(1112, f.present('location') and family != 3 and status != 201)
        add(1113, f.present('retry-after') and family != 3 and status not in (413, 429, 503))
        add(1147, f.present('content-range') and status not in (206, 416))
        from_cache, stale = cache_rules(r)
        if cache.on('immutable'):
            ex, dt = f.date('expires'), f.date('date')
            expired = not f.present('expires') or (ex not in (None, BAD) and dt not in (None, BAD) and ex <= dt)
            add(1301, expired and not cache.on('max-age'))
            add(1302, tls is False)
            add(1303, by_close)
        if f.present('allow'):
            allow = f.list('allow')
            add(1217, f.present('accept-patch') and 'PATCH' not in allow)
            add(1310, f.present('accept-post') and 'POST' not in allow)
        add(1046, transformed and not f.present('via'))
    if q:
        in_context(r, q, transformed, from_cache, stale, location, byteranges, vary, early)


def byteranges_parts(r):
    if isinstance(r.body, bytes) and not (r.q and r.q.method == 'HEAD') and not r.f.present('content-encoding'):
        mark = multipart.boundary(r.f.one('content-type'))
        return multipart.split(r.body, mark) if mark else None
    return None


def cache_rules(r):
    f, add, cache, status = r.f, r.add, r.cache, r.status
    age, dt = f.int('age'), f.date('date')
    from_cache = None
    future = False
    if age not in (None, BAD) and dt not in (None, BAD):
        try:
            future = dt + timedelta(seconds=age) > datetime.utcnow() + timedelta(seconds=30)
        except OverflowError:
            future = True
    if future:
        add(1241)
    elif f.present('age'):
        add(1168)
        from_cache = True
    elif any(100 <= c <= 199 for c in r.codes):
        add(1169)
        from_cache = True
    heuristic = False
    if from_cache:
        add(1166, not f.present('age'))
        add(1175, cache.bare('no-cache'))
        add(1176, cache.on('no-store'))
        kind = STATUS.get(status, {}).get('cacheable')
        add(1202, kind == 'not_at_all')
        add(1177, kind == 'not_by_default' and not f.present('expires') and not f.present('cache-control'))
        if 113 in r.codes:
            add(1179)
            heuristic = True
        elif not f.present('expires') and not f.present('cache-control'):
            add(1178)
            heuristic = True
    if heuristic:
        add(1180, greater(age, 86400) and 113 not in r.codes)
        if f.present('expires'):
            add(1181)
        else:
            add(1182, cache.get('max-age') is not None)
    stale = False
    if r.codes & {110, 111}:
        add(1183)
        stale = True
    elif cache.get('s-maxage') is None:
        if greater(age, cache.num('max-age')):
            add(1184)
            stale = True
        elif cache.get('max-age') is None:
            ex = f.date('expires')
            if ex not in (None, BAD) and dt not in (None, BAD) and greater(age, (ex - dt).total_seconds()):
                add(1185)
                stale = True
    if stale:
        add(1186, 110 not in r.codes)
        add(1187, cache.on('must-revalidate'))
    return from_cache, stale


def same_uri(base, reference):
    try:
        joined = urllib.parse.urljoin(base, reference)
    except ValueError:
        joined = reference

    def norm(u):
        m = re.match(r'([^:/?#]+):(?://(?:([^/?#@]*)@)?([^/?#]*))?(.*)$', u, re.S)
        return (m.group(1).lower(), m.group(2), (m.group(3) or '').lower(), m.group(4)) if m else u
    return norm(base) == norm(joined)


EMPTY = {202: 1284, 300: 1077, 303: 1081, 406: 1092, 409: 1096, 428: 1201, 429: 1203, 451: 1242, 505: 1106, 511: 1204}


def in_context(r, q, transformed, from_cache, stale, location, byteranges, vary, early):
    f, add, status, cache, family = r.f, r.add, r.status, r.cache, r.family
    method, g = q.method, q.f
    ok, safe = family == 2, q.row.get('safe')
    add(1041, r.body and not f.present('content-type') and (status != 206 or not g.present('if-range')))
    if method == 'CONNECT' and ok:
        add(1019, f.present('transfer-encoding'))
        add(1024, f.present('content-length'))
        add(1199, 'close' in r.connection)
    add(1239, method == 'HEAD' and r.body)
    add(1306, q.version == 'HTTP/1.0' and f.present('transfer-encoding'))
    add(1033, q.version == 'HTTP/1.1' and (not g.okay('host') or len([1 for n, _ in g.headers + g.trailers if n == 'host']) > 1) and family in (2, 3))
    add(1237, transformed and q.to_proxy is False)
    add(1046, q.to_proxy and ok and not f.present('via'))
    if status == 101:
        for p in r.upgrade:
            if p not in q.upgrade:
                add(1049)
            elif p.partition('/')[0] == 'h2c':
                add(1232, not g.okay('http2-settings'))
        add(1051, q.version == 'HTTP/1.0')
    elif family == 1:
        add(1071, q.version == 'HTTP/1.0')
    if f.okay('content-location') and q.uri and same_uri(q.uri, f.one('content-location')):
        add(1055, method in ('GET', 'HEAD') and status in (200, 203, 204, 206, 304))
        add(1060, method == 'DELETE' and ok)
    if location is not None and q.uri and q.scheme and same_uri(q.uri, location):
        add(1085, status in (300, 307, 308) or (status in (301, 302, 303) and method != 'POST'))
    add(1058, method == 'PUT' and g.present('content-range') and ok)
    if safe:
        add({201: 1072, 202: 1074, 409: 1095}.get(status), status in (201, 202, 409))
    add(1073, status == 201 and method == 'POST' and not f.present('location'))
    if method != 'HEAD' and r.body == b'':
        if status in EMPTY:
            add(EMPTY[status])
        elif family == 4:
            add(1087)
        elif family == 5:
            add(1104)
    add(1086, method == 'OPTIONS' and q.target_form == 'asterisk' and status in (300, 301, 302, 307, 308))
    if status == 406:
        add(1090, not q.conneg)
        add(1117, q.conneg == {'accept-language'})
    add(1097, status == 411 and g.okay('content-length'))
    if q.body == b'':
        add(1098, status == 413)
        add(1099, status == 415 and not g.present('content-type'))
    add(1100, status == 417 and not g.present('expect'))
    if set(r.upgrade) & set(q.upgrade) and q.version not in (None, 'HTTP/1.0'):
        add(1102, status == 426)
        add(1103, ok)
    add(1101, status == 426 and not (r.upgrade or f.broken('upgrade')))
    add(1105, status == 505 and r.version and r.version == q.version)
    allow = f.list('allow')
    if status == 405:
        add(1114, method in allow)
    elif ok:
        add(1115, f.present('allow') and method not in allow)
    if method in ('GET', 'HEAD') and ok:
        if f.okay('etag'):
            tag = V.etag(f.one('etag'))[1]
            add(1121, g.alone('if-none-match') or any(V.etag(e)[1] == tag for e in g.list('if-none-match')))
        else:
            ims, lm = g.date('if-modified-since'), f.date('last-modified')
            add(1123, not g.present('if-none-match') and ims not in (None, BAD) and lm not in (None, BAD) and ims >= lm)
    if status in (304, 412):
        if method not in ('GET', 'HEAD') and status == 304:
            add(1124)
        elif not q.preconditions:
            add(1125)
        elif q.preconditions == {'if-modified-since'}:
            add(1128, method not in ('GET', 'HEAD'))
        elif q.preconditions <= PRECONDITIONS:
            add(1129, method in ('CONNECT', 'OPTIONS', 'TRACE'))
    if status == 206:
        if not g.present('range'):
            add(1136)
        else:
            add(1137, method != 'GET')
        if byteranges and q.ranges and q.ranges.lower().startswith('bytes='):
            add(1144, len(V.elements(q.ranges.partition('=')[2])) == 1)
        cond = g.one('if-range') if g.okay('if-range') else ''
        if cond[:1] == '"' or cond[:2] == 'W/':
            if f.okay('etag'):
                (w1, t1), (w2, t2) = V.etag(cond), V.etag(f.one('etag'))
                add(1145, w1 or w2 or t1 != t2)
        if g.present('if-range'):
            add(1146, any(flag(n, 'representation_metadata') and n not in ('etag', 'content-location') for n in f.names))
    if status == 416:
        add(1149, not g.present('range'))
        add(1150, q.ranges and q.ranges.lower().startswith('bytes=') and not f.present('content-range'))
    if from_cache:
        add(1172, q.row.get('cacheable') is False)
        add(1170, greater(f.int('age'), q.cache.num('max-age')))
        if q.cache.on('no-cache'):
            add(1173)
        elif not g.present('cache-control'):
            add(1174, 'no-cache' in q.pragma)
    add(1188, stale and not r.codes & {111, 112} and q.cache.get('max-stale') is None and q.cache.get('stale-if-error') is None and
        cache.get('stale-if-error') is None and cache.get('stale-while-revalidate') is None)
    add(1200, status == 428 and q.preconditions)
    if method == 'PATCH':
        add(1214, ok and q.media and suitable_for_patch(q.media) is False)
        add(1215, status == 415 and not f.present('accept-patch'))
    add(1221, f.present('strict-transport-security') and q.tls is False)
    add(1283, status == 421 and q.row.get('cacheable') and not cache.on('no-store'))
    asked = {(n, a) for n, a, _ in q.prefer}
    add(1286, any((n, a) not in asked for n, a, _ in r.applied))
    if early:
        return
    add(1216, method == 'OPTIONS' and 'PATCH' in allow and not f.present('accept-patch'))
    add(1291, f.present('preference-applied') and method == 'GET' and not f.alone('vary') and 'prefer' not in vary)


def links(r):
    """[(parameters)] of each link: [(name, raw)]."""
    out = []
    for v in r.f.values('link'):
        if V.good('link', v):
            for e in V.elements(v):
                out.append([V.pair(p) for p in V.cut(e, ';')[1:] if p])
    return out


def link_rels(r):
    for params in links(r):
        for n, raw in params:
            if n == 'rel':
                rel = V.unquote(raw)
                if rel is not None and V.matches('rel', rel):
                    yield rel.lower().split()
                break


LINK_RULES = {'anchor': 'uri-reference', 'rel': 'rel', 'rev': 'rel', 'hreflang': 'language-tag', 'type': 'link-type', 'title*': 'ext-value'}


def link_text(v):
    out = ''
    for e in V.elements(v):
        head, *params = V.cut(e, ';')
        out += head
        seen = set()
        for p in params:
            if p:
                n, raw = V.pair(p)
                if n in ('rel', 'media', 'title', 'title*', 'type'):
                    if n in seen:       # Repeated, hence ignored
                        continue
                    seen.add(n)
                if raw is not None and not (n in LINK_RULES and not V.matches(LINK_RULES[n], V.unquote(raw))):
                    out += V.unquote(raw)
    return out


def link_rules(m):
    add = m.add
    for params in links(m):
        seen = set()
        for n, raw in params:
            if n in ('rel', 'media', 'title', 'title*', 'type'):
                if n in seen:
                    add(1225)
                    continue
                seen.add(n)
            arg = V.unquote(raw)
            if raw is not None:
                add(1307, n == 'title' and not V.is_quoted(raw))
                add(1308, n == 'hreflang' and V.is_quoted(raw))
                add(1158, n in LINK_RULES and not V.matches(LINK_RULES[n], arg))
            add(1226, n == 'rev')
        add(1309, 'rel' not in seen)
        add(1282, any(n == 'type' and V.unquote(raw) and V.unquote(raw).lower() in ('plain/text', 'text/json', 'application/text') for n, raw in params))


def disposition_rules(r):
    v = r.f.one('content-disposition')
    if v is None or v is BAD:
        return
    _, params = V.parametrized(v)
    names = [n for n, _ in params]
    r.add(1247, len(set(names)) < len(names))
    first = {}
    for n, raw in params:
        first.setdefault(n, raw)
    if 'filename' in first:
        plain = V.unquote(first['filename'])
        r.add(1248, re.search('%[0-9A-Fa-f]{2}', plain))
        r.add(1249, '"' in plain or '\\' in plain)
        r.add(1250, any(ord(c) > 127 for c in plain))
    if 'filename*' in first:
        if 'filename' not in first:
            r.add(1251)
        else:
            r.add(1252, names.index('filename*') < names.index('filename'))


def hsts_rules(r):
    v = r.f.one('strict-transport-security')
    if v is None or v is BAD:
        return
    names, first = hsts_value(r, v)
    r.add(1218, 'max-age' not in names)
    r.add(1219, first.get('max-age') == 0 and 'includesubdomains' in names)
    r.add(1220, len(set(names)) < len(names))


def hsts_value(r, v):
    first, names = {}, []
    for p in V.cut(v, ';'):
        if not p:
            continue
        n, raw = V.pair(p)
        arg = V.unquote(raw)
        names.append(n)
        if n == 'max-age':
            if raw is None:
                r.add(1156)
                arg = BAD
            elif not V.matches('delta-seconds', arg):
                r.add(1158)
                arg = BAD
            else:
                arg = int(arg)
        elif n == 'includesubdomains' and raw is not None:
            r.add(1157)
        first.setdefault(n, arg)
    return names, first


def alt_svc_rules(r):
    for v in r.f.values('alt-svc'):
        if not V.good('alt-svc', v) or v == 'clear':
            continue
        for e in V.elements(v):
            head, *params = V.cut(e, ';')
            proto, _, authority = head.partition('=')
            decoded = re.sub('%([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), proto)
            encoded = ''.join(c if re.match(r"[!#$&'*+.^_`|~0-9A-Za-z-]$", c) else '%%%02X' % ord(c) for c in decoded)
            r.add(1256, encoded != proto)
            r.add(1257, not V.matches('alt-authority', V.unquote(authority)))
            for p in params:
                n, _, raw = p.partition('=')
                arg = V.unquote(raw)
                rule = {'ma': 'delta-seconds', 'persist': 'persist'}.get(n)
                r.add(1158, rule and not V.matches(rule, arg))


EXPECTED = {'invalid_request': 400, 'invalid_token': 401, 'insufficient_scope': 403}


def challenge_rules(r, name, scheme, rest):
    add, q = r.add, r.q
    unquoted_realm(r, rest)
    if scheme == 'basic':
        if isinstance(rest, str):
            add(1273)
            return
        params = [(n, V.unquote(v)) for n, v in rest or []]
        names = {n for n, _ in params}
        add(1206, 'realm' not in names)
        add(1208, any(n == 'charset' and v.lower() != 'utf-8' for n, v in params))
        add(1207, names - {'realm', 'charset'})
    if scheme != 'bearer' or name != 'www-authenticate':
        return
    add(1263, q and q.tls is False)
    if not isinstance(rest, list):
        add(1264)
        return
    params = [(n, V.unquote(v)) for n, v in rest]
    names = [n for n, _ in params]
    add(1265, any(names.count(n) > 1 for n in ('realm', 'scope', 'error', 'error_description', 'error_uri')))
    first = {}
    for n, v in params:
        first.setdefault(n, v)
    for n, rule in (('scope', r'[\x21\x23-\x5b\x5d-\x7e]+( [\x21\x23-\x5b\x5d-\x7e]+)*\Z'), ('error', r'[\x20\x21\x23-\x5b\x5d-\x7e]+\Z'),
                    ('error_description', r'[\x20\x21\x23-\x5b\x5d-\x7e]+\Z')):
        add(1266, n in first and not re.match(rule, first[n]))
    add(1266, 'error_uri' in first and not V.matches('uri-reference', first['error_uri']))
    bearer = q and q.credentials and q.credentials[0] == 'bearer'
    add(1267, r.status == 401 and 'error' not in first and bearer)
    code = first.get('error')
    add(1268, code in EXPECTED and r.status != EXPECTED[code])
    if q and not q.f.present('authorization'):
        token = bearer or 'access_token' in (q.form() or ()) or 'access_token' in q.query
        bodiless = not q.body and q.version in ('HTTP/1.0', 'HTTP/1.1') and not q.f.present('content-length') and not q.f.present('transfer-encoding')
        hidden = q.media == 'application/x-www-form-urlencoded' and q.form() is None and not bodiless
        add(1269, not token and not hidden and {'error', 'error_description', 'error_uri'} & set(first))


RULES = {
    1013, 1018, 1019, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 1028, 1029, 1030, 1031, 1032, 1033, 1034, 1035, 1036, 1037, 1038, 1039, 1040, 1041, 1042, 1045, 1046, 1047, 1048, 1049, 1050, 1051,
    1052, 1053, 1054, 1055, 1056, 1057, 1058, 1059, 1060, 1061, 1062, 1063, 1064, 1066, 1067, 1068, 1070, 1071, 1072, 1073, 1074, 1076, 1077, 1078, 1079, 1080, 1081,
    1082, 1083, 1084, 1085, 1086, 1087, 1088, 1089, 1090, 1092, 1093, 1094, 1095, 1096, 1097, 1098, 1099, 1100, 1101, 1102, 1103, 1104, 1105, 1106, 1110, 1111, 1112,
    1113, 1114, 1115, 1116, 1117, 1118, 1120, 1121, 1122, 1123, 1124, 1125, 1127, 1128, 1129, 1130, 1131, 1132, 1133, 1134, 1135, 1136, 1137, 1138, 1139, 1140, 1141, 1142, 1143, 1144, 1145, 1146,
    1147, 1148, 1149, 1150, 1152, 1153, 1154, 1155, 1156, 1157, 1158, 1159, 1160, 1161, 1162, 1163, 1164, 1165, 1166, 1167, 1168, 1169, 1170, 1171, 1172, 1173, 1174, 1175,
    1176, 1177, 1178, 1179, 1180, 1181, 1182, 1183, 1184, 1185, 1186, 1187, 1188, 1189, 1190, 1191, 1192, 1193, 1194, 1195, 1196, 1197, 1198, 1199, 1200, 1201, 1202,
    1203, 1204, 1205, 1206, 1207, 1208, 1209, 1210, 1211, 1212, 1213, 1214, 1215, 1216, 1217, 1218, 1219, 1220, 1221, 1225, 1226, 1227, 1228, 1230, 1231, 1232, 1233,
    1234, 1235, 1237, 1238, 1239, 1240, 1241, 1242, 1243, 1244, 1245, 1246, 1247, 1248, 1249, 1250, 1251, 1252, 1256, 1257, 1258, 1260, 1261, 1262, 1263, 1264, 1265,
    1266, 1267, 1268, 1269, 1270, 1271, 1272, 1273, 1274, 1275, 1276, 1277, 1280, 1281, 1282, 1283, 1284, 1285, 1286, 1287, 1288, 1289, 1290, 1291, 1292, 1293, 1294, 1295, 1296, 1297, 1299, 1300,
    1301, 1302, 1303, 1304, 1305, 1306, 1307, 1308, 1309, 1310}


def predict(req, resps):
    """[request notices or None, response notices...]."""
    from mc import build
    q = None
    if req is not None:
        q = Request(dict(build.REQ, **req))
        request_rules(q)
    out, final, waiting = [], False, False
    if q is not None:
        waiting = q.f.okay('expect') and q.f.one('expect').lower() == '100-continue'
    for d in resps:
        r = Response(dict(build.RESP, **d), q)
        response_rules(r, final)
        final = final or r.family != 1
        if r.status == 100:
            waiting = False
        r.add(1305, waiting and r.status == 101)
        out.append(r.ids)
    return [None if q is None else q.ids - {None}] + [ids - {None} for ids in out]
