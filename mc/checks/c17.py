"""C17: cacheability, freshness and staleness."""

import itertools

from mc import rulecheck
from mc.ref import tables

ID = 'C17'
CLAIMED = True
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of combinations of caching headers, statuses, methods and request directives; the notices of every exchange are compared '
             'with an independent executable model of the caching rules')
NOTE = '''Cache-Control directives (up to three), Age, Date, Expires, Last-Modified, Pragma, Warning, Vary and the status are combined exhaustively within the
bounds, with request directives and methods; the notices about caching must be exactly those of the model.'''
ASSUMPTIONS = ['dates lie far from the current time (or far in the future), so the clock plays no part',
               'values that do not match the grammar of their field (other than Age and dates) are left to C13']
BOUNDS = {
    'quick': 'sets of <=2 of 24 response directives (3 of 9) x 6 ages x 5 date sets x 7 warning sets; 17 x 17 request directives x pragma x response kinds; all statuses x methods x expiry; '
             'Age x Date x Expires x Last-Modified of 9 x 5 x 7 x 5 values',
    'thorough': 'sets of <=3 directives x the same; two statuses more, request directives in triples'}
MIN_STATES = 500
CASE_TIMEOUT = 600

SCOPE = frozenset([1013, 1118, 1152, 1153, 1154, 1155, 1156, 1157, 1158, 1159, 1160, 1161, 1162, 1163, 1164, 1165, 1166, 1168, 1169, 1170, 1171, 1172, 1173, 1174, 1175,
                   1176, 1177, 1178, 1179, 1180, 1181, 1182, 1183, 1184, 1185, 1186, 1187, 1188, 1189, 1190, 1191, 1192, 1193, 1202, 1235, 1237, 1238, 1241, 1283, 1291,
                   1301, 1302, 1303])

D0, D5, D10, DAY = ['Thu, 31 Dec 2015 18:%s GMT' % x for x in ('26:56', '27:01', '27:06', '59:59')]
DNEXT, DFUTURE = 'Fri, 01 Jan 2016 18:26:57 GMT', 'Sat, 31 Dec 2095 18:26:56 GMT'
BEFORE = 'Thu, 31 Dec 2015 18:26:55 GMT'

RESP_DIRECTIVES = ['max-age=10', 'max-age=0', 's-maxage=10', 's-maxage=0', 'no-cache', 'no-cache="a"', 'no-store', 'private', 'private="a, b"', 'public',
                   'must-revalidate', 'proxy-revalidate', 'no-transform', 'stale-if-error=5', 'stale-while-revalidate=5', 'immutable', 'foo=bar', 'max-age=5',
                   'max-age', 'max-age=x', 'max-age="10"', 'max-stale=1', 'only-if-cached', 'stale-if-error=0']
CORE = ['max-age=10', 's-maxage=10', 'no-cache', 'no-store', 'private', 'public', 'must-revalidate', 'stale-if-error=5', 'immutable']
ODD = ['no-cache=""', 'private=a', 'no-store=1', 'public="x"', 'must-revalidate=', 'immutable=1', 's-maxage', 's-maxage="1"', 'min-fresh=1', 'max-stale', 'NO-CACHE',
       'Max-Age=10', 'max-age=99999999999999999999', 'no-transform=a', 'stale-while-revalidate', 'stale-if-error="a"', 'no-cache="a,, b"', 'no-cache="a b"', 'private=""',
       'max-age=-1', 'no-cache="x"', 'foo', 'foo="a\\"b"', 'max-age=10, max-age=5', 'max-age=5, max-age=10', 'max-age=x, max-age=10', 'no-store, no-store=2']
REQ_DIRECTIVES = ['', 'max-age=10', 'max-age=0', 'max-stale', 'max-stale=5', 'max-stale=0', 'min-fresh=1', 'no-cache', 'no-store', 'no-transform', 'only-if-cached',
                  'stale-if-error=1', 'no-cache=x', 'public', 'foo', 'max-age', 'max-age=5']
AGES = [None, '0', '10', '11', '86400', '86401']
DATES = [[], [('Date', D0)], [('Date', D0), ('Expires', D10)], [('Date', D0), ('Expires', BEFORE)], [('Expires', D10)]]
WARNINGS = [[], ['110'], ['111'], ['112'], ['113'], ['199'], ['214']]
RESP_KINDS = [
    [], [('Age', '11')], [('Age', '11'), ('Cache-Control', 'max-age=10')], [('Age', '5'), ('Cache-Control', 'max-age=10')],
    [('Age', '11'), ('Expires', D10)], [('Age', '86401')], [('Warning', '110 - "x"')], [('Warning', '111 - "x"'), ('Age', '1')], [('Warning', '112 - "x"'), ('Warning', '110 - "y"')],
    [('Warning', '214 - "x"'), ('Cache-Control', 'no-transform')], [('Age', '11'), ('Cache-Control', 'max-age=10, stale-if-error=1')],
    [('Age', '11'), ('Cache-Control', 'max-age=10, stale-while-revalidate=1')], [('Age', '0')], [('Warning', '199 - "x"')]]
STATUSES = [100, 103, 200, 203, 204, 206, 300, 301, 302, 303, 304, 307, 308, 400, 401, 404, 405, 410, 412, 414, 416, 421, 431, 500, 501, 503, 599, 600]


def warn(codes, date=None):
    return [('Warning', '%s - "x"%s' % (c, ' "%s"' % date if date else '')) for c in codes]


def combos(values, n):
    for k in range(n + 1):
        yield from itertools.combinations(values, k)


def responses(space):
    return [{'status': s, 'headers': h, 'body': b'x'} for s, h in space]


def shards(tier):
    n = len(RESP_DIRECTIVES)
    return ([['directives', i] for i in range(-1, n)] + [['odd', i] for i in range(len(ODD))] + [['core', i] for i in range(6)] +
            [['request', i] for i in range(len(REQ_DIRECTIVES))] + [['status', s] for s in range(4)] + [['times', i] for i in range(9)] + [['warnings', i] for i in range(4)])


def cases(shard, tier):
    kind, i = shard
    if kind == 'directives':
        if i < 0:
            yield ('directives', [])
            return
        rest = RESP_DIRECTIVES[i + 1:]
        for more in combos(rest, 1 if tier == 'quick' else 2):
            yield ('directives', [RESP_DIRECTIVES[i]] + list(more))
    elif kind == 'odd':
        for more in [[]] + [[x] for x in RESP_DIRECTIVES[:16]]:
            yield ('odd', [ODD[i]] + more)
            if more and tier == 'thorough':
                yield ('odd', more + [ODD[i]])
    elif kind == 'core':
        for k, c in enumerate(itertools.combinations(CORE, 3)):
            if k % 6 == i:
                yield ('directives', list(c))
    elif kind == 'request':
        for other in REQ_DIRECTIVES:
            if other or not REQ_DIRECTIVES[i]:
                yield ('request', [d for d in (REQ_DIRECTIVES[i], other) if d], tier)
    elif kind == 'status':
        for s in (STATUSES + sorted(set(tables.STATUS) - set(STATUSES)))[i::4]:
            yield ('status', s)
    elif kind == 'times':
        yield ('times', i)
    else:
        yield ('warnings', i)


def check(ctx, req, resps):
    rulecheck.compare(ctx, req, resps, SCOPE)


finish = rulecheck.finisher(SCOPE)


def run(ctx, case):
    kind = case[0]
    if kind == 'x':
        check(ctx, case[1], case[2])
    elif kind in ('directives', 'odd'):
        cc = [('Cache-Control', ', '.join(case[1]))] if case[1] else []
        for dates in DATES:
            space = []
            for age in AGES if kind == 'directives' else AGES[::2]:
                for w in WARNINGS if kind == 'directives' else WARNINGS[::3]:
                    space.append((200, dates + cc + ([('Age', age)] if age else []) + warn(w)))
            if kind == 'directives':
                space.append((404, dates + cc + [('Age', '11')]))
                space.append((501, dates + cc + [('Age', '11')]))
                space.append((421, dates + cc))
            check(ctx, {}, responses(space))
            if dates in DATES[1:3]:
                check(ctx, {'scheme': 'https', 'headers': [('Host', 'a.b'), ('Cache-Control', cc[0][1] if cc else 'max-age=5')], 'version': 'HTTP/2'},
                      [dict(r, version='HTTP/2') for r in responses(space[::5])])
                check(ctx, None, responses(space[::7]))
    elif kind == 'request':
        ds, tier = case[1:]
        value = ', '.join(ds)
        for pragma in (None, 'no-cache', 'foo', 'No-Cache, x=y', 'foo="no-cache"', 'no-cache, no-cache'):
            for method in ('GET', 'POST', 'PUT', 'FOO', 'OPTIONS') if pragma in (None, 'no-cache') or tier == 'thorough' else ('GET',):
                for split in (False, True) if len(ds) == 2 else (False,):
                    h = [('Host', 'a.b')]
                    if split:
                        h += [('Cache-Control', d) for d in ds]
                    elif ds:
                        h.append(('Cache-Control', value))
                    if pragma:
                        h.append(('Pragma', pragma))
                    space = [(s, [('Date', D0)] + k) for s in (200, 404) for k in RESP_KINDS]
                    check(ctx, {'method': method, 'headers': h}, responses(space if split or method == 'GET' else space[1::3]))
    elif kind == 'status':
        s = case[1]
        for method in ('GET', 'HEAD', 'POST', 'PUT', 'DELETE', 'OPTIONS', 'FOO', 'PATCH'):
            space = []
            for age in (None, '11'):
                for extra in ([], [('Expires', D10)], [('Cache-Control', 'max-age=10')], [('Cache-Control', 'no-store')], [('Cache-Control', '')], [('Warning', '113 - "x"')],
                              [('Pragma', 'no-cache')], [('Cache-Control', 'immutable')], [('Cache-Control', 'immutable, max-age=1'), ('Content-Length', '1')],
                              [('Cache-Control', 'immutable'), ('Expires', DNEXT)], [('Cache-Control', 'immutable'), ('Expires', D0)], [('Vary', 'Host')], [('Vary', '*')],
                              [('Vary', 'a, HOST, b')], [('Preference-Applied', 'foo')], [('Preference-Applied', 'foo'), ('Vary', 'prefer')],
                              [('Preference-Applied', 'foo'), ('Vary', '*')], [('Preference-Applied', 'foo'), ('Vary', 'a'), ('Vary', 'b, Prefer')],
                              [('Transfer-Encoding', 'chunked'), ('Cache-Control', 'immutable, no-transform')]):
                    space.append((s, [('Date', D0)] + ([('Age', age)] if age else []) + extra))
            for scheme in ('http', 'https', None):
                check(ctx, {'method': method, 'scheme': scheme, 'target': 'a:1' if method == 'CONNECT' else '/'}, responses(space))
            check(ctx, {'method': method, 'target': 'http://a/', 'version': 'HTTP/1.0'}, [dict(r, version='HTTP/1.0') for r in responses(space)])
        check(ctx, None, responses(space))
    elif kind == 'times':
        ages = [None, '0', '4', '5', '6', '300000000', '9' * 12, '9' * 30, '-1']
        age = ages[case[1]]
        for date, expires, lm in itertools.product([None, D0, D5, DFUTURE, 'x'], [None, D0, BEFORE, D5, D10, DFUTURE, '0'], [None, BEFORE, D0, D5, DFUTURE]):
            base = [(n, v) for n, v in (('Age', age), ('Date', date), ('Expires', expires), ('Last-Modified', lm)) if v is not None]
            space = [(s, base + e) for s in (200, 103, 404)
                     for e in ([], [('Cache-Control', 'max-age=5')], [('Cache-Control', 's-maxage=5')], [('Cache-Control', 'public')],
                               [('Cache-Control', 'max-age=x')], [('Warning', '110 - "x"')], [('Warning', '113 - "x"')],
                               [('Cache-Control', 'immutable')], [('Cache-Control', 'immutable, max-age=0')])
                     if not (expires == '0' and 'immutable' in repr(e))]
            check(ctx, {}, responses(space))
            check(ctx, {'headers': [('Host', 'a.b'), ('Cache-Control', 'max-age=5')]}, responses(space[:9]))
        # Repeated fields
        for a, b in itertools.product(ages[1:], repeat=2):
            check(ctx, {}, responses([(200, [('Date', D0), ('Age', a), ('Age', b)]), (200, [('Date', D0), ('Age', b), ('Cache-Control', 'max-age=5'), ('Cache-Control', 'max-age=9')]),
                                      (200, [('Date', D0), ('Expires', D5), ('Expires', BEFORE), ('Age', a)])]))
    else:
        codes = ['110', '111', '112', '113', '199', '214', '299', '100', '099', '300', '999']
        for k in (1, 2, 3):
            for n, combo in enumerate(itertools.permutations(codes, k)):
                if n % 4 != case[1]:
                    continue
                space = []
                for date in (None, D0, D5) if k < 3 else (None,):
                    for extra in ([], [('Age', '11')], [('Age', '86401')], [('Cache-Control', 'max-age=10'), ('Age', '11')], [('Cache-Control', 'no-transform')],
                                  [('Expires', D10)], [('Via', '1.1 x')]) if k < 3 else ([], [('Age', '86401')]):
                        for s in (200, 203) if k < 3 else (200,):
                            space.append((s, [('Date', D0)] + warn(combo, date) + extra))
                check(ctx, {}, responses(space))
                if k < 3:
                    check(ctx, {'target': 'http://a/', 'headers': [('Host', 'a'), ('User-Agent', 'x')] + warn(combo)}, responses(space))
                    check(ctx, {'headers': [('Host', 'a'), ('User-Agent', 'x'), ('Date', D0)] + warn(combo, D5), 'method': 'PUT', 'body': b'x'}, [])
