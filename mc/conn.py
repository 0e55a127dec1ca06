"""Run the implementation's connection parser and describe what it returned."""

import io


def stream(data, name='x', raw=None, buffer_size=None):
    from httpolice.stream import Stream
    f = io.BufferedReader(raw or io.BytesIO(data), *([buffer_size] if buffer_size else []))
    return Stream(f, name=name)


def parse(inbound, outbound, scheme='http'):
    from httpolice.framing1 import parse_streams
    return list(parse_streams(
        None if inbound is None else stream(inbound, 'in'),
        None if outbound is None else stream(outbound, 'out'), scheme))


def body_of(x):
    from httpolice.structure import Unavailable
    if x is None:
        return None
    if isinstance(x, Unavailable):
        return 'unavailable'
    return bytes(x)


def fields_of(entries):
    return [(str(n).encode('iso-8859-1', 'backslashreplace'), bytes(v)) for n, v in entries]


def ids(obj, scope=None):
    return frozenset(c.id for c in obj.complaints
                     if scope is None or c.id in scope)


def describe(exchanges, scope):
    """Same shape as ref.framing.connection()."""
    out = []
    for e in exchanges:
        if e.request is None and not e.responses:
            for c in e.complaints:
                out.append(('box', c.id))
            continue
        out.append(('exchange', _req(e.request, scope), [_resp(r, scope) for r in e.responses]))
        for c in e.complaints:
            out.append(('box', c.id))
    return out


def _msg(m, scope):
    return {'version': m.version and str(m.version).encode('latin-1'),
            'headers': fields_of(m.header_entries), 'body': body_of(m.body),
            'trailer': fields_of(m.trailer_entries), 'notices': ids(m, scope)}


def _req(m, scope):
    if m is None:
        return None
    d = _msg(m, scope)
    d['method'] = str(m.method).encode('latin-1')
    d['target'] = str(m.target).encode('latin-1')
    return d


def _resp(m, scope):
    d = _msg(m, scope)
    d['status'] = int(m.status)
    d['reason'] = m.reason.encode('latin-1')
    return d


def diff(actual, expected):
    """First difference, as text, or None."""
    if actual == expected:
        return None
    for n in range(max(len(actual), len(expected))):
        a = actual[n] if n < len(actual) else None
        e = expected[n] if n < len(expected) else None
        if a != e:
            return 'item %d\n  expected %r\n  actual   %r' % (n, e, a)
    return None


def kind_of_diff(actual, expected):
    """Coarse stable label of a difference."""
    for a, e in zip(actual, expected):
        if a == e:
            continue
        if a[0] != e[0]:
            return '%s-instead-of-%s' % (_lab(a), _lab(e))
        if a[0] == 'box':
            return 'box-%s-instead-of-%s' % (a[1], e[1])
        for x, y in [(a[1], e[1])] + list(zip(a[2], e[2])):
            if x != y:
                if x is None or y is None:
                    return 'request-presence'
                return 'field-' + '+'.join(sorted(k for k in set(x) | set(y) if x.get(k) != y.get(k)))
        return 'response-count'
    return 'missing-items' if len(actual) < len(expected) else 'extra-items'


def _lab(x):
    return 'exchange' if x[0] == 'exchange' else 'box-%s' % x[1]
