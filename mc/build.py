"""Build exchanges through the public API from plain data.

A message is a dict with any of: scheme, method, target, version, headers, body, trailers, remark / status, reason.
A body is bytes, None (unknown), or 'U' (known to exist but unavailable).
"""

REQ = {'scheme': 'http', 'method': 'GET', 'target': '/', 'version': 'HTTP/1.1',
       'headers': [('Host', 'example.com'), ('User-Agent', 'demo')], 'body': b'', 'trailers': None, 'remark': None}
RESP = {'version': 'HTTP/1.1', 'status': 200, 'reason': 'OK', 'headers': [], 'body': b'', 'trailers': None, 'remark': None}


def _body(b):
    from httpolice.structure import Unavailable
    return Unavailable() if isinstance(b, str) else b


def request(d):
    import httpolice
    d = dict(REQ, **d)
    r = httpolice.Request(d['scheme'], d['method'], d['target'], d['version'], d['headers'], _body(d['body']),
                          d['trailers'], remark=d['remark'])
    if 'is_to_proxy' in d:
        r.is_to_proxy = d['is_to_proxy']
    return r


def response(d):
    import httpolice
    d = dict(RESP, **d)
    return httpolice.Response(d['version'], d['status'], d['reason'], d['headers'], _body(d['body']), d['trailers'],
                              remark=d['remark'])


def exchange(req, resps):
    import httpolice
    return httpolice.Exchange(None if req is None else request(req), [response(r) for r in resps])


def checked(req, resps):
    import httpolice
    e = exchange(req, resps)
    httpolice.check_exchange(e)
    return e


def ids(e):
    """[request ids or None, response ids...] as frozensets."""
    return [None if e.request is None else frozenset(c.id for c in e.request.complaints)] + \
        [frozenset(c.id for c in r.complaints) for r in e.responses]
