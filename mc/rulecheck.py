"""Compare the notices of the tool with those of the model (mc.ref.rules) on one exchange."""

from mc import build
from mc.ref import rules


def data_of(m, request):
    """Plain data of a message of the tool."""
    from httpolice.structure import okay
    f = lambda es: [(str(e.name), e.value.decode('latin-1')) for e in es]
    d = {'version': m.version and str(m.version), 'headers': f(m.header_entries), 'trailers': f(m.trailer_entries),
         'body': m.body if m.body is None or okay(m.body) else 'U'}
    if request:
        d.update(method=str(m.method), target=str(m.target), scheme=m.scheme)
    else:
        d.update(status=int(m.status), reason=m.reason)
    return d


def actual(req, resps):
    return build.ids(build.checked(req, resps))


def brief(req, resps):
    out = []
    for base, ds in ((build.REQ, [req] if req is not None else []), (build.RESP, resps)):
        for d in ds:
            out.append('{%s}' % ', '.join('%s=%r' % (k, d[k]) for k in d if d[k] != base.get(k) or k == 'status'))
    return ('' if req is not None else '(no request) ') + ' -> '.join(out)


def compare(ctx, req, resps, scope, key='', got=None, case=None):
    """Checks the exchange; returns the notices within the scope."""
    want = [None if w is None else frozenset(w) & scope for w in rules.predict(req, resps)]
    got = [None if g is None else g & scope for g in (actual(req, resps) if got is None else got)]
    ctx.step()
    ctx.state(tuple(got))
    for k, g in enumerate(got):
        for i in g or ():
            ctx.outcome((i, 'request' if k == 0 else 'response'))
    if want != got:
        for k, (w, g) in enumerate(zip(want, got)):
            if w != g:
                who = 'request' if k == 0 else 'response %d' % k
                missing, extra = sorted(w - g), sorted(g - w)
                label = '%s%s' % (key, ' '.join(['-%d' % i for i in missing] + ['+%d' % i for i in extra]))
                ctx.violate(label, '%s: the %s should%s%s' % (
                    brief(req, resps if len(resps) < 3 else resps[:1] if k == 0 else [resps[k - 1]]), who, ' have notice %s' % ', '.join(map(str, missing)) if missing else '',
                    '%s not have notice %s' % (' and' if missing else '', ', '.join(map(str, extra))) if extra else ''), case=case or ('x', req, resps))
    return got


def compare_exchange(ctx, e, scope, key='', case=None):
    """The same for an exchange that comes from a parser."""
    import httpolice
    httpolice.check_exchange(e)
    return compare(ctx, e.request and data_of(e.request, True), [data_of(r, False) for r in e.responses], scope, key, build.ids(e), case)


def silenced(req, resps):
    """Does any message silence notices by itself? (The model does not know about that: see C09.)"""
    return any(n.lower() == 'httpolice-silence' for d in ([req] if req else []) + resps for n, _ in d['headers'] + list(d['trailers'] or []))


def finisher(scope):
    """For a check's `finish`: counts the notices that were raised at least once (the rest were only seen to be absent)."""
    def finish(tier, outcomes, counters, total):
        seen = {i for i, _ in outcomes}
        counters['notices judged'] = len(scope)
        counters['notices raised at least once'] = len(seen & scope)
        missing = sorted(scope - seen)
        if missing:
            counters['never raised: %s' % ' '.join(map(str, missing))] = len(missing)
        return []
    return finish
