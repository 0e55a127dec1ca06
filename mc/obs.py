"""Observations of analysed exchanges, as comparable plain data."""

import io
import re

from mc import conn


def objects(exch):
    """The exchange itself, its request and its responses, with labels."""
    out = [('exchange', exch)]
    if exch.request is not None:
        out.append(('request', exch.request))
    for n, r in enumerate(exch.responses):
        out.append(('response%d' % n, r))
    return out


def notices(exch):
    """{label: [ids in order]}"""
    return {label: [c.id for c in o.complaints] for label, o in objects(exch)}


def notice_sets(exch):
    return {label: frozenset(c.id for c in o.complaints) for label, o in objects(exch)}


def raw(exch):
    """The fields that were given, not derived."""
    out = []
    r = exch.request
    if r is not None:
        out.append(('request', r.scheme, str(r.method), str(r.target), r.version and str(r.version),
                    conn.fields_of(r.header_entries), conn.body_of(r.body), conn.fields_of(r.trailer_entries)))
    else:
        out.append(None)
    for p in exch.responses:
        out.append(('response', p.version and str(p.version), int(p.status), p.reason,
                    conn.fields_of(p.header_entries), conn.body_of(p.body), conn.fields_of(p.trailer_entries)))
    return out


def text(exchanges):
    from httpolice import text_report
    buf = io.BytesIO()
    text_report(exchanges, buf)
    return buf.getvalue()


def html(exchanges):
    from httpolice import html_report
    buf = io.BytesIO()
    html_report(exchanges, buf)
    return buf.getvalue()


_REF = re.compile(rb'(data-ref-(?:id|to)=")([^"]*)(")')
_REMARK = re.compile(rb'<p class="message-remark">.*?</p>', re.S)


def normal_html(data, remarks=False):
    """HTML report with object references renumbered in order of appearance."""
    if not remarks:
        data = _REMARK.sub(b'', data)
    seen = {}

    def repl(m):
        return m.group(1) + b' '.join(b'%d' % seen.setdefault(x, len(seen)) for x in m.group(2).split()) + m.group(3)
    return _REF.sub(repl, data)


_TO = re.compile(rb'data-ref-to="([^"]*)"')
_ID = re.compile(rb'data-ref-id="([^"]*)"')


def canon_html(data, remarks=True):
    """HTML report where references are renumbered, and those without a visible target dropped."""
    shown = set(_ID.findall(data))
    data = _TO.sub(lambda m: b'data-ref-to="%s"' % b' '.join(x for x in m.group(1).split() if x in shown), data)
    return normal_html(data, remarks)


def analyse(inbound, outbound, scheme='http'):
    from httpolice import check_exchange
    exchanges = conn.parse(inbound, outbound, scheme)
    for e in exchanges:
        check_exchange(e)
    return exchanges


def full(exchanges):
    return [(raw(e), notices(e)) for e in exchanges]
