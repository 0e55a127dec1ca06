"""Independent reference model of HTTP/1.x connection framing (RFC 7230 section 3).

A pure function from the bytes of both directions to the list of what must be
reported: exchanges (with their messages) and complaint boxes.  Written on
whole byte strings and offsets; shares no code with the implementation.
"""

import re

from mc.ref import codings as codings_

UNAVAILABLE = 'unavailable'
MAX_LINE = 16384
MAX_BODY = 1 << 30

# Everything the framing layer may say about a message or a connection.
FRAMING_NOTICES = frozenset([
    1001, 1002, 1003, 1004, 1005, 1006, 1007, 1008, 1009, 1010, 1011, 1012,
    1016, 1027, 1224, 1298])

TCHAR = br"[!#$%&'*+\-.^_`|~0-9A-Za-z]"
_QS = br'"(?:[\t \x21\x23-\x5b\x5d-\x7e\x80-\xff]|\\[\t \x21-\x7e\x80-\xff])*"'
_PARAM = (br'[ \t]*;[ \t]*' + TCHAR + br'+[ \t]*=[ \t]*(?:' + TCHAR + br'+|' + _QS + br')')
_CODING = re.compile(br'(' + TCHAR + br'+)((?:' + _PARAM + br')*)')
_BUILT_IN = (b'chunked', b'compress', b'deflate', b'gzip')


class Bad(Exception):
    """The direction cannot be understood any more."""


class Side:

    def __init__(self, data):
        self.data = data
        self.pos = 0
        self.sane = True
        self.pending = set()        # framing notices not yet attributed

    @property
    def left(self):
        return len(self.data) - self.pos

    # An empty direction is only noticed to be at its end once something has
    # been read from it, hence `touched`.
    touched = False

    @property
    def at_end(self):
        return self.touched and self.left == 0

    @property
    def good(self):
        return self.sane and not self.at_end

    def line(self):
        self.touched = True
        end = self.data.find(b'\n', self.pos, self.pos + MAX_LINE)
        if end < 0:
            self.pos = min(len(self.data), self.pos + MAX_LINE)
            self.sane = False
            raise Bad
        raw = self.data[self.pos:end]
        self.pos = end + 1
        if raw.endswith(b'\r'):
            return raw[:-1]
        self.pending.add(1224)
        return raw

    def next_is(self, chars):
        return self.data[self.pos:self.pos + 1] in chars

    def take(self, n):
        self.touched = True
        r = self.data[self.pos:self.pos + n]
        self.pos += len(r)
        if len(r) < n:
            self.sane = False
            raise Bad
        return r

    def rest(self):
        self.touched = True
        r = self.data[self.pos:]
        self.pos = len(self.data)
        return r

    def fail(self):
        self.sane = False
        raise Bad

    def flush(self):
        r, self.pending = self.pending, set()
        return r

    def fields(self):
        r = []
        while self.left and not self.next_is((b'\r', b'\n')):
            line = self.line()
            name, colon, value = line.partition(b':')
            if not colon:
                self.fail()
            parts = [value]
            while self.left and self.next_is((b' ', b'\t')):
                self.pending.add(1016)
                parts.append(b' ' + self.line().lstrip(b' \t'))
            r.append((name, b''.join(parts).strip(b' \t')))
        return r

    def empty_line(self):
        if self.line() != b'':
            self.fail()


def field(headers, name):
    return [v for n, v in headers if n.lower() == name]


def parse_transfer_codings(values):
    """List of lowercased coding names; None for an unparseable field."""
    out = []
    for v in values:
        codings = _one_te_field(v)
        if codings is None:
            out.append(None)
        else:
            out.extend(codings)
    return out


def _one_te_field(v):
    # 1#transfer-coding, with empty list elements allowed.
    out, pos, need_comma = [], 0, False
    ws = re.compile(br'[ \t]*')
    n = len(v)
    while True:
        start = pos
        pos = ws.match(v, pos).end()
        if pos >= n:
            break
        if v[pos:pos + 1] == b',':
            need_comma = False
            pos += 1
            continue
        if need_comma:
            return None
        m = _CODING.match(v, pos)
        if not m:
            return None
        name = m.group(1).lower()
        if m.group(2) and name in _BUILT_IN:
            return None
        out.append(name)
        pos = m.end()
        need_comma = True
    del start
    return out or None


def content_length(values):
    """-> ('none',) / ('bad',) / ('ok', n)"""
    if not values:
        return ('none',)
    v = values[-1]
    if not re.match(br'\A[0-9]+\Z', v):
        return ('bad',)
    return ('ok', int(v[-400:]) if len(v) > 400 and v[:-400].strip(b'0') == b''
            else (MAX_BODY + 1 if len(v) > 400 else int(v)))


def strip_codings(msg, codings):
    """Undo the transfer codings that remain after the outermost `chunked`."""
    codings = list(codings)
    while codings and msg['body'] != UNAVAILABLE:
        c = codings.pop()
        if c == b'chunked':
            msg['notices'].add(1002)
            msg['body'] = UNAVAILABLE
        elif c in (b'gzip', b'x-gzip', b'deflate'):
            try:
                msg['body'] = codings_.DECODE[c.decode()](msg['body'])
            except codings_.Corrupt:
                msg['notices'].add(1027)
                msg['body'] = UNAVAILABLE
        else:
            if c is not None:
                msg['notices'].add(1003)
            msg['body'] = UNAVAILABLE


def chunked(msg, side):
    data, trailer = [], []
    total = 0
    try:
        while True:
            line = side.line()
            size_s = line.partition(b';')[0].rstrip(b' \t')
            if not re.match(br'\A[0-9A-Fa-f]+\Z', size_s):
                side.fail()
            size = int(size_s, 16)
            if size == 0:
                break
            total += size
            if total > MAX_BODY:
                side.sane = False
                msg['notices'].add(1298)
                msg['body'] = UNAVAILABLE
                return
            data.append(side.take(size))
            side.empty_line()
        trailer = side.fields()
        side.empty_line()
    except Bad:
        msg['notices'].add(1005)
        msg['body'] = UNAVAILABLE
        return
    msg['notices'] |= side.flush()
    msg['body'] = b''.join(data)
    msg['trailer'] = trailer


def by_length(msg, side, cl):
    if cl[0] == 'bad':
        msg['body'] = UNAVAILABLE
        side.sane = False
    elif cl[1] > MAX_BODY:
        msg['body'] = UNAVAILABLE
        msg['notices'].add(1298)
        side.sane = False
    else:
        try:
            msg['body'] = side.take(cl[1])
        except Bad:
            msg['notices'].add(1004)
            msg['body'] = UNAVAILABLE


def request(side):
    try:
        line = side.line()
        parts = line.split(b' ')
        if len(parts) != 3 or not re.match(br'\AHTTP/[0-9]\.[0-9]\Z', parts[2]):
            side.fail()
        headers = side.fields()
        side.empty_line()
    except Bad:
        return None
    msg = {'method': parts[0], 'target': parts[1], 'version': parts[2],
           'headers': headers, 'trailer': [], 'notices': side.flush()}
    te = field(headers, b'transfer-encoding')
    if te:
        codings = parse_transfer_codings(te)
        if codings[-1] == b'chunked':
            chunked(msg, side)
        else:
            msg['body'] = UNAVAILABLE
            msg['notices'].add(1001)
            side.sane = False
        strip_codings(msg, codings[:-1])
    else:
        cl = content_length(field(headers, b'content-length'))
        # RFC 7230 3.3.3: no length means no body.
        if cl[0] == 'none':
            msg['body'] = b''
        else:
            by_length(msg, side, cl)
    return msg


def response(side, method):
    try:
        line = side.line()
        parts = line.split(b' ', 2)
        if len(parts) != 3 or not re.match(br'\AHTTP/[0-9]\.[0-9]\Z', parts[0]) \
                or not re.match(br'\A[0-9]{3}\Z', parts[1]):
            side.fail()
        headers = side.fields()
        side.empty_line()
    except Bad:
        return None
    status = int(parts[1])
    msg = {'version': parts[0], 'status': status, 'reason': parts[2],
           'headers': headers, 'trailer': [], 'notices': side.flush()}
    te = field(headers, b'transfer-encoding')
    cl = content_length(field(headers, b'content-length'))
    if status == 101:
        msg['body'] = b''
        msg['notices'].add(1011)
        side.sane = False
    elif method == b'CONNECT' and 200 <= status <= 299:
        msg['body'] = b''
        msg['notices'].add(1012)
        side.sane = False
    elif 100 <= status <= 199 or status in (204, 304) or method == b'HEAD':
        msg['body'] = b''
    elif te:
        codings = parse_transfer_codings(te)
        if codings[-1] == b'chunked':
            chunked(msg, side)
            codings.pop()
        else:
            msg['body'] = side.rest()
        strip_codings(msg, codings)
    elif cl[0] != 'none':
        by_length(msg, side, cl)
    else:
        msg['body'] = side.rest()
    return msg


def responses(side, method):
    out = []
    while side.good:
        r = response(side, method)
        if r is None:
            return out, 1009
        out.append(r)
        if not 100 <= r['status'] <= 199 or r['status'] == 101:
            break
    return out, None


def connection(inbound, outbound):
    """-> list of ('exchange', req or None, [resp]) and ('box', notice id)."""
    out = []
    i = Side(inbound) if inbound is not None else None
    o = Side(outbound) if outbound is not None else None
    while i and i.good:
        req = request(i)
        if req is None:
            out.append(('box', 1006))
            break
        resps, box = [], None
        if o and o.good:
            resps, box = responses(o, req['method'])
            if resps:
                last = resps[-1]['status']
                if last == 101 or (req['method'] == b'CONNECT' and 200 <= last <= 299):
                    i.sane = False
        out.append(('exchange', req, resps))
        if box:
            out.append(('box', box))
    if i and not i.at_end:
        out.append(('box', 1007))
    if o and o.good:
        if i:
            out.append(('box', 1008))
        while o.good:
            resps, box = responses(o, None)
            if resps:
                out.append(('exchange', None, resps))
            if box:
                out.append(('box', box))
    if o and not o.at_end:
        out.append(('box', 1010))
    return out
