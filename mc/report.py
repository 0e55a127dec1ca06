"""Independent readers of the two report formats."""

import html.parser
import os
import re
import xml.etree.ElementTree as ET

from mc import core
from mc.ref import tables

VOID = {'meta', 'hr', 'base', 'br', 'link', 'img', 'input'}


class Node:
    def __init__(self, tag, attrs=(), parent=None):
        self.tag, self.attrs, self.children, self.parent = tag, dict(attrs), [], parent

    @property
    def classes(self):
        return (self.attrs.get('class') or '').split()

    def text(self):
        return ''.join(c if isinstance(c, str) else c.text() for c in self.children)

    def elements(self):
        return [c for c in self.children if not isinstance(c, str)]

    def walk(self):
        yield self
        for c in self.children:
            if not isinstance(c, str):
                yield from c.walk()

    def find(self, pred):
        return [n for n in self.walk() if pred(n)]

    def cls(self, name):
        return self.find(lambda n: name in n.classes)


class BadHTML(Exception):
    pass


class _Parser(html.parser.HTMLParser):
    CDATA_CONTENT_ELEMENTS = ('script', 'style')

    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.root = Node('#root')
        self.cur = self.root
        self.odd = []

    def handle_starttag(self, tag, attrs):
        if len(set(k for k, _ in attrs)) != len(attrs):
            raise BadHTML('duplicate attribute in <%s>' % tag)
        n = Node(tag, attrs, self.cur)
        self.cur.children.append(n)
        if tag not in VOID:
            self.cur = n

    def handle_startendtag(self, tag, attrs):
        self.cur.children.append(Node(tag, attrs, self.cur))

    def handle_endtag(self, tag):
        if self.cur.tag != tag:
            raise BadHTML('</%s> closes <%s>' % (tag, self.cur.tag))
        self.cur = self.cur.parent

    def handle_data(self, data):
        if self.cur.tag == 'pre' and not self.cur.children and data.startswith('\n'):
            data = data[1:]             # as HTML says
            if not data:
                self.cur.children.append('')
                return
        if self.cur.children and isinstance(self.cur.children[-1], str):
            self.cur.children[-1] += data
        else:
            self.cur.children.append(data)

    def handle_comment(self, data):
        raise BadHTML('comment %r' % data[:80])

    def handle_pi(self, data):
        raise BadHTML('processing instruction %r' % data[:80])

    def unknown_decl(self, data):
        raise BadHTML('declaration %r' % data[:80])

    def handle_decl(self, decl):
        if decl.lower() != 'doctype html':
            raise BadHTML('declaration %r' % decl[:80])


def parse_html(data):
    """Strictly parse an HTML report (balanced tags, no comments) into a tree."""
    p = _Parser()
    p.feed(data.decode('utf-8'))
    p.close()
    if p.cur is not p.root:
        raise BadHTML('unclosed <%s>' % p.cur.tag)
    return p.root


def squash(s):
    return re.sub(r'[ \t\r\n]+', ' ', s).strip()


def html_exchanges(root):
    """[{sections: [{title, notices}], notices}] of an HTML report."""
    out = []
    for div in root.cls('exchange'):
        ex = {'node': div, 'sections': [], 'notices': []}
        for c in div.elements():
            if c.tag == 'section':
                ex['sections'].append({'node': c, 'notices': [_notice(n) for n in c.cls('notice')]})
            elif 'complaints' in c.classes:
                ex['notices'] += [_notice(n) for n in c.cls('notice')]
            elif c.tag != 'hr':
                raise BadHTML('unexpected <%s> in exchange' % c.tag)
        out.append(ex)
    return out


def _notice(n):
    h3 = [c for c in n.elements() if c.tag == 'h3']
    if len(h3) != 1:
        raise BadHTML('notice without a title')
    parts = h3[0].elements()
    if [p.tag for p in parts] != ['abbr', 'span', 'span']:
        raise BadHTML('odd title of notice: %r' % [p.tag for p in parts])
    abbr, ident, title = parts
    sev = [c for c in n.classes if c != 'notice']
    return {'node': n, 'id': ident.text().strip(), 'short': abbr.text().strip(), 'severity': sev, 'abbr_title': abbr.attrs.get('title'),
            'title': squash(title.text())}


LINE = re.compile(r'([CDE]) ([0-9]{4}) (.*)')


def text_lines(data):
    """[(kind, ...)] of a text report: ('mark', text) or ('notice', letter, id, title)."""
    text = data.decode('utf-8')
    if not text:
        return []
    if not text.endswith('\n'):
        raise ValueError('unterminated line')
    out = []
    for line in text[:-1].split('\n'):
        m = LINE.fullmatch(line)
        if line.startswith('------------'):
            out.append(('mark', line))
        elif m:
            out.append(('notice', m.group(1), int(m.group(2)), m.group(3)))
        else:
            raise ValueError('neither a marker nor a notice: %r' % line)
    return out


SEVERITIES = ['debug', 'comment', 'error']
_catalog = {}


def catalog():
    """{id: (severity, title pieces, element)} straight from notices.xml; a piece is a str or None for a variable."""
    if not _catalog:
        tree = ET.parse(os.path.join(core.REPO, 'httpolice', 'notices.xml'))
        for e in tree.getroot():
            if e.tag in SEVERITIES:
                t = e.find('title')
                _catalog[int(e.get('id'))] = (e.tag, _pieces(t), e)
    return _catalog


def _pieces(e):
    out = [e.text or '']
    for c in e:
        if c.tag == 'var':
            out.append(None)
        else:
            out += _pieces(c)
        out.append(c.tail or '')
    return out


_patterns = {}
TYPO = {'\u201c': '"', '\u201d': '"', '\u2018': "'", '\u2019': "'", '\u2014': '--', '\u2013': '-', '\u2212': '-', '\u00a0': ' '}


def title_pattern(id_, plain):
    """Regex that the displayed title of this notice must match."""
    if (id_, plain) not in _patterns:
        rx = ''
        for p in catalog()[id_][1]:
            if p is None:
                rx += '(?s:.*)'
            else:
                p = re.sub(r'\s+', ' ', p)
                if plain:
                    p = ''.join(TYPO.get(c, c) for c in p)
                rx += re.escape(p).replace('\\ ', r'\s*')
        _patterns[id_, plain] = re.compile(r'\s*' + rx + r'\s*')
    return _patterns[id_, plain]


def expected(exchanges):
    """What the reports must show: [(request ids|None, [response ids], exchange ids)], from the public `notices`."""
    return [(None if e.request is None else [n.id for n in e.request.notices],
             [[n.id for n in r.notices] for r in e.responses],
             [n.id for n in e.notices]) for e in exchanges]


def check_html(data, exchanges):
    """None, or what is wrong with the structure of the HTML report."""
    want = [w for w, e in zip(expected(exchanges), exchanges) if w != (None, [], [])]
    try:
        root = parse_html(data)
        got = html_exchanges(root)
    except BadHTML as exc:
        return 'bad HTML: %s' % exc
    if len(root.find(lambda n: n.tag == 'body')) != 1:
        return 'no body'
    if len(got) != len(want):
        return '%d exchanges shown instead of %d' % (len(got), len(want))
    for n, (g, w) in enumerate(zip(got, want)):
        sections = ([w[0]] if w[0] is not None else []) + w[1]
        if len(g['sections']) != len(sections):
            return 'exchange %d: %d messages shown instead of %d' % (n, len(g['sections']), len(sections))
        for k, (gs, ws) in enumerate(list(zip([s['notices'] for s in g['sections']], sections)) + [(g['notices'], w[2])]):
            if [x['id'] for x in gs] != [str(i) for i in ws]:
                return 'exchange %d, part %d: notices %r instead of %r' % (n, k, [x['id'] for x in gs], ws)
            for x in gs:
                sev, _, _ = catalog()[int(x['id'])]
                if x['severity'] != [sev] or x['short'] != sev[0].upper() or x['abbr_title'] != sev:
                    return 'notice %s shown as %r %r %r instead of %s' % (x['id'], x['short'], x['severity'], x['abbr_title'], sev)
                if not title_pattern(int(x['id']), False).fullmatch(x['title']):
                    return 'notice %s is titled %r' % (x['id'], x['title'])
    total = sum(len(s['notices']) for g in got for s in g['sections']) + sum(len(g['notices']) for g in got)
    if len(root.cls('notice')) != total or len(root.find(lambda n: n.tag == 'section')) != sum(len(g['sections']) for g in got):
        return 'something is shown outside of its exchange'
    return None


def check_text(data, exchanges):
    try:
        lines = text_lines(data)
    except ValueError as exc:
        return str(exc)
    want = []
    for e, (req, resps, own) in zip(exchanges, expected(exchanges)):
        block = [('notice', i) for i in req or []]
        for r, ids in zip(e.responses, resps):
            if ids:
                reason = r.reason or tables.STATUS.get(int(r.status), {}).get('title') or '(unknown)'
                block += [('mark', '------------ response: %d %s' % (r.status, clean(str(reason))))] + [('notice', i) for i in ids]
        block += [('notice', i) for i in own]
        if block:
            if e.request is not None:
                m = '------------ request: %s %s' % (clean(str(e.request.method)), clean(str(e.request.target)))
            elif e.responses:
                m = '------------ unknown request'
            else:
                m = '------------'
            want += [('mark', m)] + block
    if [x[0] for x in lines] != [x[0] for x in want]:
        return 'lines %r instead of %r' % ([x[:3] for x in lines], want)
    for g, w in zip(lines, want):
        if g[0] == 'mark':
            # Long ones may be cut.
            cut = len(g[1]) >= 50 and g[1].endswith('...') and w[1].startswith(g[1][:-3])
            if g[1] != w[1] and not cut:
                return 'marker %r instead of %r' % (g[1], w[1])
        else:
            sev, _, _ = catalog()[w[1]]
            if g[2] != w[1] or g[1] != sev[0].upper():
                return 'line %r instead of notice %d (%s)' % (g, w[1], sev)
            if not title_pattern(w[1], True).fullmatch(g[3]):
                return 'notice %d is titled %r' % (w[1], g[3])
    return None


_BAD = re.compile('[\x00-\x08\x0b\x0c\x0e-\x1f\x7f-\x9f\ud800-\udfff\ufdd0-\ufdef\ufffe\uffff]')


def clean(s, newlines=True):
    """Replace what cannot be printed (and line breaks)."""
    s = _BAD.sub('\ufffd', s)
    return re.sub('[\r\n]', '\ufffd', s) if newlines else s
