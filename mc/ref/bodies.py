"""Recognisers of body formats, written from their specifications: JSON (RFC 8259), XML 1.0 with namespaces, URL-encoded forms."""

import re

from mc.ref import codings, multipart, tables, values as V

CODECS = {'utf-8': 'utf-8', 'utf8': 'utf-8', 'us-ascii': 'ascii', 'ascii': 'ascii', 'iso-8859-1': 'latin-1', 'latin1': 'latin-1', 'latin-1': 'latin-1', 'windows-1252': 'cp1252',
          'utf-16': 'utf-16', 'utf-16le': 'utf-16-le', 'utf-16be': 'utf-16-be', 'koi8-r': 'koi8-r', 'shift_jis': 'shift_jis'}


# JSON

WS = re.compile(r'[ \t\n\r]*')
NUMBER = re.compile(r'-?(?:0|[1-9][0-9]*)(?:\.[0-9]+)?(?:[eE][+-]?[0-9]+)?')
STRING = re.compile(r'"(?:[^"\\\x00-\x1f]|\\["\\/bfnrt]|\\u[0-9A-Fa-f]{4})*"')


def is_json(text):
    def space(i):
        return WS.match(text, i).end()

    def items(i, close, one):
        i = space(i)
        if text[i:i + 1] == close:
            return i + 1
        while True:
            i = one(i)
            if i is None:
                return None
            i = space(i)
            if text[i:i + 1] == close:
                return i + 1
            if text[i:i + 1] != ',':
                return None
            i = space(i + 1)

    def member(i):
        m = STRING.match(text, i)
        if not m:
            return None
        i = space(m.end())
        return value(space(i + 1)) if text[i:i + 1] == ':' else None

    def value(i):
        c = text[i:i + 1]
        if c == '[':
            return items(i + 1, ']', value)
        if c == '{':
            return items(i + 1, '}', member)
        for word in ('true', 'false', 'null'):
            if text.startswith(word, i):
                return i + len(word)
        m = (STRING if c == '"' else NUMBER).match(text, i)
        return m.end() if m else None

    end = value(space(0))
    return end is not None and space(end) == len(text)


# XML

NAME = '[A-Za-z_:\xc0-\xd6\xd8-\xf6\xf8-\xff][A-Za-z0-9_:.\xb7\xc0-\xd6\xd8-\xf6\xf8-\xff-]*'
S = '[ \t\r\n]'
BAD_CHAR = re.compile('[\x00-\x08\x0b\x0c\x0e-\x1f\ufffe\uffff]')
DECLARATION = re.compile(r'''<\?xml%s+version%s*=%s*("1\.[0-9]+"|'1\.[0-9]+')(?:%s+encoding%s*=%s*("[A-Za-z][A-Za-z0-9._-]*"|'[A-Za-z][A-Za-z0-9._-]*'))?(?:%s+standalone%s*=%s*("yes"|"no"|'yes'|'no'))?%s*\?>'''
                         % ((S,) * 10))
ATTRIBUTE = re.compile(r'''%s+(%s)%s*=%s*("[^"<]*"|'[^'<]*')''' % (S, NAME, S, S))
REFERENCE = re.compile(r'&(?:(amp|lt|gt|quot|apos)|#([0-9]+)|#x([0-9A-Fa-f]+));')


def char_ok(n):
    return n in (9, 10, 13) or 32 <= n <= 0xd7ff or 0xe000 <= n <= 0xfffd or 0x10000 <= n <= 0x10ffff


def references_ok(text):
    i = 0
    while True:
        i = text.find('&', i)
        if i < 0:
            return True
        m = REFERENCE.match(text, i)
        if not m or (m.group(2) and not char_ok(int(m.group(2)))) or (m.group(3) and not char_ok(int(m.group(3), 16))):
            return False
        i = m.end()


def qname_ok(name):
    prefix, colon, local = name.partition(':')
    return not colon or bool(prefix and local and ':' not in local and re.match(NAME, local))


class Malformed(Exception):
    pass


class Entities(Exception):
    pass


def need(condition):
    if not condition:
        raise Malformed


def is_xml(text):
    """True, False, or 'entities' if the document declares entities (and is well-formed up to that point)."""
    try:
        document(text)
    except Malformed:
        return False
    except Entities:
        return 'entities'
    return True


def document(text):
    m = DECLARATION.match(text)
    i = m.end() if m else 0
    stack, seen_root, seen_doctype = [], False, False
    need(not BAD_CHAR.search(text[:i]))
    while i < len(text):
        if text.startswith('<!--', i):
            end = text.find('--', i + 4)
            need(end >= 0 and text.startswith('-->', end) and not BAD_CHAR.search(text[i:end]))
            i = end + 3
        elif text.startswith('<?', i):
            m = re.compile(r'<\?(%s)(?:%s(.*?))?\?>' % (NAME, S), re.S).match(text, i)
            need(m and m.group(1).lower() != 'xml' and ':' not in m.group(1) and not BAD_CHAR.search(m.group()))
            i = m.end()
        elif stack and text.startswith('<![CDATA[', i):
            end = text.find(']]>', i)
            need(end >= 0 and not BAD_CHAR.search(text[i:end]))
            i = end + 3
        elif text.startswith('<!DOCTYPE', i):
            need(not seen_root and not stack and not seen_doctype)
            m = re.compile(r'<!DOCTYPE%s+(%s)%s*(\[)?' % (S, NAME, S)).match(text, i)
            need(m)
            seen_doctype = True
            i = m.end()
            if m.group(2):
                e = re.compile(r'''%s*<!ENTITY%s+(%s)%s+("[^"%%&]*"|'[^'%%&]*')%s*>''' % (S, S, NAME, S, S)).match(text, i)
                if e:
                    raise Entities
                e = re.compile(r'%s*\]%s*' % (S, S)).match(text, i)
                need(e)
                i = e.end()
            need(text.startswith('>', i))
            i += 1
        elif text.startswith('</', i):
            m = re.compile(r'</(%s)%s*>' % (NAME, S)).match(text, i)
            need(m and stack and stack[-1][0] == m.group(1))
            stack.pop()
            i = m.end()
        elif text.startswith('<', i):
            m = re.compile('<(%s)' % NAME).match(text, i)
            need(m and (stack or not seen_root))
            name, i, attributes = m.group(1), m.end(), []
            while True:
                a = ATTRIBUTE.match(text, i)
                if not a:
                    break
                value = a.group(2)[1:-1]
                need(references_ok(value) and not BAD_CHAR.search(value) and a.group(1) not in [n for n, _ in attributes])
                attributes.append((a.group(1), value))
                i = a.end()
            m = re.compile('%s*(/?)>' % S).match(text, i)
            need(m)
            i = m.end()
            scope = dict(stack[-1][1]) if stack else {'xml': 'XML'}
            for n, value in attributes:
                need(qname_ok(n))
                if n.startswith('xmlns:'):
                    need(value and n[6:] not in ('xml', 'xmlns'))
                    scope[n[6:]] = value
            need(qname_ok(name) and (':' not in name or name.partition(':')[0] in scope))
            expanded = set()
            for n, _ in attributes:
                prefix, colon, local = n.partition(':')
                if prefix != 'xmlns':
                    need(not colon or prefix in scope)
                    key = (scope[prefix], local) if colon else n
                    need(key not in expanded)
                    expanded.add(key)
            seen_root = True
            if not m.group(1):
                stack.append((name, scope))
        else:
            end = text.find('<', i)
            end = len(text) if end < 0 else end
            data = text[i:end]
            if stack:
                need(references_ok(data) and ']]>' not in data and not BAD_CHAR.search(data))
            else:
                need(not data.strip(' \t\r\n'))
            i = end
    need(seen_root and not stack)


def xml_text(body, charset):
    """The text of an XML document, None if it cannot be decoded, 'unknown' (wrapped) if its encoding is not supported."""
    for mark, codec in ((b'\xef\xbb\xbf', 'utf-8'), (b'\xff\xfe', 'utf-16-le'), (b'\xfe\xff', 'utf-16-be')):
        if body.startswith(mark):
            return try_decode(body[len(mark):], codec)
    if charset is not None:
        codec = CODECS.get(charset.lower())
        text = codec and try_decode(body, codec)
        if text is not None:
            return text
    m = re.match(rb'''<\?xml[ \t\r\n]+version[ \t\r\n]*=[ \t\r\n]*["'][^"']*["'][ \t\r\n]+encoding[ \t\r\n]*=[ \t\r\n]*["']([A-Za-z0-9._-]+)["']''', body)
    if m:
        name = m.group(1).decode().lower()
        if name not in CODECS:
            return ('unknown',)
        return try_decode(body, CODECS[name])
    return try_decode(body, 'utf-8')


def try_decode(body, codec):
    try:
        return body.decode(codec)
    except UnicodeError:
        return None


# URL-encoded forms

FORM = re.compile(rb"[A-Za-z0-9*._%&=+-]*\Z")       # What an encoder produces


def rules(m, full):
    """The notices about the body of a message. `full`: does it carry a complete instance of its type?"""
    ids = set()
    for name in ('content-type', 'accept', 'accept-patch', 'accept-post'):
        for v in m.f.values(name):
            if V.good(name, v):
                ids |= {1282 for e in V.elements(v) if V.cut(e, ';')[0].lower() in ('plain/text', 'text/json', 'application/text')}
    body = m.body
    if not isinstance(body, bytes):
        return ids
    coding = [e.lower() if V.good('content-encoding', v) else None
              for v in m.f.values('content-encoding') for e in (V.elements(v) if V.good('content-encoding', v) else [None])]
    while coding and body:
        c = coding.pop()
        if c not in codings.DECODE:
            return ids | ({1036} if c else set())
        try:
            body = codings.DECODE[c](body)
        except codings.Corrupt:
            return ids | ({1037} if full else set())
    if m.media is None or not full:
        return ids
    charset = next((V.unquote(v) for n, v in m.media_params if n == 'charset'), None)
    row = tables.T['media_type'].get(m.media, {})
    if row.get('is_json') or m.media.endswith('+json'):
        codec = CODECS.get(charset.lower()) if charset is not None else 'utf-8'
        text = codec and try_decode(body, codec)
        if text is not None:
            if not is_json(text):
                ids.add(1038)
            elif codec not in ('utf-8', 'ascii'):
                ids.add(1281)
    if row.get('is_xml') or m.media.endswith('+xml'):
        text = xml_text(body, charset)
        if text is None:
            ids.add(1039)
        elif text != ('unknown',):
            verdict = is_xml(text)
            if verdict != True:
                ids.add(1275 if verdict == 'entities' else 1039)
    if m.media.startswith('multipart/'):
        mark = multipart.boundary(m.f.one('content-type'))
        if not mark:
            ids.add(1139)
        elif multipart.split(body, mark) is None:
            ids.add(1140)
    if m.media == 'application/x-www-form-urlencoded' and not FORM.match(body):
        ids.add(1040)
    return ids
