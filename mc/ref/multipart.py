"""Multipart bodies (RFC 2046 section 5.1), taken apart with plain bytes operations. Lines end in CRLF."""

import re

from mc.ref import values as V


def boundary(content_type):
    """The boundary declared by a (well-formed) Content-Type value, or None."""
    _, params = V.parametrized(content_type)
    for n, raw in params:
        if n == 'boundary':
            return V.unquote(raw)
    return None


def split(body, mark):
    """The parts, each as (lower-case header names, content); or None if the first delimiter is not found."""
    delimiter = b'--' + mark.encode('latin-1')
    parts, current = [], None
    for line in body.split(b'\r\n'):
        bare = line.rstrip(b' \t')
        if bare == delimiter:
            current = []
            parts.append(current)
        elif bare == delimiter + b'--':
            break           # (Nobody says what it means before the first delimiter.)
        elif current is not None:
            current.append(line)
    if not parts:
        return None
    out = []
    for lines in parts:
        names = []
        for k, line in enumerate(lines):
            m = re.match(rb'([!-9;-~]+):', line)
            if m:
                names.append(m.group(1).decode().lower())
            elif not (line[:1] in (b' ', b'\t') and names):
                break
        out.append(names)
    return out
