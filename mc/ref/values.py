"""Field values taken apart with plain string operations, independently of the tool's parser.

Everything here assumes that the value matches the grammar of its field (see `good`)."""

import functools
import re
from datetime import datetime

from mc.ref import grammars, tables

BAD = ('bad',)      # A malformed value
TOKEN = r"[!#$%&'*+.^_`|~0-9A-Za-z-]+"
KNOWN = {n.lower(): n for n in grammars.HEADERS}


@functools.lru_cache(None)
def matches(rule, value):
    try:
        return grammars.G.rule(rule).accepts(value.encode('iso-8859-1'))
    except UnicodeError:
        return False


@functools.lru_cache(None)
def good(name, value):
    """Does the value of the field match the field's grammar?"""
    rule = KNOWN.get(name)
    if rule is None:
        return True
    return matches('Host-header' if rule == 'Host' else rule, value)


def cut(value, sep):
    """Split at `sep` outside of quoted strings, <...> and (...)."""
    parts, start, i, depth = [], 0, 0, 0
    quote = None
    while i < len(value):
        c = value[i]
        if quote == '"':
            if c == '\\':
                i += 1
            elif c == '"':
                quote = None
        elif quote == '<':
            if c == '>':
                quote = None
        elif depth:
            if c == '\\':
                i += 1
            elif c == '(':
                depth += 1
            elif c == ')':
                depth -= 1
        elif c == '"' or c == '<':
            quote = c
        elif c == '(':
            depth = 1
        elif c == sep:
            parts.append(value[start:i])
            start = i + 1
        i += 1
    parts.append(value[start:])
    return [p.strip(' \t') for p in parts]


@functools.lru_cache(None)
def quoted_parts(value):
    """Contents of the quoted strings, <...> and (...)."""
    out, i = [], 0
    while i < len(value):
        m = re.compile(r'"(?:[^"\\]|\\.)*"|<[^>]*>').match(value, i)
        if m:
            out.append(m.group())
            i = m.end()
        elif value[i] == '(':
            start, depth = i, 0
            while i < len(value):
                c = value[i]
                depth += {'(': 1, ')': -1}.get(c, 0)
                i += 2 if c == '\\' else 1
                if not depth:
                    break
            out.append(value[start:i])
        else:
            i += 1
    return out


def elements(value):
    return [p for p in cut(value, ',') if p]


def unquote(v):
    if v is not None and len(v) >= 2 and v[0] == v[-1] == '"':
        return re.sub(r'\\(.)', r'\1', v[1:-1], flags=re.S)
    return v


def is_quoted(v):
    return v is not None and v[:1] == '"'


def pair(text):
    """(lower-case name, raw value or None)."""
    m = re.match(r'(%s)[ \t]*(?:=[ \t]*(.*))?$' % TOKEN, text, re.S)
    return m.group(1).lower(), m.group(2)


def parametrized(text):
    """(item, [(name, raw value)])."""
    item, *params = cut(text, ';')
    return item, [pair(p) for p in params if p]


MONTHS = 'Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec'.split()


@functools.lru_cache(None)
def date(value):
    """A datetime, or BAD."""
    m = re.match(r'\w+, (\d\d) (\w{3}) (\d{4}) (\d\d):(\d\d):(\d\d) GMT$', value)
    if m:
        d, mon, y = m.group(1, 2, 3)
    else:
        m = re.match(r'\w+, (\d\d)-(\w{3})-(\d\d) (\d\d):(\d\d):(\d\d) GMT$', value)
        if m:
            d, mon, y = m.group(1), m.group(2), '19' + m.group(3)
        else:
            m = re.match(r'\w+ (\w{3}) ([ \d]\d) (\d\d):(\d\d):(\d\d) (\d{4})$', value)
            if not m:
                return BAD
            mon, d, y = m.group(1), m.group(2), m.group(6)
            try:
                return datetime(int(y), MONTHS.index(mon) + 1, int(d), *map(int, m.group(3, 4, 5)))
            except ValueError:
                return BAD
    try:
        return datetime(int(y), MONTHS.index(mon) + 1, int(d), *map(int, m.group(4, 5, 6)))
    except ValueError:
        return BAD


def number(v):
    return int(v)


def etag(v):
    """(weak, tag)."""
    return (v.startswith('W/'), v[2:] if v.startswith('W/') else v)


SINGULAR = {'if-match': '*', 'if-none-match': '*', 'vary': '*', 'alt-svc': 'clear'}


class Fields:
    """The fields of one message: header fields, then trailer fields."""

    def __init__(self, headers, trailers):
        self.headers = [(n.lower(), v) for n, v in headers]
        self.trailers = [(n.lower(), v) for n, v in trailers or ()]
        self.names = list(dict.fromkeys(n for n, _ in self.headers + self.trailers))
        self._values = {}
        for n, v in self.headers:
            self._values.setdefault(n, []).append(v)
        for n, v in self.trailers:
            if not tables.bad_for_trailer(n):
                self._values.setdefault(n, []).append(v)

    def values(self, name):
        return self._values.get(name, [])

    def present(self, name):
        return name in self._values

    def one(self, name):
        """The value of a field that occurs once (the last one counts): None if absent, BAD if malformed."""
        vs = self._values.get(name)
        if not vs:
            return None
        return vs[-1] if good(name, vs[-1]) else BAD

    def okay(self, name):
        v = self.one(name)
        return v is not None and v is not BAD

    def alone(self, name, word='*'):
        """Is the field just a "*" (or another word)?"""
        vs = self._values.get(name, [])
        return len(vs) == 1 and vs[0].lower() == word

    def mixed(self, name, word='*'):
        """Is a "*" combined with others?"""
        vs = self._values.get(name, [])
        return len(vs) > 1 and word in [v.lower() for v in vs]

    def list(self, name):
        if name in SINGULAR and (self.alone(name, SINGULAR[name]) or self.mixed(name, SINGULAR[name])):
            return []
        return [e for v in self._values.get(name, []) if good(name, v) for e in elements(v)]

    def tokens(self, name):
        return [e.lower() for e in self.list(name)]

    def broken(self, name):
        """Is any of the values malformed?"""
        return any(not good(name, v) for v in self._values.get(name, []))

    def date(self, name):
        v = self.one(name)
        return v if v is None or v is BAD else date(v)

    def int(self, name):
        v = self.one(name)
        return v if v is None or v is BAD else number(v)


SYNTAX = {'delta_seconds': 'delta-seconds', 'no_cache': 'field-name-list', 'private': 'field-name-list'}


@functools.lru_cache(None)
def cache_directives(value):
    """[(name, argument, notices)] where the argument is None, a number, a list, a string, or BAD."""
    out = []
    for e in elements(value):
        name, raw = pair(e)
        row = tables.T['cache_directive'].get(name, {})
        arg, ids = unquote(raw), []
        if raw is None:
            if row.get('argument') == 'required':
                ids.append(1156)
                arg = BAD
        else:
            if row.get('argument_form') == 'quoted_string' and not is_quoted(raw):
                ids.append(1154)
            if row.get('argument_form') == 'token' and is_quoted(raw):
                ids.append(1155)
            if row.get('argument') == 'no':
                ids.append(1157)
                arg = BAD
            elif row.get('syntax_symbol') == 'delta_seconds':
                if matches('delta-seconds', arg):
                    arg = int(arg)
                else:
                    ids.append(1158)
                    arg = BAD
            elif row.get('syntax_symbol') in ('no_cache', 'private'):
                if matches('field-name-list', arg):
                    arg = [x.lower() for x in elements(arg)]
                else:
                    ids.append(1158)
                    arg = BAD
        out.append((name, arg, ids))
    return out


class Cache:
    """Cache-Control of a message."""

    def __init__(self, f):
        self.all = [d for v in f.values('cache-control') if good('cache-control', v) for d in cache_directives(v)]
        self.first = {}
        for n, a, _ in self.all:
            self.first.setdefault(n, True if a is None else a)

    def get(self, name):
        """None if absent; True without argument; the argument; BAD."""
        return self.first.get(name)

    def on(self, name):
        """Present, and not switched off by a zero argument."""
        return bool(self.first.get(name))

    def bare(self, name):
        """Present without argument, or with an empty list."""
        v = self.first.get(name)
        return v is True or v == []

    def num(self, name):
        v = self.first.get(name)
        return v if isinstance(v, int) and v is not True else None


@functools.lru_cache(None)
def warnings(value):
    """[(code, date or None)]."""
    out = []
    for e in elements(value):
        m = re.match(r'(\d{3}) ', e)
        d = re.search(r'"(?: )"([^"]*)"$', e)
        out.append((int(m.group(1)), date(d.group(1)) if d else None))
    return out


@functools.lru_cache(None)
def credentials(value):
    """(scheme, None | token68 string | [(name, raw value)])."""
    m = re.match(r'(%s)(?: +(.*))?$' % TOKEN, value, re.S)
    scheme, rest = m.group(1).lower(), m.group(2)
    if rest is None:
        return scheme, None
    if re.match(r'[A-Za-z0-9._~+/-]+=*$', rest):
        return scheme, rest
    return scheme, [pair(p) for p in elements(rest)]


@functools.lru_cache(None)
def challenges(value):
    """Like `credentials`, several of them."""
    out = []
    for e in elements(value):
        m = re.match(r'(%s)(?: +(.*))?$' % TOKEN, e, re.S)
        if m and (m.group(2) is None or not m.group(2).lstrip(' \t').startswith('=')):
            scheme, rest = m.group(1).lower(), m.group(2)
            if rest is None or not rest.strip():
                out.append([scheme, None])
            elif re.match(r'[A-Za-z0-9._~+/-]+=*$', rest):
                out.append([scheme, rest])
            else:
                out.append([scheme, [pair(rest)]])
        else:
            if out[-1][1] is None:
                out[-1][1] = []
            out[-1][1].append(pair(e))
    return out


@functools.lru_cache(None)
def preferences(value):
    """[(name, argument or None or BAD, notices)] of Prefer (parameters dropped) and Preference-Applied."""
    out = []
    for e in elements(value):
        name, raw = pair(cut(e, ';')[0])
        arg, ids = unquote(raw) or None, []
        row = tables.T['preference'].get(name, {})
        if arg is None:
            if row.get('argument') == 'required':
                ids.append(1156)
                arg = BAD + ('',)
        elif row.get('argument') == 'no':
            ids.append(1157)
            arg = BAD + (arg,)
        elif row.get('syntax_symbol'):
            rule = {'wait': 'delta-seconds', 'return_': 'return', 'handling': 'handling'}[row['syntax_symbol']]
            if not matches(rule, arg):
                ids.append(1158)
                arg = BAD + (arg,)
            else:
                arg = int(arg) if rule == 'delta-seconds' else arg.lower()
        out.append((name, arg, ids))
    return out
