"""C14: a syntax error is located where the text first goes wrong."""

import html as html_module
import re

from mc import gramimpl, headerspace as hs
from mc.checks import c12, c13
from mc.ref import abnf, cover, gram, grammars

ID = 'C14'
CLAIMED = True
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of small grammars x strings, and of header values; error position, found and expected sets '
             'compared with viable prefixes computed by reference automata')
NOTE = '''For every small productive grammar x every string up to a length, and for all 68 real header grammars x token sequences,
single-byte edits, and words that fail right after each transition of the reference automaton: the error position is the length of the longest viable prefix, the found byte is the next one, and the union
of the expected sets is exactly the set of bytes that can follow (plus "end of data" iff the prefix is itself valid). Also as shown in HTML.'''
ASSUMPTIONS = c12.ASSUMPTIONS + [
    'grammars in which some alternative can never complete are excluded (prefix viability is then not what the engine tracks)',
    'names that a grammar special-cases are not also extension names of that grammar']
BOUNDS = {
    'quick': 'grammars of 2 levels x strings <= 4; headers: token sequences <= 2, edits with representative bytes, and a failure right after each transition of '
             'the automaton (of similar states, two)',
    'thorough': 'grammars of 2-3 levels x strings <= 5; token sequences <= 3, edits with all 256 bytes'}
MIN_STATES = 5000

NAMED = {'tab': '\t', 'LF': '\n', 'CR': '\r', 'space': ' ', 'double quote (")': '"', "single quote (')": "'",
         'comma (,)': ',', 'period (.)': '.', 'colon (:)': ':', 'semicolon (;)': ';', 'dash (-)': '-'}


def point(s):
    return int(s, 16) if re.fullmatch('0x[0-9a-f]{2}', s) else ord(s)


def decode(description):
    """The bytes that a human reads in a description such as 'a–z or comma (,) or 0x00–0x1f'."""
    out = set()
    for piece in description.split(' or '):
        if piece in NAMED:
            out.add(ord(NAMED[piece]))
        elif '–' in piece:
            lo, hi = piece.split('–')
            out.update(range(point(lo), point(hi) + 1))
        elif re.fullmatch('0x[0-9a-f]{2}', piece):
            out.add(point(piece))
        elif len(piece) == 1 or not re.search('[A-Za-z0-9]', piece):
            out.update(map(ord, piece))
        else:
            raise Undecodable(piece)
    return out


class Undecodable(Exception):
    from_impl = True


N = 32


def covers(tier):
    for name in grammars.HEADERS:
        if tier == 'thorough' or name not in c13.SAME:
            parts = c13.LARGE.get(name, 1) * (1 if tier == 'quick' else 4)
            for part in range(parts):
                yield ['cover', name, part, parts]


def shards(tier):
    out = [['header', name] for name in grammars.HEADERS]
    out.sort(key=lambda s: -sum(len(x) for x in hs.SPACE[s[1]][0]) * len(hs.SPACE[s[1]][1]))
    return list(covers(tier)) + out + [['grammars', n] for n in range(N)] + [['report', n] for n in range(4)] + [['chars']]


def cases(shard, tier):
    if shard[0] == 'grammars':
        for n, g in enumerate(c12.grammars(tier)):
            if n % N == shard[1] and gram.productive(g):
                yield ('grammar', g, n % 4, tier)
                if tier == 'thorough' or n // N % 2:
                    yield ('grammar', g, 4, tier)
    elif shard[0] == 'cover':
        _, name, part, parts = shard
        auto = c13.automaton('header', name, tier)
        states = list(auto.distinct()) if tier == 'quick' and name in c13.LARGE else None
        words = [w for w in cover.status_words(auto, part, parts, states) if w == w.strip(b' \t') and w.count(b'(') < abnf.DEPTH]
        for n in range(0, len(words), hs.CHUNK):
            yield ('header', name, words[n:n + hs.CHUNK])
    elif shard[0] == 'header':
        for name, values in hs.groups([shard[1]], tier, 3 if tier == 'thorough' else 2):
            yield ('header', name, values)
    elif shard[0] == 'report':
        for name in grammars.HEADERS[shard[1]::4]:
            values = [v for v in [b'', b'\x00', b'"', b'(', b'\xff\xfe', b"'x", b':', b'-', b'.', b',', b';', b'\t\n', b'a\tb\r'] +
                      list(hs.edits(hs.seeds(name)[0], 'quick'))[::3 if tier == 'quick' else 1] if not grammars.header(name).accepts(v)]
            for v in values:
                yield ('report', name, v)
    else:
        for k in range(3):
            for n in range(256):
                yield ('chars', k, n)


def strings(tier, g):
    n = 5 if tier == 'thorough' else 4
    if gram.mentions(g):
        n = 3
    return list(gram.words('ab', n)) + [w for w in gram.words('aAc', 2) if set(w) - {'a'}] + ['aBab', 'abc', 'ABab', 'acab', 'aabc']


def judge(ctx, where, text, error, position, expected, complete):
    got = set()
    for description, _ in error.expected:
        if description == 'end of data':
            got.add('end')
        else:
            got |= decode(description)
    want = set(expected) | ({'end'} if complete else set())
    ctx.step()
    ctx.state((where[0], position, complete, len(want)))
    ctx.outcome('position %d' % min(position, 9))
    ok = error.position == position and error.found == text[position:position + 1] and got == want
    if not ok:
        ctx.violate('error:%s' % (where[0],), '%r on %r:\n  expected position %d, found %r, one of %s\n  actual   position %d, found %r, one of %s' % (
            where, text, position, text[position:position + 1], sorted(want, key=str), error.position, error.found, sorted(got, key=str)))
    if len({d for d, _ in error.expected}) != len(error.expected):
        ctx.violate('duplicate', '%r on %r: repeated expectations %r' % (where, text, error.expected))
    return ok


def run(ctx, case):
    kind = case[0]
    if kind == 'grammar':
        from httpolice.parse import ParseError, parse
        _, g, mode, tier = case
        sym = gramimpl.build(g, mode)
        for w in strings(tier, g):
            lang = gram.Lang(g, w)
            if lang.accepts():
                continue
            try:
                parse(w.encode(), sym)
            except ParseError as e:
                i = len(w)
                while True:
                    lang = gram.Lang(g, w[:i])
                    follow, complete = lang.following(), lang.accepts()
                    if follow or complete or i == 0:
                        break
                    i -= 1
                judge(ctx, ('grammar', g, mode), w.encode(), e, i, {ord(c) for c in follow}, complete)
                if mode == 4:
                    part_of(ctx, g, w, e, i)
            else:
                ctx.violate('accepted', '%r accepts %r' % (g, w))
    elif kind == 'header':
        import httpolice
        _, name, values = case
        dfa = grammars.header(name)
        for v in values:
            msg = hs.message(name, v)
            msg.headers[httpolice.structure.FieldName(name)].value      # pylint: disable=expression-not-assigned
            errors = [c.context['error'] for c in msg.complaints if c.id == 1000]
            if len(errors) != (0 if dfa.accepts(v) else 1):
                ctx.violate('presence:' + name, '%s: %r gives %d errors' % (name, v, len(errors)), case=('header', name, [v]))
            elif errors:
                i, state = dfa.run(v)
                judge(ctx, (name,), v, errors[0], i, dfa.next(state), dfa.accepting(state))
    elif kind == 'report':
        report(ctx, *case[1:])
    else:
        chars(ctx, *case[1:])


def part_of(ctx, g, w, error, i):
    """The constructs as part of which each character is expected."""
    want = {(ord(c), p) for c, p in gram.PivotLang(g, w[:i]).following() if p is not None}
    got = {(c, symbol.name) for description, symbols in error.expected if description != 'end of data' for c in decode(description) for symbol in symbols or []}
    ctx.step()
    ctx.outcome('part of %d' % min(len({p for _, p in want}), 3))
    if got != want:
        ctx.violate('part-of', '%r on %r: expected as part of\n  right:  %s\n  actual: %s' % (g, w, sorted(want), sorted(got)))
    if any(len(set(map(id, symbols or []))) != len(symbols or []) for _, symbols in error.expected):
        ctx.violate('part-of:repeated', '%r on %r: repeated constructs in %r' % (g, w, error.expected))


def report(ctx, name, v):
    """The error as shown to the user."""
    import httpolice
    from mc import obs
    msg = hs.message(name, v)
    is_req = isinstance(msg, httpolice.Request)
    exch = httpolice.Exchange(msg if is_req else None, [] if is_req else [msg])
    httpolice.check_exchange(exch)
    page = obs.html([exch]).decode('utf-8')
    m = re.search(r'<div class="notice error"[^>]*>(?:(?!<div class="notice).)*?1000.*?(<p>\s*Parse error.*?)</div>', page, re.S)
    if not m:
        ctx.violate('report:none', '%s: %r: no parse error in the report' % (name, v))
        return
    paras = [' '.join(html_module.unescape(re.sub('<[^>]*>', '', p)).split()) for p in re.findall(r'<p>(.*?)</p>', m.group(1), re.S)]
    dfa = grammars.header(name)
    i, state = dfa.run(v)
    ctx.step()
    ctx.state((name, i))
    ctx.outcome('report')
    ok = ctx.expect('report:position', paras[0], 'Parse error at offset %d.' % i, '%s: %r' % (name, v))
    if i == len(v):
        ok = ok and ctx.expect('report:found', paras[1], 'Found end of data.', '%s: %r' % (name, v))
    else:
        ok = ok and ctx.expect('report:found', paras[1][:7], 'Found: ', '%s: %r' % (name, v)) and \
            ctx.expect('report:found', decode(paras[1][7:]), {v[i]}, '%s: %r' % (name, v))
    got = set()
    [error] = [c.context['error'] for c in msg.complaints if c.id == 1000]
    for p, (_, symbols) in zip(paras[3:], error.expected):
        named = re.sub('^or ', '', p.replace('\xa0', ' ')).split(' as part of ')[1:]
        ctx.expect('report:part-of', named, [' or '.join(s.name + (' (%s)' % ' '.join(s.citation.title.split()) if s.citation else '') for s in symbols)] if symbols else [], '%s: %r: %r' % (name, v, p))
    for p in paras[3:]:
        p = re.sub('^or ', '', p).split(' as part of ')[0]
        got |= {'end'} if p == 'end of data' else decode(p)
    want = set(dfa.next(state)) | ({'end'} if dfa.accepting(state) else set())
    if ok:
        ctx.expect('report:expected', sorted(got, key=str), sorted(want, key=str), '%s: %r: %r' % (name, v, paras))


def chars(ctx, kind, n):
    """Sets of characters are described exactly: singletons, ranges, complements."""
    from httpolice.parse import ParseError, octet, octet_range, parse
    sets = [{n}] if kind == 0 else [set(range(n, m + 1)) for m in range(n, 256, 5)] if kind == 1 else [set(range(256)) - {n, (n + 2) % 256}]
    for s in sets:
        symbol = octet_range(min(s), max(s))
        for c in set(range(min(s), max(s) + 1)) - s:
            symbol = symbol - octet(c)
        try:
            parse(b'', symbol)
        except ParseError as e:
            judge(ctx, ('chars', kind, n), b'', e, 0, s, False)
        else:
            ctx.violate('chars', 'empty text accepted by %r' % s)
