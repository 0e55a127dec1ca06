"""C08: checking and reporting only observe the exchange."""

import itertools

from mc import build, conn, corpus, obs
from mc.checks import c07

ID = 'C08'
CLAIMED = True
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive exploration of all sequences of operations (check, text report, HTML report, reading every derived value) up to a depth on real exchanges, with the raw message '
             'compared after every operation and report bytes compared along every sequence')
NOTE = '''State: the raw fields of the exchange, and of the objects the caller passed in, plus the reports produced so far. After every operation of every sequence the raw fields must be the
original ones; once checked, every later text and HTML report must have the bytes of the first one, whichever report came first; the notices are the same set in every sequence.'''
ASSUMPTIONS = ['an exchange is checked once', 'the order of notices may depend on which derived values were asked for before the check']
BOUNDS = {
    'quick': 'all 20 sequences of length <= 2, and 8 longer, on 539 connections; all 340 sequences of length <= 4 on 60 exchanges',
    'thorough': 'all 84 sequences of length <= 3 on 539 connections; all 1364 sequences of length <= 5 on 60 exchanges'}
MIN_STATES = 500
OPS = 'cthd'


def sequences(n):
    return [''.join(s) for k in range(1, n + 1) for s in itertools.product(OPS, repeat=k) if s.count('c') <= 1]


EXTRA = ['cthth', 'chtht', 'dcthth', 'hcthht', 'cdthdth', 'tchdt', 'ctdtht', 'dhtchth']


def shards(tier):
    return [['corpus', n] for n in range(64)] + [['x', n] for n in range(len(c07.COLLIDE))] + [['deep', n] for n in range(30)]


def cases(shard, tier):
    kind = shard[0]
    if kind == 'corpus':
        for i in range(len(corpus.load()))[shard[1]::64]:
            for s in sequences(2 if tier == 'quick' else 3) + EXTRA:
                yield ('c', i, s)
    elif kind == 'x':
        for s in sequences(4 if tier == 'quick' else 5) + EXTRA:
            yield ('x', shard[1], s)
    else:
        small = list(range(len(corpus.load())))
        i = small[shard[1] * len(small) // 30]
        for s in sequences(4 if tier == 'quick' else 5):
            yield ('c', i, s)


_corpus = []
_sets = {}


def make(kind, i):
    """Exchanges and the caller's own objects."""
    if kind == 'c':
        if not _corpus:
            _corpus.extend(corpus.load())
        _, scheme, inbound, outbound = _corpus[i]
        return conn.parse(inbound, outbound, scheme), None
    import copy
    req, resps = copy.deepcopy(c07.COLLIDE[i])
    given = [req] + resps
    for d in given:
        if d is not None:
            d.setdefault('headers', [])
            d.setdefault('trailers', [('X-Trailer', 'a')])
    return [build.exchange(req, resps)], given


def derived(e):
    """Ask for everything that can be asked for."""
    for m in ([e.request] if e.request else []) + list(e.responses) + [e]:
        for cls in type(m).__mro__:
            for name, v in vars(cls).items():
                if isinstance(v, property) and not name.startswith('_'):
                    try:
                        getattr(m, name)
                    except NotImplementedError:
                        pass
        repr(m)
        if m is e:
            continue
        for h in m.headers:
            h.value, h.is_present, h.is_absent, h.is_okay, h.entries, bool(h)   # noqa: B018
            if h.is_okay and isinstance(h.value, list):
                list(h)
            repr(h)
        str(m.version)


def identity(e):
    return [(id(m.header_entries), [id(x) for x in m.header_entries], id(m.body)) for m in ([e.request] if e.request else []) + list(e.responses)]


def run(ctx, case):
    import copy
    import httpolice
    kind, i, seq = case
    exchanges, given = make(kind, i)
    before = copy.deepcopy(given)
    raw = [obs.raw(e) for e in exchanges]
    ids = [identity(e) for e in exchanges]
    first = {}
    checked = False
    for n, op in enumerate(seq):
        ctx.step()
        if op == 'c':
            for e in exchanges:
                httpolice.check_exchange(e)
            checked, first = True, {}
        elif op == 'd':
            for e in exchanges:
                derived(e)
        else:
            data = (obs.text if op == 't' else obs.html)(exchanges)
            if checked:
                old = first.setdefault(op, data)
                if old != data:
                    ctx.violate('report:' + op, 'the %s report after %s differs from the one before' % ({'t': 'text', 'h': 'HTML'}[op], seq[:n]))
                    return
        if [obs.raw(e) for e in exchanges] != raw:
            ctx.violate('raw:' + op, 'the exchange was changed by %s of %s:\n%r\n%r' % (op, seq, raw, [obs.raw(e) for e in exchanges]))
            return
        if [identity(e) for e in exchanges] != ids:
            ctx.violate('objects:' + op, 'the fields of the exchange were replaced by %s of %s' % (op, seq))
            return
        if given != before:
            ctx.violate('given:' + op, "the caller's objects were changed by %s of %s: %r" % (op, seq, given))
            return
    if checked:
        key = (kind, i)
        got = [obs.notice_sets(e) for e in exchanges]
        if key not in _sets:
            again, _ = make(kind, i)
            for e in again:
                httpolice.check_exchange(e)
            _sets[key] = ([obs.notice_sets(e) for e in again], obs.text(again))
        if got != _sets[key][0]:
            ctx.violate('notices', 'sequence %s leads to other notices than a check alone: %r' % (
                seq, [(a, b) for a, b in zip(got, _sets[key][0]) if a != b]))
        if seq[0] == 'c' and 't' in first and first['t'] != _sets[key][1]:
            ctx.violate('text', 'sequence %s leads to another text report than a check alone' % seq)
    ctx.state((kind, i, len(first), checked))
    ctx.outcome(''.join(sorted(seq)))
