"""Build a reference grammar (mc.ref.gram) with the implementation's combinators."""


def _labeller(label, as_class):
    if not as_class:
        return lambda *args: (label,) + args

    class Labelled(tuple):
        def __new__(cls, *args):
            return tuple.__new__(cls, (label,) + args)
    return Labelled


def build(root, mode):
    """mode 0: plain; 1: everything sealed with a name; 2: actions are classes; 3: grouped; 4: every construct is a pivot."""
    from httpolice import parse as P
    labels = {k: _labeller(k, mode == 2) for k in ('S', '1', '2', 'M')}
    rec = P.recursive() > P.named('R', is_pivot=mode == 4)

    def seal(sym, node):
        if mode == 4:
            return sym > P.named(repr(node), is_pivot=True)
        if mode == 1:
            return sym > P.named('n')
        if mode == 3:
            return P.group(sym)
        return sym

    def go(node):
        k = node[0]
        if k == 'c':
            return P.literal(node[1])
        if k == 'C':
            return P.literal(node[1], case_sensitive=True)
        if k == 'w':
            return P.literal(node[1])
        if k == 't':
            return cls(node[1])
        if k == '-':
            return cls(node[1]) - cls(node[2])
        if k == 'R':
            return rec
        if k == 's':
            return seal(labels['S'] << go(node[1]) * go(node[2]), node)
        if k == 'b':
            return seal(go(node[1]) * go(node[2]), node)
        if k == 'k':
            return seal(labels['S'] << P.skip(go(node[1])) * go(node[2]), node)
        if k == 'K':
            return seal(labels['S'] << go(node[1]) * P.skip(go(node[2])), node)
        if k == '|':
            return seal((labels['1'] << go(node[1])) | (labels['2'] << go(node[2])), node)
        if k == '?':
            return seal(P.maybe(go(node[1]), 'D'), node)
        if k == 'n':
            lo, hi, inner = node[1], node[2], go(node[3])
            if (lo, hi) == (0, None):
                return P.many(inner)
            if (lo, hi) == (1, None):
                return P.many1(inner)
            return P.times(lo, hi, inner)
        if k == '%':
            return go(node[1]) % P.many(go(node[2]))
        if k == 'S':
            return P.string(go(node[1]))
        if k == 'g':
            return P.group(go(node[1]))
        if k == 'm':
            inner = go(node[1])
            f = labels['M']
            return (lambda t: f(t[0] is inner, t[1])) << P.mark(inner)
        if k == '!':
            return P.string_excluding(cls(node[1]), list(node[2]))
        raise KeyError(k)

    def cls(chars):
        sym = None
        for c in sorted(chars):
            t = P.octet(ord(c))
            sym = t if sym is None else sym | t
        return sym

    from mc.ref.gram import mentions
    body = go(root)
    if mentions(root):
        rec.rec = body
        return rec
    return body.as_nonterminal() if mode != 1 else (body > P.named('top'))
