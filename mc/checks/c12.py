"""C12: the grammar engine accepts exactly the language of the grammar."""

import itertools

from mc import gramimpl
from mc.ref import gram

ID = 'C12'
CLAIMED = True
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of small grammars x all strings up to a length; the real Earley engine against a '
             'denotational reference evaluator')
NOTE = '''Every grammar up to two (thorough: three) nested combinators over four atoms, recursive grammars (left, right, nullable, ambiguous)
and exclusions, in four construction styles, is run on every string up to length 5; acceptance must equal membership in
the language, and the returned value must be denoted by some derivation of the whole string.'''
ASSUMPTIONS = ['grammars that derive themselves in a cycle (R =>+ R) are outside the notation (infinitely many derivations)',
               'which of several derivations is returned for an ambiguous text is not prescribed',
               'skip() directly inside a repetition is outside the notation (it has no defined value)']
BOUNDS = {
    'quick': '~5,500 grammars (2 levels) x 72 strings (length <= 5 over {a,b} plus case/foreign variants)',
    'thorough': '~45,000 grammars (2 levels complete, 3 levels for unary over level 2) x 136 strings'}
MIN_STATES = 1000


def grammars(tier):
    out = list(gram.ATOMS) + list(gram.level1()) + list(gram.bare(gram.ATOMS)) + list(gram.extras())
    out += list(gram.level2(tier == 'thorough'))
    out += [g for g in gram.recursive(tier == 'thorough') if not gram.cyclic(g)]
    if tier == 'thorough':
        small = list(gram.level1(gram.ATOMS[:2], gram.BINARY))
        for x in small:
            for y in small:
                for b in gram.BINARY:
                    for u in gram.UNARY:
                        out.append(u(b(x, y)))
    return list(dict.fromkeys(out))


N = 64


def shards(tier):
    return list(range(N))


def strings(tier, g):
    # The tree extraction takes time exponential in the length for ambiguous recursion.
    n = 6 if tier == 'thorough' else 5
    if gram.mentions(g):
        n = 4 if repr(g).count("'R'") == 1 and "'n'" not in repr(g) else 3
    out = list(gram.words('ab', n))
    out += [w for w in gram.words('aAc', 2) if set(w) - {'a'}]
    out += ['aBab', 'AB', 'abc', 'ABab']
    if depth(g) < 3:
        out += ['aabbaab', 'bbbbbbbb', 'aaaaaaaaa']
    if g[0] == '!' or (len(g) > 3 and g[0] == 'n'):
        out += list(gram.words('abc', 4))
    return out


def depth(g):
    if gram.mentions(g):
        return 9
    if g[0] in gram.TERMINAL or g[0] in 'w!':
        return 1
    return 1 + max(depth(x) for x in g[1:] if isinstance(x, tuple))


def cases(shard, tier):
    for n, g in enumerate(grammars(tier)):
        if n % N == shard:
            yield (g, n % 4, tier)


def run(ctx, case):
    from httpolice.parse import ParseError, parse
    g, mode, tier = case
    sym = gramimpl.build(g, mode)
    for w in strings(tier, g):
        lang = gram.Lang(g, w)
        want = lang.accepts()
        ctx.step()
        try:
            value = parse(w.encode(), sym)
        except ParseError:
            got = False
        else:
            got = type(value).__name__ != 'Unavailable'
        if got != want:
            ctx.violate('language', 'grammar %r, mode %d, text %r: %s but should be %s' % (
                g, mode, w, 'accepted' if got else 'rejected', 'accepted' if want else 'rejected'), w)
            return
        ctx.outcome(got)
        if got and not lang.denotes(g, value, 0, len(w)):
            ctx.violate('value', 'grammar %r, mode %d, text %r: value %r is not denoted by any derivation' % (g, mode, w, value), w)
            return
    ctx.state((g, mode))
