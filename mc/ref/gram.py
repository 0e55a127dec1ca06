"""Reference semantics of the grammar notation, on small abstract grammars.

A grammar is a nested tuple (plain data):

  ('c', ch)          literal character (case-insensitive)
  ('C', ch)          case-sensitive character
  ('w', word)        literal word (case-insensitive)
  ('t', chars)       one of the characters
  ('-', chars, not)  one of the characters except some
  ('s', x, y)        sequence        ('b', x, y)  the same, result not labelled
  ('k', x, y)        skip(x) y       ('K', x, y)  x skip(y)
  ('|', x, y)        alternatives
  ('?', x)           optional
  ('n', lo, hi, x)   lo to hi repetitions (hi None: unbounded)
  ('%', x, y)        x followed by any number of y, as one list
  ('S', x)           string of x (x a single character)
  ('g', x)           group
  ('m', x)           mark
  ('!', chars, words)   string of chars, but none of the words
  ('R',)             the whole grammar, recursively
"""

DEFAULT = 'D'


def chars_of(node):
    k = node[0]
    if k == 'c':
        return set(node[1].lower() + node[1].upper())
    if k in 'Ct':
        return set(node[1])
    if k == '-':
        return set(node[1]) - set(node[2])
    raise KeyError(k)


TERMINAL = ('c', 'C', 't', '-')


class Lang:

    """The language of a grammar, relative to one text."""

    def __init__(self, root, text):
        self.root, self.text, self.n = root, text, len(text)
        self.recursive = mentions(root)
        self.rec_ends = {i: frozenset() for i in range(self.n + 1)}
        self.memo = {}
        if self.recursive:
            while True:
                new = {}
                self.memo = {}
                for i in range(self.n, -1, -1):
                    new[i] = self.ends(root, i)
                if new == self.rec_ends:
                    break
                self.rec_ends = new
                self.memo = {}
        self.rec_next = frozenset()

    def ends(self, node, i):
        """All j such that node matches text[i:j]."""
        key = (node, i)
        if key not in self.memo:
            self.memo[key] = self._ends(node, i)
        return self.memo[key]

    def _ends(self, node, i):
        k = node[0]
        if k in TERMINAL:
            return frozenset([i + 1]) if i < self.n and self.text[i] in chars_of(node) else frozenset()
        if k == 'w':
            w = node[1]
            return frozenset([i + len(w)]) if self.text[i:i + len(w)].lower() == w.lower() else frozenset()
        if k in 'sbkK':
            return frozenset(j for m in self.ends(node[1], i) for j in self.ends(node[2], m))
        if k == '|':
            return self.ends(node[1], i) | self.ends(node[2], i)
        if k == '?':
            return self.ends(node[1], i) | {i}
        if k in 'gm':
            return self.ends(node[1], i)
        if k == 'n':
            return self.repeat(node[3], frozenset([i]), node[1], node[2])
        if k == 'S':
            return self.repeat(node[1], frozenset([i]), 0, None)
        if k == '%':
            return self.repeat(node[2], self.ends(node[1], i), 0, None)
        if k == '!':
            out = set()
            j = i
            while True:
                if self.text[i:j].lower() not in [w.lower() for w in node[2]]:
                    out.add(j)
                if j >= self.n or self.text[j] not in node[1]:
                    return frozenset(out)
                j += 1
        if k == 'R':
            return self.rec_ends[i]
        raise KeyError(k)

    def repeat(self, node, starts, lo, hi):
        cur = starts
        for _ in range(lo):
            cur = frozenset(j for i in cur for j in self.ends(node, i))
        out = set(cur)
        count = lo
        while cur and (hi is None or count < hi):
            cur = frozenset(j for i in cur for j in self.ends(node, i)) - (out if hi is None else frozenset())
            out |= cur
            count += 1
        return frozenset(out)

    def accepts(self):
        return self.n in self.ends(self.root, 0)

    # What may follow the text.

    def following(self):
        """Characters c such that text + c begins some word of the language.

        Right only for grammars without useless symbols (see `productive`).
        """
        self.nmemo = {}
        if self.recursive:
            self.rec_n = {i: frozenset() for i in range(self.n + 1)}
            while True:
                self.nmemo = {}
                new = {i: self.next(self.root, i) for i in range(self.n, -1, -1)}
                if new == self.rec_n:
                    break
                self.rec_n = new
        return self.next(self.root, 0)

    def next(self, node, i):
        key = (node, i)
        if key not in self.nmemo:
            self.nmemo[key] = frozenset(self._next(node, i))
        return self.nmemo[key]

    def _next(self, node, i):
        k = node[0]
        if k in TERMINAL:
            return chars_of(node) if i == self.n else ()
        if k == 'w':
            have, w = self.text[i:], node[1]
            if len(have) < len(w) and w.lower().startswith(have.lower()):
                c = w[len(have)]
                return (c.lower(), c.upper())
            return ()
        if k in 'sbkK':
            return self.next(node[1], i).union(*[self.next(node[2], m) for m in self.ends(node[1], i)])
        if k == '|':
            return self.next(node[1], i) | self.next(node[2], i)
        if k in '?gm':
            return self.next(node[1], i)
        if k == 'n':
            return self.next_repeat(node[3], frozenset([i]), node[1], node[2])
        if k == 'S':
            return self.next_repeat(node[1], frozenset([i]), 0, None)
        if k == '%':
            return self.next(node[1], i) | self.next_repeat(node[2], self.ends(node[1], i), 0, None)
        if k == '!':
            # Any prefix can be continued (words are finite), if of the right characters.
            return set(node[1]) if all(c in node[1] for c in self.text[i:]) else ()
        if k == 'R':
            return self.rec_n[i]
        raise KeyError(k)

    def next_repeat(self, node, starts, lo, hi):
        out = set()
        cur, count, seen = starts, 0, set()
        while cur and (hi is None or count < hi):
            for i in cur:
                out |= self.next(node, i)
            cur = frozenset(j for i in cur for j in self.ends(node, i))
            count += 1
            if (cur, min(count, lo)) in seen:
                break
            seen.add((cur, min(count, lo)))
        return out

    # Is this value the result of some parse?

    def denotes(self, node, v, i, j):
        k = node[0]
        t = self.text
        if j not in self.ends(node, i):
            return False
        if k in TERMINAL or k == 'w' or k == 'S' or k == '!':
            return v == t[i:j]
        if k == 's':
            return isinstance(v, tuple) and len(v) == 3 and v[0] == 'S' and self.split(node, v[1], v[2], i, j)
        if k == 'b':
            return isinstance(v, tuple) and len(v) == 2 and self.split(node, v[0], v[1], i, j)
        if k in 'kK':
            if not (isinstance(v, tuple) and len(v) == 2 and v[0] == 'S'):
                return False
            return any(j in self.ends(node[2], m) and
                       (self.denotes(node[2], v[1], m, j) if k == 'k' else self.denotes(node[1], v[1], i, m))
                       for m in self.ends(node[1], i))
        if k == '|':
            return isinstance(v, tuple) and len(v) == 2 and v[0] in ('1', '2') and \
                self.denotes(node[int(v[0])], v[1], i, j)
        if k == '?':
            return (v == DEFAULT and i == j) or self.denotes(node[1], v, i, j)
        if k == 'g':
            return self.denotes(node[1], v, i, j)
        if k == 'm':
            return isinstance(v, tuple) and len(v) == 3 and v[:2] == ('M', True) and self.denotes(node[1], v[2], i, j)
        if k == 'n':
            return isinstance(v, list) and len(v) >= node[1] and (node[2] is None or len(v) <= node[2]) and \
                self.items([node[3]] * len(v), v, i, j)
        if k == '%':
            return isinstance(v, list) and len(v) >= 1 and self.items([node[1]] + [node[2]] * (len(v) - 1), v, i, j)
        if k == 'R':
            return self.denotes(self.root, v, i, j)
        raise KeyError(k)

    def split(self, node, v1, v2, i, j):
        return any(j in self.ends(node[2], m) and self.denotes(node[1], v1, i, m) and self.denotes(node[2], v2, m, j)
                   for m in self.ends(node[1], i))

    def items(self, nodes, values, i, j):
        cur = {i}
        for node, v in zip(nodes, values):
            cur = {m for p in cur for m in self.ends(node, p) if m <= j and self.denotes(node, v, p, m)}
            if not cur:
                return False
        return j in cur


class PivotLang(Lang):

    """The same, where a possible next character comes with the innermost construct that it would be part of."""

    def next(self, node, i):
        key = (node, i)
        if key not in self.nmemo:
            pairs = {x if isinstance(x, tuple) else (x, None) for x in self._next(node, i)}
            name = 'R' if self.recursive and node == self.root else repr(node) if node[0] in CONSTRUCT else None
            self.nmemo[key] = frozenset((c, name if p is None else p) for c, p in pairs)
        return self.nmemo[key]


CONSTRUCT = ('s', 'b', 'k', 'K', '|', '?')


def mentions(node):
    if not isinstance(node, tuple) or not node or node[0] == '!':
        return False
    return node[0] == 'R' or any(mentions(x) for x in node[1:] if isinstance(x, tuple))


def productive(root):
    """Does recursion bottom out (so that every symbol is useful)?"""
    def prod(node, rec):
        k = node[0]
        if k == 'R':
            return rec
        if k in TERMINAL:
            return bool(chars_of(node))
        if k in ('w', 'S', '?', '!'):
            return True
        if k == 'n':
            return node[1] == 0 or prod(node[3], rec)
        if k == '|':
            return prod(node[1], rec) or prod(node[2], rec)
        if k == '%':
            return prod(node[1], rec)
        return all(prod(x, rec) for x in node[1:])
    return not mentions(root) or prod(root, False)


# The enumeration of grammars.

ATOMS = [('c', 'a'), ('C', 'b'), ('w', 'ab'), ('t', 'ab')]
UNARY = [lambda x: ('?', x), lambda x: ('n', 0, None, x), lambda x: ('n', 1, None, x), lambda x: ('n', 0, 2, x),
         lambda x: ('n', 1, 2, x), lambda x: ('n', 2, 2, x), lambda x: ('n', 2, None, x), lambda x: ('n', 0, 1, x)]
BINARY = [lambda x, y: ('s', x, y), lambda x, y: ('|', x, y)]
BINARY2 = BINARY + [lambda x, y: ('k', x, y), lambda x, y: ('K', x, y), lambda x, y: ('%', x, y)]


def level1(atoms=None, binary=None):
    atoms = atoms or ATOMS
    for x in atoms:
        for u in UNARY:
            yield u(x)
    for x in atoms:
        for y in atoms:
            for b in binary or BINARY2:
                yield b(x, y)


def bare(atoms):
    """Sequences as direct elements of repetitions."""
    for x in atoms:
        for y in atoms:
            for u in UNARY[1:]:
                yield u(('b', x, y))


def extras():
    for x in ATOMS[:2] + [('t', 'ab'), ('-', 'ab', 'b'), ('-', 'abA', 'A')]:
        yield ('S', x)
        yield ('s', ('S', x), ('c', 'b'))
        yield ('s', ('c', 'a'), ('s', ('S', x), ('w', 'ab')))
        yield ('m', x)
        yield ('|', ('m', x), ('m', ('w', 'ab')))
        yield ('n', 0, None, ('m', x))
    for words in ((), ('a',), ('ab',), ('a', 'ab'), ('b', 'ab', 'aba'), ('',), ('', 'a'), ('', 'bb', 'ab'), ('A', 'aB'), ('abab',)):
        for cs in ('abAB', 'aA', 'abcABC'):
            if all(c in cs for w in words for c in w):
                yield ('!', cs, words)
                yield ('s', ('!', cs, words), ('c', 'c'))
                yield ('n', 0, None, ('s', ('!', cs, words), ('C', 'c')))


def level2(full):
    l1 = list(level1(binary=BINARY)) + list(bare(ATOMS[:3]))
    l1x = list(level1())
    for x in l1x:
        for u in UNARY:
            yield u(x)
    for x in l1x:
        for y in ATOMS:
            for b in BINARY2:
                yield b(x, y)
                yield b(y, x)
    for x in l1:
        for y in ATOMS:
            yield ('s', x, y)
    small = l1 if full else list(level1(ATOMS[:2], BINARY))
    for x in small:
        for y in small:
            for b in BINARY:
                yield b(x, y)
    small = list(level1(ATOMS[:2], BINARY))
    for x in small:
        for y in ATOMS[:2]:
            for b in BINARY:
                for u in UNARY:
                    yield u(b(x, y))
                    yield u(b(y, x))


def recursive(full):
    atoms = [('c', 'a'), ('C', 'b'), ('R',)]
    mid = atoms + [('?', ('c', 'a')), ('?', ('R',)), ('n', 0, None, ('c', 'b')), ('n', 0, None, ('R',))] + \
        [('s', x, y) for x in atoms for y in atoms] + [('|', x, y) for x in atoms for y in atoms if x != y]
    if full:
        mid += [('n', 1, 2, ('R',)), ('n', 1, None, ('R',)), ('k', ('c', 'a'), ('R',)), ('K', ('R',), ('c', 'b'))]
        mid += [('s', ('c', 'a'), ('s', ('R',), y)) for y in atoms]
    for x in mid:
        for y in mid:
            for b in BINARY:
                g = b(x, y)
                if mentions(g):
                    yield g
    for x in [('s', a, ('s', b, c)) for a in atoms for b in atoms for c in atoms]:
        for y in atoms + [('?', ('c', 'b')), ('w', 'ab')]:
            for g in (('|', x, y), ('|', y, x)):
                if mentions(g):
                    yield g


def words(alphabet, n):
    level = ['']
    for _ in range(n + 1):
        yield from level
        level = [w + c for w in level for c in alphabet]


def cyclic(root):
    """Can the grammar derive itself (R =>+ R), so that there are infinitely many derivations?"""
    def nullable(node, rec):
        k = node[0]
        if k == 'R':
            return rec
        if k in TERMINAL or k == 'w':
            return False
        if k in '?S':
            return True
        if k == '!':
            return '' not in node[2]
        if k == 'n':
            return node[1] == 0 or nullable(node[3], rec)
        if k == '%':
            return nullable(node[1], rec)
        if k == '|':
            return nullable(node[1], rec) or nullable(node[2], rec)
        return all(nullable(x, rec) for x in node[1:])
    rec = nullable(root, nullable(root, False))

    def unit(node):
        k = node[0]
        if k == 'R':
            return True
        if k in TERMINAL or k in 'w!S':
            return False
        if k == 'n':
            return unit(node[3]) and (node[1] <= 1 or nullable(node[3], rec))
        if k == '?' or k in 'gm':
            return unit(node[1])
        if k == '|':
            return unit(node[1]) or unit(node[2])
        a, b = node[1:]
        return unit(a) and (k == '%' or nullable(b, rec)) or unit(b) and nullable(a, rec)
    return unit(root)
