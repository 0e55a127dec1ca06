"""A reference recogniser for ABNF grammars, independent of the implementation.

ABNF text (RFC 5234, RFC 7405 and the HTTP #rule) is compiled to a DFA over
bytes by way of a nondeterministic automaton.  Recursive rules (comments) are
unrolled to a fixed depth.  One extension: ``diff(A, B)`` matches the strings of
rule A that are not strings of rule B.
"""

import functools
import re

DEPTH = 5

_TOKEN = re.compile(r'''
    (?P<str>(?:%s|%i)?"[^"]*") | (?P<num>%x[0-9A-Fa-f]+(?:-[0-9A-Fa-f]+|(?:\.[0-9A-Fa-f]+)*)) |
    (?P<name>[A-Za-z][A-Za-z0-9-]*) | (?P<rep>\d*[*\#]\d*|\d+) | (?P<punct>[()\[\]/,]) | (?P<ws>\s+)
''', re.X)


def parse_grammar(text):
    """{rule name (lower case): expression}."""
    rules = {}
    current = None
    chunks = []
    for line in text.splitlines():
        line = re.sub(r'\s;.*$|^;.*$', '', line)
        if not line.strip():
            continue
        m = re.match(r'([A-Za-z][A-Za-z0-9-]*)\s*=\s*(.*)$', line)
        if m and not line[0].isspace():
            current = [m.group(1).lower(), m.group(2)]
            chunks.append(current)
        else:
            current[1] += ' ' + line.strip()
    for name, body in chunks:
        if name in rules:
            raise ValueError('duplicate rule ' + name)
        rules[name] = _Parser(body).whole()
    return rules


class _Parser:

    def __init__(self, text):
        self.tokens = []
        pos = 0
        while pos < len(text):
            m = _TOKEN.match(text, pos)
            if not m:
                raise ValueError('bad ABNF at %r' % text[pos:])
            pos = m.end()
            if m.lastgroup != 'ws':
                self.tokens.append((m.lastgroup, m.group()))
        self.i = 0

    def peek(self):
        return self.tokens[self.i] if self.i < len(self.tokens) else (None, None)

    def take(self, value=None):
        tok = self.peek()
        if value is not None and tok[1] != value:
            raise ValueError('expected %s, got %s in %r' % (value, tok, self.tokens))
        self.i += 1
        return tok

    def whole(self):
        r = self.alternation()
        if self.i != len(self.tokens):
            raise ValueError('leftover %r' % self.tokens[self.i:])
        return r

    def alternation(self):
        alts = [self.concatenation()]
        while self.peek()[1] == '/':
            self.take()
            alts.append(self.concatenation())
        return alts[0] if len(alts) == 1 else ('alt', tuple(alts))

    def concatenation(self):
        items = []
        while self.peek()[0] in ('str', 'num', 'name', 'rep') or self.peek()[1] in ('(', '['):
            items.append(self.repetition())
        return items[0] if len(items) == 1 else ('seq', tuple(items))

    def repetition(self):
        if self.peek()[0] != 'rep':
            return self.element()
        rep = self.take()[1]
        element = self.element()
        if '#' in rep:
            return ('list', int(rep.split('#')[0] or 0), element)
        if '*' in rep:
            lo, hi = rep.split('*')
            return ('rep', int(lo or 0), int(hi) if hi else None, element)
        return ('rep', int(rep), int(rep), element)

    def element(self):
        kind, value = self.take()
        if kind == 'str':
            sensitive = value.startswith('%s')
            value = value[value.index('"') + 1:-1]
            return ('seq', tuple(('set', frozenset([ord(c)] if sensitive else [ord(c.lower()), ord(c.upper())]))
                                 for c in value))
        if kind == 'num':
            value = value[2:]
            if '-' in value:
                lo, hi = value.split('-')
                return ('set', frozenset(range(int(lo, 16), int(hi, 16) + 1)))
            return ('seq', tuple(('set', frozenset([int(x, 16)])) for x in value.split('.')))
        if kind == 'name':
            if value == 'diff':
                self.take('(')
                a = self.alternation()
                self.take(',')
                b = self.alternation()
                self.take(')')
                return ('diff', a, b)
            return ('rule', value.lower())
        if value == '(':
            r = self.alternation()
            self.take(')')
            return r
        if value == '[':
            r = self.alternation()
            self.take(']')
            return ('alt', (r, ('seq', ())))
        raise ValueError('unexpected %r' % value)


class Grammar:

    def __init__(self, text):
        self.rules = parse_grammar(text)
        self._dfas = {}

    def rule(self, name):
        name = name.lower()
        if name not in self._dfas:
            self._dfas[name] = self.compile(('rule', name))
        return self._dfas[name]

    def compile(self, expr):
        nfa = _NFA()
        start, end = nfa.build(self.expand(expr, {}))
        return DFA(nfa, start, end)

    def expand(self, e, depth):
        """Inline all rules; recursion beyond DEPTH matches nothing (None)."""
        k = e[0]
        if k == 'set':
            return e
        if k == 'rule':
            name = e[1]
            n = depth.get(name, 0)
            if n >= DEPTH:
                return None
            return self.expand(self.rules[name], dict(depth, **{name: n + 1}))
        if k == 'seq':
            items = [self.expand(x, depth) for x in e[1]]
            return None if None in items else ('seq', tuple(items))
        if k == 'alt':
            items = [x for x in (self.expand(x, depth) for x in e[1]) if x is not None]
            return ('alt', tuple(items)) if items else None
        if k == 'rep':
            x = self.expand(e[3], depth)
            if x is None:
                return ('seq', ()) if e[1] == 0 else None
            return ('rep', e[1], e[2], x)
        if k == 'diff':
            return ('diff', self.expand(e[1], depth), self.expand(e[2], depth))
        if k == 'list':
            x = self.expand(e[2], depth)
            ows = ('rep', 0, None, ('set', frozenset(b' \t')))
            comma = ('set', frozenset(b','))
            if e[1] == 0:
                # RFC 7230 erratum 5257. (The whitespace after the last element never occurs in a field value.)
                item = ('alt', (('seq', (x, ows)), ('seq', ())))
                return ('seq', (item, ('rep', 0, None, ('seq', (comma, ows, item)))))
            item = ('alt', (('seq', (ows, x)), ('seq', ())))
            return ('seq', (('rep', 0, None, ('seq', (comma, ows))), x,
                            ('rep', 0, None, ('seq', (ows, comma, item)))))
        raise KeyError(k)


class _NFA:

    def __init__(self):
        self.eps = []           # state -> [state]
        self.edges = []         # state -> [(frozenset, state)]

    def state(self):
        self.eps.append([])
        self.edges.append([])
        return len(self.eps) - 1

    def build(self, e):
        k = e[0]
        start = self.state()
        if k == 'set':
            end = self.state()
            if e[1]:
                self.edges[start].append((e[1], end))
            return start, end
        if k == 'seq':
            cur = start
            for x in e[1]:
                s, t = self.build(x)
                self.eps[cur].append(s)
                cur = t
            return start, cur
        if k == 'alt':
            end = self.state()
            for x in e[1]:
                s, t = self.build(x)
                self.eps[start].append(s)
                self.eps[t].append(end)
            return start, end
        if k == 'rep':
            lo, hi, x = e[1:]
            cur = start
            for _ in range(lo):
                s, t = self.build(x)
                self.eps[cur].append(s)
                cur = t
            if hi is None:
                s, t = self.build(x)
                loop = self.state()
                self.eps[cur].append(loop)
                self.eps[loop].append(s)
                self.eps[t].append(loop)
                return start, loop
            end = self.state()
            self.eps[cur].append(end)
            for _ in range(hi - lo):
                s, t = self.build(x)
                self.eps[cur].append(s)
                cur = t
                self.eps[cur].append(end)
            return start, end
        if k == 'diff':
            a, b = _NFA(), _NFA()
            da = DFA(a, *a.build(e[1]))
            db = DFA(b, *b.build(e[2]))
            return self.embed(start, *product(da, db))
        raise KeyError(k)

    def embed(self, start, table, initial, accepting):
        """Embed a deterministic automaton, keeping only its useful states."""
        useful = set(accepting)
        while True:
            more = {s for s in table for t in table[s].values() if t in useful} - useful
            if not more:
                break
            useful |= more
        ids = {s: self.state() for s in table if s in useful}
        end = self.state()
        if initial in ids:
            self.eps[start].append(ids[initial])
        for s in ids:
            by_target = {}
            for byte, t in table[s].items():
                if t in ids:
                    by_target.setdefault(t, set()).add(byte)
            for t, byteset in by_target.items():
                self.edges[ids[s]].append((frozenset(byteset), ids[t]))
            if s in accepting:
                self.eps[ids[s]].append(end)
        return start, end


def product(da, db):
    """The difference of two automata, as a transition table."""
    initial = (da.start, db.start)
    table, todo, accepting = {}, [initial], set()
    while todo:
        s = todo.pop()
        if s in table:
            continue
        table[s] = {}
        a, b = s
        if da.accepting(a) and not (b is not None and db.accepting(b)):
            accepting.add(s)
        for byte in da.next(a):
            t = (da.step(a, byte), db.step(b, byte) if b is not None else None)
            table[s][byte] = t
            todo.append(t)
    return table, initial, accepting


class DFA:

    """A lazily built deterministic automaton, all of whose states can reach acceptance."""

    def __init__(self, nfa, start, end):
        self.nfa, self.end = nfa, end
        self._closure = {}
        self._ids = {}
        self._sets = []
        self._next = []
        self._steps = []
        # Only states from which the end can be reached.
        back = [[] for _ in nfa.eps]
        for s, targets in enumerate(nfa.eps):
            for t in targets:
                back[t].append(s)
        for s, edges in enumerate(nfa.edges):
            for _, t in edges:
                back[t].append(s)
        self.useful = {end}
        todo = [end]
        while todo:
            for s in back[todo.pop()]:
                if s not in self.useful:
                    self.useful.add(s)
                    todo.append(s)
        self.start = self._intern(self.closure([start]))

    def closure(self, states):
        out = set()
        todo = [s for s in states if s in self.useful]
        while todo:
            s = todo.pop()
            if s not in out:
                out.add(s)
                todo.extend(t for t in self.nfa.eps[s] if t in self.useful)
        return frozenset(s for s in out if self.nfa.edges[s] or s == self.end)

    def _intern(self, states):
        if not states:
            return None
        if states not in self._ids:
            self._ids[states] = len(self._sets)
            self._sets.append(states)
            self._next.append(None)
            self._steps.append({})
        return self._ids[states]

    def accepting(self, state):
        return state is not None and self.end in self._sets[state]

    def next(self, state):
        """The bytes on which some accepted word continues."""
        if state is None:
            return frozenset()
        if self._next[state] is None:
            self._next[state] = frozenset().union(
                *[chars for s in self._sets[state] for chars, t in self.nfa.edges[s] if t in self.useful])
        return self._next[state]

    def step(self, state, byte):
        if state is None:
            return None
        steps = self._steps[state]
        if byte not in steps:
            steps[byte] = self._intern(self.closure(
                [t for s in self._sets[state] for chars, t in self.nfa.edges[s] if byte in chars]))
        return steps[byte]

    def moves(self, state):
        """{next state: bytes that lead there}."""
        chars = {}
        for s in self._sets[state]:
            for some, t in self.nfa.edges[s]:
                if t in self.useful:
                    for byte in some:
                        chars.setdefault(byte, []).append(t)
        groups = {}
        for byte in sorted(chars):
            groups.setdefault(frozenset(chars[byte]), []).append(byte)
        out = {}
        for targets, some in groups.items():
            out.setdefault(self._intern(self.closure(targets)), []).extend(some)
        for t, some in out.items():
            some.sort()
            self._steps[state].update(dict.fromkeys(some, t))
        return out

    def run(self, data):
        """(position, state): the longest viable prefix of `data` and the state after it."""
        state = self.start
        for i, byte in enumerate(data):
            nxt = self.step(state, byte)
            if nxt is None:
                return i, state
            state = nxt
        return len(data), state

    def accepts(self, data):
        i, state = self.run(data)
        return i == len(data) and self.accepting(state)
