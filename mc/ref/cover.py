"""Systematic test words for a reference automaton: state covers, transition covers, state identification.

(The classical conformance testing methods: every state is reached by its shortest word, every transition is
taken from there, and the state it should lead to is confirmed by words that tell it from other states.)
"""

from collections import Counter, deque

PREFERRED = b'a1A0b2'
FIRST = 3


class Automaton:

    """All reachable states (breadth first, up to `limit`) of a union of DFAs."""

    def __init__(self, dfas, limit=1500):
        self.dfas = dfas if isinstance(dfas, (list, tuple)) else [dfas]
        self.limit = limit
        self._moves, self._steps, self._complete, self._accepting = {}, {}, {}, {}
        self._signatures = {}
        self.start = tuple(d.start for d in self.dfas)
        self.access = {self.start: b''}         # the states to cover, and how to get there
        queue = deque([self.start])
        while queue:
            s = queue.popleft()
            for t, chars in self.moves(s).items():
                if t not in self.access and len(self.access) < limit:
                    self.access[t] = self.access[s] + bytes([representative(chars)])
                    queue.append(t)

    def moves(self, state):
        """{target: sorted bytes}."""
        if state not in self._moves:
            if len(self.dfas) == 1:
                out = {(t,): chars for t, chars in self.dfas[0].moves(state[0]).items()}
            else:
                targets = {}
                for n, (d, s) in enumerate(zip(self.dfas, state)):
                    for t, chars in (d.moves(s) if s is not None else {}).items():
                        for c in chars:
                            targets.setdefault(c, [None] * len(self.dfas))[n] = t
                out = {}
                for c in sorted(targets):
                    out.setdefault(tuple(targets[c]), []).append(c)
            self._moves[state] = out
            self._steps[state] = {c: t for t, chars in out.items() for c in chars}
        return self._moves[state]

    def steps(self, state):
        self.moves(state)
        return self._steps[state]

    def accepting(self, state):
        if state not in self._accepting:
            self._accepting[state] = any(d.accepting(s) for d, s in zip(self.dfas, state))
        return self._accepting[state]

    def run(self, state, data):
        """The state after `data` (None if it is not viable)."""
        for byte in data:
            state = self.steps(state).get(byte)
            if state is None:
                return None
        return state

    def accepts(self, data, state=None):
        s = self.run(self.start if state is None else state, data)
        return s is not None and self.accepting(s)

    def complete(self, state):
        """The shortest accepted continuation of a state."""
        if state not in self._complete:
            seen = {state: b''}
            queue = deque([state])
            while queue:
                s = queue.popleft()
                if self.accepting(s):
                    self._complete[state] = seen[s]
                    break
                if s in self._complete and s is not state:
                    self._complete[state] = seen[s] + self._complete[s]
                    break
                for t, chars in self.moves(s).items():
                    if t not in seen:
                        seen[t] = seen[s] + bytes([representative(chars)])
                        queue.append(t)
        return self._complete[state]

    def shape(self):
        """Equal for automata that are the same up to the names of the states."""
        order = {s: n for n, s in enumerate(self.access)}
        return tuple((self.accepting(s), tuple(sorted((order.get(t, -1), bytes(c)) for t, c in self.moves(s).items()))) for s in self.access)

    def signature(self, state, depth=2):
        """What can be seen of a state within a few steps."""
        if (state, depth) not in self._signatures:
            further = tuple(sorted((bytes(chars), self.signature(t, depth - 1)) for t, chars in self.moves(state).items())) if depth else ()
            self._signatures[state, depth] = hash((self.accepting(state), further))
        return self._signatures[state, depth]

    def distinct(self, times=2):
        """The states, leaving out those that look like `times` other states that are reached sooner."""
        often = Counter()
        for s in self.access:
            often[self.signature(s)] += 1
            if often[self.signature(s)] <= times:
                yield s

    def difference(self, s, t, depth=2):
        """A word accepted from `t` xor from `s` (None if there is none of up to `depth` bytes and a completion)."""
        if s == t:
            return None
        for x, y in ((s, t), (t, s)):
            if not self.accepts(self.complete(x), y):
                return self.complete(x)
        seen = {(s, t)}
        queue = deque([(s, t, b'')])
        while queue:
            a, b, w = queue.popleft()
            if a is None or b is None:
                return w + self.complete(a or b)
            for x, y in ((a, b), (b, a)):
                if not self.accepts(self.complete(x), y):
                    return w + self.complete(x)
            if len(w) == depth:
                continue
            chars = {}
            sa, sb = self.steps(a), self.steps(b)
            for byte in sorted(set(sa) | set(sb)):
                chars.setdefault((sa.get(byte), sb.get(byte)), []).append(byte)
            for pair, some in chars.items():
                if pair not in seen:
                    seen.add(pair)
                    queue.append(pair + (w + bytes([representative(some)]),))
        return None


def representative(chars):
    for c in PREFERRED:
        if c in chars:
            return c
    return next((c for c in chars if 33 <= c < 127), chars[0])


def edges(chars, thorough=False):
    """Some bytes of a set: the ends of each contiguous run (or all of them)."""
    if thorough:
        return list(chars)
    members = set(chars)
    return [c for c in chars if c - 1 not in members or c + 1 not in members]


def runs_outside(chars):
    """Bytes outside of a set, next to its members, and two far from them."""
    members = set(chars)
    near = {d for c in members for d in (c - 1, c + 1) if 0 <= d < 256} - members
    return sorted(near | ({0, 255} - members))


def transition_words(auto, thorough=False, part=0, parts=1, states=None):
    """Words that take every transition of every state, and confirm its target by telling it from its neighbours.

    Unless thorough, the ends of each range of bytes are tried only in the first few states with that range.
    """
    seen = set()
    often = Counter()
    for s in list(states or auto.access)[part::parts]:
        prefix = auto.access[s]
        moves = auto.moves(s)
        own = auto.complete(s)
        out = [prefix + own]
        for t, chars in moves.items():
            tail = auto.complete(t)
            often[bytes(chars)] += 1
            some = edges(chars, thorough) if thorough or often[bytes(chars)] <= FIRST else [representative(chars)]
            out.extend(prefix + bytes([c]) + tail for c in some)
            c = bytes([representative(chars)])
            for r in [s] + list(moves if thorough or len(moves) < 8 else ()):
                w = auto.difference(t, r)
                if w is not None:
                    out.append(prefix + c + w)
            if not auto.accepting(t):
                out.append(prefix + c)
        here = auto.steps(s)
        often[frozenset(here)] += 1
        outside = sorted(set(range(256)) - set(here)) if thorough else runs_outside(here)
        for c in outside if thorough or often[frozenset(here)] <= FIRST else outside[len(outside) // 2:][:1]:
            out.append(prefix + bytes([c]) + own)
        for tail in sorted({auto.complete(t) for t in moves} | {own}, key=len)[:3]:
            out.append(prefix + tail[1:])
        for v in out:
            if v not in seen:
                seen.add(v)
                yield v


def status_words(auto, part=0, parts=1, states=None):
    """Words that take every transition and then fail at once, so that the failure tells what was expected there."""
    seen = set()
    for s in list(states or auto.access)[part::parts]:
        for t, chars in [(s, None)] + list(auto.moves(s).items()):
            prefix = auto.access[s] + (bytes([representative(chars)]) if chars else b'')
            rest = set(range(256)) - set(auto.steps(t))
            for w in [b''] * (not auto.accepting(t)) + [bytes([c]) for c in sorted(rest - {9, 32})[:1]]:
                if prefix + w not in seen:
                    seen.add(prefix + w)
                    yield prefix + w
