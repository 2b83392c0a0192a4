"""
Stand-in for the `re` module in the code under check: the standard patterns, matched against symbolic strings by
backtracking over the parsed pattern (every test of a character is a fork). Concrete strings go to the real `re`.
"""

import re as _re
from re import _constants as C, _parser as P

import z3

from . import engine
from .symstr import SymStr, _and, _k, _not, _or, _sub, c_eq, concretize, resym

for _n in dir(_re):
    if not _n.startswith('_') and _n not in ('match', 'fullmatch', 'search', 'compile'):
        globals()[_n] = getattr(_re, _n)


class Unsupported(Exception):
    pass


def _cat(cat, c):
    n = str(cat)
    c = _k(c)
    rng = lambda lo, hi: z3.And(z3.UGE(c, lo), z3.ULE(c, hi))  # noqa: E731
    if n in ('CATEGORY_DIGIT', 'CATEGORY_NOT_DIGIT'):
        # \d of str patterns is every Unicode decimal digit
        e = z3.Or([rng(a, b) for a, b in _DIGITS])
        return e if n == 'CATEGORY_DIGIT' else z3.Not(e)
    if n in ('CATEGORY_SPACE', 'CATEGORY_NOT_SPACE'):
        from .symstr import is_ws
        e = is_ws(c)
        return e if n == 'CATEGORY_SPACE' else _not(e)
    raise Unsupported(n)


def _runs(pred):
    out, start = [], None
    for i in range(0x110001):
        ok = i < 0x110000 and pred(chr(i))
        if ok and start is None:
            start = i
        elif not ok and start is not None:
            out.append((start, i - 1))
            start = None
    return out


_DIGITS = _runs(str.isdecimal)


def _in(items, c):
    neg, alts = False, []
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            alts.append(c_eq(c, av))
        elif op is C.RANGE:
            alts.append(z3.And(z3.UGE(_k(c), av[0]), z3.ULE(_k(c), av[1])))
        elif op is C.CATEGORY:
            alts.append(_cat(av, c))
        else:
            raise Unsupported(op)
    e = _or(alts)
    return _not(e) if neg else e


class _Matcher:
    def __init__(self, chars):
        self.chars = chars
        self.groups = {}

    def fork(self, e):
        return engine.cur().fork(z3.simplify(e))

    def seq(self, ops, i, pos, k):
        if i == len(ops):
            return k(pos)
        op, av = ops[i]
        nxt = lambda p: self.seq(ops, i + 1, p, k)  # noqa: E731
        cs = self.chars
        if op is C.LITERAL or op is C.NOT_LITERAL or op is C.ANY or op is C.IN:
            if pos >= len(cs):
                return None
            if op is C.LITERAL:
                e = c_eq(cs[pos], av)
            elif op is C.NOT_LITERAL:
                e = _not(c_eq(cs[pos], av))
            elif op is C.ANY:
                e = _not(c_eq(cs[pos], 10))
            else:
                e = _in(av, cs[pos])
            return nxt(pos + 1) if self.fork(e) else None
        if op is C.AT:
            n = str(av)
            if n in ('AT_BEGINNING', 'AT_BEGINNING_STRING'):
                return nxt(pos) if pos == 0 else None
            if n == 'AT_END_STRING':
                return nxt(pos) if pos == len(cs) else None
            if n == 'AT_END':
                if pos == len(cs) or (pos == len(cs) - 1 and self.fork(c_eq(cs[pos], 10))):
                    return nxt(pos)
                return None
            raise Unsupported(n)
        if op is C.SUBPATTERN:
            group, add, rem, sub = av
            if add or rem:
                raise Unsupported('flags')
            old = self.groups.get(group)

            def end(p):
                prev = self.groups.get(group)
                if group is not None:
                    self.groups[group] = (pos, p)
                r = nxt(p)
                if r is None and group is not None:
                    if prev is None:
                        self.groups.pop(group, None)
                    else:
                        self.groups[group] = prev
                return r
            r = self.seq(list(sub), 0, pos, end)
            if r is None and group is not None:
                if old is None:
                    self.groups.pop(group, None)
                else:
                    self.groups[group] = old
            return r
        if op is C.BRANCH:
            for alt in av[1]:
                r = self.seq(list(alt), 0, pos, nxt)
                if r is not None:
                    return r
            return None
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av
            sub = list(sub)
            greedy = op is C.MAX_REPEAT

            def rep(n, p, last):
                if n < lo:
                    return self.seq(sub, 0, p, lambda q: rep(n + 1, q, p))
                more = (lambda: self.seq(sub, 0, p, lambda q: None if q == p else rep(n + 1, q, p))) \
                    if (hi is C.MAXREPEAT or n < hi) else (lambda: None)
                if greedy:
                    r = more()
                    return r if r is not None else nxt(p)
                r = nxt(p)
                return r if r is not None else more()
            return rep(0, pos, -1)
        raise Unsupported(op)


class Match:
    def __init__(self, pattern, chars, end, groups, start=0):
        self.re = pattern
        self._chars = chars
        self._spans = dict(groups)
        self._spans[0] = (start, end)

    def _no(self, g):
        if isinstance(g, str):
            return self.re.groupindex[g]
        if g > self.re.groups:
            raise IndexError('no such group')
        return g

    def _get(self, g, default=None):
        sp = self._spans.get(self._no(g))
        return default if sp is None else _sub(tuple(self._chars[sp[0]:sp[1]]))

    def group(self, *gs):
        if not gs:
            gs = (0,)
        return self._get(gs[0]) if len(gs) == 1 else tuple(self._get(g) for g in gs)

    def __getitem__(self, g):
        return self._get(g)

    def groups(self, default=None):
        return tuple(self._get(g, default) for g in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {n: self._get(g, default) for n, g in self.re.groupindex.items()}

    def span(self, g=0):
        return self._spans.get(self._no(g), (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    lastindex = None


class Pattern:
    def __init__(self, pattern, flags=0):
        self._real = pattern if isinstance(pattern, _re.Pattern) else _re.compile(pattern, flags)
        self.pattern = self._real.pattern
        self.flags = self._real.flags
        self.groups = self._real.groups
        self.groupindex = self._real.groupindex

    def __getattr__(self, name):
        f = getattr(self._real, name)
        if not callable(f):
            return f
        return lambda *a, **k: f(*[concretize(resym(x)) if isinstance(x, str) else x for x in a], **k)

    def _run(self, string, how):
        string = resym(string)
        if not isinstance(string, SymStr):
            return getattr(self._real, how)(string)
        try:
            if self._real.flags & ~_re.UNICODE:
                raise Unsupported('flags')
            tree = list(P.parse(self.pattern, self._real.flags))
            chars = string._fixed()
            for start in range(len(chars) + 1) if how == 'search' else (0,):
                m = _Matcher(chars)
                end = m.seq(tree, 0, start, (
                    (lambda p: p if p == len(chars) else None) if how == 'fullmatch' else (lambda p: p)
                ))
                if end is not None:
                    return Match(self, chars, end, m.groups, start)
            return None
        except Unsupported:
            return getattr(self._real, how)(concretize(string))

    def match(self, string, *a):
        return self._run(string, 'match')

    def fullmatch(self, string, *a):
        return self._run(string, 'fullmatch')

    def search(self, string, *a):
        return self._run(string, 'search')


def compile(pattern, flags=0):
    return Pattern(pattern, flags)


def match(pattern, string, flags=0):
    return Pattern(pattern, flags).match(string)


def fullmatch(pattern, string, flags=0):
    return Pattern(pattern, flags).fullmatch(string)


def search(pattern, string, flags=0):
    return Pattern(pattern, flags).search(string)
