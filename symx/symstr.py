"""
Symbolic strings.

A SymStr is a `str` whose buffer is a unique token and whose value is a bounded vector of characters (z3 bit-vectors or
constants), padded with zeros: character i is zero exactly when the string is not longer than i.  The code under check
handles it as any string; where C code (pydantic-core, libxml2, str.join, ...) copies the buffer, the token comes back
inside an ordinary string and `resym` turns it into the symbolic value again.
"""

import re

import z3

from . import engine
from .engine import CW, FALSE, TRUE, Truncated

_TOKEN = re.compile(r'qX([0-9]{5})Xq')
_registry = {}
_count = [0]
_eq_cache = {}

# str.strip() removes these
WHITESPACE = [c for c in range(0x110000) if chr(c).isspace()]


def reset():
    """Called at the start of every path: numbering has to be the same whenever a prefix is executed again."""
    _registry.clear()
    _count[0] = 0


def clear():
    _memo.clear()
    _eq_cache.clear()


def _k(c):
    return z3.BitVecVal(c, CW) if isinstance(c, int) else c


def c_eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return TRUE if a == b else FALSE
    if a is b:
        return TRUE
    return _k(a) == _k(b)


def c_if(cond, a, b):
    if z3.is_true(cond):
        return a
    if z3.is_false(cond):
        return b
    if isinstance(a, int) and isinstance(b, int) and a == b:
        return a
    if a is b:
        return a
    return z3.If(cond, _k(a), _k(b))


def _and(xs):
    out = []
    for x in xs:
        if z3.is_false(x):
            return FALSE
        if not z3.is_true(x):
            out.append(x)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else z3.And(out)


def _or(xs):
    out = []
    for x in xs:
        if z3.is_true(x):
            return TRUE
        if not z3.is_false(x):
            out.append(x)
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else z3.Or(out)


def _not(x):
    if z3.is_true(x):
        return FALSE
    if z3.is_false(x):
        return TRUE
    return z3.Not(x)


def _groups(codes):
    groups = []
    for w in codes:
        if groups and w == groups[-1][1] + 1:
            groups[-1][1] = w
        else:
            groups.append([w, w])
    return groups


_WS = _groups(WHITESPACE)
_memo = {}


def memo(kind, key, make, *keep):
    """Terms that are built again and again; the arguments are kept alive with the entry, ids of dead terms are reused."""
    hit = _memo.get((kind, key))
    if hit is None:
        hit = _memo[kind, key] = (make(), keep)
    return hit[0]


def vid(chars):
    return tuple([c if isinstance(c, int) else -1 - c.get_id() for c in chars])


def is_ws(c):
    if isinstance(c, int):
        return TRUE if c and chr(c).isspace() else FALSE
    return memo('ws', c.get_id(), lambda: _or(
        [c == a if a == b else z3.And(z3.UGE(c, a), z3.ULE(c, b)) for a, b in _WS]), c)


def chars_of(s):
    """The character vector of any string."""
    if isinstance(s, SymStr):
        return s._chars
    s = resym(s)
    if isinstance(s, SymStr):
        return s._chars
    return tuple(map(ord, s))


def vec_eq(a, b):
    n = max(len(a), len(b))
    return _and([c_eq(a[i] if i < len(a) else 0, b[i] if i < len(b) else 0) for i in range(n)])


def eq_expr(a, b):
    if a is b:
        return TRUE
    va, vb = chars_of(a), chars_of(b)
    if va is vb:
        return TRUE
    key = vid(va), vid(vb)
    hit = _eq_cache.get(key)
    if hit is None:
        # the vectors are kept alive with the entry: ids of dead terms are reused
        hit = _eq_cache[key] = (vec_eq(va, vb), va, vb)
    return hit[0]


def concat(a, b):
    """Concatenation of two vectors."""
    if not a:
        return b
    if not b:
        return a
    if all(isinstance(c, int) for c in a):
        return tuple(a) + tuple(b)
    return memo('cat', (vid(a), vid(b)), lambda: _concat(a, b), a, b)


def _concat(a, b):
    # the part of `a` that certainly is there can be kept as it is
    out = []
    n, m = len(a), len(b)
    # lens[j]: len(a) == j
    nz = [(_not(c_eq(c, 0))) for c in a]
    lens = []
    for j in range(n + 1):
        lo = nz[j - 1] if j else TRUE
        hi = _not(nz[j]) if j < n else TRUE
        lens.append(_and([lo, hi]))
    for k in range(n + m):
        # value at k: a[k] if k < len(a) else b[k - len(a)]
        v = 0
        for j in range(0, min(k, n) + 1):
            i = k - j
            if i < m:
                v = c_if(lens[j], b[i], v)
        if k < n:
            v = c_if(nz[k], a[k], v)
        out.append(v)
    return tuple(out)


class SymStr(str):
    __slots__ = ('_chars', '_name')

    @staticmethod
    def make(chars, name=None, buffer=None):
        if all(isinstance(c, int) for c in chars):
            return ''.join(map(chr, [c for c in chars if c]))
        chars = tuple(chars)
        while chars and isinstance(chars[-1], int) and chars[-1] == 0:
            chars = chars[:-1]
        if buffer is None:
            _count[0] += 1
            buffer = 'qX%05dXq' % _count[0]
        s = str.__new__(SymStr, buffer)
        s._chars = chars
        s._name = name
        _registry[buffer] = s
        return s

    # -- identity -------------------------------------------------------------------------------------------

    @property
    def token(self):
        return str.__str__(self)

    def __eq__(self, other):
        if not isinstance(other, str):
            return NotImplemented
        return engine.cur().fork(eq_expr(self, other))

    def __ne__(self, other):
        if not isinstance(other, str):
            return NotImplemented
        return not engine.cur().fork(eq_expr(self, other))

    def __bool__(self):
        return not engine.cur().fork(c_eq(self._chars[0], 0)) if self._chars else False

    def __hash__(self):
        """
        Hash containers compare by hash first. The value is classified against the constants the harness declared
        and the values hashed before, so that equal strings do have equal hashes on every path.
        """
        ctx = engine.cur()
        tok = str.__str__(self)
        h = ctx.hashes.get(tok)
        if h is None:
            for const in ctx.universe:
                if self == const:
                    h = hash(const)
                    break
            else:
                for other in ctx.hash_others:
                    if other is self or self == other:
                        h = ctx.hashes[str.__str__(other)]
                        break
                else:
                    ctx.hash_others.append(self)
                    h = str.__hash__(self)
            ctx.hashes[tok] = h
        return h

    def __str__(self):
        return self

    def __repr__(self):
        return '<%s>' % (self._name or str.__str__(self))

    def __format__(self, spec):
        if spec:
            return str.__format__(concretize(self), spec)
        return str.__str__(self)

    def __reduce__(self):
        return (str, (concretize(self),))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __len__(self):
        cs = self._chars
        for i, c in enumerate(cs):
            if engine.cur().fork(c_eq(c, 0)):
                return i
        return len(cs)

    def _fixed(self):
        """The characters, after the length has been decided by forking."""
        return self._chars[:len(self)]

    def _cmp(self, other):
        if not isinstance(other, str):
            return None
        a, b = chars_of(self), chars_of(other)
        lt, eq = FALSE, TRUE
        for i in range(max(len(a), len(b))):
            x = a[i] if i < len(a) else 0
            y = b[i] if i < len(b) else 0
            lt = _or([lt, _and([eq, z3.ULT(_k(x), _k(y))])])
            eq = _and([eq, c_eq(x, y)])
        return lt, eq

    def __lt__(self, other):
        r = self._cmp(other)
        return NotImplemented if r is None else engine.cur().fork(z3.simplify(r[0]))

    def __le__(self, other):
        r = self._cmp(other)
        return NotImplemented if r is None else engine.cur().fork(z3.simplify(_or(r)))

    def __gt__(self, other):
        r = self._cmp(other)
        return NotImplemented if r is None else not engine.cur().fork(z3.simplify(_or(r)))

    def __ge__(self, other):
        r = self._cmp(other)
        return NotImplemented if r is None else not engine.cur().fork(z3.simplify(r[0]))

    # -- building -------------------------------------------------------------------------------------------

    def __add__(self, other):
        if not isinstance(other, str):
            return NotImplemented
        return SymStr.make(concat(self._chars, chars_of(other)), buffer=str.__str__(self) + str.__str__(other))

    def __radd__(self, other):
        if not isinstance(other, str):
            return NotImplemented
        return SymStr.make(concat(chars_of(other), self._chars), buffer=str.__str__(other) + str.__str__(self))

    def __mul__(self, n):
        out = ''
        for _ in range(n):
            out = out + self
        return out

    __rmul__ = __mul__

    def __mod__(self, args):
        return mod(self, args)

    def __rmod__(self, fmt):
        return mod(fmt, self)

    # -- parts ----------------------------------------------------------------------------------------------

    def __iter__(self):
        return iter([SymStr.make((c,)) for c in self._fixed()])

    def __getitem__(self, item):
        cs = self._chars
        if isinstance(item, int):
            if 0 <= item < len(cs):
                if engine.cur().fork(c_eq(cs[item], 0)):
                    raise IndexError('string index out of range')
                return SymStr.make((cs[item],))
            return _sub(self._fixed()[item])
        if (item.start or 0) >= 0 and (item.stop is None or item.stop >= 0) and item.step in (None, 1):
            return SymStr.make(cs[item]) if cs[item] else ''
        return _sub(self._fixed()[item])

    def __contains__(self, sub):
        if not isinstance(sub, str):
            raise TypeError
        return engine.cur().fork(z3.simplify(self._find_expr(sub)))

    def _find_expr(self, sub):
        n = chars_of(sub)
        if any(not isinstance(c, int) for c in n):
            n = SymStr.make(n)._fixed() if not isinstance(sub, SymStr) else sub._fixed()
        cs = self._chars
        if not n:
            return TRUE
        return _or([
            _and([c_eq(cs[i + j], n[j]) for j in range(len(n))]) for i in range(len(cs) - len(n) + 1)
        ])

    def startswith(self, prefix, *args):
        if args:
            return self._slow('startswith', prefix, *args)
        if isinstance(prefix, tuple):
            return any(self.startswith(p) for p in prefix)
        n = _const_len(prefix)
        cs = self._chars
        if len(n) > len(cs):
            return False if all(isinstance(c, int) for c in n) else self._slow('startswith', prefix)
        return engine.cur().fork(_and([c_eq(cs[j], n[j]) for j in range(len(n))]))

    def endswith(self, suffix, *args):
        if args or isinstance(suffix, tuple):
            return self._slow('endswith', suffix, *args)
        n = _const_len(suffix)
        cs = self._fixed()
        if len(n) > len(cs):
            return False
        return engine.cur().fork(_and([c_eq(cs[len(cs) - len(n) + j], n[j]) for j in range(len(n))]))

    def removeprefix(self, prefix):
        return self[len(prefix):] if self.startswith(prefix) else self

    def strip(self, chars=None):
        return self.rstrip(chars).lstrip(chars)

    def rstrip(self, chars=None):
        chars = concretize(chars)
        cs = self._chars
        return _sub(memo('rstrip', (vid(cs), chars), lambda: _rstrip(cs, _class(chars)), cs))

    def lstrip(self, chars=None):
        chars = concretize(chars)
        cs = self._chars
        return _sub(memo('lstrip', (vid(cs), chars), lambda: _lstrip(cs, _class(chars)), cs))

    def lower(self):
        return self._case(0x41, 0x5A, 32)

    def upper(self):
        return self._case(0x61, 0x7A, -32)

    def casefold(self):
        return self.lower()

    def _case(self, lo, hi, d):
        out = []
        for c in self._chars:
            if isinstance(c, int):
                out.append(ord(chr(c).lower() if d > 0 else chr(c).upper()) if c else 0)
                continue
            if not engine.cur().fork(z3.ULT(c, 128)):
                raise Truncated('case mapping outside ASCII')
            out.append(c_if(z3.And(z3.UGE(c, lo), z3.ULE(c, hi)), c + d, c))
        return _sub(tuple(out))

    def split(self, sep=None, maxsplit=-1):
        if not isinstance(sep, str) or isinstance(sep, SymStr) or len(sep) != 1:
            return self._slow('split', sep, maxsplit)
        out, part = [], []
        for c in self._fixed():
            if maxsplit != 0 and engine.cur().fork(c_eq(c, ord(sep))):
                out.append(_sub(tuple(part)))
                part = []
                maxsplit -= 1
            else:
                part.append(c)
        out.append(_sub(tuple(part)))
        return out

    def find(self, sub, *args):
        if args or isinstance(sub, SymStr):
            return self._slow('find', sub, *args)
        n = tuple(map(ord, sub))
        cs = self._fixed()
        for i in range(len(cs) - len(n) + 1):
            if engine.cur().fork(_and([c_eq(cs[i + j], n[j]) for j in range(len(n))])):
                return i
        return -1

    def index(self, sub, *args):
        r = self.find(sub, *args)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rfind(self, sub, *args):
        if args or isinstance(sub, SymStr):
            return self._slow('rfind', sub, *args)
        n = tuple(map(ord, sub))
        cs = self._fixed()
        for i in range(len(cs) - len(n), -1, -1):
            if engine.cur().fork(_and([c_eq(cs[i + j], n[j]) for j in range(len(n))])):
                return i
        return -1

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, '', ''
        return self[:i], sep, self[i + len(sep):]

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return '', '', self
        return self[:i], sep, self[i + len(sep):]

    def isspace(self):
        cs = self._chars
        return engine.cur().fork(_and(
            [_not(c_eq(cs[0], 0))] + [_or([c_eq(c, 0), is_ws(c)]) for c in cs],
        )) if cs else False

    def isdigit(self):
        return self._slow('isdigit') if not self._all_ascii() else engine.cur().fork(_and(
            [_not(c_eq(self._chars[0], 0))] +
            [_or([c_eq(c, 0), z3.And(z3.UGE(_k(c), 0x30), z3.ULE(_k(c), 0x39))]) for c in self._chars],
        ))

    def _all_ascii(self):
        return engine.cur().fork(_and([z3.ULT(_k(c), 128) for c in self._chars]))

    def replace(self, old, new, count=-1):
        if not isinstance(old, str) or isinstance(old, SymStr) or len(old) != 1:
            return self._slow('replace', old, new, count)
        out = ''
        for c in self._fixed():
            if count != 0 and engine.cur().fork(c_eq(c, ord(old))):
                out = out + new
                count -= 1
            else:
                out = out + _sub((c,))
        return out

    def join(self, items):
        return join(self, items)

    def format(self, *args, **kwargs):
        return concretize(self).format(*args, **kwargs)

    def encode(self, *args):
        return concretize(self).encode(*args)

    def _slow(self, meth, *args):
        return getattr(concretize(self), meth)(*[concretize(a) if isinstance(a, SymStr) else a for a in args])


def _fallback(meth):
    def f(self, *args, **kwargs):
        return self._slow(meth, *args, **kwargs)
    f.__name__ = meth
    return f


for _m in ('capitalize', 'center', 'count', 'expandtabs', 'format_map', 'isalnum', 'isalpha', 'isascii', 'isdecimal',
           'isidentifier', 'islower', 'isnumeric', 'isprintable', 'istitle', 'isupper', 'ljust', 'maketrans',
           'removesuffix', 'rindex', 'rjust', 'rsplit', 'splitlines', 'swapcase', 'title', 'translate', 'zfill'):
    setattr(SymStr, _m, _fallback(_m))


def _rstrip(cs, test):
    keep, out = FALSE, []
    for c in reversed(cs):
        keep = _or([keep, _and([_not(c_eq(c, 0)), _not(test(c))])])
        out.append(c_if(keep, c, 0))
    return tuple(reversed(out))


def _lstrip(cs, test):
    cs = list(cs)
    for _ in range(len(cs)):
        t = _and([_not(c_eq(cs[0], 0)), test(cs[0])])
        if z3.is_false(t):
            break
        cs = [c_if(t, cs[i + 1] if i + 1 < len(cs) else 0, cs[i]) for i in range(len(cs))]
    return tuple(cs)


def _sub(chars):
    return SymStr.make(chars) if chars else ''


def _const_len(s):
    return s._fixed() if isinstance(s, SymStr) else chars_of(s)


def _class(chars):
    if chars is None:
        return is_ws
    codes = [ord(c) for c in chars]
    return lambda c: _or([c_eq(c, k) for k in codes])


def concretize(s, limit=4):
    """Decides the whole value by forking; a bound on the number of values makes the path truncated, never wrong."""
    if not isinstance(s, SymStr):
        return s
    ctx = engine.cur()
    tok = str.__str__(s)
    if tok in ctx.concretized:
        return ctx.concretized[tok]
    for _ in range(limit):
        if ctx.cand_i < len(ctx.cands):
            v = ctx.cands[ctx.cand_i][0]
        else:
            m = ctx._get_model()
            cs = []
            for c in s._chars:
                x = c if isinstance(c, int) else m.eval(c, model_completion=True).as_long()
                if x == 0:
                    break
                cs.append(chr(x))
            v = ''.join(cs)
            ctx.cands.append((v, ctx.pos))
        ctx.cand_i += 1
        if ctx.fork(eq_expr(s, v)):
            ctx.concretized[tok] = v
            return v
    raise Truncated('more than %d values at a point that needs a concrete string' % limit)


def mod(fmt, args):
    """fmt % args, for the conversions the code uses; anything else needs concrete values."""
    if isinstance(fmt, SymStr):
        fmt = concretize(fmt)
    tup = args if isinstance(args, tuple) else (args,)
    if not isinstance(fmt, str) or not any(_has_sym(a) for a in tup):
        return fmt % args
    parts = re.split(r'(%%|%[sr])', fmt)
    if isinstance(args, dict) or re.search(r'%', ''.join(p for i, p in enumerate(parts) if i % 2 == 0)):
        return resym(fmt % args)
    out, it = '', iter(tup)
    n = sum(1 for p in parts[1::2] if p != '%%')
    if n != len(tup):
        return fmt % tuple('' for _ in tup)  # raises the usual TypeError
    for i, p in enumerate(parts):
        if i % 2 == 0:
            out = out + p
        elif p == '%%':
            out = out + '%'
        else:
            a = next(it)
            out = out + (str(a) if p == '%s' else repr(a))
    return out


def join(sep, items):
    items = list(items)
    if not _has_sym(sep) and not any(_has_sym(i) for i in items):
        return str.join(sep, items)
    out = ''
    for i, it in enumerate(items):
        if not isinstance(it, str):
            raise TypeError('sequence item %d: expected str instance, %s found' % (i, type(it).__name__))
        out = out + (sep + it if i else it)
    return out


def _has_sym(a):
    return isinstance(a, SymStr) or (isinstance(a, str) and 'qX' in a and _TOKEN.search(a) is not None)


def resym(s):
    """Turns a string that carries tokens back into the symbolic string it stands for."""
    if type(s) is not str or 'qX' not in s:
        return s
    hit = _registry.get(s)
    if hit is not None:
        return hit
    if _TOKEN.search(s) is None:
        return s
    out, last = '', 0
    for m in _TOKEN.finditer(s):
        sym = _registry.get(m.group(0))
        if sym is None:
            continue
        out = out + s[last:m.start()] + sym if s[last:m.start()] else out + sym
        last = m.end()
    if last == 0:
        return s
    return out + s[last:] if s[last:] else out


def deep_resym(o):
    if type(o) is str:
        return resym(o)
    if type(o) is dict:
        return {deep_resym(k): deep_resym(v) for k, v in o.items()}
    if type(o) is list:
        return [deep_resym(v) for v in o]
    if type(o) is tuple:
        return tuple(deep_resym(v) for v in o)
    return o
