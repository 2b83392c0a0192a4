"""
Path exploration.

The code under check is executed for real, over symbolic strings (symstr.py). Whenever its control flow depends on
a symbolic value, `Ctx.fork` asks the solver which outcomes are possible under the current path condition and the
engine later comes back for the other one (depth first, by re-execution).  On every path the obligations are
discharged by one solver query: path condition and not (all obligations) must be unsatisfiable.
"""

import time

import z3

from .base import Pruned, Stop, Truncated  # noqa: F401

CW = 21  # bits per character: all of Unicode


class Nondeterminism(Exception):
    pass


class Decision:
    __slots__ = ('eid', 'expr', 'value', 'alt', 'pushed')

    def __init__(self, expr, value, alt, pushed):
        self.expr = expr
        self.eid = expr.get_id()
        self.value = value
        self.alt = alt
        self.pushed = pushed


class Failure:
    def __init__(self, label, assignment, known, detail, failed_labels):
        self.label = label
        self.assignment = assignment
        self.known = known
        self.detail = detail
        self.failed_labels = failed_labels


TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)

CUR = None  # the context of the running exploration


def cur():
    if CUR is None:
        raise RuntimeError("no symbolic context")
    return CUR


ALPHABETS = {
    # characters XML 1.0 allows in text and attribute values (CR is excluded: parsers normalise it away)
    'text': [(0x09, 0x0A), (0x20, 0xD7FF), (0xE000, 0xFFFD), (0x10000, 0x10FFFF)],
    # no white space at the ends matters nowhere for these, and any XML name character that has no colon in it
    'name': [(0x2D, 0x2E), (0x30, 0x39), (0x41, 0x5A), (0x5F, 0x5F), (0x61, 0x7A), (0xC0, 0xD6), (0x370, 0x37D)],
    'uri': [(0x2D, 0x2F), (0x30, 0x39), (0x3A, 0x3A), (0x61, 0x7A)],
    'ascii': [(0x21, 0x7E)],
    'print': [(0x20, 0x7E)],
    'any': [(0x1, 0xD7FF), (0xE000, 0x10FFFF)],
}
FIRST = {
    'name': [(0x41, 0x5A), (0x5F, 0x5F), (0x61, 0x7A), (0xC0, 0xD6), (0x370, 0x37D)],
    'uri': [(0x61, 0x7A)],
}


def _in_ranges(c, ranges):
    return z3.Or([c == lo if lo == hi else z3.And(z3.UGE(c, lo), z3.ULE(c, hi)) for lo, hi in ranges])


class Ctx:
    sym = True

    def __init__(self, universe=(), max_paths=10**9, deadline=None, solver_timeout_ms=20000, witnesses=2):
        self.solver = z3.Solver()   # pop of the dedicated QF_BV solver costs milliseconds
        self.solver.set('timeout', solver_timeout_ms)
        self.universe = tuple(universe)
        self.max_paths = max_paths
        self.deadline = deadline
        self.want_witnesses = witnesses
        self.stack = []
        self.model = None
        self.pos = 0
        self._decl = {}
        self.cands = []
        # statistics
        self.paths = self.pruned = self.truncated = 0
        self.queries = 0
        self.solver_s = 0.0
        self.forks = 0
        self.forced = 0
        self.obligations = 0
        self.discharged = 0
        self.unknown = 0
        self.failures = []
        self.witnesses = []
        self.truncated_why = {}
        self.covered_labels = {}
        self.exhausted = False
        self.samples = []

    # -- solver ---------------------------------------------------------------------------------------------

    def _check(self, *extra):
        t = time.perf_counter()
        if extra:
            self.solver.push()
            self.solver.add(*extra)
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        if extra:
            self.solver.pop()
        self.solver_s += time.perf_counter() - t
        self.queries += 1
        if r == z3.unknown:
            self.unknown += 1
        return r, m

    def _add(self, expr):
        """Adds a constraint to the current path condition (no-op while the prefix is being re-executed)."""
        if self.pos < len(self.stack):
            return
        self.solver.add(expr)
        if self.model is not None and not z3.is_true(self.model.eval(expr, model_completion=True)):
            self.model = None

    def _get_model(self):
        if self.model is None:
            r, m = self._check()
            if r == z3.unsat:
                raise Pruned()
            if r == z3.unknown:
                raise Truncated('solver returned unknown')
            self.model = m
        return self.model

    # -- branching ------------------------------------------------------------------------------------------

    def fork(self, expr):
        if expr is True or expr is False:
            return expr
        if not z3.is_expr(expr):
            return bool(expr)
        if z3.is_true(expr):
            return True
        if z3.is_false(expr):
            return False
        eid = expr.get_id()
        cached = self.decided.get(eid)
        if cached is not None:
            return cached
        if self.pos < len(self.stack):
            d = self.stack[self.pos]
            if d.eid != eid:
                raise Nondeterminism(f"{d.expr} / {expr}")
            self.pos += 1
            self.decided[eid] = d.value
            return d.value

        if self.deadline is not None and time.monotonic() > self.deadline:
            raise Truncated('time limit')
        if len(self.stack) > 4000:
            raise Truncated('path too long')

        m = self._get_model()
        value = z3.is_true(m.eval(expr, model_completion=True))
        lit = expr if value else z3.Not(expr)
        r, _ = self._check(z3.Not(expr) if value else expr)
        if r == z3.unsat:
            self.forced += 1
            d = Decision(expr, value, False, False)
        else:
            self.forks += 1
            self.solver.push()
            self.solver.add(lit)
            d = Decision(expr, value, True, True)
        self.stack.append(d)
        self.pos += 1
        self.decided[eid] = value
        return value

    def _backtrack(self):
        while self.stack:
            d = self.stack[-1]
            if d.alt:
                self.solver.pop()
                self.solver.push()
                d.value = not d.value
                d.alt = False
                self.solver.add(d.expr if d.value else z3.Not(d.expr))
                self.model = None
                n = len(self.stack)
                self.cands = [c for c in self.cands if c[1] < n]
                return True
            if d.pushed:
                self.solver.pop()
            self.stack.pop()
        return False

    # -- inputs ---------------------------------------------------------------------------------------------

    def str(self, name, max=6, min=0, alpha='text'):
        from .symstr import SymStr
        key = ('s', name, max, min, alpha)
        if key not in self._decl:
            chars = tuple(z3.BitVec(f'{name}[{i}]', CW) for i in range(max))
            cs = []
            for i, c in enumerate(chars):
                ok = _in_ranges(c, FIRST.get(alpha, ALPHABETS[alpha]) if i == 0 else ALPHABETS[alpha])
                cs.append(ok if i < min else z3.Or(c == 0, ok))
                if i and i >= min:
                    cs.append(z3.Implies(chars[i - 1] == 0, c == 0))
            self._decl[key] = (chars, z3.And(cs) if cs else TRUE)
        chars, constraint = self._decl[key]
        self._add(constraint)
        self.inputs[name] = ('str', chars)
        return SymStr.make(chars, name)

    def flag(self, name):
        """A symbolic boolean; the value returned is decided by forking."""
        v = self._decl.setdefault(('b', name), z3.Bool(name))
        self.inputs[name] = ('bool', v)
        return self.fork(v)

    def bool(self, name):
        v = self._decl.setdefault(('b', name), z3.Bool(name))
        self.inputs[name] = ('bool', v)
        return v

    def choice(self, name, options):
        """One of `options`, chosen by the solver."""
        n = len(options)
        if n == 1:
            return options[0]
        key = ('c', name, n)
        if key not in self._decl:
            v = z3.BitVec(name, 8)
            self._decl[key] = (v, z3.ULT(v, n), [v == i for i in range(n)])
        v, constraint, eqs = self._decl[key]
        self._add(constraint)
        self.inputs[name] = ('choice', v)
        for i in range(n - 1):
            if self.fork(eqs[i]):
                return options[i]
        return options[n - 1]

    def int(self, name, lo, hi):
        return self.choice(name, list(range(lo, hi + 1)))

    # -- logic ----------------------------------------------------------------------------------------------

    def assume(self, cond):
        if cond is True:
            return
        if cond is False:
            raise Pruned()
        if not z3.is_expr(cond):
            if not cond:
                raise Pruned()
            return
        self._add(cond)
        if self.pos >= len(self.stack):
            self._get_model()

    def eq(self, a, b):
        """Equality of two leaf values as a formula (or a bool), without forking."""
        from .symstr import SymStr, eq_expr
        if isinstance(a, SymStr) or isinstance(b, SymStr):
            if not isinstance(a, str) or not isinstance(b, str):
                return False
            return eq_expr(a, b)
        return type(a) is type(b) and a == b if not isinstance(a, str) else a == b

    def all(self, conds):
        out = []
        for c in conds:
            if c is False:
                return False
            if c is not True:
                out.append(c)
        return z3.And(out) if out else True

    def any(self, conds):
        out = []
        for c in conds:
            if c is True:
                return True
            if c is not False:
                out.append(c)
        return z3.Or(out) if out else False

    def neg(self, c):
        return (not c) if isinstance(c, bool) else z3.Not(c)

    def check(self, label, cond, detail=None, known=None):
        """
        An obligation. known: (finding id, condition) - the specific misbehaviour recorded as a known finding.
        """
        if not z3.is_expr(cond):
            cond = TRUE if cond else FALSE
        self.path_obligations.append((label, cond, detail, known))

    def hang(self, why):
        """The current path does not end: every input that satisfies the path condition is a counterexample."""
        self.pos = len(self.stack)
        self.path_obligations = [('the call returns', FALSE, why, None)]

    # -- exploration ----------------------------------------------------------------------------------------

    def _assignment(self, m):
        out = {}
        for name, (kind, v) in self.inputs.items():
            if kind == 'str':
                cs = []
                for c in v:
                    x = m.eval(c, model_completion=True).as_long()
                    if x == 0:
                        break
                    cs.append(chr(x))
                out[name] = ''.join(cs)
            elif kind == 'bool':
                out[name] = z3.is_true(m.eval(v, model_completion=True))
            else:
                out[name] = m.eval(v, model_completion=True).as_long()
        return out

    def _discharge(self):
        obs = self.path_obligations
        if not obs:
            return
        self.obligations += len(obs)
        for label, *_ in obs:
            self.covered_labels[label] = self.covered_labels.get(label, 0) + 1
        bad = z3.Or([z3.Not(c) for _, c, _, _ in obs]) if len(obs) > 1 else z3.Not(obs[0][1])
        r, m = self._check(bad)
        if r == z3.unsat:
            self.discharged += len(obs)
            return
        if r == z3.unknown:
            raise Truncated('solver returned unknown for an obligation')
        # something fails: tell recorded misbehaviour from anything else
        hard = []
        for label, c, detail, known in obs:
            if known is None:
                hard.append(z3.Not(c))
            else:
                kc = known[1]
                kc = kc if z3.is_expr(kc) else (TRUE if kc else FALSE)
                hard.append(z3.And(z3.Not(c), z3.Not(kc)))
        r2, m2 = self._check(z3.Or(hard))
        if r2 == z3.unknown:
            raise Truncated('solver returned unknown for an obligation')
        if r2 == z3.sat:
            m, known_id = m2, None
        else:
            known_id = None
            for label, c, detail, known in obs:
                if known is not None and not z3.is_true(m.eval(c, model_completion=True)):
                    known_id = known[0]
                    break
        failed, detail = [], None
        for label, c, d, known in obs:
            if not z3.is_true(m.eval(c, model_completion=True)):
                failed.append(label)
                detail = detail or d
            else:
                self.discharged += 1
        if known_id is not None and sum(f.known == known_id for f in self.failures) >= 2:
            return  # recorded often enough
        self.failures.append(Failure(failed[0] if failed else '?', self._assignment(m), known_id, detail, failed))

    def run(self, fn, max_failures=3):
        global CUR
        from . import symstr
        prev, CUR = CUR, self
        symstr.clear()
        try:
            while True:
                if self.deadline is not None and time.monotonic() > self.deadline and self.paths:
                    self.truncated += 1
                    self.truncated_why['time limit'] = self.truncated_why.get('time limit', 0) + 1
                    return
                self.pos = 0
                self.decided = {}
                self.inputs = {}
                self.hashes = {}
                self.hash_others = []
                self.concretized = {}
                self.cand_i = 0
                self.path_obligations = []
                symstr.reset()
                try:
                    fn(self)
                    if self.pos < len(self.stack):
                        raise Nondeterminism('path ended inside its prefix')
                    self._discharge()
                    self.paths += 1
                    if len(self.witnesses) < self.want_witnesses or \
                            (self.paths & (self.paths - 1) == 0 and len(self.witnesses) < 4 * self.want_witnesses):
                        self.witnesses.append(self._assignment(self._get_model()))
                except Pruned:
                    self.pruned += 1
                except Truncated as e:
                    self.truncated += 1
                    self.truncated_why[str(e)] = self.truncated_why.get(str(e), 0) + 1
                hard = [f for f in self.failures if f.known is None]
                if len(hard) >= max_failures:
                    return
                if self.paths >= self.max_paths:
                    self.truncated += 1
                    self.truncated_why['path limit'] = 1
                    return
                if not self._backtrack():
                    self.exhausted = True
                    return
        finally:
            CUR = prev
