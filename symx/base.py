"""The part of the engine that replays need: no solver in here."""


CONSTANTS = set()   # names in the source under check that were not there when the checks were written


class Stop(BaseException):
    """Control flow of the engine; never an `Exception`, so the code under check can not swallow it."""


class Pruned(Stop):
    """An assumption can not be met on this path."""


class Truncated(Stop):
    """A bound of the engine itself was hit; the path is reported as not covered."""


class Concrete:
    """The same interface over one assignment: used to replay on the real code, without the engine and z3."""

    sym = False

    def __init__(self, assignment):
        self.assignment = assignment
        self.failed = []
        self.universe = ()

    def str(self, name, max=6, min=0, alpha='text'):
        v = self.assignment.get(name)
        if v is None:
            v = 'a' * min
        return v

    def flag(self, name):
        return bool(self.assignment.get(name, False))

    bool = flag

    def choice(self, name, options):
        return options[self.assignment.get(name, 0)] if len(options) > 1 else options[0]

    def int(self, name, lo, hi):
        return self.choice(name, list(range(lo, hi + 1)))

    def fork(self, c):
        return bool(c)

    def assume(self, cond):
        if not cond:
            raise Pruned()

    def eq(self, a, b):
        return type(a) is type(b) and a == b if not isinstance(a, str) else a == b

    def all(self, conds):
        return all(list(conds))

    def any(self, conds):
        return any(list(conds))

    def neg(self, c):
        return not c

    def check(self, label, cond, detail=None, known=None):
        if not cond:
            kid = known[0] if known is not None and known[1] else None
            self.failed.append((label, kid, detail() if callable(detail) else detail))
