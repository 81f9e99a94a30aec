"""Symbolic execution context: path condition, decisions, assumptions, obligations."""

from __future__ import annotations

from . import solve as S
from . import terms as T


class Infeasible(Exception):
    """The current path contradicts the path condition."""


class Unsupported(Exception):
    """A construct outside the verifier's reach (never a verdict about the code)."""


class PathLimit(Exception):
    pass


class Ctx:
    cur: "Ctx | None" = None

    def __init__(self, prefix=()):
        self.hyps = []
        self.prefix = list(prefix)
        self.taken = []
        self.decided = []  # the conditions decided on this path
        self.escaping = 0  # inside the runs of a loop summary
        self.alternatives = []
        self.obligations = []  # (name, goal, hyps snapshot)
        self.queries = 0
        self.max_decisions = 60
        self.notes = []
        self.strict_index = True
        self.box = False
        self.cases = []

    # facts
    def assume(self, t):
        t = T.to_bool(t)
        if t is T.TRUE:
            return
        for h in S.flatten_and([t]):
            if h is T.FALSE:
                self.hyps.append(h)
                raise Infeasible()
            if h not in self.hyps:
                self.hyps.append(h)

    def prove(self, t, timeout=1.0):
        """Is t valid here?  (quick, used for simplification and shape questions)"""
        t = T.to_bool(t)
        if t is T.TRUE:
            return True
        if t is T.FALSE:
            return False
        if t in self.hyps:
            return True
        return S.quick(t, self.hyps, timeout)

    def decide(self, t):
        t = T.to_bool(t)
        if t is T.TRUE:
            return True
        if t is T.FALSE:
            return False
        if self.prove(t):
            return True
        if self.prove(T.not_(t)):
            return False
        pos = len(self.taken)
        if pos < len(self.prefix):
            v = self.prefix[pos]
        else:
            v = True
            self.alternatives.append(list(self.taken) + [False])
        if pos > self.max_decisions:
            raise PathLimit()
        self.taken.append(v)
        self.decided.append(t if v else T.not_(t))
        self.assume(self.decided[-1])
        return v

    def require(self, name, t):
        """Implicit safety obligation raised by an operation (index in range ...)."""
        t = T.to_bool(t)
        if t is T.TRUE:
            return
        self.obligations.append((name, t, list(self.hyps)))

    def fresh_index(self, n, name="i"):
        x = T.fresh(name, T.I)
        self.assume(T.and_(T.le(T.IZERO, x), T.lt(x, T.lift(n))))
        return x


def engine_error(ex):
    """An error of this machinery (an unmodelled call form ...), not of the code under verification."""
    import os

    tb = ex.__traceback__
    last = None
    while tb is not None:
        last = tb
        tb = tb.tb_next
    here = os.path.dirname(os.path.abspath(__file__))
    if last is None:
        return False
    f = last.tb_frame.f_code.co_filename
    return f.startswith(here) and isinstance(ex, (TypeError, AttributeError, NameError, KeyError, AssertionError, NotImplementedError, RecursionError))


def ctx() -> Ctx:
    return Ctx.cur


def explore(fn, max_paths=64, stop=None):
    """Run fn(ctx) on every feasible path; yields (ctx, outcome, value)."""
    stack = [[]]
    n = 0
    while stack:
        prefix = stack.pop()
        c = Ctx(prefix)
        Ctx.cur = c
        n += 1
        if n > max_paths:
            raise PathLimit(f"more than {max_paths} paths")
        try:
            v = fn(c)
            out = ("return", v)
        except Infeasible:
            out = ("infeasible", None)
            if c.escaping:
                raise Unsupported("a path ends inside a summarised loop")
        except (Unsupported, PathLimit):
            raise
        except T.EvalError:
            raise
        except Exception as ex:  # an exception of the code under verification
            if engine_error(ex):
                raise Unsupported(f"{type(ex).__name__}: {ex}") from ex
            out = ("raise", ex)
        if c.escaping:
            raise Unsupported("a path ends inside a summarised loop")
        stack.extend(c.alternatives)
        yield c, out[0], out[1]
