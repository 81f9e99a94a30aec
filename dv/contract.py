"""Contracts on the real functions, in two modes sharing one specification.

Symbolic mode (class Sym_): inputs are arbitrary (symbolic sizes, symbolic elements), the real function
bodies are executed over terms, ``prove`` registers a proof obligation.
Concrete mode (class Conc_): the same specification over the real, untouched ``artist`` package with real
torch in float64; used to replay countermodels, to search for a concrete failing input after an obligation
failed, and to cross-check the torch semantics assumed by the symbolic mode on every run.
"""

from __future__ import annotations

import builtins
import importlib
import math
import random
import sys
import traceback
from fractions import Fraction

from . import loader
from . import solve as S
from . import symtorch as ST
from . import terms as T
from .ctx import Ctx, Infeasible, PathLimit, Unsupported, ctx, engine_error, explore
from .sym import Sym, SymReal, term, wrap

CONTRACTS: dict = {}


class Contract:
    def __init__(self, prop, name, fn, functions, opts):
        self.prop, self.name, self.fn, self.functions, self.opts = prop, name, fn, functions, opts


def contract(prop, name, functions=(), **opts):
    def deco(fn):
        CONTRACTS.setdefault(prop, []).append(Contract(prop, name, fn, list(functions), opts))
        return fn

    return deco


class Reject(Exception):
    """A concrete sample does not satisfy the precondition (or is numerically ambiguous)."""


class Failure(Exception):
    """A postcondition is false on a concrete input."""

    def __init__(self, name, detail):
        super().__init__(f"{name}: {detail}")
        self.name, self.detail = name, detail


def _private(obj, name, err):
    import inspect

    f = getattr(obj, name, None)
    if f is None:
        raise err(f"no private function {name}")

    def call(*a, **k):
        try:
            inspect.signature(f).bind(*a, **k)
        except TypeError as ex:
            raise err(f"private function {name}: {ex}") from ex
        return f(*a, **k)

    return call


# ------------------------------------------------------------------ symbolic mode


class SymB:
    symbolic = True

    def __init__(self, ld):
        self.ld = ld
        self.torch = loader.fake_torch()["torch"]
        self.inputs = []

    # modules of the code under verification
    def mod(self, name):
        self.ld.load("artist.field")  # importing artist.scene first is a circular import in the code itself
        return self.ld.load("artist." + name)

    def stub(self, module, name, fn):
        """Replace a callee by its contract (symbolic mode only)."""
        setattr(self.mod(module), name, fn)

    # inputs
    def dim(self, name, lo=1, hi=3):
        n = T.var(name, T.I)
        ctx().assume(T.le(T.ic(lo), n))
        return wrap(n)

    def int(self, name, lo=None, hi=None):
        n = T.var(name, T.I)
        if lo is not None:
            ctx().assume(T.le(term(lo), n))
        if hi is not None:
            ctx().assume(T.le(n, term(hi)))
        return wrap(n)

    def real(self, name, lo=None, hi=None, **k):
        n = T.var(name, T.R)
        if lo is not None:
            ctx().assume(T.le(T.to_real(term(lo)), n))
        if hi is not None:
            ctx().assume(T.le(n, T.to_real(term(hi))))
        return wrap(n)

    def choice(self, name, values):
        """A parameter taken from a finite set: every value is verified."""
        values = builtins.list(values)
        n = T.var(name, T.I)
        for i, v in enumerate(values[:-1]):
            if ctx().decide(T.eq(n, T.ic(i))):
                return v
        ctx().assume(T.eq(n, T.ic(len(values) - 1)))
        return values[-1]

    def _tensor(self, name, shape, sort, dt):
        shape = ST.Size(shape)
        return ST.Tensor(shape, lambda idx: T.app(name, idx, sort), dt)

    def reals(self, name, shape, lo=None, hi=None, gen=None):
        t = self._tensor(name, shape, T.R, ST.float32)
        if lo is not None or hi is not None:
            def body(*i):
                e = T.app(name, i, T.R)
                out = []
                if lo is not None:
                    out.append(T.le(T.to_real(term(lo)), e))
                if hi is not None:
                    out.append(T.le(e, T.to_real(term(hi))))
                return T.and_(*out)
            ctx().assume(T.forall([ST.dterm(d) for d in shape], body))
        return t

    def ints(self, name, shape, lo=None, hi=None, gen=None, dtype="int64"):
        """Integers with lo <= x < hi."""
        t = self._tensor(name, shape, T.I, getattr(ST, dtype))
        def body(*i):
            e = T.app(name, i, T.I)
            out = []
            if lo is not None:
                out.append(T.le(term(lo), e))
            if hi is not None:
                out.append(T.lt(e, term(hi)))
            return T.and_(*out)
        if lo is not None or hi is not None:
            ctx().assume(T.forall([ST.dterm(d) for d in shape], body))
        return t

    def bools(self, name, shape, gen=None):
        return self._tensor(name, shape, T.B, ST.bool)

    def const(self, data, dtype=None):
        return ST.tensor(data, dtype=getattr(ST, dtype) if dtype else None)

    def unit_vectors(self, name, shape, homogeneous=None):
        """Tensor shape+(3,) of unit vectors, or shape+(4,) with the given 4th component."""
        t3 = self._tensor(name, tuple(shape) + (3,), T.R, ST.float32)
        ctx().assume(T.forall([ST.dterm(d) for d in shape], lambda *i: T.eq(T.add(*[T.mul(T.app(name, i + (T.ic(k),), T.R), T.app(name, i + (T.ic(k),), T.R)) for k in range(3)]), T.ONE)))
        if homogeneous is None:
            return t3
        return self.with_fourth(t3, homogeneous)

    def with_fourth(self, t3, v):
        shape = tuple(t3.shape)
        f = t3.snap()
        def fn(idx):
            l = idx[-1]
            if l.op == "c":
                return f(idx) if int(l.args[0]) < 3 else T.num(v, T.R)
            return T.ite(T.lt(l, T.ic(3)), f(idx), T.num(v, T.R))
        return ST.Tensor(shape[:-1] + (4,), fn, ST.float32)

    # reading
    def el(self, t, *idx):
        if not isinstance(t, ST.Tensor):
            t = ST.lift_tensor(t)
        return wrap(t.elem(tuple(term(i) for i in idx)))

    def shape(self, t):
        return tuple(t.shape)

    # conditions
    def lift(self, v):
        return T.to_bool(term(v)) if not isinstance(v, T.Term) else T.to_bool(v)

    def _c(self, f, a, b):
        return wrap(f(term(a), term(b)))

    def eq(self, a, b, tol=None):
        return self._c(T.eq, a, b)

    def le(self, a, b):
        return self._c(T.le, a, b)

    def lt(self, a, b):
        return self._c(T.lt, a, b)

    def ge(self, a, b):
        return self._c(T.le, b, a)

    def gt(self, a, b):
        return self._c(T.lt, b, a)

    def ne(self, a, b):
        return wrap(T.not_(T.eq(term(a), term(b))))

    def and_(self, *cs):
        return wrap(T.and_(*[self.lift(c) for c in cs]))

    def or_(self, *cs):
        return wrap(T.or_(*[self.lift(c) for c in cs]))

    def not_(self, c):
        return wrap(T.not_(self.lift(c)))

    def implies(self, a, b):
        return wrap(T.implies(self.lift(a), self.lift(b)))

    def iff(self, a, b):
        return self.and_(self.implies(a, b), self.implies(b, a))

    def ite(self, c, a, b):
        return wrap(T.ite(self.lift(c), term(a), term(b)))

    def forall(self, dims, fn):
        return wrap(T.forall([term(d) for d in dims], lambda *i: self.lift(fn(*[wrap(x) for x in i]))))

    def exists(self, dims, fn):
        return wrap(T.exists([term(d) for d in dims], lambda *i: self.lift(fn(*[wrap(x) for x in i]))))

    # functions
    def sum(self, n, fn):
        return wrap(T.psum(term(n), lambda i: term(fn(wrap(i)))))

    def sqrt(self, x):
        return wrap(T.sqrt(T.to_real(term(x))))

    def sin(self, x):
        return wrap(T.sin(T.to_real(term(x))))

    def cos(self, x):
        return wrap(T.cos(T.to_real(term(x))))

    def fn(self, name, *xs):
        return wrap(T.fn(name, *[T.to_real(term(x)) for x in xs]))

    def exp(self, x):
        return self.fn("exp", x)

    def log(self, x):
        return self.fn("log", x)

    def abs(self, x):
        return wrap(T.abs_(term(x)))

    def max(self, *xs):
        ts = [term(x) for x in xs]
        r = ts[0]
        for t in ts[1:]:
            r = T.max_(r, t)
        return wrap(r)

    def min(self, *xs):
        ts = [term(x) for x in xs]
        r = ts[0]
        for t in ts[1:]:
            r = T.min_(r, t)
        return wrap(r)

    def floor(self, x):
        return wrap(T.floor(T.to_real(term(x))))

    def toreal(self, x):
        return wrap(T.to_real(term(x)))

    pi = property(lambda self: wrap(T.PI))

    # specification
    def assume(self, c):
        ctx().assume(self.lift(c))

    def assume_all(self, dims, fn):
        self.assume(self.forall(dims, fn))

    def prove(self, name, c, **opts):
        if ctx().cases:
            opts = {**opts, "cases": list(ctx().cases)}
        ctx().obligations.append((name, self.lift(c), list(ctx().hyps), opts))

    def prove_all(self, name, dims, fn, **opts):
        c = ctx()
        h0 = list(c.hyps)
        idx = []
        try:
            for d in dims:
                if isinstance(d, int) and not isinstance(d, bool):
                    idx.append(None)
                else:
                    n = term(d)
                    x = T.fresh("i", T.I)
                    c.hyps.append(T.and_(T.le(T.IZERO, x), T.lt(x, n)))
                    idx.append(wrap(x))
            def rec(k, acc):
                if k == len(idx):
                    nm = name if not acc else name
                    self.prove(nm, fn(*acc), **opts)
                    return
                if idx[k] is None:
                    for j in range(dims[k]):
                        rec(k + 1, acc + [j])
                else:
                    rec(k + 1, acc + [idx[k]])
            rec(0, [])
        finally:
            c.hyps[:] = h0

    def lemma(self, name, c, **opts):
        """Prove c, then use it as a hypothesis (for the rest of the current case)."""
        self.prove(name, c, **opts)
        self.assume(c)
        if ctx().cases:
            ctx().cases.append(self.lift(c))

    def law(self, name, given, follows, *values):
        """A law of real arithmetic: proved for arbitrary reals on its own, then used for these values."""
        xs = [wrap(T.fresh("x", T.R)) for _ in values]
        ctx().obligations.append((name + " (law)", self.lift(follows(*xs)), S.flatten_and([self.lift(given(*xs))]), {}))
        self.prove(name + ": premise", given(*values))
        self.assume(follows(*values))

    def sums_equal(self, name, n, f, g):
        """Two finite sums are equal because their summands are."""
        self.prove_all(name, (n,), lambda k: self.eq(f(k), g(k)))
        ctx().assume(T.eq(term(self.sum(n, f)), term(self.sum(n, g))))

    def interval_sum(self, name, n, lo, hi, f):
        """Among the first n integers exactly hi - lo satisfy f, because they are those from lo up to hi."""
        self.prove(name + ": bounds", self.and_(self.le(0, lo), self.le(lo, hi), self.le(hi, n)))
        self.prove_all(name, (n,), lambda k: self.iff(f(k), self.and_(self.le(lo, k), self.lt(k, hi))))
        ctx().assume(T.eq(term(self.sum(n, lambda k: self.ite(f(k), 1, 0))), term(hi - lo)))

    def len(self, x):
        return loader.len_(x)

    def fill(self, window, n, f):
        """Give a window (see the contract of collections.deque) its n values."""
        window.n, window.at = n, f

    def known(self, c):
        """Decide c on this path."""
        return bool(c)

    def lit(self, x):
        return wrap(T.TRUE if x else T.FALSE)

    def names(self, n):
        """n distinct names."""
        return ST.SymList(n)

    def replicas(self, n, mask, name, fn):
        """Prove fn(h, row) for every h < n and each of its mask[h] consecutive rows."""
        c = ctx()
        h0 = list(c.hyps)
        h, r = T.fresh("h", T.I), T.fresh("r", T.I)
        m = mask.elem((h,))
        c.hyps += [T.le(T.IZERO, h), T.lt(h, term(n)), T.le(T.IZERO, r), T.lt(r, m)]
        try:
            fn(wrap(h), wrap(T.add(T.psum(h, lambda i: mask.elem((i,))), r)))
        finally:
            c.hyps[:] = h0

    def fresh_reals(self, name, shape):
        """Arbitrary values (used inside callee contracts)."""
        v = T.fresh(name, T.R)
        return self._tensor(v.args[0], shape, T.R, ST.float32)

    def attempt(self, f):
        try:
            return ("return", f())
        except (Infeasible, Unsupported, PathLimit, T.EvalError):
            raise
        except Exception as ex:
            if engine_error(ex):
                raise Unsupported(f"{type(ex).__name__}: {ex}") from ex
            return ("raise", ex)

    def private(self, obj, name):
        """A non-public function of the code; its absence (or a changed signature) is not a violation."""
        return _private(obj, name, Unsupported)

    def case(self, conds, fn):
        """Run fn under the extra hypotheses conds."""
        c = ctx()
        h0, c0 = list(c.hyps), list(c.cases)
        conds = [self.lift(x) for x in conds]
        try:
            c.hyps += S.flatten_and(conds)
            c.cases += conds
            fn()
        finally:
            c.hyps[:] = h0
            c.cases[:] = c0

    def box_products(self):
        """Treat the entries of matrix products as opaque values (see box)."""
        ctx().box = True

    def box(self, x):
        """The opaque name of x: the same as the code's own matrix-product entry when both are the same polynomial."""
        return wrap(T.box(T.to_real(term(x))))

    def tensor0(self, x, dtype="float32"):
        """A zero-dimensional tensor holding scalar x."""
        t = term(x)
        return ST.Tensor((), lambda idx: t, getattr(ST, dtype))

    def count(self, lst, i):
        """How often integer i occurs in a list."""
        from .loader import MList, occurrences

        if not isinstance(lst, list):
            raise Unsupported("not a list")
        return wrap(occurrences(lst, term(i)))

    def toT(self, t):
        """The same tensor with floating-point entries."""
        return t.to(dtype=self.torch.get_default_dtype())

    def stack(self, *xs):
        return self.torch.stack(xs)


# ------------------------------------------------------------------ concrete mode


class TV:
    """A truth value under numeric tolerance: definitely true / possibly true."""

    __slots__ = ("d", "p", "note")

    def __init__(self, d, p, note=""):
        self.d, self.p, self.note = bool(d), bool(p), note

    def __bool__(self):
        if self.d != self.p:
            raise Reject("ambiguous comparison")
        return self.d


def tv(c):
    if isinstance(c, TV):
        return c
    return TV(bool(c), bool(c))


class ConcB:
    symbolic = False

    def __init__(self, rng, model=None, tol=1e-6):
        import torch

        self.torch = torch
        self.rng = rng
        self.model = model or {}
        self.tol = tol
        self.record = {}
        self.proved = 0

    def mod(self, name):
        importlib.import_module("artist.field")
        return importlib.import_module("artist." + name)

    def stub(self, module, name, fn):
        pass

    # inputs
    def _int(self, name, lo, hi):
        v = self.model.get(name)
        if isinstance(v, int) and lo <= v <= max(hi, lo + 6):
            return v
        return self.rng.randint(lo, hi)

    def dim(self, name, lo=1, hi=3):
        v = self._int(name, lo, hi)
        self.record[name] = v
        return v

    def int(self, name, lo=None, hi=None):
        a = lo if lo is not None else -5
        v = self._int(name, a, hi if hi is not None else a + 10)
        self.record[name] = v
        return v

    def real(self, name, lo=None, hi=None, gen=None):
        v = self.model.get(name)
        if v is None or not math.isfinite(v) or abs(v) > 1e6:
            if gen:
                v = gen(self.rng)
            else:
                a = float(lo) if lo is not None else (float(hi) - 5 if hi is not None else -3.0)
                z = float(hi) if hi is not None else a + 6.0
                v = self.rng.uniform(a, z) if self.rng.random() < 0.9 else self.rng.choice([a, z])
        v = float(v)
        self.record[name] = v
        return v

    def choice(self, name, values):
        values = builtins.list(values)
        v = self.model.get(name)
        k = v if isinstance(v, int) and 0 <= v < len(values) else self.rng.randrange(len(values))
        self.record[name] = repr(values[k])
        return values[k]

    def _fill(self, name, shape, one):
        shape = tuple(int(s) for s in shape)

        def rec(prefix, rest):
            if not rest:
                v = self.model.get((name,) + prefix)
                if v is not None and (isinstance(v, int) or (math.isfinite(v) and abs(v) < 1e6)):
                    return one(v)
                return one(None)
            return [rec(prefix + (i,), rest[1:]) for i in range(rest[0])]

        return rec((), shape)

    def _keep(self, name, t):
        self.record[name] = t.tolist()
        return t

    def reals(self, name, shape, lo=None, hi=None, gen=None):
        a = float(lo) if lo is not None else (float(hi) - 5 if hi is not None else -3.0)
        z = float(hi) if hi is not None else a + 6.0

        def one(v):
            if v is not None:
                return float(v)
            if gen:
                return float(gen(self.rng))
            r = self.rng.random()
            if r < 0.85:
                return self.rng.uniform(a, z)
            if r < 0.93:
                return float(min(max(self.rng.choice([-1, 0, 1, 2]), a), z))
            return self.rng.choice([a, z]) if lo is not None and hi is not None else self.rng.uniform(a, z)

        t = self.torch.tensor(self._fill(name, shape, one), dtype=self.torch.float64).reshape([int(s) for s in shape])
        return self._keep(name, t)

    def ints(self, name, shape, lo=None, hi=None, gen=None, dtype="int64"):
        a = int(lo) if lo is not None else -5
        z = int(hi) if hi is not None else a + 6

        def one(v):
            if v is not None:
                return int(v)
            if gen:
                return int(gen(self.rng))
            return self.rng.randrange(a, max(z, a + 1))

        t = self.torch.tensor(self._fill(name, shape, one), dtype=getattr(self.torch, dtype)).reshape([int(s) for s in shape])
        return self._keep(name, t)

    def bools(self, name, shape, gen=None):
        def one(v):
            if v is not None:
                return bool(v)
            return self.rng.random() < 0.5

        t = self.torch.tensor(self._fill(name, shape, one), dtype=self.torch.bool).reshape([int(s) for s in shape])
        return self._keep(name, t)

    def const(self, data, dtype=None):
        return self.torch.tensor(data, dtype=getattr(self.torch, dtype) if dtype else None)

    def unit_vectors(self, name, shape, homogeneous=None):
        t = self.reals(name, tuple(shape) + (3,), gen=lambda r: r.gauss(0, 1) if r.random() < 0.9 else r.choice([0.0, 1.0, -1.0]))
        n = t.norm(dim=-1, keepdim=True)
        if not (n > 1e-6).all():
            raise Reject("zero vector")
        t = self._keep(name, t / n)
        return t if homogeneous is None else self.with_fourth(t, homogeneous)

    def with_fourth(self, t3, v):
        return self.torch.cat([t3, self.torch.full(t3.shape[:-1] + (1,), float(v), dtype=t3.dtype)], dim=-1)

    def el(self, t, *idx):
        if not isinstance(t, self.torch.Tensor):
            t = self.torch.as_tensor(t)
        for i, n in zip(idx, t.shape):
            if not 0 <= i < n:
                raise Failure("index", f"index {idx} outside {tuple(t.shape)}")
        if len(idx) != t.ndim:
            raise Failure("shape", f"expected {len(idx)} dimensions, got {tuple(t.shape)}")
        return t[tuple(int(i) for i in idx)].item()

    def shape(self, t):
        return tuple(t.shape)

    # conditions
    def _sc(self, a, b):
        return self.tol * (1.0 + abs(a) + abs(b))

    def eq(self, a, b, tol=None):
        if isinstance(a, TV) or isinstance(b, TV):
            a, b = tv(a), tv(b)
            same = (a.d and b.d) or (not a.p and not b.p)
            diff = (a.d and not b.p) or (b.d and not a.p)
            return TV(same, not diff)
        if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
            return TV(a == b, a == b, f"{a} == {b}")
        if isinstance(a, (tuple, str)) or isinstance(b, (tuple, str)) or a is None or b is None:
            return TV(a == b, a == b, f"{a} == {b}")
        if math.isnan(a) or math.isnan(b):
            return TV(False, False, f"{a} == {b}")
        if math.isinf(a) or math.isinf(b):
            return TV(a == b, a == b, f"{a} == {b}")
        ok = abs(a - b) <= (tol or self.tol) * (1 + abs(a) + abs(b))
        return TV(False, ok, f"{a!r} == {b!r}")

    def le(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return TV(a <= b, a <= b, f"{a} <= {b}")
        if math.isnan(a) or math.isnan(b):
            return TV(False, False, f"{a} <= {b}")
        if math.isinf(a) or math.isinf(b):
            return TV(a <= b, a <= b, f"{a} <= {b}")
        s = self._sc(a, b)
        return TV(a <= b - s, a <= b + s, f"{a!r} <= {b!r}")

    def lt(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return TV(a < b, a < b, f"{a} < {b}")
        if math.isnan(a) or math.isnan(b):
            return TV(False, False, f"{a} < {b}")
        if math.isinf(a) or math.isinf(b):
            return TV(a < b, a < b, f"{a} < {b}")
        s = self._sc(a, b)
        return TV(a < b - s, a < b + s, f"{a!r} < {b!r}")

    def ge(self, a, b):
        return self.le(b, a)

    def gt(self, a, b):
        return self.lt(b, a)

    def ne(self, a, b):
        return self.not_(self.eq(a, b))

    def and_(self, *cs):
        cs = [tv(c) for c in cs]
        bad = [c.note for c in cs if not c.p]
        return TV(all(c.d for c in cs), all(c.p for c in cs), "; ".join(bad[:2]))

    def or_(self, *cs):
        cs = [tv(c) for c in cs]
        return TV(any(c.d for c in cs), any(c.p for c in cs), " or ".join(c.note for c in cs[:3]))

    def not_(self, c):
        c = tv(c)
        return TV(not c.p, not c.d, f"not({c.note})")

    def implies(self, a, b):
        a, b = tv(a), tv(b)
        return TV((not a.p) or b.d, (not a.d) or b.p, f"{b.note}")

    def iff(self, a, b):
        return self.and_(self.implies(a, b), self.implies(b, a))

    def ite(self, c, a, b):
        return a if bool(tv(c)) else b

    def forall(self, dims, fn):
        def rec(k, acc):
            if k == len(dims):
                return tv(fn(*acc))
            out = []
            for i in range(int(dims[k])):
                out.append(rec(k + 1, acc + [i]))
            return self.and_(*out)

        return rec(0, [])

    def exists(self, dims, fn):
        return self.not_(self.forall(dims, lambda *i: self.not_(fn(*i))))

    def sum(self, n, fn):
        r = 0
        for i in range(int(n)):
            r = r + fn(i)
        return r

    def sqrt(self, x):
        return math.sqrt(x) if x > 0 else 0.0

    def sin(self, x):
        return math.sin(x)

    def cos(self, x):
        return math.cos(x)

    def fn(self, name, *xs):
        return {"exp": math.exp, "log": lambda x: math.log(x) if x > 0 else -math.inf, "acos": lambda x: math.acos(min(1.0, max(-1.0, x))), "asin": lambda x: math.asin(min(1.0, max(-1.0, x))), "atan": math.atan, "atan2": math.atan2,
                "tanh": math.tanh}[name](*xs)

    def exp(self, x):
        return math.exp(x)

    def log(self, x):
        return self.fn("log", x)

    def abs(self, x):
        return abs(x)

    def max(self, *xs):
        return max(xs)

    def min(self, *xs):
        return min(xs)

    def floor(self, x):
        return math.floor(x)

    def toreal(self, x):
        return float(x)

    pi = math.pi

    def assume(self, c):
        c = tv(c)
        if not c.p:
            raise Reject("precondition")

    def assume_all(self, dims, fn):
        self.assume(self.forall(dims, fn))

    def prove(self, name, c, **opts):
        c = tv(c)
        self.proved += 1
        if not c.p:
            raise Failure(name, c.note)

    def prove_all(self, name, dims, fn, **opts):
        def rec(k, acc):
            if k == len(dims):
                c = tv(fn(*acc))
                self.proved += 1
                if not c.p:
                    raise Failure(name, f"at {tuple(acc)}: {c.note}")
                return
            for i in range(int(dims[k])):
                rec(k + 1, acc + [i])

        rec(0, [])

    def lemma(self, name, c, **opts):
        self.prove(name, c)

    def law(self, name, given, follows, *values):
        self.prove(name, self.implies(given(*values), follows(*values)))

    def attempt(self, f):
        try:
            return ("return", f())
        except (Reject, Failure):
            raise
        except Exception as ex:
            return ("raise", ex)

    def private(self, obj, name):
        return _private(obj, name, Reject)

    def case(self, conds, fn):
        if all(tv(c).d for c in conds):
            fn()

    def box_products(self):
        pass

    def box(self, x):
        return x

    def tensor0(self, x, dtype="float32"):
        return self.torch.tensor(x, dtype=self.torch.float64 if dtype == "float32" else getattr(self.torch, dtype))

    def len(self, x):
        return len(x)

    def fill(self, window, n, f):
        window.extend(float(f(i)) for i in range(n))

    def known(self, c):
        return bool(c)

    def lit(self, x):
        return bool(x)

    def names(self, n):
        return [f"n{i}" for i in range(n)]

    def replicas(self, n, mask, name, fn):
        row = 0
        for h in range(n):
            for _ in range(int(mask[h])):
                fn(h, row)
                row += 1

    def count(self, lst, i):
        return lst.count(i)

    def sums_equal(self, name, n, f, g):
        self.prove_all(name, (n,), lambda k: self.eq(f(k), g(k)))

    def interval_sum(self, name, n, lo, hi, f):
        self.prove_all(name, (n,), lambda k: self.iff(f(k), self.and_(self.le(lo, k), self.lt(k, hi))))

    def toT(self, t):
        """The same tensor with floating-point entries."""
        return t.to(dtype=self.torch.get_default_dtype())

    def stack(self, *xs):
        return self.torch.stack(xs)


# ------------------------------------------------------------------ running one contract

_TRACK = {"on": False, "seen": None}


def _track_start():
    """Record which functions of the code under verification are executed symbolically."""
    m = sys.monitoring
    seen = set()
    try:
        m.use_tool_id(3, "dv")
    except ValueError:
        pass

    def start(code, off):
        f = code.co_filename
        if f.startswith(loader.REPO + "/artist/") and code.co_flags & 1 and code.co_name not in ("<module>", "<lambda>", "<listcomp>", "<genexpr>"):
            seen.add(f[len(loader.REPO) + 1:] + ":" + code.co_qualname)
        return m.DISABLE

    m.register_callback(3, m.events.PY_START, start)
    m.restart_events()
    m.set_events(3, m.events.PY_START)
    return seen


def _track_stop():
    sys.monitoring.set_events(3, 0)


class _Stop(Exception):
    pass


ALL = False


def run_symbolic(c: Contract, timeout=None, log=None):
    """Returns a result dict; raises nothing."""
    import time

    t0 = time.time()
    res = {"contract": c.name, "obligations": [], "paths": 0, "returned": 0, "status": "proved", "functions": [], "note": ""}
    T.reset_fresh() if hasattr(T, "reset_fresh") else None
    timeout = timeout or c.opts.get("timeout", 30)
    ld = loader.fresh()
    b = SymB(ld)
    seen = _track_start()
    pre_seen = []
    try:
        def fn(cx):
            ld2 = ld
            if c.opts.get("reload"):
                pass
            return c.fn(SymB(ld2))

        for cx, out, val in explore(fn, max_paths=c.opts.get("max_paths", 64)):
            if out == "infeasible":
                continue
            res["paths"] += 1
            if out == "raise":
                tb = "".join(traceback.format_exception(val))
                # is the path really reachable?
                if S.quick(T.FALSE, cx.hyps, 5.0):
                    continue
                res["obligations"].append({"name": "no exception: " + f"{type(val).__name__}: {val}", "status": "raise", "backend": "exec", "s": 0.0, "tb": tb[-3000:]})
                continue
            res["returned"] += 1
            for o in cx.obligations:
                name, goal, hyps = o[:3]
                opts = o[3] if len(o) > 3 else {}
                r = S.discharge_boxed(goal, hyps, opts.get("timeout", timeout), bv=opts.get("bv"), cases=opts.get("cases"))
                if r.status == "unknown" and not ALL:
                    r = S.discharge_boxed(goal, hyps, 2.5 * opts.get("timeout", timeout), bv=opts.get("bv"), cases=opts.get("cases"))
                e = {"name": name, "status": r.status, "backend": r.backend, "s": round(r.seconds, 3)}
                if r.status != "proved":
                    e["goal"] = T.show(goal)[:1500]
                    if r.model is not None:
                        e["model"] = r.model.vals
                    if log:
                        log(f"   {r.status}: {name} [{r.backend} {r.seconds:.1f}s] {e['goal'][:300]}")
                res["obligations"].append(e)
                if r.status != "proved" and not c.opts.get("all") and not ALL:
                    raise _Stop
    except _Stop:
        pass
    except (Unsupported, PathLimit, T.EvalError) as ex:
        res["status"] = "unsupported"
        res["note"] = f"{type(ex).__name__}: {ex}"
        res["tb"] = traceback.format_exc()[-3000:]
    except RecursionError:
        res["status"] = "unsupported"
        res["note"] = "recursion limit"
    finally:
        _track_stop()
    res["functions"] = sorted(seen)
    if res["status"] == "proved":
        if any(o["status"] != "proved" for o in res["obligations"]):
            res["status"] = "failed"
        elif res["returned"] == 0 or not res["obligations"]:
            res["status"] = "vacuous"
    res["wall"] = time.time() - t0
    return res


def run_concrete(c: Contract, seed, model=None):
    """One concrete execution -> ("ok"|"reject"|"fail", detail, inputs, #checked)."""
    import torch

    torch.set_default_dtype(torch.float64)
    rng = random.Random(seed)
    torch.manual_seed(seed % (2**31))
    b = ConcB(rng, model, tol=c.opts.get("tol", 1e-6))
    try:
        with torch.no_grad():
            c.fn(b)
        return "ok", "", b.record, b.proved
    except Reject as ex:
        return "reject", str(ex), b.record, 0
    except Failure as ex:
        return "fail", str(ex), b.record, b.proved
    except Exception as ex:
        return "fail", "unexpected exception " + "".join(traceback.format_exception(ex))[-1800:], b.record, b.proved
