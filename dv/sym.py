"""Python-level symbolic scalars (what ``tensor.shape[0]`` or ``tensor.item()`` may return)."""

from __future__ import annotations

import builtins
from fractions import Fraction

from . import terms as T
from .ctx import Unsupported, ctx

_isinstance = builtins.isinstance


def wrap(t):
    """Term -> Python value when constant, else Sym."""
    if t.op == "c":
        v = t.args[0]
        if t.sort == T.I:
            return builtins.int(v)
        return SymReal(t)
    if t.op == "b":
        return t.args[0]
    if t.sort == T.B:
        return Sym(t)
    return Sym(t)


def term(v):
    if _isinstance(v, T.Term):
        return v
    if _isinstance(v, Sym):
        return v.term
    if hasattr(v, "_is_symtensor"):
        if v.ndim_ != 0 and not all(_isinstance(d, builtins.int) and d == 1 for d in v.shape):
            raise Unsupported("tensor used as a scalar")
        return v.elem(tuple(T.IZERO for _ in v.shape))
    if _isinstance(v, (builtins.int, builtins.float, builtins.bool, Fraction)):
        return T.num(v)
    try:
        import numpy as np

        if _isinstance(v, np.generic):
            return T.num(v.item())
    except ImportError:
        pass
    raise TypeError(f"not a scalar: {type(v)}")


def _isscalar(v):
    return _isinstance(v, (Sym, builtins.int, builtins.float, Fraction))


def _arith(f):
    def g(self, other):
        if not _isscalar(other):
            return NotImplemented
        return wrap(f(self.term, term(other)))

    return g


def _rarith(f):
    def g(self, other):
        if not _isscalar(other):
            return NotImplemented
        return wrap(f(term(other), self.term))

    return g


class Sym:
    __slots__ = ("term",)

    def __init__(self, t):
        self.term = t

    __add__ = _arith(T.add)
    __radd__ = _rarith(T.add)
    __sub__ = _arith(T.sub)
    __rsub__ = _rarith(T.sub)
    __mul__ = _arith(T.mul)
    __rmul__ = _rarith(T.mul)
    __truediv__ = _arith(lambda a, b: truediv(a, b))
    __rtruediv__ = _rarith(lambda a, b: truediv(a, b))

    def __floordiv__(self, o):
        if not _isscalar(o):
            return NotImplemented
        return wrap(floordiv(self.term, term(o)))

    def __rfloordiv__(self, o):
        if not _isscalar(o):
            return NotImplemented
        return wrap(floordiv(term(o), self.term))

    def __mod__(self, o):
        if not _isscalar(o):
            return NotImplemented
        return wrap(mod(self.term, term(o)))

    def __rmod__(self, o):
        if not _isscalar(o):
            return NotImplemented
        return wrap(mod(term(o), self.term))

    def __pow__(self, o):
        if not _isscalar(o):
            return NotImplemented
        return wrap(T.power(self.term, term(o)))

    def __neg__(self):
        return wrap(T.neg(self.term))

    def __pos__(self):
        return self

    def __abs__(self):
        return wrap(T.abs_(self.term))

    def __lt__(self, o):
        if not _isscalar(o):
            return NotImplemented
        return wrap(T.lt(self.term, term(o)))

    def __le__(self, o):
        if not _isscalar(o):
            return NotImplemented
        return wrap(T.le(self.term, term(o)))

    def __gt__(self, o):
        if not _isscalar(o):
            return NotImplemented
        return wrap(T.gt(self.term, term(o)))

    def __ge__(self, o):
        if not _isscalar(o):
            return NotImplemented
        return wrap(T.ge(self.term, term(o)))

    def __eq__(self, o):
        if not _isscalar(o):
            return NotImplemented
        return wrap(T.eq(self.term, term(o)))

    def __ne__(self, o):
        if not _isscalar(o):
            return NotImplemented
        return wrap(T.not_(T.eq(self.term, term(o))))

    def __and__(self, o):
        a, b = self.term, term(o)
        if a.sort == T.B and b.sort == T.B:
            return wrap(T.and_(a, b))
        return wrap(T.bitop("band", T.to_int(a), T.to_int(b)))

    __rand__ = __and__

    def __or__(self, o):
        a, b = self.term, term(o)
        if a.sort == T.B and b.sort == T.B:
            return wrap(T.or_(a, b))
        return wrap(T.bitop("bor", T.to_int(a), T.to_int(b)))

    __ror__ = __or__

    def __invert__(self):
        if self.term.sort == T.B:
            return wrap(T.not_(self.term))
        raise Unsupported("~ on a symbolic integer")

    def __hash__(self):
        if self.term.op == "c":
            return hash(self.term.args[0])
        raise Unsupported("hash of a symbolic value")

    def __bool__(self):
        return ctx().decide(T.to_bool(self.term))

    def __int__(self):
        raise Unsupported("int() of a symbolic value outside instrumented code")

    def __index__(self):
        t = self.term
        if t.sort == T.I and t.op == "c":
            return builtins.int(t.args[0])
        raise Unsupported(f"a symbolic integer is needed concretely: {t!r}")

    def __float__(self):
        raise Unsupported("float() of a symbolic value outside instrumented code")

    def __round__(self, n=None):
        raise Unsupported("round() of a symbolic value")

    def __repr__(self):
        return f"Sym({self.term!r})"

    def __format__(self, spec):
        return repr(self)

    def item(self):
        return self

    def is_integer(self):
        return wrap(T.eq(self.term, T.to_real(T.floor(self.term))))


class SymReal(Sym):
    """A constant real (kept exact)."""

    __slots__ = ()

    def __float__(self):
        return float(self.term.args[0])

    def __repr__(self):
        return repr(float(self.term.args[0]))

    def __int__(self):
        return int(self.term.args[0])


def idiv_simpl(a, b):
    """Floor division with the simplification (m*q + r) // m == q when 0 <= r < m is provable."""
    if a.op == "c" and b.op == "c":
        return T.idiv(a, b)
    c = ctx()
    c0, items = T.lin(a)
    if b.op == "c" and T.cval(b) > 0:
        bv = T.cval(b)
        q = [(x, k / bv) for x, k in items if (k / bv).denominator == 1]
        r = [(x, k) for x, k in items if (k / bv).denominator != 1]
        import math

        qc = math.floor(c0 / bv)
        quo = T._mk_lin(Fraction(qc), q, T.I)
        rem = T._mk_lin(c0 - qc * bv, r, T.I)
        if not r:
            return quo
        if c is not None and c.prove(T.and_(T.le(T.IZERO, rem), T.lt(rem, b))):
            return quo
        if q or qc:
            return T.add(quo, T.idiv(rem, b))
        return T.idiv(a, b)
    # symbolic divisor: a factor that is known to equal it
    if c is not None and c0 == 0 and len(items) == 1 and items[0][0].op == "mul" and b.op == "psum":
        d = dict(items[0][0].args)
        for f in d:
            if f is not b and f.sort == T.I and f.op == "psum" and c.prove(T.and_(T.eq(f, b), T.lt(T.IZERO, b))):
                rest = T.mul(*[T.power(y, e - (y is f)) for y, e in d.items() if e - (y is f)])
                return T.scale(rest, items[0][1])
    # symbolic divisor: separate the terms having b as a factor
    q, r = [], [T.ic(c0)]
    for x, k in items:
        f = None
        if x is b:
            f = T.IONE
        elif x.op == "mul" and b.op != "mul":
            d = dict(x.args)
            if b in d:
                d[b] -= 1
                f = T.mul(*[T.power(y, e) for y, e in d.items() if e])
        elif x.op == "mul" and b.op == "mul":
            d = dict(x.args)
            ok = True
            for y, e in b.args:
                if d.get(y, 0) < e:
                    ok = False
                    break
                d[y] -= e
            if ok:
                f = T.mul(*[T.power(y, e) for y, e in d.items() if e]) if any(d.values()) else T.IONE
        if f is not None and k.denominator == 1:
            q.append(T.scale(f, k))
        else:
            r.append(T.scale(T._mk_lin(Fraction(0), [(x, Fraction(1))], T.I), k))
    rem = T.add(*r)
    if c is not None and c.prove(T.and_(T.le(T.IZERO, rem), T.lt(rem, b))):
        return T.add(*q) if q else T.IZERO
    if q and c is not None and c.prove(T.lt(T.IZERO, b)):
        return T.add(T.add(*q), T.idiv(rem, b))
    return T.idiv(a, b)


def truediv(a, b):
    if a.sort == T.I and b.sort == T.I and b.op != "c":
        c = ctx()
        if c is not None and c.prove(T.not_(T.eq(b, T.IZERO))):
            q = idiv_simpl(a, b)
            if T.sub(T.mul(q, b), a) is T.IZERO or (q.op != "idiv" and c.prove(T.eq(T.mul(q, b), a))):
                return T.to_real(q)
    return T.div(a, b)


def floordiv(a, b):
    if a.sort == T.B:
        a = T.to_int(a)
    if b.sort == T.B:
        b = T.to_int(b)
    if a.sort == T.I and b.sort == T.I:
        if b.op != "c":
            c = ctx()
            if c is not None and not c.prove(T.not_(T.eq(b, T.IZERO))):
                if c.decide(T.eq(b, T.IZERO)):
                    raise ZeroDivisionError("integer division or modulo by zero")
        elif T.cval(b) == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        return idiv_simpl(a, b)
    return T.to_real(T.floor(T.div(T.to_real(a), T.to_real(b))))


def mod(a, b):
    if a.sort == T.I and b.sort == T.I:
        return T.sub(a, T.mul(b, floordiv(a, b)))
    return T.rmod(a, b)
