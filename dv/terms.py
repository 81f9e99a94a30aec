"""Hash-consed first-order terms over Real / Int / Bool used as the logic of the verifier.

Arithmetic is kept in a light canonical form: sums are flattened and like terms collected,
products are flattened and like powers collected, scalars are distributed over sums.  Comparisons
are stored against zero (``eq0``, ``le0``, ``lt0``) so that a reordered or renamed computation
produces the very same term.
"""

from __future__ import annotations

import math
from fractions import Fraction

R, I, B = "R", "I", "B"

_TABLE: dict = {}
_NEXT = [0]


class Term:
    __slots__ = ("op", "args", "sort", "id", "__weakref__")

    def __hash__(self):
        return self.id

    def __eq__(self, other):
        return self is other

    def __repr__(self):
        return show(self)


import sys

sys.setrecursionlimit(100000)


def mk(op, args, sort):
    key = (op, args, sort)
    t = _TABLE.get(key)
    if t is None:
        t = Term.__new__(Term)
        t.op = op
        t.args = args
        t.sort = sort
        t.id = _NEXT[0]
        _NEXT[0] += 1
        _TABLE[key] = t
    return t


def _norm(v):
    if isinstance(v, bool):
        return v
    if isinstance(v, Fraction) and v.denominator == 1:
        return Fraction(v.numerator)
    if isinstance(v, int):
        return Fraction(v)
    return v


def num(v, sort=None):
    """A numeric constant; floats become exact fractions of their shortest decimal form."""
    if isinstance(v, Term):
        return v
    if isinstance(v, bool):
        return mk("b", (v,), B)
    if isinstance(v, float):
        if math.isinf(v):
            return INF if v > 0 else NINF
        if math.isnan(v):
            return NAN
        if v == math.pi:
            return PI
        if v == 2 * math.pi:
            return mul(num(2), PI)
        if v == math.pi / 2:
            return mul(num(Fraction(1, 2)), PI)
        f = Fraction(repr(v))
        return mk("c", (f,), sort or R)
    if isinstance(v, int):
        return mk("c", (Fraction(v),), sort or I)
    if isinstance(v, Fraction):
        return mk("c", (v,), sort or R)
    raise TypeError(f"cannot make a constant from {type(v)}")


TRUE = mk("b", (True,), B)
FALSE = mk("b", (False,), B)
PI = mk("pi", (), R)
INF = mk("inf", (), R)
NINF = mk("ninf", (), R)
NAN = mk("nan", (), R)


def rc(v):
    return mk("c", (Fraction(v),), R)


def ic(v):
    return mk("c", (Fraction(v),), I)


ZERO, ONE = rc(0), rc(1)
IZERO, IONE = ic(0), ic(1)


def is_const(t):
    return t.op == "c"


def cval(t):
    return t.args[0]


def is_special(t):
    return t.op in ("inf", "ninf", "nan")


def var(name, sort):
    return mk("var", (name,), sort)


def bv(k, sort=I):
    return mk("bv", (k,), sort)


def app(name, args, sort):
    """Uninterpreted function application: the element of an input tensor, a ghost function ..."""
    return mk("app", (name,) + tuple(args), sort)


def to_real(t):
    if t.sort == R:
        return t
    if t.sort == B:
        return ite(t, ONE, ZERO)
    if t.op == "c":
        return rc(cval(t))
    if t.op == "add":
        out = rc(t.args[0])
        return add(out, *[scale(to_real(a), c) for a, c in t.args[1]])
    if t.op == "ite":
        return ite(t.args[0], to_real(t.args[1]), to_real(t.args[2]))
    if t.op == "mul":
        return mul(*[to_real(a) if e == 1 else power(to_real(a), e) for a, e in t.args])
    return mk("toR", (t,), R)


def to_int(t):
    """Truncation toward zero, as int(...) and .long() do."""
    if t.sort == I:
        return t
    if t.sort == B:
        return ite(t, IONE, IZERO)
    if t.op == "c":
        return ic(math.trunc(cval(t)))
    if t.op == "toR":
        return t.args[0]
    if t.op == "ite":
        return ite(t.args[0], to_int(t.args[1]), to_int(t.args[2]))
    f = floor(t)
    back = _unreal(t)
    if back is not None:
        return back
    return ite(le(ZERO, t), f, neg(floor(neg(t))))


def _unreal(t):
    """If a real term is syntactically integral, return it as an int term."""
    if t.op == "c":
        return ic(cval(t)) if cval(t).denominator == 1 else None
    if t.op == "toR":
        return t.args[0]
    if t.op == "add":
        if t.args[0].denominator != 1:
            return None
        parts = [ic(t.args[0])]
        for a, c in t.args[1]:
            if c.denominator != 1:
                return None
            x = _unreal(a)
            if x is None:
                return None
            parts.append(scale(x, c))
        return add(*parts)
    if t.op == "mul":
        parts = []
        for a, e in t.args:
            x = _unreal(a)
            if x is None or e < 0:
                return None
            parts.append(power(x, e))
        return mul(*parts)
    if t.op == "ite":
        x, y = _unreal(t.args[1]), _unreal(t.args[2])
        if x is None or y is None:
            return None
        return ite(t.args[0], x, y)
    return None


def floor(t):
    if t.sort == I:
        return t
    if t.op == "c":
        return ic(math.floor(cval(t)))
    back = _unreal(t)
    if back is not None:
        return back
    if t.op == "ite":
        return ite(t.args[0], floor(t.args[1]), floor(t.args[2]))
    if t.op == "add":
        # pull integral parts out
        ip = []
        rest = [rc(t.args[0] - math.floor(t.args[0]))]
        ip.append(ic(math.floor(t.args[0])))
        for a, c in t.args[1]:
            x = _unreal(a)
            if x is not None and c.denominator == 1:
                ip.append(scale(x, c))
            else:
                rest.append(scale(a, c))
        base = add(*rest)
        return add(*ip, mk("floor", (base,), I))
    return mk("floor", (t,), I)


def _sort_join(ts):
    return I if all(t.sort == I for t in ts) else R


def lift(v):
    if isinstance(v, Term):
        return v
    t = getattr(v, "term", None)
    if isinstance(t, Term):
        return t
    return num(v)


def add(*ts):
    ts = [to_int(t) if t.sort == B else t for t in ts]
    for t in ts:
        if t.op == "nan":
            return NAN
    sp = [t for t in ts if is_special(t)]
    if sp:
        if all(s is sp[0] for s in sp):
            return sp[0]
        return NAN
    sort = _sort_join(ts)
    if sort == R:
        ts = [to_real(t) for t in ts]
    c0 = Fraction(0)
    coef = {}
    for t in ts:
        if t.op == "c":
            c0 += t.args[0]
        elif t.op == "add":
            c0 += t.args[0]
            for a, c in t.args[1]:
                coef[a] = coef.get(a, 0) + c
        elif t.op == "smul":
            a, c = t.args
            coef[a] = coef.get(a, 0) + c
        else:
            coef[t] = coef.get(t, 0) + 1
    items = [(a, c) for a, c in coef.items() if c != 0]
    return _mk_lin(c0, items, sort)


def _mk_lin(c0, items, sort):
    if not items:
        return mk("c", (Fraction(c0),), sort)
    if len(items) == 1 and c0 == 0:
        a, c = items[0]
        if c == 1:
            return a
        return mk("smul", (a, Fraction(c)), sort)
    items = tuple(sorted(((a, Fraction(c)) for a, c in items), key=lambda p: p[0].id))
    return mk("add", (Fraction(c0), items), sort)


def lin(t):
    """View an arithmetic term as (constant, [(atom, coef)])."""
    if t.op == "c":
        return t.args[0], ()
    if t.op == "add":
        return t.args
    if t.op == "smul":
        return Fraction(0), (t.args,)
    return Fraction(0), ((t, Fraction(1)),)


def scale(t, c):
    c = Fraction(c)
    if c == 1:
        return t
    if is_special(t):
        if c == 0:
            return NAN
        if t.op == "nan":
            return t
        return t if c > 0 else (NINF if t is INF else INF)
    sort = t.sort if (t.sort == R or c.denominator == 1) else R
    if sort == R:
        t = to_real(t)
    if c == 0:
        return mk("c", (Fraction(0),), sort)
    if t.op == "ite" and False:
        return ite(t.args[0], scale(t.args[1], c), scale(t.args[2], c))
    c0, items = lin(t)
    return _mk_lin(c0 * c, [(a, k * c) for a, k in items], sort)


def neg(t):
    if t.sort == B:
        t = to_int(t)
    return scale(t, -1)


def sub(a, b):
    return add(a, neg(b))


def mul(*ts):
    ts = [to_int(t) if t.sort == B else t for t in ts]
    for t in ts:
        if t.op == "nan":
            return NAN
    sp = [t for t in ts if is_special(t)]
    if sp:
        s = 1
        for t in ts:
            if t is NINF:
                s = -s
            elif t is INF:
                pass
            elif is_const(t):
                if cval(t) == 0:
                    return NAN
                if cval(t) < 0:
                    s = -s
            else:
                return mk("infmul", tuple(ts), R)
        return INF if s > 0 else NINF
    sort = _sort_join(ts)
    if sort == R:
        ts = [to_real(t) for t in ts]
    c = Fraction(1)
    fac = {}
    for t in ts:
        if t.op == "c":
            c *= t.args[0]
            continue
        if t.op == "smul":
            c *= t.args[1]
            t = t.args[0]
        if t.op == "mul":
            for a, e in t.args:
                fac[a] = fac.get(a, 0) + e
        else:
            fac[t] = fac.get(t, 0) + 1
    if c == 0:
        return mk("c", (Fraction(0),), sort)
    # the only square collapsed here is sqrt-free; everything else is left to the ring normaliser
    items = tuple(sorted(((a, e) for a, e in fac.items() if e != 0), key=lambda p: p[0].id))
    if not items:
        return mk("c", (c,), sort)
    if len(items) == 1 and items[0][1] == 1:
        return scale(items[0][0], c)
    # 0/1-valued ite factors (masks turned into floats)
    body = mk("mul", items, sort)
    return scale(body, c)


def power(t, e):
    """Integer power (non-negative), or a general one through pow."""
    if isinstance(e, Term):
        if is_const(e):
            e = cval(e)
        else:
            return mk("pow", (to_real(t), to_real(e)), R)
    e = Fraction(e)
    if e.denominator == 1:
        e = int(e)
        if is_special(t):
            if e == 0:
                return ONE
            if e > 0:
                return INF if (t is INF or e % 2 == 0) else t
        if e == 0:
            return ONE if t.sort == R else IONE
        if e < 0:
            return power(inv(t), -e)
        if t.op == "c":
            return mk("c", (cval(t) ** e,), t.sort)
        if t.op == "smul":
            return scale(power(t.args[0], e), t.args[1] ** e)
        if t.op == "mul":
            return mul(*[power(a, k * e) for a, k in t.args])
        if e == 1:
            return t
        return mk("mul", ((t, e),), t.sort)
    if e.denominator == 2:
        r = power(sqrt(t), abs(e.numerator))
        return r if e > 0 else inv(r)
    return mk("pow", (to_real(t), rc(e)), R)


def box(t):
    """An opaque name for t: equal polynomials get the same name (the definition is dropped in proofs, or opened)."""
    from .solve import canonical

    if t.op in ("c", "app", "var", "box") or has_special(t):
        return t
    t = canonical(t)
    c0, items = lin(t)
    if not items:
        return t
    k = items[0][1]
    t = scale(t, 1 / k)
    if t.op in ("c", "app", "var", "box"):
        return scale(t, k)
    return scale(mk("box", (t,), R), k)


def inv(t):
    t = to_real(t)
    if t.op in ("inf", "ninf"):
        return ZERO
    if t.op == "c":
        if cval(t) == 0:
            return INF
        return rc(1 / cval(t))
    if t.op == "smul":
        return scale(inv(t.args[0]), 1 / t.args[1])
    if t.op == "mul":
        return mul(*[power(inv(a), e) for a, e in t.args])
    if t.op == "ite":
        return ite(t.args[0], inv(t.args[1]), inv(t.args[2]))
    if t.op == "inv":
        pass
    return mk("inv", (t,), R)


def div(a, b):
    if a.op in ("inf", "ninf") or b.op in ("inf", "ninf"):
        if not (is_special(a) and is_special(b)):
            return mul(a, inv(b)) if is_special(a) else ZERO
        return NAN
    if b.op == "c" and cval(b) == 0:
        if a.op == "c":
            return NAN if cval(a) == 0 else (INF if cval(a) > 0 else NINF)
        return mk("div0", (to_real(a),), R)
    # exact cancellation of syntactically equal integral terms is NOT done: b may be zero
    return mul(to_real(a), inv(b))


def idiv(a, b):
    """Python floor division on integers."""
    if a.op == "c" and b.op == "c" and cval(b) != 0:
        return ic(math.floor(cval(a) / cval(b)))
    if b.op == "c" and cval(b) == 1:
        return a
    return mk("idiv", (a, b), I)


def imod(a, b):
    if a.op == "c" and b.op == "c" and cval(b) != 0:
        q = math.floor(cval(a) / cval(b))
        return ic(cval(a) - q * cval(b))
    if b.op == "c" and cval(b) == 1:
        return IZERO
    return sub(a, mul(b, idiv(a, b)))


def rmod(a, b):
    """torch.remainder on reals: a - b*floor(a/b)."""
    a, b = to_real(a), to_real(b)
    return sub(a, mul(b, to_real(floor(div(a, b)))))


def sqrt(t):
    t = to_real(t)
    if t is INF:
        return INF
    if t.op == "c":
        v = cval(t)
        if v >= 0:
            n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if n * n == v.numerator and d * d == v.denominator:
                return rc(Fraction(n, d))
    if t.op == "ite":
        return ite(t.args[0], sqrt(t.args[1]), sqrt(t.args[2]))
    return mk("sqrt", (t,), R)


def _pi_split(t):
    """t == k*(pi/2) + rest with the largest integral k; returns (k mod 4, rest)."""
    c0, items = lin(t)
    k = 0
    rest = []
    for a, c in items:
        if a is PI:
            h = c * 2
            if h.denominator == 1:
                k = int(h)
                continue
            k = math.floor(h)
            rest.append((a, c - Fraction(k, 2)))
            continue
        if a.op == "mul" and (PI, 1) in a.args and (c / 2).denominator == 1 and all(x is PI or x.op == "toR" for x, _ in a.args):
            continue  # a whole number of turns
        rest.append((a, c))
    return k % 4, _mk_lin(c0, rest, R)


def _sign_norm(t):
    """Return (s, u) with t == s*u and a canonical sign for u."""
    c0, items = lin(t)
    lead = items[0][1] if items else c0
    if len(items) > 1:
        lead = min(items, key=lambda p: p[0].id)[1]
    if lead < 0:
        return -1, neg(t)
    return 1, t


def sin(t):
    t = to_real(t)
    if t.op == "ite":
        return ite(t.args[0], sin(t.args[1]), sin(t.args[2]))
    k, r = _pi_split(t)
    if k == 1:
        return cos(r)
    if k == 2:
        return neg(sin(r))
    if k == 3:
        return neg(cos(r))
    if r.op == "c" and cval(r) == 0:
        return ZERO
    s, u = _sign_norm(r)
    if u.op == "acos":
        x = u.args[0]
        return scale(sqrt(sub(ONE, mul(x, x))), s)
    if u.op == "asin":
        return scale(u.args[0], s)
    return scale(mk("sin", (u,), R), s)


def cos(t):
    t = to_real(t)
    if t.op == "ite":
        return ite(t.args[0], cos(t.args[1]), cos(t.args[2]))
    k, r = _pi_split(t)
    if k == 1:
        return neg(sin(r))
    if k == 2:
        return neg(cos(r))
    if k == 3:
        return sin(r)
    if r.op == "c" and cval(r) == 0:
        return ONE
    s, u = _sign_norm(r)
    if u.op == "acos":
        return u.args[0]
    if u.op == "asin":
        x = u.args[0]
        return sqrt(sub(ONE, mul(x, x)))
    return mk("cos", (u,), R)


def fn(name, *ts):
    """Other real functions kept opaque: exp, log, tanh, acos, asin, atan, atan2, sigmoid ..."""
    ts = tuple(to_real(t) for t in ts)
    if len(ts) == 1 and ts[0].op == "ite":
        c, a, b = ts[0].args
        return ite(c, fn(name, a), fn(name, b))
    if name == "exp" and ts[0].op == "c" and cval(ts[0]) == 0:
        return ONE
    if name == "log" and ts[0].op == "c" and cval(ts[0]) == 1:
        return ZERO
    if name == "log" and ts[0].op == "exp":
        return ts[0].args[0]
    if name == "exp" and ts[0].op == "log":
        pass
    if name in ("tanh", "asin", "atan") and ts[0].op == "c" and cval(ts[0]) == 0:
        return ZERO
    if name in ("tanh", "asin", "atan"):
        s, u = _sign_norm(ts[0])
        if s < 0:
            return neg(mk(name, (u,), R))
    if name == "acos" and ts[0].op == "c":
        v = cval(ts[0])
        if v == 1:
            return ZERO
        if v == 0:
            return scale(PI, Fraction(1, 2))
        if v == -1:
            return PI
    if name == "atan2" and ts[0].op == "c" and ts[1].op == "c":
        y, x = cval(ts[0]), cval(ts[1])
        if y == 0:
            return ZERO if x >= 0 else PI
        if x == 0:
            return scale(PI, Fraction(1, 2)) if y > 0 else scale(PI, Fraction(-1, 2))
    return mk(name, ts, R)


# ---------------------------------------------------------------- booleans


def not_(t):
    if t.op == "b":
        return FALSE if t.args[0] else TRUE
    if t.op == "not":
        return t.args[0]
    if t.op == "lt0":  # not (u < 0)  <=>  -u <= 0
        return _cmp0("le0", neg(t.args[0]))
    if t.op == "le0":
        return _cmp0("lt0", neg(t.args[0]))
    return mk("not", (t,), B)


def and_(*ts):
    out = {}
    for t in ts:
        t = to_bool(t)
        if t is FALSE:
            return FALSE
        if t is TRUE:
            continue
        if t.op == "and":
            for a in t.args:
                out[a] = 1
        else:
            out[t] = 1
    for t in out:
        if not_(t) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return next(iter(out))
    return mk("and", tuple(sorted(out, key=lambda x: x.id)), B)


def or_(*ts):
    out = {}
    for t in ts:
        t = to_bool(t)
        if t is TRUE:
            return TRUE
        if t is FALSE:
            continue
        if t.op == "or":
            for a in t.args:
                out[a] = 1
        else:
            out[t] = 1
    for t in out:
        if not_(t) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return next(iter(out))
    return mk("or", tuple(sorted(out, key=lambda x: x.id)), B)


def implies(a, b):
    return or_(not_(a), b)


def to_bool(t):
    if isinstance(t, bool):
        return TRUE if t else FALSE
    if t.sort == B:
        return t
    return not_(eq(t, ic(0) if t.sort == I else rc(0)))


def ite(c, a, b):
    c = to_bool(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort != b.sort:
        if a.sort == B:
            a = to_int(a)
        if b.sort == B:
            b = to_int(b)
        if a.sort != b.sort:
            a, b = to_real(a), to_real(b)
        if a is b:
            return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if a.sort == B:
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return not_(c)
        return and_(or_(not_(c), a), or_(c, b))
    return mk("ite", (c, a, b), a.sort)


def _cmp0(op, t):
    if t.op == "c":
        v = cval(t)
        return TRUE if {"eq0": v == 0, "le0": v <= 0, "lt0": v < 0}[op] else FALSE
    if t is PI:
        return FALSE
    if t.op == "smul" and t.args[0] is PI:
        return TRUE if (op != "eq0" and t.args[1] < 0) else FALSE
    if t.op == "inf":
        return FALSE
    if t.op == "ninf":
        return TRUE if op != "eq0" else FALSE
    if t.op == "nan":
        return FALSE
    if t.op == "ite" and (t.args[1].op in ("c", "inf", "ninf") and t.args[2].op in ("c", "inf", "ninf")):
        return ite(t.args[0], _cmp0(op, t.args[1]), _cmp0(op, t.args[2]))
    if t.op == "ite" and (has_special(t.args[1]) or has_special(t.args[2])):
        return ite(t.args[0], _cmp0(op, t.args[1]), _cmp0(op, t.args[2]))
    if t.op == "sqrt" and op == "eq0":
        return _cmp0("eq0", t.args[0])
    if t.op == "sqrt" and op == "lt0":
        return FALSE
    # scale canonically
    c0, items = lin(t)
    if t.sort == I:
        den = math.lcm(*[c.denominator for _, c in items], c0.denominator)
        g = 0
        for _, c in items:
            g = math.gcd(g, int(c * den))
        if g == 0:
            g = 1
        f = Fraction(den, g)
        cc = c0 * f
        if op == "eq0" and cc.denominator != 1:
            return FALSE
        if op == "lt0":
            # sum + cc < 0  <=> sum + floor-ish: integer tightening to <=
            op = "le0"
            cc = cc + 1 if cc.denominator == 1 else Fraction(math.ceil(cc))
        elif op == "le0" and cc.denominator != 1:
            cc = Fraction(math.ceil(cc))
        t = _mk_lin(cc, [(a, c * f) for a, c in items], I)
    else:
        lead = min(items, key=lambda p: p[0].id)[1]
        t = _mk_lin(c0 / abs(lead), [(a, c / abs(lead)) for a, c in items], R)
    if op == "eq0":
        c0, items = lin(t)
        lead = min(items, key=lambda p: p[0].id)[1]
        if lead < 0:
            t = neg(t)
    if t.sort == I:
        # a count compared with zero is a quantified statement
        c0, items = lin(t)
        if len(items) == 1 and items[0][0].op == "psum" and abs(items[0][1]) == 1:
            u, k = items[0]
            body = u.args[2]
            if body.op == "ite" and body.args[1].op == "c" and body.args[2].op == "c" and {cval(body.args[1]), cval(body.args[2])} == {0, 1}:
                hit = body.args[0] if cval(body.args[1]) == 1 else not_(body.args[0])
                none = forall([u.args[0]], lambda i: not_(subst(hit, {u.args[1]: i})))
                if op == "eq0" and c0 == 0 or op == "le0" and k == 1 and c0 == 0:
                    return none
                if op == "le0" and k == -1 and c0 == 1:
                    return not_(none)
                if op == "le0" and (k == -1 and c0 <= 0):
                    return TRUE
                if op == "le0" and k == 1 and c0 > 0:
                    return FALSE
    return mk(op, (t,), B)


_HS: dict = {}


def has_special(t):
    r = _HS.get(t.id)
    if r is None:
        if is_special(t):
            r = True
        elif t.op == "ite":
            r = has_special(t.args[1]) or has_special(t.args[2])
        else:
            r = False
        _HS[t.id] = r
    return r


def _push_special(op, a, b):
    """compare a and b when one of them can be infinite: distribute over the ites."""
    if a.op == "ite" and has_special(a):
        return ite(a.args[0], op(a.args[1], b), op(a.args[2], b))
    if b.op == "ite" and has_special(b):
        return ite(b.args[0], op(a, b.args[1]), op(a, b.args[2]))
    return None


def eq(a, b):
    if a.sort == B or b.sort == B:
        a, b = to_bool(a), to_bool(b)
        return or_(and_(a, b), and_(not_(a), not_(b)))
    if has_special(a) or has_special(b):
        p = _push_special(eq, a, b)
        if p is not None:
            return p
        if a.op == "nan" or b.op == "nan":
            return FALSE
        return TRUE if a is b else FALSE
    if a is b:
        return TRUE
    if a.op == "ite" and a.args[1].op == "c" and a.args[2].op == "c" and b.op == "c":
        return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    return _cmp0("eq0", sub(a, b))


def le(a, b):
    if has_special(a) or has_special(b):
        p = _push_special(le, a, b)
        if p is not None:
            return p
        if a.op == "nan" or b.op == "nan":
            return FALSE
        return TRUE if (a is NINF or b is INF) else FALSE
    if a.op == "ite" and a.args[1].op == "c" and a.args[2].op == "c" and b.op == "c":
        return ite(a.args[0], le(a.args[1], b), le(a.args[2], b))
    if b.op == "ite" and b.args[1].op == "c" and b.args[2].op == "c" and a.op == "c":
        return ite(b.args[0], le(a, b.args[1]), le(a, b.args[2]))
    return _cmp0("le0", sub(a, b))


def lt(a, b):
    if has_special(a) or has_special(b):
        p = _push_special(lt, a, b)
        if p is not None:
            return p
        if a.op == "nan" or b.op == "nan":
            return FALSE
        return FALSE if (a is b or a is INF or b is NINF) else TRUE
    return not_(le(b, a))


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def max_(a, b):
    if a is b:
        return a
    if b.id < a.id:
        a, b = b, a
    return ite(le(a, b), b, a)


def min_(a, b):
    if a is b:
        return a
    if b.id < a.id:
        a, b = b, a
    return ite(le(a, b), a, b)


def sum_of_squares(t):
    c0, items = lin(t)
    return c0 >= 0 and all(c > 0 and a.op == "mul" and all(e % 2 == 0 for _, e in a.args) for a, c in items)


def abs_(a):
    if a.sort == R and sum_of_squares(a):
        return a
    if a.op == "c":
        return mk("c", (abs(cval(a)),), a.sort)
    if a.op in ("inf", "ninf"):
        return INF
    if a.op == "sqrt":
        return a
    return ite(le(num(0, a.sort), a), a, neg(a))


def bitop(name, a, b):
    if a.op == "c" and b.op == "c":
        x, y = int(cval(a)), int(cval(b))
        v = {"band": x & y, "bor": x | y, "bxor": x ^ y}.get(name)
        if v is None:
            v = x << y if name == "bshl" else x >> y
        return ic(v)
    if name == "bshl" and b.op == "c" and False:
        return scale(a, 2 ** int(cval(b)))
    return mk(name, (a, b), I)


# ---------------------------------------------------------------- binders

_FRESH = [0]


def fresh(prefix, sort):
    _FRESH[0] += 1
    return var(f"{prefix}!{_FRESH[0]}", sort)


_HEIGHT: dict = {}


def binder_height(t):
    h = _HEIGHT.get(t.id)
    if h is not None:
        return h
    h = 0
    for a in children(t):
        h = max(h, binder_height(a))
    if t.op in BINDERS:
        h += 1
    _HEIGHT[t.id] = h
    return h


def children(t):
    if t.op == "add":
        return [a for a, _ in t.args[1]]
    if t.op == "smul":
        return [t.args[0]]
    if t.op == "mul":
        return [a for a, _ in t.args]
    return [a for a in t.args if isinstance(a, Term)]


def bind(op, n, f, sort, *extra):
    """Build op(n, \\bv. f(bv)) with a canonical bound variable."""
    x = fresh("b", I)
    body = f(x)
    k = binder_height(body) + 1
    body = subst(body, {x: bv(k)})
    return mk(op, (n, bv(k), body) + extra, sort)


def open_binder(t, at):
    """Instantiate the body of a binder term at an index term."""
    return subst(t.args[2], {t.args[1]: at})


def _count_of(n):
    """The (tot, hit(i)) of a count  sum_{i<tot} [hit(i)]  or None."""
    if n.op == "psum" and n.sort == I:
        b = n.args[2]
        if b.op == "ite" and b.args[1].op == "c" and b.args[2].op == "c" and cval(b.args[1]) == 1 and cval(b.args[2]) == 0:
            return n.args[0], (lambda i: subst(b.args[0], {n.args[1]: i}))
    return None


def _through_selection(n, x, body):
    """Rewrite a binder over the selected positions of a mask (k < count) to one over all positions.

    Applies when the body depends on k only through msel(mask, k); the selection enumerates exactly the
    positions where the mask holds, so  k-indexed statements become guarded position-indexed ones.
    Returns (tot, hit, y, body[msel := y]) or None."""
    c = _count_of(n)
    if c is None or not occurs(body, x):
        return None
    tot, hit = c
    sels = {u for u in subterms([body]) if u.op == "msel" and u.args[1] is x}
    if len(sels) != 1:
        return None
    u = sels.pop()
    lam = u.args[0]
    i = fresh("b", I)
    if lam.args[0] is not tot or subst(lam.args[2], {lam.args[1]: i}) is not hit(i):
        return None
    y = fresh("b", I)
    b2 = subst(body, {u: y})
    if occurs(b2, x):
        return None
    return tot, hit, y, b2


def _solve_index(conds, x):
    """Find a conjunct x == g with g free of x: (g, other conjuncts)."""
    for k, c in enumerate(conds):
        if c.op == "eq0" and c.args[0].sort == I:
            c0, items = lin(c.args[0])
            own = [(a, q) for a, q in items if occurs(a, x)]
            if len(own) == 1 and own[0][0] is x and abs(own[0][1]) == 1:
                g = sub(x, scale(c.args[0], own[0][1]))
                return g, conds[:k] + conds[k + 1 :]
    return None


def _delta(core, x):
    """core == ite(x == g and rest, v, 0)  ->  (g, rest, v)."""
    conds = []
    v = core
    while True:
        if v.op == "ite" and v.args[2].op == "c" and cval(v.args[2]) == 0:
            conds.append(v.args[0])
            v = v.args[1]
        elif v.op == "ite" and v.args[1].op == "c" and cval(v.args[1]) == 0:
            conds.append(not_(v.args[0]))
            v = v.args[2]
        elif v.op == "toR" and v.args[0].op == "ite":
            w = v.args[0]
            v = ite(w.args[0], to_real(w.args[1]), to_real(w.args[2]))
        elif v.op == "mul":
            k = [j for j, (a, e) in enumerate(v.args) if a.op == "ite" and (a.args[2].op == "c" and cval(a.args[2]) == 0 or a.args[1].op == "c" and cval(a.args[1]) == 0)]
            if not k:
                break
            a, e = v.args[k[0]]
            rest = mul(*[power(q, r) for j, (q, r) in enumerate(v.args) if j != k[0]]) if len(v.args) > 1 else ONE
            if a.args[2].op == "c" and cval(a.args[2]) == 0:
                conds.append(a.args[0])
                v = mul(power(a.args[1], e), rest)
            else:
                conds.append(not_(a.args[0]))
                v = mul(power(a.args[2], e), rest)
        else:
            break
    flat = []
    for c in conds:
        flat.extend(c.args if c.op == "and" else (c,))
    r = _solve_index(flat, x)
    return (r[0], r[1], v) if r else None


def psum(n, f):
    """Sum_{0<=i<n} f(i)."""
    n = lift(n)
    if n.op == "c" and cval(n) <= 64:
        r = [f(ic(i)) for i in range(int(cval(n)))]
        return add(*r) if r else ZERO
    x = fresh("b", I)
    body = f(x)
    if body.sort == B:
        body = to_int(body)
    # linear in constants: sum of c*g = c * sum g ; constant body -> n*c
    if not occurs(body, x):
        return mul(n if body.sort == I else to_real(n), body)
    c0, items = lin(body)
    parts = []
    if c0 != 0:
        parts.append(scale(n if body.sort == I and c0.denominator == 1 else to_real(n), c0))
    for a, c in items:
        if not occurs(a, x):
            parts.append(scale(mul(n if a.sort == I else to_real(n), a), c))
            continue
        out = []
        inn = [a]
        if a.op == "mul":
            inn = [power(b, e) for b, e in a.args if occurs(b, x)]
            out = [power(b, e) for b, e in a.args if not occurs(b, x)]
        core = mul(*inn)
        ts = _through_selection(n, x, core)
        if ts is not None:
            tot, hit, y, b2 = ts
            s = psum(tot, lambda i: ite(hit(i), subst(b2, {y: i}), num(0, core.sort)))
            parts.append(scale(mul(*out, s) if out else s, c))
            continue
        if core.op == "ite" and not occurs(core.args[0], x):
            s = ite(core.args[0], psum(n, lambda i: subst(core.args[1], {x: i})), psum(n, lambda i: subst(core.args[2], {x: i})))
            parts.append(scale(mul(*out, s) if out else s, c))
            continue
        d = _delta(core, x)
        if d is not None:
            g, rest, v = d
            m = {x: g}
            s = ite(and_(le(IZERO, g), lt(g, n), *[subst(r, m) for r in rest]), subst(v, m), num(0, core.sort))
            parts.append(scale(mul(*out, s) if out else s, c))
            continue
        k = binder_height(core) + 1
        core = subst(core, {x: bv(k)})
        s = mk("psum", (n, bv(k), core), core.sort)
        parts.append(scale(mul(*out, s) if out else s, c))
    return add(*parts) if parts else num(0, body.sort)


def forall(ns, f):
    """forall indices 0<=i_k<n_k. f(i...)"""

    def go(rest, idx):
        if not rest:
            return to_bool(f(*idx))
        n = lift(rest[0])
        if n.op == "c" and cval(n) <= 16:
            return and_(*[go(rest[1:], idx + (ic(i),)) for i in range(int(cval(n)))])
        x = fresh("b", I)
        body = go(rest[1:], idx + (x,))
        if not occurs(body, x):
            return or_(le(n, IZERO), body)
        ts = _through_selection(n, x, body)
        if ts is not None:
            tot, hit, y, b2 = ts
            return forall([tot], lambda i: or_(not_(hit(i)), subst(b2, {y: i})))
        nc = not_(body)
        r = _solve_index(list(nc.args) if nc.op == "and" else [nc], x)
        if r is not None:
            g, rest = r
            m = {x: g}
            return or_(lt(g, IZERO), le(n, g), not_(and_(*[subst(q, m) for q in rest])))
        k = binder_height(body) + 1
        return mk("forall", (n, bv(k), subst(body, {x: bv(k)})), B)

    return go(list(ns), ())


def exists(ns, f):
    return not_(forall(ns, lambda *i: not_(to_bool(f(*i)))))


_OCC: dict = {}


def free_vars(t):
    """All var terms (including opened binder symbols) in t."""
    r = _OCC.get(t.id)
    if r is None:
        stack = [t]
        order = []
        seen = set()
        while stack:
            u = stack.pop()
            if u.id in seen or u.id in _OCC:
                continue
            seen.add(u.id)
            order.append(u)
            stack.extend(children(u))
        for u in reversed(sorted(order, key=lambda z: -z.id)):
            s = set()
            if u.op == "var":
                s.add(u)
            for c in children(u):
                s |= _OCC[c.id]
            _OCC[u.id] = frozenset(s)
        r = _OCC[t.id]
    return r


def occurs(t, x):
    return x in free_vars(t)


def occurs_term(t, x):
    """Is the term x a subterm of t (outside binder bodies that rebind)?"""
    return any(u is x for u in subterms([t]))


def rebuild(t, kids):
    """Rebuild an operator on new children, re-normalising."""
    op = t.op
    if op == "add":
        return add(mk("c", (t.args[0],), t.sort), *[scale(k, c) for k, (_, c) in zip(kids, t.args[1])])
    if op == "smul":
        return scale(kids[0], t.args[1])
    if op == "mul":
        return mul(*[power(k, e) for k, (_, e) in zip(kids, t.args)])
    if op == "toR":
        return to_real(kids[0])
    if op == "floor":
        return floor(kids[0])
    if op == "sqrt":
        return sqrt(kids[0])
    if op == "inv":
        return inv(kids[0])
    if op == "box":
        return box(kids[0])
    if op == "sin":
        return sin(kids[0])
    if op == "cos":
        return cos(kids[0])
    if op == "not":
        return not_(kids[0])
    if op == "and":
        return and_(*kids)
    if op == "or":
        return or_(*kids)
    if op == "ite":
        return ite(*kids)
    if op in ("eq0", "le0", "lt0"):
        k = kids[0]
        z = num(0, k.sort)
        return {"eq0": eq, "le0": le, "lt0": lt}[op](k, z)
    if op == "idiv":
        return idiv(*kids)
    if op == "pow":
        return power(kids[0], kids[1])
    if op in ("band", "bor", "bxor", "bshl", "bshr"):
        return bitop(op, *kids)
    if op == "app":
        return mk("app", (t.args[0],) + tuple(kids), t.sort)
    if op in FN1:
        return fn(op, *kids)
    # generic
    it = iter(kids)
    return mk(op, tuple(next(it) if isinstance(a, Term) else a for a in t.args), t.sort)


BINDERS = {"psum", "forall", "rmax", "rmin", "argmax", "argmin", "lamfn"}


def rebuild_binder(t, n, body, extra):
    b = t.args[1]
    f = lambda i: subst(body, {b: i})
    if t.op == "psum":
        return psum(n, f)
    if t.op == "forall":
        return forall([n], f)
    return bind(t.op, n, f, t.sort, *extra)


FN1 = {"exp", "log", "tanh", "acos", "asin", "atan", "atan2", "sigmoid", "softplus"}


def subst(t, m):
    """Capture is impossible: bound variables are numbered by height and opened fresh."""
    memo = {}

    def go(u):
        if u in m:
            return m[u]
        r = memo.get(u.id)
        if r is not None:
            return r
        ch = children(u)
        if not ch:
            r = u
        elif u.op in BINDERS:
            n2 = go(u.args[0])
            mm = {k: v for k, v in m.items() if k is not u.args[1]} if u.args[1] in m else m
            body2 = go(u.args[2]) if mm is m else subst(u.args[2], mm)
            extra = tuple(go(a) if isinstance(a, Term) else a for a in u.args[3:])
            if n2 is u.args[0] and body2 is u.args[2] and all(a is b for a, b in zip(extra, u.args[3:])):
                r = u
            else:
                r = rebuild_binder(u, n2, body2, extra)
        else:
            nk = [go(c) for c in ch]
            r = u if all(a is b for a, b in zip(nk, ch)) else rebuild(u, nk)
        memo[u.id] = r
        return r

    return go(t)


def subterms(ts):
    seen = {}
    stack = list(ts)
    while stack:
        u = stack.pop()
        if u.id in seen:
            continue
        seen[u.id] = u
        stack.extend(children(u))
    return list(seen.values())


# ---------------------------------------------------------------- printing / evaluation


def show(t, depth=0):
    if depth > 12:
        return "..."
    s = lambda u: show(u, depth + 1)
    o = t.op
    if o == "c":
        return str(t.args[0])
    if o == "b":
        return str(t.args[0])
    if o == "var":
        return t.args[0]
    if o == "bv":
        return f"#{t.args[0]}"
    if o == "app":
        return f"{t.args[0]}[{','.join(s(a) for a in t.args[1:])}]"
    if o == "add":
        c0, items = t.args
        p = [f"{c}*{s(a)}" if c != 1 else s(a) for a, c in items]
        if c0 != 0:
            p.append(str(c0))
        return "(" + " + ".join(p) + ")"
    if o == "smul":
        return f"{t.args[1]}*{s(t.args[0])}"
    if o == "mul":
        return "*".join(s(a) if e == 1 else f"{s(a)}^{e}" for a, e in t.args)
    if o in ("eq0", "le0", "lt0"):
        return f"({s(t.args[0])} {dict(eq0='==', le0='<=', lt0='<')[o]} 0)"
    return f"{o}({', '.join(s(a) if isinstance(a, Term) else str(a) for a in t.args)})"


class EvalError(Exception):
    pass


def evaluate(t, env, memo=None):
    """Numeric (float/int/bool) value of a term.  env: .var(name) and .app(name, idx)."""
    memo = {} if memo is None else memo

    def go(u, bvs):
        key = (u.id, bvs)
        if key in memo:
            return memo[key]
        r = _ev(u, bvs)
        memo[key] = r
        return r

    def lk(bvs, k):
        for a, v in bvs:
            if a == k:
                return v
        raise EvalError("unbound")

    def _ev(u, bvs):
        o = u.op
        if o == "c":
            v = u.args[0]
            return int(v) if u.sort == I else (float(v))
        if o == "b":
            return u.args[0]
        if o == "pi":
            return math.pi
        if o == "inf":
            return math.inf
        if o == "ninf":
            return -math.inf
        if o == "nan":
            return math.nan
        if o == "var":
            return env.var(u)
        if o == "bv":
            return lk(bvs, u.args[0])
        if o == "app":
            return env.app(u, tuple(go(a, bvs) for a in u.args[1:]))
        if o == "add":
            c0, items = u.args
            r = int(c0) if u.sort == I else float(c0)
            for a, c in items:
                x = go(a, bvs)
                r += x * (int(c) if u.sort == I else float(c))
            return r
        if o == "smul":
            return go(u.args[0], bvs) * (int(u.args[1]) if u.sort == I else float(u.args[1]))
        if o == "mul":
            r = 1
            for a, e in u.args:
                r *= go(a, bvs) ** e
            return r
        if o == "toR":
            return float(go(u.args[0], bvs))
        if o == "box":
            return go(u.args[0], bvs)
        if o == "floor":
            x = go(u.args[0], bvs)
            if math.isinf(x) or math.isnan(x):
                raise EvalError("floor of non-finite")
            return math.floor(x)
        if o == "sqrt":
            x = go(u.args[0], bvs)
            return math.sqrt(x) if x >= 0 else (0.0 if x > -1e-9 else math.nan)
        if o == "inv":
            x = go(u.args[0], bvs)
            return 1.0 / x if x != 0 else math.inf
        if o == "div0":
            x = go(u.args[0], bvs)
            return math.nan if x == 0 else math.copysign(math.inf, x)
        if o == "infmul":
            r = 1.0
            for a in u.args:
                r *= go(a, bvs)
            return r
        if o in ("sin", "cos", "exp", "tanh", "atan"):
            try:
                return getattr(math, o)(go(u.args[0], bvs))
            except OverflowError:
                return math.inf
        if o in ("acos", "asin"):
            x = go(u.args[0], bvs)
            if abs(x) > 1:
                if abs(x) < 1 + 1e-9:
                    x = math.copysign(1.0, x)
                else:
                    return math.nan
            return getattr(math, o)(x)
        if o == "log":
            x = go(u.args[0], bvs)
            return math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan)
        if o == "atan2":
            return math.atan2(go(u.args[0], bvs), go(u.args[1], bvs))
        if o == "pow":
            return go(u.args[0], bvs) ** go(u.args[1], bvs)
        if o == "not":
            return not go(u.args[0], bvs)
        if o == "and":
            return all(go(a, bvs) for a in u.args)
        if o == "or":
            return any(go(a, bvs) for a in u.args)
        if o == "ite":
            return go(u.args[1], bvs) if go(u.args[0], bvs) else go(u.args[2], bvs)
        if o == "eq0":
            x = go(u.args[0], bvs)
            return x == 0 if u.args[0].sort == I else abs(x) <= 1e-9
        if o == "le0":
            return go(u.args[0], bvs) <= 0
        if o == "lt0":
            return go(u.args[0], bvs) < 0
        if o == "idiv":
            return go(u.args[0], bvs) // go(u.args[1], bvs)
        if o == "band":
            return go(u.args[0], bvs) & go(u.args[1], bvs)
        if o == "bor":
            return go(u.args[0], bvs) | go(u.args[1], bvs)
        if o == "bxor":
            return go(u.args[0], bvs) ^ go(u.args[1], bvs)
        if o == "bshl":
            return go(u.args[0], bvs) << go(u.args[1], bvs)
        if o == "bshr":
            return go(u.args[0], bvs) >> go(u.args[1], bvs)
        if o in ("psum", "forall", "rmax", "rmin", "argmax", "argmin"):
            n = go(u.args[0], bvs)
            k = u.args[1].args[0]
            vals = [go(u.args[2], ((k, i),) + bvs) for i in range(n)]
            if o == "psum":
                return sum(vals)
            if o == "forall":
                return all(vals)
            if not vals:
                raise EvalError("empty reduction")
            if o == "rmax":
                return max(vals)
            if o == "rmin":
                return min(vals)
            if o == "argmax":
                return max(range(n), key=lambda i: (vals[i], -i))
            return min(range(n), key=lambda i: (vals[i], i))
        h = getattr(env, "op_" + o, None)
        if h is not None:
            return h(u, bvs, go)
        raise EvalError(f"cannot evaluate {o}")

    return go(t, ())
