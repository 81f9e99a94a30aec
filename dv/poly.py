"""Ring normaliser: decides polynomial identities modulo defining equations of the atoms.

Every term is expanded to a sparse polynomial over its non-arithmetic atoms with exact rational
coefficients.  ``reduces_to_zero`` clears the (proven non-zero) denominators and divides by the
defining equations (sin^2+cos^2=1, sqrt(t)^2=t, equational hypotheses) with a lexicographic order in
which an atom is larger than everything it is built from, so the division terminates.
"""

from __future__ import annotations

from fractions import Fraction

from . import terms as T


class TooBig(Exception):
    pass


LIMIT = 60000


class Ring:
    def __init__(self):
        self.memo = {}

    # polynomial: dict {monomial: Fraction}; monomial: tuple of (atom id, exponent), descending id
    def poly(self, t):
        r = self.memo.get(t.id)
        if r is not None:
            return r
        o = t.op
        if o == "c":
            r = {(): t.args[0]} if t.args[0] != 0 else {}
        elif o == "add":
            r = {(): t.args[0]} if t.args[0] != 0 else {}
            for a, c in t.args[1]:
                for m, k in self.poly(a).items():
                    v = r.get(m, 0) + k * c
                    if v:
                        r[m] = v
                    else:
                        r.pop(m, None)
        elif o == "smul":
            r = {m: k * t.args[1] for m, k in self.poly(t.args[0]).items()}
        elif o == "mul":
            r = {(): Fraction(1)}
            for a, e in t.args:
                p = self.poly(a)
                for _ in range(e):
                    r = pmul(r, p)
        elif o == "toR":
            r = self.poly(t.args[0])
        else:
            ATOMS[t.id] = t
            r = {((t.id, 1),): Fraction(1)}
        self.memo[t.id] = r
        return r


ATOMS: dict = {}


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            out.append((x[0], x[1] + y[1]))
            i += 1
            j += 1
        elif x[0] > y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def mdiv(a, b):
    """a / b or None."""
    if not b:
        return a
    out = []
    j = 0
    for v, e in a:
        if j < len(b) and b[j][0] == v:
            if e < b[j][1]:
                return None
            if e > b[j][1]:
                out.append((v, e - b[j][1]))
            j += 1
        elif j < len(b) and b[j][0] > v:
            return None
        else:
            out.append((v, e))
    return tuple(out) if j == len(b) else None


def pmul(p, q):
    if len(p) > len(q):
        p, q = q, p
    if len(p) * len(q) > LIMIT * 20:
        raise TooBig
    r = {}
    for m, k in p.items():
        for m2, k2 in q.items():
            mm = mmul(m, m2)
            v = r.get(mm, 0) + k * k2
            if v:
                r[mm] = v
            else:
                r.pop(mm, None)
    if len(r) > LIMIT:
        raise TooBig
    return r


def padd(p, q, c=1):
    r = dict(p)
    for m, k in q.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def lexkey(m):
    # descending ids inside m already; compare lexicographically
    return m


def lead(p):
    return max(p, key=_lexcmp_key)


class _K:
    __slots__ = ("m",)

    def __init__(self, m):
        self.m = m

    def __lt__(self, o):
        a, b = self.m, o.m
        for x, y in zip(a, b):
            if x[0] != y[0]:
                return x[0] < y[0]
            if x[1] != y[1]:
                return x[1] < y[1]
        return len(a) < len(b)


def _lexcmp_key(m):
    return _K(m)


def substitute_atom(p, aid, k, q):
    """p * q^k with (atom)^j -> q^(k-j): multiply through by the denominator q, atom = 1/q."""
    pw = [{(): Fraction(1)}]
    for _ in range(k):
        pw.append(pmul(pw[-1], q))
    buckets = {}
    for m, c in p.items():
        e = 0
        mm = m
        for i, (v, x) in enumerate(m):
            if v == aid:
                e = x
                mm = m[:i] + m[i + 1 :]
                break
        buckets.setdefault(e, {})[mm] = c
    r = {}
    for e, b in buckets.items():
        r = padd(r, pmul(b, pw[k - e]))
    return r


def reduce_poly(p, rules, budget=400000):
    """Multivariate division remainder of p by the rules [(lead monomial, tail poly)]: lead -> tail."""
    p = dict(p)
    by_var = {}
    for lm, tail in rules:
        by_var.setdefault(lm[0][0], []).append((lm, tail))
    work = list(p.keys())
    steps = 0
    while work:
        m = work.pop()
        c = p.get(m)
        if c is None:
            continue
        hit = None
        for v, _ in m:
            for lm, tail in by_var.get(v, ()):
                q = mdiv(m, lm)
                if q is not None:
                    hit = (q, tail)
                    break
            if hit:
                break
        if not hit:
            continue
        steps += 1
        if steps > budget:
            raise TooBig
        del p[m]
        q, tail = hit
        for m2, k2 in tail.items():
            mm = mmul(q, m2)
            v = p.get(mm, 0) + c * k2
            if v:
                if mm not in p:
                    work.append(mm)
                p[mm] = v
            else:
                p.pop(mm, None)
        if len(p) > LIMIT:
            raise TooBig
    return p


def to_rule(p):
    """Orient p == 0 as lead -> tail."""
    if not p:
        return None
    lm = lead(p)
    if not lm:
        return None
    c = p[lm]
    return lm, {m: -k / c for m, k in p.items() if m != lm}


def spoly(r1, r2):
    """S-polynomial of two rules."""
    l1, t1 = r1
    l2, t2 = r2
    lcm = {}
    for v, e in l1 + l2:
        lcm[v] = max(lcm.get(v, 0), e)
    lcm = tuple(sorted(lcm.items(), reverse=True))
    q1, q2 = mdiv(lcm, l1), mdiv(lcm, l2)
    r = {}
    for m, k in t1.items():
        mm = mmul(q1, m)
        r[mm] = r.get(mm, 0) + k
    for m, k in t2.items():
        mm = mmul(q2, m)
        r[mm] = r.get(mm, 0) - k
    return {m: k for m, k in r.items() if k}


def coprime(l1, l2):
    return not ({v for v, _ in l1} & {v for v, _ in l2})


def complete(rules, max_rules=40, max_size=200):
    """A few rounds of Buchberger completion (always sound: only ideal members are added)."""
    rules = [r for r in rules if r]
    i = 0
    pairs = [(a, b) for a in range(len(rules)) for b in range(a)]
    while pairs and len(rules) < max_rules:
        a, b = pairs.pop(0)
        if coprime(rules[a][0], rules[b][0]):
            continue
        s = spoly(rules[a], rules[b])
        try:
            s = reduce_poly(s, rules, budget=5000)
        except TooBig:
            continue
        if s and len(s) <= max_size:
            r = to_rule(s)
            if r:
                rules.append(r)
                pairs += [(len(rules) - 1, k) for k in range(len(rules) - 1)]
        i += 1
        if i > 400:
            break
    return rules


def psqrt(p, limit=40):
    """Exact square root of a polynomial (up to sign) or None."""
    import math

    if not p or len(p) > 400:
        return None

    def root(c):
        if c <= 0:
            return None
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        return Fraction(n, d) if n * n == c.numerator and d * d == c.denominator else None

    lm = lead(p)
    c = root(p[lm])
    if c is None or any(e % 2 for _, e in lm):
        return None
    q0 = tuple((v, e // 2) for v, e in lm)
    q = {q0: c}
    for _ in range(limit):
        r = padd(p, pmul(q, q), -1)
        if not r:
            return q
        m = lead(r)
        t = mdiv(m, q0)
        if t is None or t in q:
            return None
        q[t] = r[m] / (2 * c)
    return None
