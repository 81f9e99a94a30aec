"""C14: knot vectors and knot spans."""
from common import has_shape
from dv.contract import contract

SURF = "nurbs.surfaces"


def nurbs(b, p, q, uniform=True):
    S, F = b.dim("S"), b.dim("F")
    nu, nv = p + b.int("more_u", 1, 4), q + b.int("more_v", 1, 4)
    cp = b.reals("cp", (S, F, nu, nv, 3), -2.0, 2.0)
    deg = b.const([p, q], dtype="int64")
    return S, F, nu, nv, cp, b.mod(SURF).NURBSSurfaces(degrees=deg, control_points=cp, uniform=uniform)


def uniform_contract(p, q):
    @contract("C14", f"uniform knots of degrees {p} and {q} are clamped and evenly spaced and every point lies in its span")
    def uniform(b):
        S, F, nu, nv, cp, s = nurbs(b, p, q)
        P = b.dim("P")
        ev = b.reals("ev", (S, F, P, 2), 0.0, 0.99)
        b.assume_all((S, F, P, 2), lambda a, f, i, d: b.and_(b.le(0.0, b.el(ev, a, f, i, d)), b.lt(b.el(ev, a, f, i, d), 1.0)))
        for d, deg, n, kv in ((0, p, nu, s.knot_vectors_u), (1, q, nv, s.knot_vectors_v)):
            has_shape(b, "knots", kv, S, F, n + deg + 1)
            k = lambda i: b.el(kv, 0, 0, i)
            b.prove_all("same knots for every facet", (S, F, n + deg + 1), lambda a, f, i: b.eq(b.el(kv, a, f, i), k(i)))
            b.prove_all("starts with full multiplicity", (deg + 1,), lambda i: b.eq(k(i), 0.0))
            b.prove_all("ends with full multiplicity", (deg + 1,), lambda i: b.eq(k(n + i), 1.0))
            b.prove_all("evenly spaced in between", (n - deg + 1,), lambda i: b.eq(k(deg + i) * b.toreal(n - deg), b.toreal(i)))
            b.interval_sum("distinct knots", n + deg, deg, n, lambda i: b.not_(b.eq(k(i), k(i + 1))))
            sp = s.find_spans(d, ev, kv)
            has_shape(b, "spans", sp, S, F, P)

            def one(a, f, i):
                x, j = b.el(ev, a, f, i, d), b.el(sp, a, f, i)
                b.prove("span has control points", b.and_(b.le(deg, j), b.lt(j, n)))
                b.prove("point lies in its span", b.and_(b.le(k(j), x), b.lt(x, k(j + 1))))
                return True

            b.prove_all("spans", (S, F, P), one)


for _p, _q in ((1, 2), (2, 3), (3, 3), (4, 5)):
    uniform_contract(_p, _q)


def general_contract(p):
    @contract("C14", f"with any knots of degree {p} every point lies in its span")
    def general(b):
        S, F, nu, nv, cp, s = nurbs(b, p, p, uniform=False)
        P = b.dim("P")
        step = b.reals("step", (S, F, nu + p + 1), 0.05, 0.3)
        kv = b.reals("kv", (S, F, nu + p + 1)) if b.symbolic else step.cumsum(-1)
        b.assume_all((S, F, nu + p), lambda a, f, i: b.le(b.el(kv, a, f, i), b.el(kv, a, f, i + 1)))
        w = b.ints("w", (S, F, P), p, nu)
        b.assume_all((S, F, P), lambda a, f, i: b.lt(b.el(w, a, f, i), nu))
        ev = b.reals("ev", (S, F, P, 2), 0.0, 2.0)
        if not b.symbolic:
            lo, hi = kv.gather(2, w), kv.gather(2, w + 1)
            ev = b.torch.stack((lo + (hi - lo) * (ev[..., 0] % 0.9), ev[..., 1]), -1)
        at = lambda a, f, j: b.el(kv, a, f, j)
        b.assume_all((S, F, P), lambda a, f, i: b.and_(b.le(at(a, f, b.el(w, a, f, i)), b.el(ev, a, f, i, 0)), b.lt(b.el(ev, a, f, i, 0), at(a, f, b.el(w, a, f, i) + 1))))
        sp = s.find_spans(0, ev, kv)
        has_shape(b, "spans", sp, S, F, P)

        def one(a, f, i):
            x, j, end = b.el(ev, a, f, i, 0), b.el(sp, a, f, i), at(a, f, nu)
            near = b.le(b.abs(x - end), 1e-5 + 1e-5 * b.abs(end))
            b.prove("span has control points", b.and_(b.le(p, j), b.lt(j, nu)))
            b.prove("point lies in its span", b.or_(near, b.and_(b.le(at(a, f, j), x), b.lt(x, at(a, f, j + 1)))))
            b.prove("the end of the knots belongs to the last span", b.implies(near, b.eq(j, nu - 1)))
            return True

        b.prove_all("spans", (S, F, P), one)


general_contract(3)
