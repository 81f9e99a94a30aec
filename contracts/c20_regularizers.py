"""C20: what keeps reconstructed surfaces plausible."""
from functools import partial
from types import SimpleNamespace

from common import has_shape
from dv.contract import contract

R = "optim.regularizers"


def points(b):
    n, F, U, V = b.dim("n"), b.dim("F", 1, 3), b.dim("U", 1, 4), b.dim("V", 1, 4)
    return n, F, U, V, b.reals("now", (n, F, U, V, 3), -2, 2), b.reals("was", (n, F, U, V, 3), -2, 2)


@contract("C20", "the ideal surface penalty is the mean squared displacement of each facet")
def ideal(b):
    n, F, U, V, x, y = points(b)
    out = b.mod(R).IdealSurfaceRegularizer(reduction_dimensions=(1,))(x, y)
    has_shape(b, "one penalty per heliostat", out, n)

    def one(h):
        def sq(f, u, v, c):
            d = b.el(x, h, f, u, v, c) - b.el(y, h, f, u, v, c)
            return d * d

        total = b.sum(F, lambda f: b.sum(U, lambda u: b.sum(V, lambda v: sq(f, u, v, 0) + sq(f, u, v, 1) + sq(f, u, v, 2))))
        size = b.toreal(3 * U * V)
        b.lemma("mean over the facet, summed over facets", b.eq(b.el(out, h) * size, total))
        b.lemma("squares", b.le(0.0, total))
        b.lemma("size", b.lt(0.0, size))
        return b.le(0.0, b.el(out, h))

    b.prove_all("not negative", (n,), one)
    same = b.mod(R).IdealSurfaceRegularizer(reduction_dimensions=(1,))(x, x)
    b.prove_all("zero for the original surface", (n,), lambda h: b.eq(b.el(same, h), 0.0))


@contract("C20", "the smoothness penalty measures how displacements differ from those of their neighbours")
def smooth(b):
    n, F, U, V, x, y = points(b)
    reg = b.mod(R).SmoothnessRegularizer(reduction_dimensions=(1,))
    out = reg(x, y)
    has_shape(b, "one penalty per heliostat", out, n)

    def one(h):
        def lap(f, u, v, c):
            d = lambda i, j: b.el(x, h, f, i, j, c) - b.el(y, h, f, i, j, c)
            up, down = b.ite(b.lt(0, u), u - 1, 0), b.ite(b.lt(u + 1, U), u + 1, U - 1)
            left, right = b.ite(b.lt(0, v), v - 1, 0), b.ite(b.lt(v + 1, V), v + 1, V - 1)
            r = 4.0 * d(u, v) - d(up, v) - d(down, v) - d(u, left) - d(u, right)
            return r * r

        total = b.sum(F, lambda f: b.sum(U, lambda u: b.sum(V, lambda v: lap(f, u, v, 0) + lap(f, u, v, 1) + lap(f, u, v, 2))))
        size = b.toreal(3 * U * V)
        b.lemma("differences to the four neighbours", b.eq(b.el(out, h) * size, total))
        b.lemma("squares", b.le(0.0, total))
        b.lemma("size", b.lt(0.0, size))
        return b.le(0.0, b.el(out, h))

    b.prove_all("not negative", (n,), one)
    shift = b.reals("shift", (n, F, 1, 1, 3), -2, 2)
    moved = reg(y + shift, y)
    b.prove_all("zero for facets that move as a whole", (n,), lambda h: b.eq(b.el(moved, h), 0.0))


@contract("C20", "outer control points keep their place in the facet")
def edges(b):
    n, F, U, V, g, _ = points(b)
    out = b.mod("optim.surface_reconstructor").SurfaceReconstructor.lock_control_points_on_outer_edges(g)
    has_shape(b, "shape", out, n, F, U, V, 3)

    def one(h, f, u, v):
        edge = b.or_(b.eq(u, 0), b.eq(v, 0), b.eq(u, U - 1), b.eq(v, V - 1))
        for c in (0, 1):
            b.prove("no movement along the edges", b.implies(edge, b.eq(b.el(out, h, f, u, v, c), 0.0)))
            b.prove("inner points unchanged", b.implies(b.not_(edge), b.eq(b.el(out, h, f, u, v, c), b.el(g, h, f, u, v, c))))
        return b.eq(b.el(out, h, f, u, v, 2), b.el(g, h, f, u, v, 2))

    b.prove_all("heights stay free", (n, F, U, V), one)


@contract("C20", "losing intensity is penalised per heliostat and only beyond the tolerance")
def integral(b):
    n, k, H, W = b.dim("heliostats"), b.dim("samples", 1, 3), b.dim("H", 1, 3), b.dim("W", 1, 3)
    S = b.mod("optim.surface_reconstructor").SurfaceReconstructor
    flux, ref = b.reals("flux", (n * k, H, W), 0.0, 2.0), b.reals("ref", (n * k,), 0.0, 8.0)
    lam, rho, tol = b.reals("lam", (n,), 0.0, 2.0), b.real("rho", 0.0, 2.0), b.real("tol", 0.0, 0.5)
    rec = SimpleNamespace(epsilon=1e-12)
    total, rel, con = b.private(S, "_compute_flux_integral_constraint")(rec, flux, ref, lam, rho, tol, SimpleNamespace(number_of_train_samples=k))
    has_shape(b, "one difference per sample", rel, n * k)
    has_shape(b, "one constraint per heliostat", con, n)
    has_shape(b, "one penalty per heliostat", total, n)

    def sample(h, s):
        i = h * k + s
        b.assume(b.lt(0.0, b.el(ref, i)))
        got = b.sum(H, lambda r: b.sum(W, lambda c: b.el(flux, i, r, c)))
        return b.eq(b.el(rel, i) * (b.el(ref, i) + 1e-12), got - b.el(ref, i))

    b.prove_all("relative difference of the intensity", (n, k), sample)

    def one(h):
        loss = b.sum(k, lambda s: b.max(0.0 - tol - b.el(rel, h * k + s), 0.0))
        b.lemma("mean loss beyond the tolerance", b.eq(b.el(con, h) * b.toreal(k), loss))
        b.lemma("losses are not negative", b.le(0.0, loss))
        b.lemma("not negative", b.le(0.0, b.el(con, h)))
        c = b.el(con, h)
        b.prove("augmented Lagrangian", b.eq(b.el(total, h), b.el(lam, h) * c + 0.5 * rho * c * c))
        return b.le(0.0, b.el(total, h))

    b.prove_all("penalty is not negative", (n,), one)
