"""C12: flux bitmaps conserve the energy of the rays (bilinear splatting, per-target sums)."""
from types import SimpleNamespace

from c09_reflection import tracer
from common import has_shape
from dv.contract import contract


def hits(b):
    n, R, p = b.dim("n"), b.dim("rays"), b.dim("p")
    W, H = b.int("W", 1, 9), b.int("H", 1, 9)
    e, u = b.reals("e", (n, R, p), 0.0, 9.5), b.reals("u", (n, R, p), 0.0, 9.5)
    I = b.reals("I", (n, R, p), 0.0, 3.0)
    res = b.stack(b.tensor0(W, "int64"), b.tensor0(H, "int64"))
    out = tracer(b, bitmap_resolution=res).bilinear_splatting(e, u, I, device=None)
    return n, R, p, W, H, e.reshape(n, -1), u.reshape(n, -1), I.reshape(n, -1), out


def shares(b, W, H, e, u, I, h, x):
    """(column, row counted from below, share) of the four pixels around hit x of heliostat h; no share off the bitmap."""
    ce, cu = b.el(e.long(), h, x), b.el(u.long(), h, x)
    fe, fu = b.el(e, h, x) - b.toreal(ce), b.el(u, h, x) - b.toreal(cu)
    on = b.and_(b.le(0, ce), b.lt(ce + 1, W), b.le(0, cu), b.lt(cu + 1, H))
    v = b.el(I, h, x)
    return on, v, [(ce, cu + 1, (1.0 - fe) * fu * v), (ce + 1, cu + 1, fe * fu * v), (ce + 1, cu, fe * (1.0 - fu) * v), (ce, cu, (1.0 - fe) * (1.0 - fu) * v)]


def pixel(b, W, H, e, u, I, K, h, r, c):
    def one(x):
        on, _, parts = shares(b, W, H, e, u, I, h, x)
        t = 0.0
        for cc, rr, s in parts:
            t = t + b.ite(b.and_(on, b.eq(cc, c), b.eq(rr, H - 1 - r)), s, 0.0)
        return t

    return b.sum(K, one)


@contract("C12", "every hit is spread over its four neighbouring pixels in proportion to its distance")
def splat(b):
    n, R, p, W, H, e, u, I, out = hits(b)
    has_shape(b, "one bitmap per heliostat", out, n, H, W)
    K = R * p
    b.prove_all("pixel", (n, H, W), lambda h, r, c: b.eq(b.el(out, h, r, c), pixel(b, W, H, e, u, I, K, h, r, c)))
    b.prove_all("no negative flux", (n, H, W), lambda h, r, c: b.le(0.0, b.el(out, h, r, c)))


@contract("C12", "a bitmap holds exactly the energy of the hits inside it")
def energy(b):
    n, R, p, W, H, e, u, I, out = hits(b)
    K = R * p

    def one(h):
        total = b.sum(H, lambda r: b.sum(W, lambda c: b.el(out, h, r, c)))
        spread = b.sum(H, lambda r: b.sum(W, lambda c: pixel(b, W, H, e, u, I, K, h, r, c)))
        b.lemma("pixel by pixel", b.eq(total, spread))

        def hit(x):
            on, v, _ = shares(b, W, H, e, u, I, h, x)
            return b.ite(on, v, 0.0)

        b.lemma("energy of the spread hits", b.eq(spread, b.sum(K, hit)))
        b.prove("total energy", b.eq(total, b.sum(K, hit)))
        b.prove("never more than was sent", b.le(b.sum(K, hit), b.sum(K, lambda x: b.el(I, h, x))))
        return True

    b.prove_all("bitmap", (n,), one)


@contract("C12", "the bitmap of a target is the sum of the bitmaps of the heliostats aimed at it")
def per_target(b):
    n, W, H, A, B = b.dim("n"), b.dim("W"), b.dim("H"), b.int("planar", 1, 3), b.int("cylindrical", 0, 3)
    m = b.reals("m", (n, H, W), 0.0, 3.0)
    t = b.ints("t", (n,), 0, A + B)
    res = b.stack(b.tensor0(W, "int64"), b.tensor0(H, "int64"))
    tower = SimpleNamespace(number_of_target_areas_per_type=b.stack(b.tensor0(A, "int64"), b.tensor0(B, "int64")))
    out = tracer(b, bitmap_resolution=res, scenario=SimpleNamespace(solar_tower=tower)).get_bitmaps_per_target(m, t)
    has_shape(b, "one bitmap per target", out, A + B, H, W)
    def own(k, r, c):
        return b.sum(n, lambda h: b.ite(b.eq(b.el(t, h), k), b.el(m, h, r, c), 0.0))

    b.prove_all("target", (A + B, H, W), lambda k, r, c: b.eq(b.el(out, k, r, c), own(k, r, c)))

    def lossless(r, c):
        a, s = b.sum(A + B, lambda k: b.el(out, k, r, c)), b.sum(A + B, lambda k: own(k, r, c))
        b.lemma("target by target", b.eq(a, s))
        b.lemma("every heliostat is counted once", b.eq(s, b.sum(n, lambda h: b.el(m, h, r, c))))
        b.prove("nothing is lost", b.eq(a, b.sum(n, lambda h: b.el(m, h, r, c))))
        return True

    b.prove_all("pixel", (H, W), lossless)
