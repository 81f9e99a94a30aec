"""C19: what the loss functions measure."""
from functools import partial

from types import SimpleNamespace

from common import has_shape, dot, tower
from dv.contract import contract

L = "optim.loss"


@contract("C19", "the vector loss of a sample is its own sum of squared differences")
def vector(b):
    n, k = b.dim("n"), b.dim("k", 1, 4)
    p, g = b.reals("p", (n, k), -3, 3), b.reals("g", (n, k), -3, 3)
    out = b.mod(L).VectorLoss()(p, g, reduction_dimensions=(1,))
    has_shape(b, "one loss per sample", out, n)

    def one(h):
        sq = lambda c: (b.el(p, h, c) - b.el(g, h, c)) * (b.el(p, h, c) - b.el(g, h, c))
        b.prove("sum of squares", b.eq(b.el(out, h), b.sum(k, sq)))
        return b.le(0.0, b.el(out, h))

    b.prove_all("not negative", (n,), one)
    same = b.mod(L).VectorLoss()(p, p, reduction_dimensions=(1,))
    b.prove_all("zero for a perfect prediction", (n,), lambda h: b.eq(b.el(same, h), 0.0))


@contract("C19", "the pixel loss of a sample is its squared error over its own total ground truth")
def pixel(b):
    n, H, W = b.dim("n"), b.dim("H", 1, 4), b.dim("W", 1, 4)
    p, g = b.reals("p", (n, H, W), 0.0, 3.0), b.reals("g", (n, H, W), 0.1, 3.0)
    out = b.mod(L).PixelLoss()(p, g, reduction_dimensions=(1, 2))
    has_shape(b, "one loss per sample", out, n)

    def one(h):
        d = lambda r, c: b.el(p, h, r, c) - b.el(g, h, r, c)
        err = b.sum(H, lambda r: b.sum(W, lambda c: d(r, c) * d(r, c)))
        total = b.sum(H, lambda r: b.sum(W, lambda c: b.el(g, h, r, c)))
        b.assume(b.lt(0.0, total))
        b.lemma("relative squared error", b.eq(b.el(out, h) * total, err))
        b.lemma("squares", b.le(0.0, err))
        return b.le(0.0, b.el(out, h))

    b.prove_all("not negative", (n,), one)
    same = b.mod(L).PixelLoss()(g, g, reduction_dimensions=(1, 2))
    b.prove_all("zero for a perfect prediction", (n,), lambda h: b.eq(b.el(same, h), 0.0))


@contract("C19", "the Kullback-Leibler loss is that of the normalised bitmaps, never negative and zero for a perfect prediction")
def kl(b):
    n, H, W = b.dim("n"), b.dim("H", 1, 4), b.dim("W", 1, 4)
    p, g = b.reals("p", (n, H, W), 0.0, 3.0), b.reals("g", (n, H, W), 0.1, 3.0)
    loss = b.mod(L).KLDivergenceLoss()
    out = loss(p, g, reduction_dimensions=(1, 2))
    has_shape(b, "one loss per sample", out, n)
    eps = 1e-12

    def one(h):
        tot = lambda t, f: b.sum(H, lambda r: b.sum(W, lambda c: f(b.el(t, h, r, c))))
        w = {}
        for k, t in (("prediction", p), ("ground truth", g)):
            S, A = tot(t, lambda x: x), tot(t, b.abs)
            b.assume(b.le(1.0, S * 1e12))
            b.lemma("no negative intensities in the " + k, b.eq(A, S))
            w[k] = 1.0 / b.max(A, eps)
            b.lemma(k + " divided by its total", b.eq(w[k] * S, 1.0))
            b.lemma("positive total", b.lt(0.0, w[k]))
        q, r_ = lambda r, c: b.el(g, h, r, c) * w["ground truth"], lambda r, c: b.el(p, h, r, c) * w["prediction"]
        dsum = lambda f: b.sum(H, lambda r: b.sum(W, lambda c: f(r, c)))
        b.lemma("ground truth is a distribution", b.eq(dsum(q), 1.0))
        b.lemma("prediction is a distribution", b.eq(dsum(r_), 1.0))
        D = dsum(lambda r, c: (q(r, c) + eps) * (b.log(q(r, c) + eps) - b.log(r_(r, c) + eps)))
        b.lemma("divergence of the normalised bitmaps", b.eq(b.el(out, h), D))
        b.lemma("bounded by the difference of the masses", b.le(dsum(lambda r, c: q(r, c) - r_(r, c)), D))
        b.lemma("equal masses", b.eq(dsum(lambda r, c: q(r, c) - r_(r, c)), 0.0))
        return b.le(0.0, b.el(out, h))

    b.prove_all("not negative", (n,), one)
    same = loss(g, g, reduction_dimensions=(1, 2))
    b.prove_all("zero for a perfect prediction", (n,), lambda h: b.eq(b.el(same, h), 0.0))


def schwarz(b, u, v, d, m):
    """|d| <= m for the scalar product d of vectors u and v and the product m of their lengths."""
    pairs = [(i, j) for i in range(len(u)) for j in range(i)]
    sq = [(u[i] * v[j] - u[j] * v[i]) * (u[i] * v[j] - u[j] * v[i]) for i, j in pairs]
    for s in sq:
        b.lemma("square", b.le(0.0, s))
    b.lemma("Lagrange's identity", b.eq(m * m, d * d + sum(sq[1:], sq[0])))
    b.lemma("squared scalar product", b.le(d * d, m * m))
    b.lemma("positive lengths", b.lt(0.0, m))
    b.law("Cauchy-Schwarz", lambda d, m: b.and_(b.lt(0.0, m), b.le(d * d, m * m)), lambda d, m: b.and_(b.le(0.0 - m, d), b.le(d, m)), d, m)


def lengths(b, u, v, eps):
    nu, nv = b.sqrt(dot(u, u)), b.sqrt(dot(v, v))
    b.assume(b.le(1.0, nu * (1.0 / eps)))
    b.assume(b.le(1.0, nv * (1.0 / eps)))
    d, m = dot(u, v), nu * nv
    schwarz(b, u, v, d, m)
    return nu, nv, d, m


@contract("C19", "the angle loss is the angle between predicted and true direction")
def angle(b):
    n = b.dim("n")
    p, g = b.reals("p", (n, 4), -3, 3), b.reals("g", (n, 4), -3, 3)
    out = b.mod(L).AngleLoss()(p, g)
    has_shape(b, "one loss per sample", out, n)
    eps = 1e-12

    def one(h):
        u, v = ([b.el(t, h, c) for c in range(3)] for t in (p, g))
        nu, nv, d, m = lengths(b, u, v, eps)
        a = b.el(out, h)
        clamp = lambda x: b.min(b.max(x, -1.0), 1.0)
        r = dot([x / b.max(nu, eps) for x in u], [x / b.max(nv, eps) for x in v])
        b.lemma("scalar product of the directions", b.eq(r * m, d))
        b.lemma("angle", b.eq(b.cos(a), clamp(r)))
        b.law("cosine", lambda r, d, m: b.and_(b.lt(0.0, m), b.eq(r * m, d), b.le(0.0 - m, d), b.le(d, m)), lambda r, d, m: b.eq(clamp(r) * m, d), r, d, m)
        ang = lambda r: b.fn("acos", clamp(r))
        b.law("arc cosine", lambda r: b.lit(True), lambda r: b.and_(b.le(0.0, ang(r)), b.le(ang(r), b.fn("acos", -1.0))), r)
        b.lemma("between zero and a half turn", b.and_(b.le(0.0, a), b.le(a, b.fn("acos", -1.0))))
        return b.eq(b.cos(a) * m, d)

    b.prove_all("cosine of the angle", (n,), one)


@contract("C19", "the cosine loss is one minus the cosine between prediction and truth")
def cosine(b):
    n = b.dim("n")
    p, g = b.reals("p", (n, 4), -3, 3), b.reals("g", (n, 4), -3, 3)
    out = b.mod(L).CosineSimilarityLoss()(p, g)
    has_shape(b, "one loss per sample", out, n)

    def one(h):
        u, v = ([b.el(t, h, c) for c in range(4)] for t in (p, g))
        nu, nv, d, m = lengths(b, u, v, 1e-8)
        x = b.el(out, h)
        b.lemma("one minus the cosine", b.eq((1.0 - x) * m, d))
        b.law("range", lambda x, d, m: b.and_(b.lt(0.0, m), b.eq((1.0 - x) * m, d), b.le(0.0 - m, d), b.le(d, m)),
              lambda x, d, m: b.and_(b.le(0.0, x), b.le(x, 2.0)), x, d, m)
        return b.and_(b.le(0.0, x), b.le(x, 2.0))

    b.prove_all("between zero and two", (n,), one)


@contract("C19", "the loss of a heliostat is reduced from its own samples only")
def per_heliostat(b):
    n, k, rest = b.dim("heliostats"), b.dim("samples", 1, 4), b.int("rest", 0, 3)
    b.assume(b.lt(rest, k))
    x = b.reals("x", (n * k + rest,), -3, 3)
    f, T = b.mod(L).reduce_loss_per_sample, b.torch
    block = lambda h: b.sum(k, lambda s: b.el(x, h * k + s))
    out = f(x, k, partial(T.sum, dim=-1))
    has_shape(b, "one loss per heliostat", out, n)
    b.prove_all("sum over the samples of the heliostat", (n,), lambda h: b.eq(b.el(out, h), block(h)))
    out = f(x, k, partial(T.mean, dim=-1))
    b.prove_all("mean over the samples of the heliostat", (n,), lambda h: b.eq(b.el(out, h) * b.toreal(k), block(h)))


@contract("C19", "the focal spot loss is the distance of the centres of mass on the sample's own target")
def focal(b):
    n, H, W = b.dim("n"), b.int("H", 2, 5), b.int("W", 2, 5)
    P, C = b.int("planar", 1, 2), b.int("cylindrical", 1, 2)
    st, planar, cyl = tower(b, P, C)
    idx = b.ints("idx", (n,), 0, P + C)
    p, g = b.reals("p", (n, H, W), 0.0, 3.0), b.reals("g", (n, H, W), 0.1, 3.0)
    T = b.torch
    loss = b.mod(L).FocalSpotLoss(SimpleNamespace(solar_tower=st))
    out = loss(p, g, target_area_indices=idx, device=None)
    has_shape(b, "one loss per sample", out, n)
    com, at = b.mod("flux.bitmap").get_center_of_mass, b.mod("geometry.coordinates").bitmap_coordinates_to_target_coordinates
    res = b.stack(b.tensor0(W, "int64"), b.tensor0(H, "int64"))
    x, y = at(com(p), res, st, idx), at(com(g), res, st, idx)

    def one(h):
        d = [b.el(x, h, c) - b.el(y, h, c) for c in range(3)]
        return b.eq(b.el(out, h), b.sqrt(dot(d, d)))

    b.prove_all("distance in the world", (n,), one)
    same = loss(g, g, target_area_indices=idx, device=None)
    b.prove_all("zero for a perfect prediction", (n,), lambda h: b.eq(b.el(same, h), 0.0))
