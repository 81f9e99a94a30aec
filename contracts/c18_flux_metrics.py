"""C18: centre of mass, crops and trapezoids of flux bitmaps."""
from types import SimpleNamespace

from common import has_shape
from dv.contract import contract

BM = "flux.bitmap"


@contract("C18", "the centre of mass is the intensity-weighted mean pixel and lies on the bitmap")
def centre(b):
    n, W, H = b.dim("n"), b.dim("W", 1, 5), b.dim("H", 1, 5)
    m = b.reals("m", (n, H, W), 0.0, 3.0)
    out = b.mod(BM).get_center_of_mass(m)
    has_shape(b, "one centre per bitmap", out, n, 2)

    def one(h):
        total = b.sum(H, lambda r: b.sum(W, lambda c: b.el(m, h, r, c)))
        e = b.sum(H, lambda r: b.sum(W, lambda c: b.toreal(c) * b.el(m, h, r, c)))
        u = b.sum(H, lambda r: b.sum(W, lambda c: b.toreal(r) * b.el(m, h, r, c)))
        x, y = b.el(out, h, 0), b.el(out, h, 1)
        b.lemma("intensity is not negative", b.le(0.0, total))
        b.lemma("weighted column", b.eq(x * (total + 1e-8), e))
        b.lemma("weighted row", b.eq(y * (total + 1e-8), u))
        b.lemma("columns start at zero", b.le(0.0, e))
        b.lemma("rows start at zero", b.le(0.0, u))
        b.lemma("columns end at the width", b.le(e, b.toreal(W - 1) * total))
        b.lemma("rows end at the height", b.le(u, b.toreal(H - 1) * total))
        b.prove("on the bitmap", b.and_(b.le(0.0, x), b.le(x, b.toreal(W - 1)), b.le(0.0, y), b.le(y, b.toreal(H - 1))))
        return b.implies(b.eq(total, 0.0), b.and_(b.eq(x, 0.0), b.eq(y, 0.0)))

    b.prove_all("empty bitmaps have their centre at the origin", (n,), one)


@contract("C18", "a trapezoid is one on its plateau, falls evenly to zero and is symmetric")
def trapezoid(b):
    n, s, p = b.int("total", 1, 20), b.int("slope", 0, 6), b.int("plateau", 0, 10)
    t = b.mod(BM).trapezoid_distribution(n, s, p)
    has_shape(b, "shape", t, n)

    def one(i):
        v, x = b.el(t, i), b.toreal(2 * i - (n - 1))
        # doubled distance from the edge of the plateau
        d = b.abs(x) - b.toreal(p)
        b.prove("between zero and one", b.and_(b.le(0.0, v), b.le(v, 1.0)))
        b.prove("one on the plateau", b.implies(b.le(d, 0.0), b.eq(v, 1.0)))
        b.prove("zero beyond the slope", b.implies(b.and_(b.lt(0.0, d), b.le(b.toreal(2 * s), d)), b.eq(v, 0.0)))
        b.prove("even slope", b.implies(b.and_(b.lt(0.0, d), b.lt(d, b.toreal(2 * s))), b.eq(v * b.toreal(2 * s), b.toreal(2 * s) - d)))
        return b.eq(v, b.el(t, n - 1 - i))

    b.prove_all("symmetric", (n,), one)


@contract("C18", "a crop shows the stated part of the target around the centre of mass")
def crop(b):
    n, W, H = b.dim("n"), b.int("W", 2, 5), b.int("H", 2, 5)
    A, B = b.int("planar", 1, 3), b.int("cylindrical", 1, 3)
    m = b.reals("m", (n, H, W), 0.1, 3.0)
    t = b.ints("t", (n,), 0, A + B)
    dims, rad, op, hei = b.reals("dims", (A, 2), 1.0, 8.0), b.reals("rad", (B,), 1.0, 4.0), b.reals("op", (B,), 0.5, 6.0), b.reals("hei", (B,), 1.0, 8.0)
    tower = SimpleNamespace(number_of_target_areas_per_type=b.stack(b.tensor0(A, "int64"), b.tensor0(B, "int64")),
                            target_areas=[SimpleNamespace(dimensions=dims), SimpleNamespace(radii=rad, opening_angles=op, heights=hei)])
    cw, ch = b.real("cw", 0.5, 8.0), b.real("ch", 0.5, 8.0)
    out = b.mod(BM).crop_flux_distributions_around_center(m, tower, t, cw, ch)
    has_shape(b, "same resolution", out, n, H, W)
    com, T, F = b.mod(BM).get_center_of_mass(m), b.torch, b.torch.nn.functional
    p, c = T.where(t < A, t, T.zeros_like(t)), T.where(t < A, T.zeros_like(t), t - A)
    width, height = T.where(t < A, dims[p, 0], rad[c] * op[c]).clamp(min=1e-8), T.where(t < A, dims[p, 1], hei[c]).clamp(min=1e-8)
    # centre of mass in the coordinates of the resampling, where the bitmap reaches from -1 to 1
    y, x = T.meshgrid(T.linspace(-1, 1, H), T.linspace(-1, 1, W), indexing="ij")
    mass = m / (m.sum(dim=(1, 2), keepdim=True) + 1e-8)
    cx, cy = (x * mass).sum(dim=(1, 2)), (y * mass).sum(dim=(1, 2))
    zero = T.zeros_like(cx)
    theta = T.stack((T.stack((cw / width, zero, cx), -1), T.stack((zero, ch / height, cy), -1)), 1)
    want = F.grid_sample(m[:, None], F.affine_grid(theta, [n, 1, H, W], align_corners=True), align_corners=True)

    def one(h, r, c):
        for kind in (b.lt(b.el(t, h), A), b.le(A, b.el(t, h))):
            b.case([kind], lambda: b.prove("resampled around the centre of mass", b.eq(b.el(out, h, r, c), b.el(want, h, 0, r, c))))
        return True

    b.prove_all("pixel", (n, H, W), one)

    def centre(h):
        total = b.sum(H, lambda r: b.sum(W, lambda c: b.el(m, h, r, c)))
        b.lemma("positive intensity", b.le(0.0, total))
        # empty bitmaps (1e-8 in the normalisation) pull the centre by a negligible amount towards pixel zero
        for d, n, g, q, name in ((0, W, x, cx, "column"), (1, H, y, cy, "row")):
            at = lambda r, c: b.toreal((c, r)[d])
            normed = b.sum(H, lambda r: b.sum(W, lambda c: b.el(g, r, c) * b.el(m, h, r, c)))
            pixels = b.sum(H, lambda r: b.sum(W, lambda c: at(r, c) * b.el(m, h, r, c)))
            b.lemma("normalised mean", b.eq(b.el(q, h) * (total + 1e-8), normed))
            b.lemma("pixel mean", b.eq(b.el(com, h, d) * (total + 1e-8), pixels))
            b.lemma("from normalised coordinates to pixels", b.eq(b.toreal(n - 1) * normed, 2.0 * pixels - b.toreal(n - 1) * total))
            b.prove(f"{name} of the centre of mass", b.eq((b.el(q, h) * (total + 1e-8) + total) * b.toreal(n - 1), 2.0 * b.el(com, h, d) * (total + 1e-8)))
        return True

    b.prove_all("centre", (n,), centre)
