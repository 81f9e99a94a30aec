"""C03: coordinate conversions."""
from common import cross, dot, has_shape, tower, vec
from dv.contract import contract

CO = "geometry.coordinates"


for kind, w in (("points", 1.0), ("directions", 0.0)):

    @contract("C03", f"homogeneous format of {kind}")
    def hom(b, kind=kind, w=w):
        rank = b.choice("rank", [1, 2, 3])
        dims = [b.dim(f"d{k}") for k in range(rank)]
        x = b.reals("x", tuple(dims) + (3,))
        y = getattr(b.mod(CO), f"convert_3d_{kind}_to_4d_format")(x)
        has_shape(b, "shape", y, *dims, 4)

        def each(*i):
            for k in range(3):
                b.prove("coordinates kept", b.eq(b.el(y, *i, k), b.el(x, *i, k)))
            return b.eq(b.el(y, *i, 3), w)

        b.prove_all("fourth component", tuple(dims), each)

    @contract("C03", f"homogeneous format of {kind}: non-3D input refused")
    def homerr(b, kind=kind):
        n, d = b.dim("n"), b.dim("d", lo=1, hi=5)
        b.assume(b.ne(d, 3))
        x = b.reals("x", (n, d))
        k, v = b.attempt(lambda: getattr(b.mod(CO), f"convert_3d_{kind}_to_4d_format")(x))
        b.prove("raises ValueError", k == "raise" and isinstance(v, ValueError))


@contract("C03", "solar azimuth and elevation to a direction", tol=2e-6)
def azel(b):
    n = b.dim("n")
    deg = b.choice("degree", [True, False])
    slant = b.choice("slant", [1.0, 2.5])
    lim = 360.0 if deg else 7.0
    az, el = b.reals("az", (n,), -lim, lim), b.reals("el", (n,), -lim / 4, lim / 4)
    out = b.mod(CO).azimuth_elevation_to_enu(az, el, slant_range=slant, degree=deg)
    has_shape(b, "shape", out, n, 3)
    f = b.pi / 180.0 if deg else 1.0

    def each(i):
        a, e = b.el(az, i) * f, b.el(el, i) * f
        x = vec(b, out, i)
        b.prove("east", b.eq(x[0], slant * b.cos(e) * b.sin(a)))
        b.prove("north", b.eq(x[1], 0.0 - slant * b.cos(e) * b.cos(a)))
        b.prove("up", b.eq(x[2], slant * b.sin(e)))
        return b.eq(dot(x, x), slant * slant)

    b.prove_all("length is the slant range", (n,), each)


@contract("C03", "WGS84 to local coordinates", tol=1e-5)
def wgs(b):
    n = b.dim("n")
    lat, lon = b.reals("lat", (n,), -80, 80), b.reals("lon", (n,), -179, 179)
    alt = b.reals("alt", (n,), -100, 3000)
    rlat, rlon, ralt = b.real("rlat", -80, 80), b.real("rlon", -179, 179), b.real("ralt", -100, 3000)
    pts = b.torch.stack([lat, lon, alt], 1)
    ref = b.torch.stack([b.tensor0(rlat), b.tensor0(rlon), b.tensor0(ralt)])
    out = b.mod(CO).convert_wgs84_coordinates_to_local_enu(pts, ref)
    has_shape(b, "shape", out, n, 3)

    def each(i):
        e, nn, u = vec(b, out, i)
        la, lo = b.el(lat, i), b.el(lon, i)
        b.prove("altitude difference", b.eq(u, b.el(alt, i) - ralt))
        b.prove("same meridian has no east offset", b.implies(b.eq(lo, rlon), b.eq(e, 0.0)))
        b.prove("same parallel has no north offset", b.implies(b.eq(la, rlat), b.eq(nn, 0.0)))
        k = b.pi / 180.0
        a = 6378137.0
        e2 = (a**2 - 6356752.314245**2) / a**2
        s = b.sin(la * k)
        w = b.sqrt(1.0 - e2 * s * s)
        b.prove("east is the parallel's arc length", b.eq(e * w, (lo - rlon) * k * a * b.cos(la * k)))
        return b.eq(nn * w * w * w, (la - rlat) * k * (a * (1.0 - e2)))

    b.prove_all("north is the meridian's arc length", (n,), each)


@contract("C03", "normalised points lie strictly inside the unit interval, order preserved")
def normp(b):
    n, d = b.dim("n"), b.dim("d")
    x = b.reals("x", (n, d))
    y = b.mod(CO).normalize_points(x)
    has_shape(b, "shape", y, n, d)

    def each(i, j, k):
        b.prove("inside (0,1)", b.and_(b.lt(0.0, b.el(y, i, k)), b.lt(b.el(y, i, k), 1.0)))
        return b.implies(b.le(b.el(x, i, k), b.el(x, j, k)), b.le(b.el(y, i, k), b.el(y, j, k)))

    b.prove_all("monotone", (n, n, d), each)


@contract("C03", "normalisation is affine with one scale per coordinate")
def normaff(b):
    n, d = b.dim("n"), b.dim("d")
    x = b.reals("x", (n, d))
    y = b.mod(CO).normalize_points(x)

    def each(i, j, l, k):
        X, Y = (lambda q: b.el(x, q, k)), (lambda q: b.el(y, q, k))
        return b.eq((Y(i) - Y(j)) * (X(i) - X(l)), (Y(i) - Y(l)) * (X(i) - X(j)))

    b.prove_all("affine", (n, n, n, d), each)


@contract("C03", "bitmap coordinates to points on the target surface", tol=1e-4)
def bitmap_points(b):
    n, P, C = b.dim("n"), b.dim("P"), b.dim("C")
    t, planar, cyl = tower(b, P, C)
    W, H = b.int("W", 1, 400), b.int("H", 1, 400)
    px = b.reals("px", (n, 2), 0, 50)
    idx = b.ints("idx", (n,), 0, P + C)
    res = b.torch.stack([b.tensor0(W, "int64"), b.tensor0(H, "int64")])
    out = b.mod(CO).bitmap_coordinates_to_target_coordinates(px, res, t, idx)
    has_shape(b, "shape", out, n, 4)

    def each(i):
        k = b.el(idx, i)
        e, u = (b.el(px, i, 0) + 0.5) / b.toreal(W), (b.el(px, i, 1) + 0.5) / b.toreal(H)
        o = vec(b, out, i)
        c = vec(b, planar.centers, k) if b.symbolic or k < P else None
        if c is not None:
            want = [c[0] + (0.5 - e) * b.el(planar.dimensions, k, 0), c[1], c[2] + (0.5 - u) * b.el(planar.dimensions, k, 1)]
            for j in range(3):
                b.prove("planar: centred pixel grid, east flipped, first row on top", b.implies(b.lt(k, P), b.eq(o[j], want[j])))
        if b.symbolic or k >= P:
            m = k - P
            c, ax, nn = vec(b, cyl.centers, m), vec(b, cyl.axes, m), vec(b, cyl.normals, m)
            r, h, oa = b.el(cyl.radii, m), b.el(cyl.heights, m), b.el(cyl.opening_angles, m)
            d = [o[j] - c[j] for j in range(3)]
            th = (e - 0.5) * oa
            far = b.ge(k, P)
            b.prove("cylinder: height along the axis", b.implies(far, b.eq(dot(d, ax), (0.5 - u) * h)))
            b.prove("cylinder: angle from the normal", b.implies(far, b.eq(dot(d, nn), r * b.cos(th))))
            b.prove("cylinder: angle orientation", b.implies(far, b.eq(dot(d, cross(ax, nn)), r * b.sin(th))))
        return b.eq(b.el(out, i, 3), 1.0)

    b.prove_all("homogeneous", (n,), each)


@contract("C03", "target centre points", tol=1e-5)
def centers(b):
    n, P, C = b.dim("n"), b.dim("P"), b.dim("C")
    t, planar, cyl = tower(b, P, C)
    idx = b.ints("idx", (n,), 0, P + C)
    out = t.get_centers_of_target_areas(idx)
    has_shape(b, "shape", out, n, 4)

    def each(i):
        k = b.el(idx, i)
        for j in range(3):
            if b.symbolic or k < P:
                b.prove("planar centre", b.implies(b.lt(k, P), b.eq(b.el(out, i, j), b.el(planar.centers, k, j))))
            if b.symbolic or k >= P:
                m = k - P
                b.prove("cylinder front point", b.implies(b.ge(k, P), b.eq(b.el(out, i, j), b.el(cyl.centers, m, j) + b.el(cyl.radii, m) * b.el(cyl.normals, m, j))))
        return b.eq(b.el(out, i, 3), 1.0)

    b.prove_all("homogeneous", (n,), each)
