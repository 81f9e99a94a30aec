"""C04: axis and angle between directions."""
from common import cross, dot, has_shape, vec
from dv.contract import contract

RO = "geometry.rotations"


def rodrigues(b, axis, ct, st, v):
    c = cross(axis, v)
    d = dot(axis, v)
    return [ct * v[k] + st * c[k] + (1.0 - ct) * d * axis[k] for k in range(3)]


def cauchy(b, x, y):
    """Lemma for unit vectors x, y: their product lies in [-1, 1] (1 - (x.y)^2 is the squared cross product)."""
    d, c = dot(x, y), cross(x, y)
    b.lemma("Lagrange identity", b.eq(1.0 - d * d, dot(c, c)))
    b.lemma("Cauchy-Schwarz", b.and_(b.le(-1.0, d), b.le(d, 1.0)), light=True)


@contract("C04", "rotation vector turns the initial direction onto the target", tol=1e-5)
def decompose(b):
    n = b.dim("n")
    u = b.with_fourth(b.reals("u", (n, 3), -2, 2), 0.0)
    t = b.with_fourth(b.reals("t", (3,), -2, 2), 0.0)
    tv = vec(b, t)
    b.assume(b.le(1e-2, b.sqrt(dot(tv, tv))))
    b.assume_all((n,), lambda i: b.and_(b.le(1e-2, b.sqrt(dot(vec(b, u, i), vec(b, u, i)))),
                                        b.le(1e-2, b.sqrt(dot(*(2 * [cross(vec(b, u, i), tv)]))))))
    e, nn, up = b.mod(RO).decompose_rotations(u, t)
    for x in (e, nn, up):
        has_shape(b, "shape", x, n)

    def each(i):
        uv = vec(b, u, i)
        r = [b.el(e, i), b.el(nn, i), b.el(up, i)]
        c = cross(uv, tv)
        lu, lt_ = b.sqrt(dot(uv, uv)), b.sqrt(dot(tv, tv))
        cauchy(b, [x / lu for x in uv], [x / lt_ for x in tv])
        h = cross([x / lu for x in uv], [x / lt_ for x in tv])
        lh = b.sqrt(dot(h, h))
        th = b.fn("acos", dot([x / lu for x in uv], [x / lt_ for x in tv]))
        for k in range(3):
            b.prove("angle times the unit common perpendicular", b.eq(r[k] * lh, th * h[k]))
        return b.le(0.0, th)

    b.prove_all("angle is not negative", (n,), each)


@contract("C04", "axis and angle rotate one direction onto the other", tol=1e-5)
def axis_angle(b):
    f, t = b.with_fourth(b.reals("f", (3,), -2, 2), 0.0), b.with_fourth(b.reals("t", (3,), -2, 2), 0.0)
    fv, tv = vec(b, f), vec(b, t)
    lf, lt_ = b.sqrt(dot(fv, fv)), b.sqrt(dot(tv, tv))
    b.assume(b.le(1e-2, lf))
    b.assume(b.le(1e-2, lt_))
    c = cross([x / lf for x in fv], [x / lt_ for x in tv])
    b.assume(b.le(1e-3, b.sqrt(dot(c, c))))
    cauchy(b, [x / lf for x in fv], [x / lt_ for x in tv])
    axis, angle = b.mod(RO).rotation_angle_and_axis(f, t)
    has_shape(b, "axis shape", axis, 3)
    a = vec(b, axis)
    th = b.el(angle)
    b.prove("unit axis", b.eq(dot(a, a), 1.0))
    b.prove("angle within a half turn", b.and_(b.le(0.0, th), b.le(th, b.pi)))
    got = rodrigues(b, a, b.cos(th), b.sin(th), [x / lf for x in fv])
    for k in range(3):
        b.prove("rotated onto the target", b.eq(got[k], tv[k] / lt_))


@contract("C04", "parallel directions give a zero angle")
def parallel(b):
    f = b.with_fourth(b.reals("f", (3,), -2, 2), 0.0)
    fv = vec(b, f)
    b.assume(b.le(1e-2, b.sqrt(dot(fv, fv))))
    s = b.real("s", 0.1, 5)
    t = f * s
    axis, angle = b.mod(RO).rotation_angle_and_axis(f, t)
    a = vec(b, axis)
    b.prove("zero angle", b.eq(b.el(angle), 0.0))
    b.prove("unit axis", b.eq(dot(a, a), 1.0))


@contract("C04", "opposite directions give a half turn about a perpendicular axis", tol=1e-5)
def opposite(b):
    f = b.with_fourth(b.reals("f", (3,), -2, 2), 0.0)
    fv = vec(b, f)
    b.assume(b.le(1e-2, b.sqrt(dot(fv, fv))))
    s = b.real("s", 0.1, 5)
    t = f * (0.0 - s)
    axis, angle = b.mod(RO).rotation_angle_and_axis(f, t)
    a = vec(b, axis)
    b.prove("half turn", b.eq(b.el(angle), b.pi))
    b.prove("unit axis", b.eq(dot(a, a), 1.0))
    b.prove("perpendicular", b.eq(dot(a, fv), 0.0))
