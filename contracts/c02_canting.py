"""C02: canting."""
from common import cross, dot, has_shape, vec
from dv.contract import contract

TR = "geometry.transforms"


def setup(b):
    H, F, P = b.dim("H"), b.dim("F"), b.dim("P")
    cant = b.reals("cant", (H, F, 2, 4))
    data = b.reals("data", (H, F, P, 4))

    def ok(h, f):
        e, n = vec(b, cant, h, f, 0), vec(b, cant, h, f, 1)
        x = cross(e, n)
        ee, xx = b.sqrt(dot(e, e)), b.sqrt(dot(x, x))
        # the canting vectors span a plane and are not numerically degenerate
        return b.and_(b.le(1e-3, ee), b.le(1e-3 * ee, xx))

    b.assume_all((H, F), ok)
    return H, F, P, cant, data


@contract("C02", "canting followed by its inverse is the identity")
def inverse(b):
    H, F, P, cant, data = setup(b)
    t = b.mod(TR)
    fwd = t.perform_canting(cant, data)
    back = t.perform_canting(cant, fwd, inverse=True)
    has_shape(b, "shape", back, H, F, P, 4)
    b.prove_all("inverse after canting", (H, F, P, 4), lambda h, f, p, k: b.eq(b.el(back, h, f, p, k), b.el(data, h, f, p, k)))


@contract("C02", "canting after its inverse is the identity")
def inverse2(b):
    H, F, P, cant, data = setup(b)
    t = b.mod(TR)
    fwd = t.perform_canting(cant, data, inverse=True)
    back = t.perform_canting(cant, fwd)
    b.prove_all("canting after inverse", (H, F, P, 4), lambda h, f, p, k: b.eq(b.el(back, h, f, p, k), b.el(data, h, f, p, k)))


@contract("C02", "canting is a rotation about the facet origin")
def rigid(b):
    H, F, P, cant, data = setup(b)
    out = b.mod(TR).perform_canting(cant, data)
    has_shape(b, "shape", out, H, F, P, 4)

    def each(h, f, p):
        d, o = vec(b, data, h, f, p), vec(b, out, h, f, p)
        b.prove("fourth component kept", b.eq(b.el(out, h, f, p, 3), b.el(data, h, f, p, 3)))
        b.prove("length preserved", b.eq(dot(o, o), dot(d, d)))
        return True

    b.prove_all("each point", (H, F, P), each)
    b.prove_all("inner products preserved", (H, F, P, P), lambda h, f, p, q: b.eq(dot(vec(b, out, h, f, p), vec(b, out, h, f, q)), dot(vec(b, data, h, f, p), vec(b, data, h, f, q))))


@contract("C02", "canting takes east to the first canting vector and up to the facet normal")
def axes(b):
    H, F = b.dim("H"), b.dim("F")
    P = b.dim("P")
    which = b.choice("axis", [0, 2])
    cant = b.reals("cant", (H, F, 2, 4))

    def ok(h, f):
        e, n = vec(b, cant, h, f, 0), vec(b, cant, h, f, 1)
        x = cross(e, n)
        ee, xx = b.sqrt(dot(e, e)), b.sqrt(dot(x, x))
        return b.and_(b.le(1e-3, ee), b.le(1e-3 * ee, xx))

    b.assume_all((H, F), ok)
    row = [0.0, 0.0, 0.0, 0.0]
    row[which] = 1.0
    data = b.const([[[row]]]).expand(H, F, P, 4)
    out = b.mod(TR).perform_canting(cant, data)

    def each(h, f, p):
        e, n = vec(b, cant, h, f, 0), vec(b, cant, h, f, 1)
        v = e if which == 0 else cross(e, n)
        nv = b.sqrt(dot(v, v))
        for k in range(3):
            b.prove("image of the axis", b.eq(b.el(out, h, f, p, k) * nv, v[k]))
        return True

    b.prove_all("each point", (H, F, P), each)
