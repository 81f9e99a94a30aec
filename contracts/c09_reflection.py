"""C09: reflection law, scattering, ray bookkeeping."""
from common import dot, has_shape, vec
from dv.contract import contract


@contract("C09", "reflected rays obey the reflection law")
def law(b):
    n, p = b.dim("n"), b.dim("p")
    d = b.with_fourth(b.reals("d", (n, 1, 3)), 0.0)
    nrm = b.unit_vectors("nrm", (n, p), homogeneous=0.0)
    out = b.mod("raytracing.geometry").reflect(d, nrm)
    has_shape(b, "shape", out, n, p, 4)

    def each(i, j):
        x, y, m = vec(b, d, i, 0), vec(b, out, i, j), vec(b, nrm, i, j)
        b.prove("length is kept", b.eq(dot(y, y), dot(x, x)))
        b.prove("angle of incidence equals angle of reflection", b.eq(dot(y, m), 0.0 - dot(x, m)))
        b.prove("direction stays a direction", b.eq(b.el(out, i, j, 3), 0.0))
        for c in range(3):
            b.prove("incident, reflected ray and normal are coplanar", b.eq(y[c] - dot(y, m) * m[c], x[c] - dot(x, m) * m[c]))
        return True

    b.prove_all("law", (n, p), each)


@contract("C09", "reflecting twice at the same surface restores the ray")
def twice(b):
    n, p = b.dim("n"), b.dim("p")
    d = b.with_fourth(b.reals("d", (n, p, 3)), 0.0)
    nrm = b.unit_vectors("nrm", (n, p), homogeneous=0.0)
    f = b.mod("raytracing.geometry").reflect
    out = f(f(d, nrm), nrm)
    b.prove_all("involution", (n, p, 4), lambda i, j, k: b.eq(b.el(out, i, j, k), b.el(d, i, j, k)))


def tracer(b, **attrs):
    """A ray tracer object with only the attributes that the function under contract uses."""
    R = b.mod("raytracing.heliostat_ray_tracer").HeliostatRayTracer
    r = R.__new__(R)
    for k, v in attrs.items():
        setattr(r, k, v)
    return r


@contract("C09", "scattering keeps the ray length, starts from the reflected direction and sets the magnitude")
def scatter(b):
    n, R, p = b.dim("n"), b.dim("rays"), b.dim("p")
    d = b.unit_vectors("d", (n, p), homogeneous=0.0)
    u, e = b.reals("u", (n, R, p), -0.5, 0.5), b.reals("e", (n, R, p), -0.5, 0.5)
    mag = b.real("magnitude", 0.1, 5)
    rays = tracer(b, ray_magnitude=mag).scatter_rays(u, e, d)
    has_shape(b, "directions", rays.ray_directions, n, R, p, 4)
    has_shape(b, "magnitudes", rays.ray_magnitudes, n, R, p)

    def each(i, r, j):
        x, y = vec(b, d, i, j), vec(b, rays.ray_directions, i, r, j)
        b.prove("unit length", b.eq(dot(y, y), 1.0))
        b.prove("direction stays a direction", b.eq(b.el(rays.ray_directions, i, r, j, 3), 0.0))
        b.prove("magnitude", b.eq(b.el(rays.ray_magnitudes, i, r, j), mag))
        cu, su, ce, se = b.cos(b.el(u, i, r, j)), b.sin(b.el(u, i, r, j)), b.cos(b.el(e, i, r, j)), b.sin(b.el(e, i, r, j))
        # first turned about the up axis and then about the east axis, as documented, by this ray's own angles
        v = [cu * x[0] - su * x[1], su * x[0] + cu * x[1], x[2]]
        w = [v[0], ce * v[1] - se * v[2], se * v[1] + ce * v[2]]
        for c in range(3):
            b.prove("turned by its own two angles", b.eq(y[c], w[c]))
        return True

    b.prove_all("scatter", (n, R, p), each)


@contract("C09", "ray directions and magnitudes must belong together")
def rays_shape(b):
    n, R, p, q = b.dim("n"), b.dim("rays"), b.dim("p"), b.dim("q")
    k = b.choice("components", [3, 4])
    cls = b.mod("scene.rays").Rays
    d, m = b.reals("d", (n, R, p, k)), b.reals("m", (n, R, q))
    out, val = b.attempt(lambda: cls(ray_directions=d, ray_magnitudes=m))
    b.prove("accepted iff shapes agree", b.iff(b.lit(out == "return"), b.and_(b.eq(p, q), b.lit(k == 4))))
    if out == "return":
        b.prove_all("stored", (n, R, p), lambda i, r, j: b.and_(b.eq(b.el(val.ray_magnitudes, i, r, j), b.el(m, i, r, j)), *[b.eq(b.el(val.ray_directions, i, r, j, c), b.el(d, i, r, j, c)) for c in range(4)]))
    else:
        b.prove("rejected as a value error", b.lit(isinstance(val, ValueError)))
