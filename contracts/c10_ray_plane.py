"""C10: rays meet planar targets where geometry says they do."""
from common import dot, has_shape, vec
from dv.contract import contract


def setup(b, magnitudes=True):
    n, R, p, P = b.dim("n"), b.dim("rays"), b.dim("p"), b.dim("P")
    d = b.with_fourth(b.reals("d", (n, R, p, 3)), 0.0) if b.symbolic else b.unit_vectors("d", (n, R, p), homogeneous=0.0)
    if b.symbolic:
        d = b.unit_vectors("d", (n, R, p), homogeneous=0.0)
    mag = b.reals("mag", (n, R, p), 0, 3)
    o = b.with_fourth(b.reals("o", (n, p, 3), -4, 4), 1.0)
    A = b.mod("field.tower_target_areas_planar").TowerTargetAreasPlanar
    areas = A(["a"] * (1 if b.symbolic else P), b.with_fourth(b.reals("c", (P, 3), -2, 2), 1.0), b.unit_vectors("nrm", (P,), homogeneous=0.0), b.reals("dims", (P, 2), 0.5, 19.0))
    rays = b.mod("scene.rays").Rays(ray_directions=d, ray_magnitudes=mag)
    W, H = b.int("W", 1, 40), b.int("H", 1, 40)
    res = b.stack(b.tensor0(W, "int64"), b.tensor0(H, "int64"))
    return n, R, p, P, d, mag, o, areas, rays, W, H, res


@contract("C10", "ray-plane hits, distances, intensities and bitmap coordinates", tol=1e-6)
def plane(b):
    n, R, p, P, d, mag, o, areas, rays, W, H, res = setup(b)
    default = b.choice("default target", [False, True])
    idx = b.const([0] * n, "int32") if default and not b.symbolic else (None if default else b.ints("idx", (n,), 0, P))
    pe, pu, dist, inten = b.mod("raytracing.geometry").line_plane_intersections(rays, o, areas, target_area_indices=None if default else idx, bitmap_resolution=res)
    for nm, t in (("e", pe), ("u", pu), ("distance", dist), ("intensity", inten)):
        has_shape(b, nm, t, n, R, p)
    w1, h1 = b.toreal(W) - 1.0, b.toreal(H) - 1.0

    def each(i, r, j):
        k = 0 if default else b.el(idx, i)
        x, q, c, m = vec(b, d, i, r, j), vec(b, o, i, j), vec(b, areas.centers, k), vec(b, areas.normals, k)
        dn = dot(x, m)
        front = b.lt(dn, 0.0)
        den = b.ite(front, dn, 1.0)
        t = dot([c[a] - q[a] for a in range(3)], m) / den
        w, h = b.el(areas.dimensions, k, 0), b.el(areas.dimensions, k, 1)
        # position on the target from its lower left corner, east to the right
        e, u = (q[0] + t * x[0] - c[0] + w / 2.0) / w, (q[2] + t * x[2] - c[2] + h / 2.0) / h
        E, U = e * w1, u * h1
        D, I = b.el(dist, i, r, j), b.el(inten, i, r, j)
        hit = b.and_(front, b.le(0.0, t), b.le(0.0, E), b.le(E, w1), b.le(0.0, U), b.le(U, h1))
        b.prove("hit: distance along the ray", b.implies(hit, b.eq(D, t)))
        b.prove("hit: cosine law intensity", b.implies(hit, b.eq(I, b.el(mag, i, r, j) * (0.0 - dn))))
        b.prove("hit: column, east flipped", b.implies(hit, b.eq(b.el(pe, i, r, j), w1 - E)))
        b.prove("hit: row", b.implies(hit, b.eq(b.el(pu, i, r, j), U)))
        miss = b.not_(hit)
        b.prove("miss: no intensity", b.implies(miss, b.eq(I, 0.0)))
        b.prove("miss: no distance", b.implies(miss, b.eq(D, 0.0)))
        b.prove("miss: neutral pixel", b.implies(miss, b.and_(b.eq(b.el(pe, i, r, j), w1), b.eq(b.el(pu, i, r, j), 0.0))))
        return True

    b.prove_all("ray", (n, R, p), each)


@contract("C10", "what a planar hit guarantees", tol=1e-6)
def consequences(b):
    n, R, p, P, d, mag, o, areas, rays, W, H, res = setup(b)
    idx = b.ints("idx", (n,), 0, P)
    pe, pu, dist, inten = b.mod("raytracing.geometry").line_plane_intersections(rays, o, areas, target_area_indices=idx, bitmap_resolution=res)

    def each(i, r, j):
        k = b.el(idx, i)
        x, q, c, m = vec(b, d, i, r, j), vec(b, o, i, j), vec(b, areas.centers, k), vec(b, areas.normals, k)
        D, I, E, U = (b.el(t, i, r, j) for t in (dist, inten, pe, pu))
        b.prove("intensity not negative", b.le(0.0, I))
        b.prove("distance not negative", b.le(0.0, D))
        for nm, v, top in (("column", E, b.toreal(W) - 1.0), ("row", U, b.toreal(H) - 1.0)):
            b.prove(nm + " inside the bitmap, lower end", b.le(0.0, v))
            b.prove(nm + " inside the bitmap, upper end", b.le(v, top))
        b.prove("point lies in the target plane", b.implies(b.lt(0.0, I), b.eq(dot([q[a] + D * x[a] - c[a] for a in range(3)], m), 0.0)))
        b.prove("only the front face collects", b.implies(b.lt(0.0, I), b.lt(dot(x, m), 0.0)))
        return True

    b.prove_all("ray", (n, R, p), each)
