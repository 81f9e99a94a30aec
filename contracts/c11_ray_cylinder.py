"""C11: rays meet cylindrical targets where geometry says they do."""
from common import cross, dot, has_shape, orthonormal_pairs, vec
from dv.contract import contract


def setup(b):
    n, R, p, C = b.dim("n"), b.dim("rays"), b.dim("p"), b.dim("C")
    o = b.with_fourth(b.reals("o", (n, p, 3), -6, 6), 1.0)
    A = b.mod("field.tower_target_areas_cylindrical").TowerTargetAreasCylindrical
    axis, normal = orthonormal_pairs(b, "c", C)
    areas = A(["a"] * (1 if b.symbolic else C), b.with_fourth(b.reals("c", (C, 3), -2, 2), 1.0), normal, axis, b.reals("radius", (C,), 0.5, 5.0), b.reals("height", (C,), 0.5, 19.0), b.reals("angle", (C,), 0.2, 6.28))
    idx = b.ints("idx", (n,), 0, C)
    d = b.unit_vectors("d", (n, R, p), homogeneous=0.0)
    if not b.symbolic:  # aim most rays near the receiver so that hits are exercised
        t = areas.centers[idx][:, None, None, :3] + 2.0 * d[..., :3] - o[:, None, :, :3]
        keep = b.torch.rand(d.shape[:-1]) < 0.2
        d = b.with_fourth(b.torch.where(keep[..., None], d[..., :3], t / t.norm(dim=-1, keepdim=True)), 0.0)
    mag = b.reals("mag", (n, R, p), 0, 3)
    rays = b.mod("scene.rays").Rays(ray_directions=d, ray_magnitudes=mag)
    W, H = b.int("W", 1, 40), b.int("H", 1, 40)
    res = b.stack(b.tensor0(W, "int64"), b.tensor0(H, "int64"))
    return n, R, p, C, d, mag, o, areas, rays, W, H, res, idx


def local(b, areas, k, q, x):
    """Origin and direction in the receiver frame (normal x axis, normal, axis)."""
    ax, nn, c = vec(b, areas.axes, k), vec(b, areas.normals, k), vec(b, areas.centers, k)
    f = [cross(nn, ax), nn, ax]
    rel = [q[a] - c[a] for a in range(3)]
    return [b.box(dot(rel, v)) for v in f], [b.box(dot(x, v)) for v in f]


@contract("C11", "ray-cylinder hits, distances, intensities and bitmap coordinates", tol=1e-5)
def cylinder(b):
    b.box_products()
    n, R, p, C, d, mag, o, areas, rays, W, H, res, idx = setup(b)
    pe, pu, dist, inten = b.mod("raytracing.geometry").line_cylinder_intersections(rays, o, areas, target_area_indices=idx, bitmap_resolution=res)
    for nm, t in (("e", pe), ("u", pu), ("distance", dist), ("intensity", inten)):
        has_shape(b, nm, t, n, R, p)
    w1, h1 = b.toreal(W) - 1.0, b.toreal(H) - 1.0

    def each(i, r, j):
        k = b.el(idx, i)
        O, X = local(b, areas, k, vec(b, o, i, j), vec(b, d, i, r, j))
        rad, hgt, oa = b.el(areas.radii, k), b.el(areas.heights, k), b.el(areas.opening_angles, k)
        A = X[0] * X[0] + X[1] * X[1]
        B = 2.0 * (O[0] * X[0] + O[1] * X[1])
        disc = B * B - 4.0 * A * (O[0] * O[0] + O[1] * O[1] - rad * rad)
        D, I, E, U = (b.el(v, i, r, j) for v in (dist, inten, pe, pu))

        def nothing():
            for nm, v in (("intensity", I), ("distance", D), ("column", E), ("row", U)):
                b.prove("miss: no " + nm, b.eq(v, 0.0))

        b.case([b.lt(disc, 0.0)], nothing)
        b.case([b.le(A, 1e-8)], nothing)

        def meets():
            b.lemma("positive denominator", b.lt(0.0, A))
            s = b.sqrt(disc + 1e-12)
            near, far = (0.0 - B - s) / (2.0 * A), (0.0 - B + s) / (2.0 * A)
            b.lemma("far is behind near", b.le(near, far))

            def at(t):
                x, y, z = (O[a] + t * X[a] for a in range(3))
                b.prove("hit point on the cylinder (up to the guard under the root)", b.eq((x * x + y * y - rad * rad) * A * 4.0, 1e-12))
                z = z + hgt / 2.0
                ang = b.fn("atan2", 0.0 - x, y) + oa / 2.0

                def hit():
                    b.prove("hit: smallest distance ahead of the ray", b.eq(D, t))
                    b.prove("hit: column from the angle about the axis, measured from the normal", b.eq(E * oa, ang * w1))
                    b.prove("hit: row from the height", b.eq(U * hgt, z * h1))
                    b.prove("hit: inside the bitmap", b.and_(b.le(0.0, E), b.le(E, w1), b.le(0.0, U), b.le(U, h1)))
                    b.prove("hit: intensity not negative", b.le(0.0, I))
                    q = b.sqrt(x * x + y * y)
                    b.prove("hit: cosine law intensity", b.eq(I, b.el(mag, i, r, j) * b.max(0.0, 0.0 - X[0] * x / q - X[1] * y / q)))

                inside = [b.le(0.0, z), b.le(z, hgt), b.le(0.0, ang), b.le(ang, oa)]
                b.case(inside, hit)
                for c in inside:
                    b.case([b.not_(c)], nothing)

            def front():
                b.lemma("both ahead", b.lt(0.0, far))
                at(near)

            b.case([b.lt(0.0, near)], front)
            b.case([b.le(near, 0.0), b.lt(0.0, far)], lambda: at(far))

            def behind():
                b.lemma("both behind", b.le(near, 0.0))
                nothing()

            b.case([b.le(far, 0.0)], behind)

        b.case([b.le(0.0, disc), b.lt(1e-8, A)], meets)
        return True

    b.prove_all("ray", (n, R, p), each)

