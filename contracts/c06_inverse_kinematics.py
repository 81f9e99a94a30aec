"""C06: inverse kinematics."""
from common import R_e, R_n, R_u, dot, has_shape, m_apply, m_mul, rigid_body, vec
from dv.contract import contract


def facing(b, rd, q, i):
    """Mirror normal for joint angles q (positions and translations do not matter for directions)."""
    v = [0.0, -1.0, 0.0, 0.0]
    for A in reversed((R_n(b, b.el(rd, i, 0)), R_u(b, b.el(rd, i, 1)), R_e(b, b.el(q, i, 0)), R_e(b, b.el(rd, i, 2)), R_n(b, b.el(rd, i, 3)), R_u(b, b.el(q, i, 1)))):
        v = m_apply(A, v)
    return v[:3]


@contract("C06", "motor positions reproduce every reachable normal (ideal actuators)", tol=1e-4, timeout=60)
def ik(b):
    n = b.dim("n")
    k, pos, td, rd, params = rigid_body(b, n, tilt=0.3)
    m = b.unit_vectors("m", (n,))  # the wanted normal in the frame of the first axis; its image is any unit vector
    a1, a2 = rd[:, 0], rd[:, 1]
    cn, sn, cu, su = b.torch.cos(a1), b.torch.sin(a1), b.torch.cos(a2), b.torch.sin(a2)
    x, y, z = m[:, 0], m[:, 1], m[:, 2]
    nrm = b.torch.stack([cn * (cu * x - su * y) - sn * z, su * x + cu * y, sn * (cu * x - su * y) + cn * z, b.torch.zeros_like(x)], 1)

    def reach(i):
        # the second axis reaches east parts below the cosine of its tilt
        e, c = b.el(m, i, 0), b.cos(b.el(rd, i, 3))
        return b.and_(b.lt(0.0, c), b.lt(e, 0.99 * c), b.lt(0.0 - 0.99 * c, e))

    b.assume_all((n,), reach)
    q = b.private(k, "_compute_motor_positions_from_normal")(nrm, epsilon=0.0)
    has_shape(b, "shape", q, n, 2)

    def each(i):
        f = facing(b, rd, q, i)
        for c in range(3):
            b.prove("normal reproduced", b.eq(f[c], b.el(nrm, i, c)))
        return True

    b.prove_all("normal", (n,), each)


def _aimed(b, n, k, pos, rd, reach=True):
    """Incident directions and aim points whose bisector every heliostat can reach."""
    d = b.unit_vectors("d", (n,), homogeneous=0.0)
    w = b.unit_vectors("w", (n,))  # direction from the heliostat to its aim point
    dist = b.reals("dist", (n,), 20.0, 200.0)
    aim = b.with_fourth(pos[:, :3] + dist[:, None] * w, 1.0)
    # the two directions are not opposite: there is a bisector
    b.assume_all((n,), lambda i: b.lt(0.2, 1.0 - dot(vec(b, d, i), vec(b, w, i))))
    return d, w, aim


def _bisector(b, d, w, i):
    h = [b.el(w, i, c) - b.el(d, i, c) for c in range(3)]
    return h, b.sqrt(dot(h, h))


def _ik_by_contract(b, k, rd, n, wanted):
    """Modular step: the private inverse kinematics is replaced by the contract proved above."""
    def fake(normals, device=None, **kw):
        def pre(i):
            h, ln = wanted(i)
            for c in range(3):
                b.prove("the requested normal is the bisector", b.eq(b.el(normals, i, c) * ln, h[c]))
            b.prove("the requested normal is a direction", b.eq(b.el(normals, i, 3), 0.0))
            b.prove("the bisector exists", b.lt(0.0, ln))
            b.prove("the bisector is normalised", b.eq(ln * ln, dot(h, h)))
            return True

        b.prove_all("callee precondition", (n,), pre)
        q = b.fresh_reals("q", (n, 2))

        def post(i):
            h, ln = wanted(i)
            f = facing(b, rd, q, i)
            return b.and_(*[b.eq(f[c] * ln, h[c]) for c in range(3)])

        b.assume_all((n,), post)
        return q

    b.private(k, "_compute_motor_positions_from_normal")
    k._compute_motor_positions_from_normal = fake


@contract("C06", "the mirror bisects the incident direction and the direction to the aim point", tol=1e-4, timeout=60)
def bisect(b):
    n = b.dim("n")
    k, pos, td, rd, params = rigid_body(b, n, tilt=0.1, no_offsets=True)
    d, w, aim = _aimed(b, n, k, pos, rd)
    if b.symbolic:
        _ik_by_contract(b, k, rd, n, lambda i: _bisector(b, d, w, i))
    else:
        _reject_unreachable(b, n, d, w, rd)
    out = k.incident_ray_directions_to_orientations(d, aim, max_num_iterations=2, min_eps=-1.0)
    has_shape(b, "shape", out, n, 4, 4)

    def each(i):
        h, ln = _bisector(b, d, w, i)
        nrm = [b.el(out, i, c, 2) for c in range(3)]
        for c in range(3):
            b.prove("normal is the bisector", b.eq(nrm[c] * ln, h[c]))
        # hence the central ray goes to the aim point: with normal h / |h|, d - 2 (d.n) n = w
        for c in range(3):
            b.prove("the central ray is reflected to the aim point", b.eq(dot(h, h) * b.el(d, i, c) - 2.0 * dot(vec(b, d, i), h) * h[c], dot(h, h) * b.el(w, i, c)))
        for c in range(3):
            b.prove("the mirror stays at its position", b.eq(b.el(out, i, c, 3), b.el(pos, i, c)))
        return True

    b.prove_all("aiming", (n,), each)


def _reject_unreachable(b, n, d, w, rd):
    for i in range(n):
        h, ln = _bisector(b, d, w, i)
        u = [x / ln for x in h] + [0.0]
        # east part in the frame of the first axis
        inv = lambda A: [list(r) for r in zip(*A)]
        m = m_apply(inv(R_u(b, b.el(rd, i, 1))), m_apply(inv(R_n(b, b.el(rd, i, 0))), u))
        b.assume(b.lt(abs(m[0]), 0.95 * b.cos(b.el(rd, i, 3))))
