"""C05: forward kinematics."""
from common import R_e, R_n, R_u, Tr, has_shape, m_apply, m_mul, mat, rigid, rigid_body, vec
from dv.contract import contract


def chain(b, pos, td, rd, q, i):
    """Documented joint chain of heliostat i for joint angles q."""
    t = lambda k: vec(b, td, i)[:0] or [b.el(td, i, k + j) for j in range(3)]
    M = Tr([b.el(pos, i, k) for k in range(3)])
    for A in (R_n(b, b.el(rd, i, 0)), R_u(b, b.el(rd, i, 1)), Tr(t(0)), R_e(b, b.el(q, i, 0)),
              R_e(b, b.el(rd, i, 2)), R_n(b, b.el(rd, i, 3)), Tr(t(3)), R_u(b, b.el(q, i, 1)), Tr(t(6))):
        M = m_mul(M, A)
    return M


@contract("C05", "orientation is the documented joint chain", tol=1e-5)
def fk(b):
    n = b.dim("n")
    k, pos, td, rd, _ = rigid_body(b, n)
    q = b.reals("q", (n, 2), -3, 3)
    out = k.motor_positions_to_orientations(q)
    has_shape(b, "shape", out, n, 4, 4)

    def each(i):
        M = chain(b, pos, td, rd, q, i)
        # the mirror's own frame (normal up) is carried to the reference direction south
        off = m_mul(M, R_e(b, b.pi / 2.0))
        for r in range(4):
            for c in range(4):
                b.prove("entry", b.eq(b.el(out, i, r, c), off[r][c]))
        return True

    b.prove_all("entries", (n,), each)


@contract("C05", "orientation is a rigid motion", tol=1e-5)
def fk_rigid(b):
    n = b.dim("n")
    k, pos, td, rd, _ = rigid_body(b, n)
    q = b.reals("q", (n, 2), -3, 3)
    out = k.motor_positions_to_orientations(q)

    def each(i):
        rigid(b, "orientation", out, (i,))
        return True

    b.prove_all("rigid", (n,), each)


@contract("C05", "an undisturbed mirror at rest faces south from its position")
def fk_rest(b):
    n = b.dim("n")
    k, pos, td, rd, _ = rigid_body(b, n)
    b.assume_all((n, 9), lambda i, j: b.eq(b.el(td, i, j), 0.0)) if b.symbolic else td.zero_()
    b.assume_all((n, 4), lambda i, j: b.eq(b.el(rd, i, j), 0.0)) if b.symbolic else rd.zero_()
    out = k.motor_positions_to_orientations(b.torch.zeros((n, 2)))

    def each(i):
        nrm = m_apply(mat(b, out, (i,), 4), [0.0, 0.0, 1.0, 0.0])
        org = m_apply(mat(b, out, (i,), 4), [0.0, 0.0, 0.0, 1.0])
        for c, w in enumerate([0.0, -1.0, 0.0, 0.0]):
            b.prove("normal", b.eq(nrm[c], w))
            b.prove("origin", b.eq(org[c], b.el(pos, i, c)))
        return True

    b.prove_all("rest", (n,), each)
