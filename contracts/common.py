"""Specification vocabulary shared by the contracts."""


def mat(b, M, lead, n=3):
    return [[b.el(M, *lead, i, j) for j in range(n)] for i in range(n)]


def rigid(b, name, M, lead):
    """M[lead] is [[R, t], [0, 1]] with R orthogonal of determinant one."""
    m = lambda i, j: b.el(M, *lead, i, j)
    for i in range(3):
        for j in range(i, 3):
            b.prove(f"{name}: rotation block orthonormal ({i},{j})", b.eq(sum(m(k, i) * m(k, j) for k in range(3)), 1.0 if i == j else 0.0))
    d = (m(0, 0) * (m(1, 1) * m(2, 2) - m(1, 2) * m(2, 1)) - m(0, 1) * (m(1, 0) * m(2, 2) - m(1, 2) * m(2, 0))
         + m(0, 2) * (m(1, 0) * m(2, 1) - m(1, 1) * m(2, 0)))
    b.prove(f"{name}: determinant one", b.eq(d, 1.0))
    for j in range(4):
        b.prove(f"{name}: last row ({j})", b.eq(m(3, j), 1.0 if j == 3 else 0.0))


def same(b, name, M, lead, want):
    for i in range(len(want)):
        for j in range(len(want[0])):
            b.prove(f"{name} ({i},{j})", b.eq(b.el(M, *lead, i, j), want[i][j]))


def has_shape(b, name, t, *dims):
    s = b.shape(t)
    b.prove(f"{name}: rank", len(s) == len(dims))
    for k, (x, y) in enumerate(zip(s, dims)):
        b.prove(f"{name}: dimension {k}", b.eq(x, y))


def dot(u, v):
    r = 0.0
    for x, y in zip(u, v):
        r = r + x * y
    return r


def cross(u, v):
    return [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]


def vec(b, t, *idx, n=3):
    return [b.el(t, *idx, k) for k in range(n)]


def orthonormal_pairs(b, pre, n):
    """Two tensors of n homogeneous unit vectors, orthogonal row by row."""
    a = b.unit_vectors(pre + "_axis", (n,), homogeneous=0.0)
    if b.symbolic:
        c = b.unit_vectors(pre + "_normal", (n,), homogeneous=0.0)
        b.assume_all((n,), lambda i: b.eq(dot(vec(b, a, i), vec(b, c, i)), 0.0))
        return a, c
    raw = b.unit_vectors(pre + "_normal", (n,), homogeneous=0.0)
    t = raw - (raw * a).sum(-1, keepdim=True) * a
    nrm = t.norm(dim=-1, keepdim=True)
    if not bool((nrm > 1e-2).all()):
        b.assume(False)
    return a, t / nrm


def tower(b, P, C, aligned_normals=False):
    """A real solar tower with P planar and C cylindrical target areas (the tensors are arbitrary)."""
    tp = b.mod("field.tower_target_areas_planar").TowerTargetAreasPlanar
    tc = b.mod("field.tower_target_areas_cylindrical").TowerTargetAreasCylindrical
    st = b.mod("field.solar_tower").SolarTower
    np_, nc = (1, 1) if b.symbolic else (P, C)
    planar = tp([f"p{i}" for i in range(np_)], b.with_fourth(b.reals("p_center", (P, 3)), 1.0),
                b.unit_vectors("p_normal", (P,), homogeneous=0.0), b.reals("p_dims", (P, 2), 0.5, 9.0))
    axis, normal = orthonormal_pairs(b, "c", C)
    cyl = tc([f"c{i}" for i in range(nc)], b.with_fourth(b.reals("c_center", (C, 3)), 1.0), normal, axis,
             b.reals("c_radius", (C,), 0.5, 5.0), b.reals("c_height", (C,), 0.5, 9.0), b.reals("c_angle", (C,), 0.2, 6.28))
    t = st([planar, cyl], device=None)
    if b.symbolic:
        t.number_of_target_areas_per_type = b.torch.stack([b.tensor0(P, "int64"), b.tensor0(C, "int64")])
        planar.number_of_target_areas, cyl.number_of_target_areas = P, C
    return t, planar, cyl


def rigid_body(b, n, kind="ideal", tilt=0.2, params=None, opt=None, no_offsets=False):
    """Real rigid-body kinematics for n heliostats, all active, arbitrary positions and deviations."""
    kb = b.mod("field.kinematics_rigid_body").RigidBody
    pos = b.with_fourth(b.reals("pos", (n, 3), -50, 50), 1.0)
    td = b.torch.zeros((n, 9)) if no_offsets else b.reals("td", (n, 9), -0.5, 0.5)
    rd = b.reals("rd", (n, 4), -tilt, tilt)
    if params is None:
        params = b.reals("act", (n, 4 if kind == "ideal" else 7, 2), 0.1, 1.0)
        params[:, 0] = 1.0 if kind == "ideal" else 0.0
        params[:, 2] = b.reals("act_min", (n, 2), -4, 1)
        params[:, 3] = b.reals("act_max", (n, 2), 0, 4)
    k = kb(n, pos, b.with_fourth(b.reals("ori", (n, 3)), 0.0), td, rd, params, opt if opt is not None else b.const([]), device=None)
    k.number_of_active_heliostats = n
    k.active_heliostat_positions = pos
    k.active_initial_orientations = k.initial_orientations
    k.active_translation_deviation_parameters = td
    k.active_rotation_deviation_parameters = rd
    k.active_motor_positions = k.motor_positions
    k.actuators.active_non_optimizable_parameters = params
    if opt is not None:
        k.actuators.active_optimizable_parameters = opt
    return k, pos, td, rd, params


def m_mul(A, B):
    return [[sum((A[i][k] * B[k][j] for k in range(1, len(B))), A[i][0] * B[0][j]) for j in range(len(B[0]))] for i in range(len(A))]


def m_apply(A, v):
    return [dot(r, v) for r in A]


def R_e(b, a):
    c, s = b.cos(a), b.sin(a)
    return [[1.0, 0.0, 0.0, 0.0], [0.0, c, 0.0 - s, 0.0], [0.0, s, c, 0.0], [0.0, 0.0, 0.0, 1.0]]


def R_n(b, a):
    """About north, turning east towards up (the toolkit's convention)."""
    c, s = b.cos(a), b.sin(a)
    return [[c, 0.0, 0.0 - s, 0.0], [0.0, 1.0, 0.0, 0.0], [s, 0.0, c, 0.0], [0.0, 0.0, 0.0, 1.0]]


def R_u(b, a):
    c, s = b.cos(a), b.sin(a)
    return [[c, 0.0 - s, 0.0, 0.0], [s, c, 0.0, 0.0], [0.0, 0.0, 1.0, 0.0], [0.0, 0.0, 0.0, 1.0]]


def Tr(v):
    return [[1.0, 0.0, 0.0, v[0]], [0.0, 1.0, 0.0, v[1]], [0.0, 0.0, 1.0, v[2]], [0.0, 0.0, 0.0, 1.0]]
