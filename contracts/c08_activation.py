"""C08: activation copies heliostat data row by row, alignment moves surfaces rigidly."""
from common import dot, has_shape
from dv.contract import contract


def group(b, n, kind="ideal", facets=2):
    """A real group of n rigid-body heliostats with arbitrary data."""
    G = b.mod("field.heliostat_group_rigid_body").HeliostatGroupRigidBody
    F = facets
    P = b.dim("points")
    sp = b.with_fourth(b.reals("sp", (n, P, 3)), 1.0)
    sn = b.unit_vectors("sn", (n, P), homogeneous=0.0)
    canting, ft = b.reals("cant", (n, F, 2, 4)), b.reals("ft", (n, F, 4))
    cp = b.reals("cp", (n, F, 4, 4, 3))
    pos = b.with_fourth(b.reals("pos", (n, 3), -50, 50), 1.0)
    act = b.reals("act", (n, 4 if kind == "ideal" else 7, 2), 0.1, 1.0)
    act[:, 0] = 1.0 if kind == "ideal" else 0.0
    opt = b.const([]) if kind == "ideal" else b.reals("opt", (n, 2, 2), -1, 1)
    args = dict(names=b.names(n), positions=pos, surface_points=sp, surface_normals=sn, canting=canting, facet_translations=ft,
                initial_orientations=b.with_fourth(b.reals("ori", (n, 3)), 0.0), nurbs_control_points=cp, nurbs_degrees=b.const([3, 3]),
                kinematics_translation_deviation_parameters=b.reals("td", (n, 9), -0.5, 0.5), kinematics_rotation_deviation_parameters=b.reals("rd", (n, 4), -0.2, 0.2),
                actuator_parameters_non_optimizable=act, actuator_parameters_optimizable=opt, device=None)
    return G(**args)


def pairs(g):
    k, a = g.kinematics, g.kinematics.actuators
    out = [("surface points", g.surface_points, g.active_surface_points), ("surface normals", g.surface_normals, g.active_surface_normals), ("canting", g.canting, g.active_canting),
           ("facet translations", g.facet_translations, g.active_facet_translations), ("control points", g.nurbs_control_points, g.active_nurbs_control_points),
           ("positions", k.heliostat_positions, k.active_heliostat_positions), ("orientations", k.initial_orientations, k.active_initial_orientations),
           ("translation deviations", k.translation_deviation_parameters, k.active_translation_deviation_parameters),
           ("rotation deviations", k.rotation_deviation_parameters, k.active_rotation_deviation_parameters), ("motor positions", k.motor_positions, k.active_motor_positions),
           ("actuator geometry", a.non_optimizable_parameters, a.active_non_optimizable_parameters)]
    if len(a.optimizable_parameters.shape) > 1:
        out.append(("actuator initial state", a.optimizable_parameters, a.active_optimizable_parameters))
    return out


def activated(b, g, n, mask):
    tot = b.sum(n, lambda i: b.el(mask, i))
    b.prove("number of active heliostats", b.eq(g.number_of_active_heliostats, tot))
    b.prove("number of active heliostats (kinematics)", b.eq(g.kinematics.number_of_active_heliostats, tot))
    b.prove_all("mask is stored", (n,), lambda i: b.eq(b.el(g.active_heliostats_mask, i), b.el(mask, i)))
    for name, base, act in pairs(g):
        rest = b.shape(base)[1:]
        has_shape(b, name, act, tot, *rest)
        # heliostat h occupies mask[h] consecutive rows, in heliostat order
        b.replicas(n, mask, name, lambda h, row: b.prove_all(name, rest, lambda *e: b.eq(b.el(act, row, *e), b.el(base, h, *e))))


@contract("C08", "activation repeats every heliostat's data as often as its mask says (ideal actuators)")
def activate(b):
    n = b.dim("n")
    g = group(b, n)
    mask = b.ints("mask", (n,), 0, 4)
    g.activate_heliostats(mask)
    activated(b, g, n, mask)


@contract("C08", "activation repeats every heliostat's data as often as its mask says (linear actuators)")
def activate_linear(b):
    n = b.dim("n")
    g = group(b, n, "linear")
    mask = b.ints("mask", (n,), 0, 4)
    g.activate_heliostats(mask)
    activated(b, g, n, mask)


@contract("C08", "a later activation forgets the earlier one (linear actuators)")
def reactivate(b):
    n = b.dim("n")
    g = group(b, n, "linear")
    first, mask = b.ints("first", (n,), 0, 3), b.ints("mask", (n,), 0, 4)
    g.activate_heliostats(first)
    g.activate_heliostats(mask)
    activated(b, g, n, mask)


@contract("C08", "activation without a mask activates every heliostat once")
def activate_all(b):
    n = b.dim("n")
    g = group(b, n)
    g.activate_heliostats()
    b.prove("number of active heliostats", b.eq(g.number_of_active_heliostats, n))
    for name, base, act in pairs(g):
        rest = b.shape(base)[1:]
        has_shape(b, name, act, n, *rest)
        b.prove_all(name, (n,) + tuple(rest), lambda *e: b.eq(b.el(act, *e), b.el(base, *e)))


def aligned(b, g, n, O, mask):
    """Active surfaces are the resting surfaces moved by the 4x4 matrices O (one per active row)."""
    P = b.shape(g.surface_points)[1]

    def each(h, row):
        for base, act in ((g.surface_points, g.active_surface_points), (g.surface_normals, g.active_surface_normals)):
            b.prove_all("moved by the orientation", (P, 4), lambda p, e: b.eq(b.el(act, row, p, e), dot([b.el(O, row, e, k) for k in range(4)], [b.el(base, h, p, k) for k in range(4)])))

    b.replicas(n, mask, "surface", each)


def group_orientations(b, k, m):
    return k.motor_positions_to_orientations(m)


@contract("C08", "alignment moves every active surface by its own orientation", tol=1e-5)
def align(b):
    n = b.dim("n")
    g = group(b, n)
    mask = b.ints("mask", (n,), 0, 3)
    g.activate_heliostats(mask)
    if not b.symbolic and int(mask.sum()) == 0:
        b.assume(False)
    m = b.reals("m", (g.number_of_active_heliostats, 2), -3, 3)
    O = b.reals("O", (g.number_of_active_heliostats, 4, 4)) if b.symbolic else group_orientations(b, g.kinematics, m)
    if b.symbolic:  # the kinematics is verified separately: any matrix
        g.kinematics.motor_positions_to_orientations = lambda motor_positions, device=None: O
    g.align_surfaces_with_motor_positions(motor_positions=m, active_heliostats_mask=mask)
    aligned(b, g, n, O, mask)
    # a new activation starts again from the resting surfaces
    mask2 = b.ints("mask2", (n,), 0, 3)
    g.activate_heliostats(mask2)
    activated(b, g, n, mask2)


@contract("C08", "alignment by incident directions moves every active surface by its own orientation", tol=1e-5)
def align_rays(b):
    n = b.dim("n")
    g = group(b, n)
    mask = b.ints("mask", (n,), 0, 3)
    g.activate_heliostats(mask)
    if not b.symbolic and int(mask.sum()) == 0:
        b.assume(False)
    N = g.number_of_active_heliostats
    d, aim = b.unit_vectors("d", (N,), homogeneous=0.0), b.with_fourth(b.reals("aim", (N, 3), 100, 200), 1.0)
    O = b.reals("O", (N, 4, 4)) if b.symbolic else g.kinematics.incident_ray_directions_to_orientations(incident_ray_directions=d, aim_points=aim)
    seen = {}

    def fake(incident_ray_directions, aim_points, device=None, **k):
        seen["d"], seen["aim"] = incident_ray_directions, aim_points
        return O

    if b.symbolic:
        g.kinematics.incident_ray_directions_to_orientations = fake
    g.align_surfaces_with_incident_ray_directions(aim_points=aim, incident_ray_directions=d, active_heliostats_mask=mask)
    aligned(b, g, n, O, mask)
    if b.symbolic:
        b.prove_all("directions are passed on", (N, 4), lambda i, e: b.eq(b.el(seen["d"], i, e), b.el(d, i, e)))
        b.prove_all("aim points are passed on", (N, 4), lambda i, e: b.eq(b.el(seen["aim"], i, e), b.el(aim, i, e)))


@contract("C08", "alignment refuses heliostats that were not activated")
def refuse(b):
    n = b.dim("n")
    g = group(b, n)
    mask, other = b.ints("mask", (n,), 0, 3), b.ints("other", (n,), 0, 3)
    g.activate_heliostats(mask)
    if b.symbolic:
        g.kinematics.motor_positions_to_orientations = lambda motor_positions, device=None: b.torch.zeros((g.number_of_active_heliostats, 4, 4))
    out, val = b.attempt(lambda: g.align_surfaces_with_motor_positions(motor_positions=b.torch.zeros((g.number_of_active_heliostats, 2)), active_heliostats_mask=other))
    same_mask = b.forall((n,), lambda i: b.eq(b.el(mask, i), b.el(other, i)))
    b.prove("accepted only with the activated mask", b.iff(b.lit(out == "return"), same_mask))
