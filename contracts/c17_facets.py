"""C17: evaluation grids, ideal facets, surface updates."""
from types import SimpleNamespace

from common import has_shape
from dv.contract import contract

UT = "nurbs.utils"


@contract("C17", "evaluation points form an even grid strictly inside the facet")
def grid(b):
    E, N = b.dim("E", 1, 5), b.dim("N", 1, 5)
    eps = b.choice("epsilon", [None, 1e-3])
    args = {} if eps is None else {"epsilon": eps}
    k = 1e-7 if eps is None else eps
    g = b.mod(UT).create_nurbs_evaluation_grid(b.stack(b.tensor0(E, "int64"), b.tensor0(N, "int64")), **args)
    has_shape(b, "one point per grid cell", g, E * N, 2)

    def one(i, j):
        x, y = b.el(g, i * N + j, 0), b.el(g, i * N + j, 1)
        for name, v, t, n in (("east", x, i, E), ("north", y, j, N)):
            b.prove(f"{name}: strictly inside", b.and_(b.lt(0.0, v), b.lt(v, 1.0)))
            b.prove(f"{name}: evenly spaced from edge to edge", b.implies(b.lt(1, n), b.eq((v - k) * b.toreal(n - 1), b.toreal(t) * (1 - 2 * k))))
        return True

    b.prove_all("grid point", (E, N), one)


@contract("C17", "ideal facets are flat, even and as large as their canting vectors say")
def planar(b):
    F, U, V = b.dim("F"), b.int("U", 2, 6), b.int("V", 2, 6)
    cant = b.reals("cant", (F, 2, 4), -2.0, 2.0)
    cp = b.mod(UT).create_planar_nurbs_control_points(b.stack(b.tensor0(U, "int64"), b.tensor0(V, "int64")), cant)
    has_shape(b, "one grid per facet", cp, F, U, V, 3)
    size = lambda f, d: b.sqrt(sum((b.el(cant, f, d, c) * b.el(cant, f, d, c) for c in range(1, 4)), b.el(cant, f, d, 0) * b.el(cant, f, d, 0)))

    def one(f, u, v):
        for name, c, i, n in (("width", 0, u, U), ("height", 1, v, V)):
            s = size(f, c)
            b.prove(f"{name}: from edge to edge in even steps", b.eq((b.el(cp, f, u, v, c) + s) * b.toreal(n - 1), 2.0 * s * b.toreal(i)))
        return b.eq(b.el(cp, f, u, v, 2), 0.0)

    b.prove_all("flat", (F, U, V), one)


@contract("C17", "updating surfaces evaluates each group's own control points, canting and facet positions")
def update(b):
    k = b.choice("points", [2, 3])
    groups, seen = [], []
    for g in range(2):
        n, F = b.dim(f"n{g}"), b.dim(f"F{g}")
        U, V = b.int(f"U{g}", 4, 6), b.int(f"V{g}", 4, 6)
        groups.append(SimpleNamespace(
            number_of_heliostats=n, number_of_facets_per_heliostat=F, nurbs_degrees=b.const([2, 2], dtype="int64"),
            nurbs_control_points=b.reals(f"cp{g}", (n, F, U, V, 3), -2.0, 2.0), canting=b.with_fourth(b.reals(f"cant{g}", (n, F, 2, 3), 0.3, 2.0), 0.0),
            facet_translations=b.with_fourth(b.reals(f"move{g}", (n, F, 3)), 0.0),
            surface_points=b.reals(f"p{g}", (n, F * (k * k), 4)), surface_normals=b.reals(f"q{g}", (n, F * (k * k), 4))))
    HF = b.mod("field.heliostat_field")
    field = HF.HeliostatField.__new__(HF.HeliostatField)
    field.heliostat_groups = groups
    want = {}
    real = b.mod("nurbs.surfaces").NURBSSurfaces
    grids = b.mod(UT).create_nurbs_evaluation_grid(b.const([k, k], dtype="int64"))

    class Recorder:
        """NURBS surfaces as their contract: some points and normals that depend on the arguments."""

        def __init__(self, degrees, control_points, uniform=True, device=None):
            self.args = (degrees, control_points)

        def calculate_surface_points_and_normals(self, evaluation_points, canting, facet_translations, device=None):
            S, F, P, _ = evaluation_points.shape
            out = (b.fresh_reals("pts", (S, F, P, 4)), b.fresh_reals("nrm", (S, F, P, 4)))
            seen.append(self.args + (evaluation_points, canting, facet_translations) + out)
            return out

    b.stub("field.heliostat_field", "NURBSSurfaces", Recorder)
    for i, g in enumerate(groups):
        if not b.symbolic:
            s = real(degrees=g.nurbs_degrees, control_points=g.nurbs_control_points)
            ev = grids[None, None].expand(g.number_of_heliostats, g.number_of_facets_per_heliostat, -1, -1)
            want[i] = s.calculate_surface_points_and_normals(ev, g.canting, g.facet_translations)
    field.update_surfaces()
    for i, g in enumerate(groups):
        n, F = g.number_of_heliostats, g.number_of_facets_per_heliostat
        if b.symbolic:
            b.prove("one evaluation per group", len(seen) == 2)
            deg, cp, ev, cant, move, p, q = seen[i]
            b.prove("own degrees, canting and facet positions", b.lit(deg is g.nurbs_degrees and cant is g.canting and move is g.facet_translations))
            b.prove_all("own control points", b.shape(g.nurbs_control_points), lambda *x: b.eq(b.el(cp, *x), b.el(g.nurbs_control_points, *x)))
            has_shape(b, "evaluation points", ev, n, F, k * k, 2)
            b.prove_all("the full grid on every facet", (n, F, k * k, 2), lambda h, f, j, c: b.eq(b.el(ev, h, f, j, c), b.el(grids, j, c)))
            want[i] = (p, q)
        p, q = want[i]
        for name, got, w in (("points", g.surface_points, p), ("normals", g.surface_normals, q)):
            has_shape(b, name, got, n, F * (k * k), 4)
            b.prove_all(f"{name} of facet after facet", (n, F, k * k, 4), lambda h, f, j, c: b.eq(b.el(got, h, f * (k * k) + j, c), b.el(w, h, f, j, c)))
