"""C16: surface points and normals of NURBS surfaces."""
from common import cross, has_shape, vec
from dv.contract import contract

SURF, TR = "nurbs.surfaces", "geometry.transforms"


def surface(b, p, q):
    """A surface whose spans and basis functions satisfy the contracts proved for C14 and C15."""
    S, F, P = b.dim("S"), b.dim("F"), b.dim("P")
    nu, nv = p + b.int("more_u", 1, 3), q + b.int("more_v", 1, 3)
    cp = b.reals("cp", (S, F, nu, nv, 3), -2.0, 2.0)
    s = b.mod(SURF).NURBSSurfaces(degrees=b.const([p, q], dtype="int64"), control_points=cp)
    ev = b.reals("ev", (S, F, P, 2), 0.01, 0.99)
    kv = {0: s.knot_vectors_u, 1: s.knot_vectors_v}
    deg = {0: p, 1: q}
    spans, basis = {}, {}
    if b.symbolic:
        spans = {0: b.ints("su", (S, F, P), p, nu), 1: b.ints("sv", (S, F, P), q, nv)}
        for d in (0, 1):
            basis[d] = [[b.fresh_reals("basis", (S, F, P)) for _ in range(deg[d] + 1)] for _ in range(2)]
            b.assume_all((S, F, P), lambda a, f, i: b.and_(*[b.le(0.0, b.el(x, a, f, i)) for x in basis[d][0]]))

        def find_spans(direction, evaluation_points, knot_vectors, device=None):
            b.prove("spans are looked up in the knots of their own direction", b.lit(knot_vectors is kv[direction] and evaluation_points is ev))
            return spans[direction]

        def functions(direction, evaluation_points, knot_vectors, spans, nth_derivative=1, device=None):
            b.prove("basis functions belong to the knots, points and spans of their own direction", b.lit(knot_vectors is kv[direction] and evaluation_points is ev and spans is sp[direction] and nth_derivative == 1))
            return [list(x) for x in basis[direction]]

        sp = spans
        s.find_spans, s.basis_functions_and_derivatives = find_spans, functions
    else:
        for d in (0, 1):
            spans[d] = s.find_spans(d, ev, kv[d])
            basis[d] = s.basis_functions_and_derivatives(d, ev, kv[d], spans[d], 1)
    return S, F, P, nu, nv, cp, s, ev, spans, basis


def combine(b, p, q, spans, wu, wv, cp, a, f, i, c):
    """Sum of the control points around the point, weighted with the given basis values."""
    t = 0.0
    for k in range(q + 1):
        row = 0.0
        for r in range(p + 1):
            row = row + b.el(wu[r], a, f, i) * b.el(cp, a, f, b.el(spans[0], a, f, i) - p + r, b.el(spans[1], a, f, i) - q + k, c)
        t = t + b.el(wv[k], a, f, i) * row
    return t


def sums_to_one(b, p, q, basis, a, f, i):
    u, v = [b.el(x, a, f, i) for x in basis[0][0]], [b.el(x, a, f, i) for x in basis[1][0]]
    return b.and_(b.eq(sum(u[1:], u[0]), 1.0), b.eq(sum(v[1:], v[0]), 1.0))


def points_contract(p, q):
    @contract("C16", f"points are the weighted control points and normals are perpendicular to the tangents (degrees {p} and {q})")
    def points(b):
        S, F, P, nu, nv, cp, s, ev, spans, basis = surface(b, p, q)
        # solved for the first basis function: the sum is one
        if b.symbolic:
            for d in (0, 1):
                rest = basis[d][0][1:]
                first = 1.0 - sum(rest[1:], rest[0])
                b.assume_all((S, F, P), lambda a, f, i: b.le(0.0, b.el(first, a, f, i)))
                basis[d][0][0] = first
        pts, nrm = s.calculate_surface_points_and_normals(ev, None, None)
        has_shape(b, "points", pts, S, F, P, 4)
        has_shape(b, "normals", nrm, S, F, P, 4)

        def one(a, f, i):
            for c in range(3):
                b.prove("point", b.eq(b.el(pts, a, f, i, c), combine(b, p, q, spans, basis[0][0], basis[1][0], cp, a, f, i, c)))
            b.prove("points are points", b.eq(b.el(pts, a, f, i, 3), 1.0))
            b.prove("normals are directions", b.eq(b.el(nrm, a, f, i, 3), 0.0))
            du = [combine(b, p, q, spans, basis[0][1], basis[1][0], cp, a, f, i, c) for c in range(3)]
            dv = [combine(b, p, q, spans, basis[0][0], basis[1][1], cp, a, f, i, c) for c in range(3)]
            n = cross(du, dv)
            size = b.sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2])
            for c in range(3):
                b.prove("normal", b.implies(b.lt(1e-6, size), b.eq(b.el(nrm, a, f, i, c) * size, n[c])))
            return True

        b.prove_all("points", (S, F, P), one)


@contract("C16", "canting turns the flat facet and its normals about the facet centre and then moves it to its place")
def canted(b):
    S, F, P, nu, nv, cp, s, ev, spans, basis = surface(b, 1, 1)
    cant, move = b.reals("cant", (S, F, 2, 4)), b.with_fourth(b.reals("move", (S, F, 3)), 0.0)
    t = b.mod(TR)
    p0, n0 = s.calculate_surface_points_and_normals(ev, None, None)
    pts, nrm = s(ev, cant, move)
    has_shape(b, "points", pts, S, F, P, 4)
    has_shape(b, "normals", nrm, S, F, P, 4)
    want_p, want_n = t.perform_canting(cant, p0), t.perform_canting(cant, n0)
    b.prove_all("points", (S, F, P, 4), lambda a, f, i, c: b.eq(b.el(pts, a, f, i, c), b.el(want_p, a, f, i, c) + b.el(move, a, f, c)))
    b.prove_all("normals", (S, F, P, 4), lambda a, f, i, c: b.eq(b.el(nrm, a, f, i, c), b.el(want_n, a, f, i, c)))


@contract("C16", "points stay within the range of their control points")
def hull(b):
    p, q = b.choice("p", [1, 2, 3]), b.choice("q", [1, 2, 3])
    u, v = [b.real(f"u{r}", 0.0, 1.0) for r in range(p + 1)], [b.real(f"v{k}", 0.0, 1.0) for k in range(q + 1)]
    # weights sum to one
    u[0], v[0] = 1.0 - sum(u[1:]), 1.0 - sum(v[1:])
    b.assume(b.and_(b.le(0.0, u[0]), b.le(0.0, v[0])))
    top = b.real("top", 1.0, 2.0)
    below = [[b.real(f"d{r}{k}", 0.0, 1.0) for k in range(q + 1)] for r in range(p + 1)]
    x = 0.0
    for k in range(q + 1):
        row = 0.0
        for r in range(p + 1):
            row = row + u[r] * (top - below[r][k])
        x = x + v[k] * row
    slack = 0.0
    for k in range(q + 1):
        for r in range(p + 1):
            w = b.box(u[r] * v[k] * below[r][k])
            b.lemma("each control point pulls inwards", b.le(0.0, u[r] * v[k] * below[r][k]))
            slack = slack + w
    b.lemma("distance from the largest control point", b.eq(top - x, slack))
    b.prove("not above the largest control point", b.le(0.0, slack))


for _p, _q in ((1, 2), (2, 1), (2, 2)):
    points_contract(_p, _q)
