"""C07: actuator conversions between motor positions and joint angles."""
from common import has_shape
from dv.contract import contract


def linear(b, n, m=None):
    """Real linear actuators with arbitrary parameters (all heliostats active)."""
    A = b.mod("field.actuators_linear").LinearActuators
    p = b.reals("act", (n, 7, 2), 0.05, 2.0)
    p[:, 1] = b.toT(b.ints("clockwise", (n, 2), 0, 2))
    o = b.reals("opt", (n, 2, 2), -1.0, 1.0)
    if m is not None and not b.symbolic:
        # sample motor positions and initial strokes for which the triangle closes
        t, u = b.reals("t0", (n, 2), 0.1, 0.9), b.reals("t1", (n, 2), 0.1, 0.9)
        lo, w = (p[:, 5] - p[:, 6]).abs(), 2 * b.torch.minimum(p[:, 5], p[:, 6])
        o[:, 1] = lo + w * t
        m[:] = (lo + w * u - o[:, 1]) * p[:, 4]
    a = A(p, o, device=None)
    a.active_non_optimizable_parameters, a.active_optimizable_parameters = p, o
    sp = lambda x: b.torch.nn.functional.softplus(x, beta=100) + 1e-6
    return a, p, o, sp(p[:, 4]), sp(p[:, 5]), sp(p[:, 6]), sp(o[:, 1])


def unclamped(b, s, off, piv, i, j):
    """The stroke length (a tensor) lies strictly inside the range that the triangle allows."""
    x, o, p = b.el(s, i, j), b.el(off, i, j), b.el(piv, i, j)
    div = (o * o + p * p - x * x) / (2.0 * o * p)
    return b.and_(b.lt(b.abs(o - p) + 1e-6, x), b.lt(x, o + p - 1e-6), b.lt(div, 1.0 - 1e-6), b.lt(-1.0 + 1e-6, div), b.lt(0.0, o), b.lt(0.0, p))


@contract("C07", "ideal actuators turn motor positions into the same joint angles and back")
def ideal(b):
    n = b.dim("n")
    A = b.mod("field.actuators_ideal").IdealActuators
    a = A(b.reals("act", (n, 4, 2)), device=None)
    m = b.reals("m", (n, 2))
    x, y = a.motor_positions_to_angles(m), a.angles_to_motor_positions(m)
    z = a(m)
    for t in (x, y, z):
        has_shape(b, "shape", t, n, 2)
        b.prove_all("identity", (n, 2), lambda i, j: b.eq(b.el(t, i, j), b.el(m, i, j)))


@contract("C07", "linear actuators: converting to angles and back returns the motor position", timeout=60, tol=1e-4)
def roundtrip(b):
    n = b.dim("n")
    m = b.reals("m", (n, 2), -1.0, 1.0)
    a, p, o, inc, off, piv, s0 = linear(b, n, m)
    s = m / inc + s0
    b.assume_all((n, 2), lambda i, j: unclamped(b, s, off, piv, i, j))
    ang = a.motor_positions_to_angles(m)
    back = a.angles_to_motor_positions(ang)
    has_shape(b, "shape", ang, n, 2)
    has_shape(b, "shape", back, n, 2)
    b.prove_all("round trip", (n, 2), lambda i, j: b.eq(b.el(back, i, j), b.el(m, i, j)))


@contract("C07", "linear actuators: angles follow the law of cosines and the turning direction", timeout=60, tol=1e-4)
def cosines(b):
    n = b.dim("n")
    m = b.reals("m", (n, 2), -1.0, 1.0)
    a, p, o, inc, off, piv, s0 = linear(b, n, m)
    s = m / inc + s0
    b.assume_all((n, 2), lambda i, j: b.and_(unclamped(b, s, off, piv, i, j), unclamped(b, s0, off, piv, i, j)))
    ang = a.motor_positions_to_angles(m)

    def each(i, j):
        q, r = b.el(off, i, j), b.el(piv, i, j)
        opening = lambda t: b.fn("acos", (q * q + r * r - b.el(t, i, j) * b.el(t, i, j)) / (2.0 * q * r))
        turn = opening(s0) - opening(s)
        return b.eq(b.el(ang, i, j), b.ite(b.eq(b.el(p, i, 1, j), 1.0), b.el(o, i, 0, j) + turn, b.el(o, i, 0, j) - turn))

    b.prove_all("law of cosines", (n, 2), each)


@contract("C07", "linear actuators: the rest position has the initial angle")
def rest(b):
    n = b.dim("n")
    a, p, o, *_ = linear(b, n)
    ang = a(b.torch.zeros((n, 2)))
    b.prove_all("initial angle", (n, 2), lambda i, j: b.eq(b.el(ang, i, j), b.el(o, i, 0, j)))


@contract("C07", "linear actuators: the joint turns strictly monotonically with the motor", timeout=60)
def monotone(b):
    n = b.dim("n")
    m1 = b.reals("m1", (n, 2), -1.0, 1.0)
    a, p, o, inc, off, piv, s0 = linear(b, n, m1)
    m2 = m1 + b.reals("dm", (n, 2), 0.001, 0.05 if not b.symbolic else None)
    b.assume_all((n, 2), lambda i, j: b.and_(unclamped(b, m1 / inc + s0, off, piv, i, j), unclamped(b, m2 / inc + s0, off, piv, i, j)))
    x, y = a.motor_positions_to_angles(m1), a.motor_positions_to_angles(m2)

    def each(i, j):
        cw = b.eq(b.el(p, i, 1, j), 1.0)
        u, v = b.el(x, i, j), b.el(y, i, j)
        b.prove("clockwise", b.implies(cw, b.lt(v, u)))
        b.prove("counter-clockwise", b.implies(b.not_(cw), b.lt(u, v)))
        return True

    b.prove_all("monotone", (n, 2), each)
