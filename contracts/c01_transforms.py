"""C01: rotations and translations are exact rigid motions."""
from common import has_shape, rigid, same
from dv.contract import contract

TR = "geometry.transforms"


def rot(b, axis, a):
    s, c = b.sin(a), b.cos(a)
    return {
        "e": [[1, 0, 0, 0], [0, c, -s, 0], [0, s, c, 0], [0, 0, 0, 1]],
        "n": [[c, 0, -s, 0], [0, 1, 0, 0], [s, 0, c, 0], [0, 0, 0, 1]],
        "u": [[c, -s, 0, 0], [s, c, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]],
    }[axis]


def mul(A, B):
    out = []
    for i in range(4):
        row = []
        for j in range(4):
            r = 0.0
            for k in range(4):
                r = r + A[i][k] * B[k][j]
            row.append(r)
        out.append(row)
    return out


for axis in "enu":

    @contract("C01", f"rotate_{axis}: rotation by exactly the angle")
    def one(b, axis=axis):
        H = b.dim("H")
        a = b.reals("a", (H,))
        M = getattr(b.mod(TR), f"rotate_{axis}")(a)
        has_shape(b, "shape", M, H, 4, 4)

        def each(h):
            same(b, f"rotation about {axis}", M, (h,), rot(b, axis, b.el(a, h)))
            rigid(b, f"rotate_{axis}", M, (h,))
            return True

        b.prove_all("each heliostat", (H,), each)


@contract("C01", "rotate_distortions: up rotation followed by east rotation")
def dist(b):
    H, R, P = b.dim("H"), b.dim("R"), b.dim("P")
    e, u = b.reals("e", (H, R, P)), b.reals("u", (H, R, P))
    M = b.mod(TR).rotate_distortions(e, u)
    has_shape(b, "shape", M, H, R, P, 4, 4)

    def each(h, r, p):
        same(b, "R_e(e) R_u(u)", M, (h, r, p), mul(rot(b, "e", b.el(e, h, r, p)), rot(b, "u", b.el(u, h, r, p))))
        rigid(b, "rotate_distortions", M, (h, r, p))
        return True

    b.prove_all("each ray", (H, R, P), each)


@contract("C01", "rotate_distortions: mismatched angle tensors are refused")
def dist_err(b):
    H, R, P = b.dim("H"), b.dim("R"), b.dim("P")
    Q = b.dim("Q")
    which = b.choice("which", [0, 1, 2])
    e = b.reals("e", (H, R, P))
    s = [H, R, P]
    b.assume(b.ne(Q, s[which]))
    s[which] = Q
    u = b.reals("u", tuple(s))
    k, v = b.attempt(lambda: b.mod(TR).rotate_distortions(e, u))
    b.prove("raises ValueError", k == "raise" and isinstance(v, ValueError))


@contract("C01", "translate_enu: pure translation by exactly the offsets")
def tra(b):
    H = b.dim("H")
    e, n, u = (b.reals(k, (H,)) for k in ("e", "n", "u"))
    M = b.mod(TR).translate_enu(e, n, u)
    has_shape(b, "shape", M, H, 4, 4)

    def each(h):
        same(b, "translation", M, (h,), [[1, 0, 0, b.el(e, h)], [0, 1, 0, b.el(n, h)], [0, 0, 1, b.el(u, h)], [0, 0, 0, 1]])
        return True

    b.prove_all("each heliostat", (H,), each)


@contract("C01", "translate_enu: mismatched offsets are refused")
def tra_err(b):
    H, G = b.dim("H"), b.dim("G")
    b.assume(b.ne(H, G))
    which = b.choice("which", [0, 1, 2])
    s = [H, H, H]
    s[which] = G
    e, n, u = (b.reals(k, (d,)) for k, d in zip("enu", s))
    k, v = b.attempt(lambda: b.mod(TR).translate_enu(e, n, u))
    b.prove("raises ValueError", k == "raise" and isinstance(v, ValueError))


@contract("C01", "transforms preserve lengths and compose")
def comp(b):
    """A chain as used by the kinematics: lengths and angles of directions survive, points move rigidly."""
    H = b.dim("H")
    t = b.mod(TR)
    a = [b.reals(f"a{k}", (H,)) for k in range(6)]
    M = t.translate_enu(a[0], a[1], a[2]) @ t.rotate_n(a[3]) @ t.rotate_u(a[4]) @ t.rotate_e(a[5])
    b.prove_all("chain rigid", (H,), lambda h: (rigid(b, "chain", M, (h,)), True)[1])
