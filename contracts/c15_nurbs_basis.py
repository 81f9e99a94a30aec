"""C15: B-spline basis functions and their derivatives."""
from dv.contract import contract

SURF = "nurbs.surfaces"


def spline(b, p):
    """A surface object with arbitrary knots, points and the spans they lie in."""
    S, F, P = b.dim("S"), b.dim("F"), b.dim("P")
    n = p + b.int("more", 1, 4)
    cls = b.mod(SURF).NURBSSurfaces
    s = cls.__new__(cls)
    b.torch.nn.Module.__init__(s)
    s.degrees, s.number_of_surfaces, s.number_of_facets_per_surface = b.const([p, p], dtype="int64"), S, F
    step = b.reals("step", (S, F, n + p + 1), 0.05, 0.3)
    kv = b.reals("kv", (S, F, n + p + 1)) if b.symbolic else step.cumsum(-1)
    b.assume_all((S, F, n + p), lambda a, f, i: b.le(b.el(kv, a, f, i), b.el(kv, a, f, i + 1)))
    sp = b.ints("sp", (S, F, P), p, n)
    ev = b.reals("ev", (S, F, P, 2), 0.0, 1.0)
    if not b.symbolic:
        lo, hi = kv.gather(2, sp), kv.gather(2, sp + 1)
        ev = lo[..., None] + (hi - lo)[..., None] * (ev * 0.98 + 0.01)
    k = lambda a, f, j: b.el(kv, a, f, j)
    b.assume_all((S, F, P, 2), lambda a, f, i, d: b.and_(b.le(k(a, f, b.el(sp, a, f, i)), b.el(ev, a, f, i, d)), b.lt(b.el(ev, a, f, i, d), k(a, f, b.el(sp, a, f, i) + 1))))
    return S, F, P, kv, sp, ev, s


def basis_contract(p):
    @contract("C15", f"basis functions of degree {p} satisfy the Cox-de Boor recursion and its derivative formula")
    def basis(b):
        S, F, P, kv, sp, ev, s = spline(b, p)
        for d in (0, 1):
            out = s.basis_functions_and_derivatives(d, ev, kv, sp, 1)
            b.prove("value and first derivative", len(out) == 2 and all(len(x) == p + 1 for x in out))

            def one(a, f, i):
                u, j = b.el(ev, a, f, i, d), b.el(sp, a, f, i)
                t = lambda m: b.el(kv, a, f, m)
                got = [b.el(out[0][r], a, f, i) for r in range(p + 1)]
                der = [b.el(out[1][r], a, f, i) for r in range(p + 1)]
                N = table(b, u, t, j, p)
                for r in range(p + 1):
                    b.prove(f"value {r}", b.eq(got[r], N[p][r]))
                    lo = N[p - 1][r - 1] / (t(j + r) - t(j - p + r)) if r > 0 else 0.0
                    hi = N[p - 1][r] / (t(j + r + 1) - t(j - p + r + 1)) if r < p else 0.0
                    b.prove(f"derivative {r}", b.eq(der[r], p * (lo - hi)))
                return True

            b.prove_all("points", (S, F, P), one)


def table(b, u, t, s, p):
    """N[q][r]: value of basis function s-q+r of degree q at u."""
    N = [[1.0]]
    for q in range(1, p + 1):
        row = []
        for r in range(q + 1):
            j = s - q + r
            v = 0.0
            if r > 0:
                v = v + (u - t(j)) / (t(j + q) - t(j)) * N[q - 1][r - 1]
            if r < q:
                v = v + (t(j + q + 1) - u) / (t(j + q + 1) - t(j + 1)) * N[q - 1][r]
            row.append(v)
        N.append(row)
    return N


def knots_around(b, p):
    """Knots t[0..2p+1] with u in the middle span [t[p], t[p+1])."""
    u = b.real("u", 0.0, 1.0)
    gap = [b.real(f"gap{m}", 0.0, 1.0) for m in range(2 * p)]
    left, right = b.real("left", 0.0, 1.0), b.real("right", 0.05, 1.0)
    t = [None] * (2 * p + 2)
    t[p], t[p + 1] = u - left, u + right
    for m in range(p):
        t[p - 1 - m] = t[p - m] - gap[m]
        t[p + 2 + m] = t[p + 1 + m] + gap[p + m]
    return u, t


def row_contract(q):
    @contract("C15", f"the Cox-de Boor step to degree {q} keeps basis functions non-negative with sum one")
    def row(b):
        u, t = knots_around(b, q)
        N = [b.real(f"N{r}", 0.0, 1.0) for r in range(q)]
        M, L = [], []
        # entry r of row q is basis function s - q + r, with s = q
        for r in range(q + 1):
            v, d = 0.0, 0.0
            if r > 0:
                b.lemma("support is not empty", b.lt(0.0, t[r + q] - t[r]))
                v = v + (u - t[r]) / (t[r + q] - t[r]) * N[r - 1]
                d = d + N[r - 1] / (t[r + q] - t[r])
            if r < q:
                b.lemma("support is not empty", b.lt(0.0, t[r + q + 1] - t[r + 1]))
                v = v + (t[r + q + 1] - u) / (t[r + q + 1] - t[r + 1]) * N[r]
                d = d - N[r] / (t[r + q + 1] - t[r + 1])
            M.append(v)
            L.append(q * d)
        b.prove("the sum does not change", b.eq(sum(M), sum(N)))
        b.prove("derivatives cancel", b.eq(sum(L), 0.0))
        for r in range(q + 1):
            b.prove(f"entry {r} is not negative", b.le(0.0, M[r]))


def step(u, t, q, c, N):
    """Row q of the recursion from row q-1, c being the span index."""
    M = []
    for r in range(q + 1):
        j = c - q + r
        v = 0.0
        if r > 0:
            v = v + (u - t[j]) / (t[j + q] - t[j]) * N[r - 1]
        if r < q:
            v = v + (t[j + q + 1] - u) / (t[j + q + 1] - t[j + 1]) * N[r]
        M.append(v)
    return M


def slope(t, q, c, N):
    """The derivative formula for row q."""
    out = []
    for r in range(q + 1):
        j = c - q + r
        lo = N[r - 1] / (t[j + q] - t[j]) if r > 0 else 0.0
        hi = N[r] / (t[j + q + 1] - t[j + 1]) if r < q else 0.0
        out.append(q * (lo - hi))
    return out


def derivative_contract(q):
    @contract("C15", f"the derivative formula for degree {q} is the derivative of the Cox-de Boor step")
    def derivative(b):
        u, t = knots_around(b, q)
        N0 = [b.real(f"N{r}", 0.0, 1.0) for r in range(q - 1)]
        for d in (q - 1, q):
            for r in range(d):
                b.lemma("support is not empty", b.lt(0.0, t[q - d + r + 1 + d] - t[q - d + r + 1]))
        N1 = step(u, t, q - 1, q, N0) if q > 1 else [1.0]
        D1 = slope(t, q - 1, q, N0) if q > 1 else [0.0]
        want = slope(t, q, q, N1)
        for r in range(q + 1):
            j = r
            v = 0.0
            if r > 0:
                v = v + (N1[r - 1] + (u - t[j]) * D1[r - 1]) / (t[j + q] - t[j])
            if r < q:
                v = v + ((t[j + q + 1] - u) * D1[r] - N1[r]) / (t[j + q + 1] - t[j + 1])
            b.prove(f"entry {r}", b.eq(want[r], v))


for _p in (1, 2, 3):
    basis_contract(_p)
    derivative_contract(_p)
for _p in (1, 2, 3, 4, 5):
    row_contract(_p)
