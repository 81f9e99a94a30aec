"""C21: splitting data and stopping."""
from common import has_shape
from dv.contract import contract

T = "optim.training"


@contract("C21", "every sample goes to training or testing, together with all of its data")
def split(b):
    n, k = b.dim("heliostats"), b.int("samples", 1, 6)
    H, W = b.dim("H", 1, 2), b.dim("W", 1, 2)
    act = b.ints("act", (n,), 0, 2)
    A = act.sum().item()
    b.assume(b.le(1, A))
    b.sums_equal("active heliostats are those with samples", n, lambda h: b.ite(b.lt(0, b.el(act, h) * k), 1, 0), lambda h: b.el(act, h))
    mask = act * k
    N = A * k
    frac = b.real("frac", 0.0, 0.9)
    data = {"flux_measured": b.reals("flux", (N, H, W)), "focal_spots_measured": b.reals("focal", (N, 4)), "incident_ray_directions": b.reals("inc", (N, 4)),
            "motor_positions": b.reals("mot", (N, 2)), "target_area_indices": b.ints("tgt", (N,), 0, 5)}
    r = b.mod(T).train_test_split(active_heliostats_mask=mask, test_fraction=frac, **data)
    tr, te = r.number_of_train_samples, r.number_of_test_samples
    b.prove("sizes per heliostat", b.and_(b.eq(r.number_of_samples_per_heliostat, k), b.eq(tr + te, k), b.le(1, te), b.le(0, tr)))
    b.prove("size of the test set", b.or_(b.eq(te, 1), b.and_(b.le(b.toreal(te), b.toreal(k) * frac), b.lt(b.toreal(k) * frac, b.toreal(te + 1)))))
    has_shape(b, "training samples", r.train_indices, A * tr)
    has_shape(b, "test samples", r.test_indices, A * te)
    b.prove_all("training samples come first", (A, tr), lambda h, s: b.eq(b.el(r.train_indices, h * tr + s), h * k + s))
    b.prove_all("test samples come last", (A, te), lambda h, s: b.eq(b.el(r.test_indices, h * te + s), h * k + tr + s))

    def masks(h):
        a = b.el(act, h)
        return b.and_(b.eq(b.el(r.active_heliostats_mask_train, h), a * tr), b.eq(b.el(r.active_heliostats_mask_test, h), a * te))

    b.prove_all("masks count the samples of each set", (n,), masks)
    for nm, d in data.items():
        for part, idx, m in (("train", r.train_indices, tr), ("test", r.test_indices, te)):
            got = getattr(r, f"{nm}_{part}")
            tail = {"flux_measured": (H, W), "focal_spots_measured": (4,), "incident_ray_directions": (4,), "motor_positions": (2,), "target_area_indices": ()}[nm]
            has_shape(b, f"{nm} {part}", got, A * m, *tail)
            b.prove_all(f"{nm} {part}", (A, m, *tail), lambda h, s, *i: b.eq(b.el(got, h * m + s, *i), b.el(d, b.el(idx, h * m + s), *i)))


class Window:
    """The last `maxlen` of the appended values (the contract of collections.deque that is relied on)."""

    def __init__(self, maxlen):
        self.maxlen, self.n, self.at = maxlen, 0, None

    def append(self, x):
        b, full, old = self.b, self.b.known(self.b.le(self.maxlen, self.n)), self.at
        self.n = new = self.maxlen if full else self.n + 1
        self.at = lambda i: b.ite(b.lt(i, new - 1), old(i + (1 if full else 0)), x)

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        return self.at(self.n + i if isinstance(i, int) and i < 0 else i)


@contract("C21", "training stops after the stated number of consecutive windows without improvement")
def stopping(b):
    w, patience, t = b.int("window", 1, 4), b.int("patience", 1, 4), b.int("epoch", 0, 9)
    delta, eps = b.real("delta", 0.0, 0.3), b.real("eps", 1e-8, 1e-2)
    relative = b.choice("relative", [True, False])
    losses = b.reals("losses", (t + 1,), 0.1, 1.5)
    counter = b.int("counter", 0, 4)
    Window.b = b
    b.stub("optim.training", "deque", Window)
    es = b.mod(T).EarlyStopping(window_size=w, patience=patience, min_improvement=delta, relative=relative, eps=eps)
    b.prove("starts without history", b.and_(b.eq(es.counter, 0), b.eq(b.len(es.loss_history), 0)))
    full = b.known(b.le(w, t))
    kept = w if full else t
    b.fill(es.loss_history, kept, lambda i: b.el(losses, t - kept + i))
    es.counter = counter
    stop = es.step(b.el(losses, t))
    now = w if full else t + 1
    b.prove("keeps the last losses", b.eq(b.len(es.loss_history), now))
    b.prove_all("in order", (now,), lambda i: b.eq(es.loss_history[i], b.el(losses, t + 1 - now + i)))
    if b.known(b.lt(now, w)):
        b.prove("no decision before the window is full", b.and_(b.not_(stop), b.eq(es.counter, counter)))
        return
    first = b.el(losses, t + 1 - now)
    gain = first - b.el(losses, t)
    if relative:
        gain = gain / b.max(b.abs(first), eps)
    b.prove("an improving window resets the patience", b.implies(b.lt(delta, gain), b.eq(es.counter, 0)))
    b.prove("a window without improvement uses up patience", b.implies(b.le(gain, delta), b.eq(es.counter, counter + 1)))
    b.prove("stops when the patience is used up", b.iff(stop, b.le(patience, es.counter)))
