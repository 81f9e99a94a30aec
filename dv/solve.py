"""Discharging obligations: simplifier, ring normaliser, z3 (nlsat / default), cvc5."""

from __future__ import annotations

import itertools
import time
from fractions import Fraction

import z3

from . import poly as P
from . import terms as T

STATS = {"queries": 0, "z3_s": 0.0, "ring_s": 0.0, "cvc5_s": 0.0}

DEFAULT_TIMEOUT = 20.0


class Result:
    __slots__ = ("status", "backend", "seconds", "model", "note")

    def __init__(self, status, backend, seconds=0.0, model=None, note=""):
        self.status, self.backend, self.seconds, self.model, self.note = status, backend, seconds, model, note

    def __repr__(self):
        return f"<{self.status} by {self.backend} {self.seconds:.2f}s {self.note}>"


# ---------------------------------------------------------------- axioms about atoms


def axioms_for(ts, extra_rounds=2):
    """Defining facts of the special atoms occurring in the given ground terms."""
    out = []
    done = set()
    frontier = list(ts)
    for _ in range(extra_rounds):
        new = []
        for u in T.subterms(frontier):
            if u.id in done:
                continue
            done.add(u.id)
            if contains_bv(u):
                continue
            new.extend(_axioms(u))
        if not new:
            break
        out.extend(new)
        frontier = new
    return out


_CBV: dict = {}


def contains_bv(u):
    """True when u has a bound variable that is not bound inside u."""
    return bool(_free_bv(u))


def _free_bv(u):
    r = _CBV.get(u.id)
    if r is not None:
        return r
    if u.op == "bv":
        r = frozenset([u])
    else:
        s = set()
        if u.op in T.BINDERS:
            s |= _free_bv(u.args[0])
            s |= _free_bv(u.args[2]) - {u.args[1]}
            for a in u.args[3:]:
                if isinstance(a, T.Term):
                    s |= _free_bv(a)
        else:
            for c in T.children(u):
                s |= _free_bv(c)
        r = frozenset(s)
    _CBV[u.id] = r
    return r


def _axioms(u):
    o = u.op
    le, lt, eq, add, mul, sub = T.le, T.lt, T.eq, T.add, T.mul, T.sub
    Z, ONE, PI = T.ZERO, T.ONE, T.PI
    imp = T.implies
    if o == "sqrt":
        a = u.args[0]
        return [le(Z, u), imp(le(Z, a), eq(mul(u, u), a)), imp(lt(Z, a), lt(Z, u))]
    if o == "inv":
        a = u.args[0]
        nz = T.not_(eq(a, Z))
        return [imp(nz, eq(mul(a, u), ONE)), imp(lt(Z, a), lt(Z, u)), imp(lt(a, Z), lt(u, Z))]
    if o in ("sin", "cos"):
        x = u.args[0]
        s, c = T.sin(x), T.cos(x)
        out = [eq(add(mul(s, s), mul(c, c)), ONE), le(u, ONE), le(T.rc(-1), u)]
        if x.op == "atan2":
            y_, x_ = x.args
            r = T.sqrt(add(mul(x_, x_), mul(y_, y_)))
            out += [eq(mul(r, c), x_), imp(lt(Z, r), eq(mul(r, s), y_))]
        if x.op == "atan":
            v = x.args[0]
            out += [lt(Z, c), eq(mul(c, v), s)]
        # sign facts on the principal branch
        hp = T.scale(PI, Fraction(1, 2))
        if o == "cos":
            out += [imp(T.and_(lt(T.neg(hp), x), lt(x, hp)), lt(Z, u)), imp(T.and_(le(T.neg(hp), x), le(x, hp)), le(Z, u)),
                    imp(T.and_(le(Z, x), le(x, hp)), T.and_(le(Z, u)))]
        else:
            out += [imp(T.and_(lt(Z, x), lt(x, PI)), lt(Z, u)), imp(T.and_(le(Z, x), le(x, PI)), le(Z, u)),
                    imp(T.and_(lt(T.neg(PI), x), lt(x, Z)), lt(u, Z)), imp(T.and_(le(T.neg(PI), x), le(x, Z)), le(u, Z))]
        return out
    if o == "acos":
        x = u.args[0]
        hp = T.scale(PI, Fraction(1, 2))
        return [le(Z, u), le(u, PI), imp(lt(x, ONE), lt(Z, u)), imp(lt(T.rc(-1), x), lt(u, PI)), imp(eq(x, ONE), eq(u, Z)), imp(eq(x, T.rc(-1)), eq(u, PI)),
                imp(lt(Z, x), lt(u, hp)), imp(lt(x, Z), lt(hp, u)), imp(eq(x, Z), eq(u, hp))]
    if o in ("asin", "atan"):
        hp = T.scale(PI, Fraction(1, 2))
        x = u.args[0]
        return [le(T.neg(hp), u), le(u, hp), imp(lt(Z, x), lt(Z, u)), imp(lt(x, Z), lt(u, Z)), imp(eq(x, Z), eq(u, Z))]
    if o == "atan2":
        y, x = u.args
        return [lt(T.neg(PI), u), le(u, PI), imp(lt(Z, y), T.and_(lt(Z, u), lt(u, PI))), imp(lt(y, Z), lt(u, Z)),
                imp(T.and_(eq(y, Z), lt(Z, x)), eq(u, Z)), imp(T.and_(eq(y, Z), lt(x, Z)), eq(u, PI))]
    if o == "tanh":
        x = u.args[0]
        return [lt(u, ONE), lt(T.rc(-1), u), imp(lt(Z, x), lt(Z, u)), imp(eq(x, Z), eq(u, Z)), imp(lt(x, Z), lt(u, Z))]
    if o == "sigmoid":
        x = u.args[0]
        half = T.rc(Fraction(1, 2))
        return [lt(u, ONE), lt(Z, u), imp(lt(Z, x), lt(half, u)), imp(lt(x, Z), lt(u, half)), imp(eq(x, Z), eq(u, half))]
    if o == "exp":
        x = u.args[0]
        inv = [imp(lt(Z, x.args[0]), eq(u, x.args[0]))] if x.op == "log" else []
        return inv + [lt(Z, u), imp(le(Z, x), le(add(ONE, x), u)), imp(lt(x, Z), lt(u, ONE)), imp(eq(x, Z), eq(u, ONE)), le(add(ONE, x), u)]
    if o == "log":
        x = u.args[0]
        out = [imp(lt(Z, x), le(u, sub(x, ONE))), imp(lt(ONE, x), lt(Z, u)), imp(T.and_(lt(Z, x), lt(x, ONE)), lt(u, Z)), imp(eq(x, ONE), eq(u, Z))]
        return out
    if o == "softplus":
        x = u.args[0]
        return [lt(Z, u), lt(x, u), imp(le(Z, x), lt(x, u))]
    if o == "floor":
        x = u.args[0]
        r = T.to_real(u)
        return [le(r, x), lt(x, add(r, ONE))]
    if o == "idiv":
        a, b = u.args
        m = sub(a, mul(b, u))
        return [imp(lt(T.IZERO, b), T.and_(le(T.IZERO, m), lt(m, b)))]
    if o == "band":
        a, b = u.args
        return [imp(T.and_(le(T.IZERO, a), le(T.IZERO, b)), T.and_(le(T.IZERO, u), le(u, a), le(u, b)))]
    if o == "pi":
        return [lt(T.rc(Fraction(314159, 100000)), u), lt(u, T.rc(Fraction(314160, 100000)))]
    if o == "psum":
        n, b, body = u.args
        out = [imp(le(n, T.IZERO), eq(u, T.num(0, u.sort)))]
        return out
    if o in ("rmax", "rmin"):
        n, b, body = u.args[:3]
        k = T.mk("argmax" if o == "rmax" else "argmin", (n, b, body), T.I)
        at = T.open_binder(u, k)
        return [imp(lt(T.IZERO, n), T.and_(le(T.IZERO, k), lt(k, n), eq(u, at)))]
    if o in ("argmax", "argmin"):
        n, b, body = u.args[:3]
        return [imp(lt(T.IZERO, n), T.and_(le(T.IZERO, u), lt(u, n)))]
    h = AXIOM_HOOKS.get(o)
    if h:
        return h(u)
    return []


AXIOM_HOOKS: dict = {}
PAIR_HOOKS: list = []


def pair_axioms(ts):
    """Monotonicity facts between pairs of atoms of the same special function, and binder facts at index terms."""
    out = []
    subs = [u for u in T.subterms(ts) if not contains_bv(u)]
    groups = {}
    for u in subs:
        if u.op in ("tanh", "sigmoid", "exp", "log", "softplus", "acos", "asin", "atan", "sqrt"):
            groups.setdefault(u.op, []).append(u)
    for op, us in groups.items():
        if len(us) > 12:
            continue
        for a, b in itertools.combinations(us, 2):
            x, y = a.args[0], b.args[0]
            if op in ("acos",):
                out.append(T.implies(T.lt(x, y), T.lt(b, a)))
                out.append(T.implies(T.lt(y, x), T.lt(a, b)))
            elif op == "log":
                pos = T.and_(T.lt(T.ZERO, x), T.lt(T.ZERO, y))
                out.append(T.implies(T.and_(pos, T.lt(x, y)), T.lt(a, b)))
                out.append(T.implies(T.and_(pos, T.lt(y, x)), T.lt(b, a)))
                # log(y/x) <= y/x - 1
                out.append(T.implies(pos, T.and_(T.le(T.mul(x, T.sub(b, a)), T.sub(y, x)), T.le(T.mul(y, T.sub(a, b)), T.sub(x, y)))))
            elif op == "sqrt":
                pos = T.and_(T.le(T.ZERO, x), T.le(T.ZERO, y))
                out.append(T.implies(T.and_(pos, T.lt(x, y)), T.lt(a, b)))
                out.append(T.implies(T.and_(pos, T.lt(y, x)), T.lt(b, a)))
            else:
                out.append(T.implies(T.lt(x, y), T.lt(a, b)))
                out.append(T.implies(T.lt(y, x), T.lt(b, a)))
            out.append(T.implies(T.eq(x, y), T.eq(a, b)))
    for f in PAIR_HOOKS:
        out += f(subs)
    return out


# ---------------------------------------------------------------- quantifier instantiation


def flatten_forall(q):
    """forall nested -> ([(fresh var, bound)], body)."""
    vs = []
    while q.op == "forall":
        n, b, body = q.args
        x = T.fresh("q", T.I)
        vs.append((x, n))
        q = T.subst(body, {b: x})
    return vs, q


def instantiate(hyps, seeds, rounds=2, cap=400):
    """Ground instances of universally quantified hypotheses at index terms occurring in seeds."""
    ground = [h for h in hyps if h.op != "forall"]
    quants = []
    for h in hyps:
        if h.op == "forall":
            quants.append(flatten_forall(h))
        elif h.op == "and":
            for a in h.args:
                if a.op == "forall":
                    quants.append(flatten_forall(a))
        elif h.op == "or":
            qs = [a for a in h.args if a.op == "forall"]
            if len(qs) == 1:
                vs, body = flatten_forall(qs[0])
                quants.append((vs, T.or_(body, *[a for a in h.args if a is not qs[0]])))
    for u in T.subterms(list(seeds) + ground):
        if u.op in ("rmax", "rmin") and not contains_bv(u):
            x = T.fresh("q", T.I)
            body = T.open_binder(u, x)
            quants.append(([(x, u.args[0])], T.le(body, u) if u.op == "rmax" else T.le(u, body)))
        elif u.op in ("argmax", "argmin") and not contains_bv(u):
            # the first index with the extreme value
            x = T.fresh("q", T.I)
            a, best = T.open_binder(u, x), T.open_binder(u, u)
            less = T.lt(a, best) if u.op == "argmax" else T.lt(best, a)
            quants.append(([(x, u.args[0])], T.and_(T.or_(less, T.eq(a, best)), T.or_(T.le(u, x), less))))
    if not quants:
        return ground
    done = set()
    gset = set(flatten_and(ground))
    cur = list(seeds) + ground
    out = list(ground)
    for _ in range(rounds):
        apps = {}
        ints = set()
        for u in T.subterms(cur):
            if u.op == "app" and not contains_bv(u):
                apps.setdefault((u.args[0], len(u.args)), []).append(u)
                for a in u.args[1:]:
                    if a.sort == T.I:
                        ints.add(a)
            elif u.op in ("argmax", "argmin") and not contains_bv(u):
                ints.add(u)
        new = []
        for qi, (vs, body) in enumerate(quants):
            cands = {}
            trig = [u for u in T.subterms([body]) if u.op == "app"]
            for x, _ in vs:
                c = []
                for u in trig:
                    for p, a in enumerate(u.args[1:], 1):
                        if a is x:
                            for g in apps.get((u.args[0], len(u.args)), []):
                                if g.args[p] not in c:
                                    c.append(g.args[p])
                        elif a.sort == T.I and T.occurs(a, x):
                            # affine pattern x + k
                            for g in apps.get((u.args[0], len(u.args)), []):
                                d = T.sub(a, x)
                                if not T.occurs(d, x):
                                    v = T.sub(g.args[p], d)
                                    if v not in c:
                                        c.append(v)
                if not c:
                    c = list(ints)[:20]
                cands[x] = c
            combos = itertools.product(*[cands[x] for x, _ in vs])
            for k, combo in enumerate(combos):
                if k > cap:
                    break
                key = (qi,) + tuple(c.id for c in combo)
                if key in done:
                    continue
                done.add(key)
                m = {x: v for (x, _), v in zip(vs, combo)}
                guard = [g for (x, n), v in zip(vs, combo) for g in (T.le(T.IZERO, v), T.lt(v, T.subst(n, m))) if g not in gset]
                inst = T.implies(T.and_(*guard), T.subst(body, m))
                if inst is not T.TRUE:
                    new.append(inst)
        if not new:
            break
        out.extend(new)
        cur = new
    return out


# ---------------------------------------------------------------- z3 translation


class Z3Enc:
    def __init__(self, bvwidth=None):
        self.memo = {}
        self.atoms = {}
        self.bw = bvwidth
        self.has_int = False
        self.has_real = False

    def atom(self, u):
        z = self.atoms.get(u.id)
        if z is None:
            nm = f"a{u.id}"
            if u.sort == T.R:
                z = z3.Real(nm)
                self.has_real = True
            elif u.sort == T.I:
                z = z3.BitVec(nm, self.bw) if self.bw else z3.Int(nm)
                self.has_int = True
            else:
                z = z3.Bool(nm)
            self.atoms[u.id] = (z, u)
            return z
        return z[0]

    def cst(self, v, sort):
        if sort == T.I:
            if self.bw:
                return z3.BitVecVal(int(v), self.bw)
            return z3.IntVal(int(v))
        return z3.Q(v.numerator, v.denominator)

    def enc(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self._enc(t)
            self.memo[t.id] = r
        return r

    def _enc(self, t):
        o = t.op
        e = self.enc
        if o == "c":
            return self.cst(t.args[0], t.sort)
        if o == "b":
            return z3.BoolVal(t.args[0])
        if o == "add":
            c0, items = t.args
            parts = [] if c0 == 0 else [self.cst(c0, t.sort)]
            for a, c in items:
                parts.append(e(a) if c == 1 else self.cst(c, t.sort) * e(a))
            r = parts[0]
            for p in parts[1:]:
                r = r + p
            return r
        if o == "smul":
            return self.cst(t.args[1], t.sort) * e(t.args[0])
        if o == "mul":
            r = None
            for a, k in t.args:
                x = e(a)
                for _ in range(k):
                    r = x if r is None else r * x
            return r
        if o == "toR":
            if self.bw:
                return self.atom(t)
            return z3.ToReal(e(t.args[0]))
        if o == "not":
            return z3.Not(e(t.args[0]))
        if o == "and":
            return z3.And(*[e(a) for a in t.args])
        if o == "or":
            return z3.Or(*[e(a) for a in t.args])
        if o == "ite":
            return z3.If(e(t.args[0]), e(t.args[1]), e(t.args[2]))
        if o in ("eq0", "le0", "lt0"):
            # split to lhs/rhs to keep things readable for the solver
            a = t.args[0]
            c0, items = T.lin(a)
            pos = [x for x in items if x[1] > 0]
            ng = [x for x in items if x[1] < 0]
            L = T._mk_lin(c0 if c0 > 0 else Fraction(0), pos, a.sort)
            Rr = T._mk_lin(-c0 if c0 < 0 else Fraction(0), [(x, -k) for x, k in ng], a.sort)
            l, r = e(L), e(Rr)
            if o == "eq0":
                return l == r
            if o == "le0":
                return l <= r
            return l < r
        if self.bw and o in ("band", "bor", "bxor", "bshl", "bshr"):
            a, b = e(t.args[0]), e(t.args[1])
            return {"band": lambda: a & b, "bor": lambda: a | b, "bxor": lambda: a ^ b, "bshl": lambda: a << b, "bshr": lambda: z3.LShR(a, b)}[o]()
        return self.atom(t)

    def congruence(self, limit=400):
        """Ackermann constraints between applications of the same symbol."""
        out = []
        groups = {}
        for aid, (z, u) in list(self.atoms.items()):
            if u.op == "app" and len(u.args) > 1:
                groups.setdefault((u.args[0], len(u.args)), []).append(u)
            elif u.op in ("idiv", "band", "bxor"):
                groups.setdefault((u.op, 2), []).append(u)
        n = 0
        for us in groups.values():
            for a, b in itertools.combinations(us, 2):
                aa = a.args[1:] if a.op == "app" else a.args
                bb = b.args[1:] if b.op == "app" else b.args
                same = T.and_(*[T.eq(x, y) for x, y in zip(aa, bb)])
                if same is T.FALSE:
                    continue
                n += 1
                if n > limit:
                    return out
                out.append(z3.Implies(self.enc(same), self.enc(a) == self.enc(b)))
        return out


def relevant(goal, hyps):
    """Hypotheses connected to the goal through shared atoms."""
    def atoms(t):
        return {u.id for u in T.subterms([t]) if u.op in ("var", "app", "sqrt", "inv", "sin", "cos", "floor", "psum", "acos", "asin", "atan", "atan2", "exp", "log", "tanh", "pi", "rmax", "rmin", "sigmoid", "softplus", "argmax", "argmin")}

    todo = [(h, atoms(h)) for h in hyps]
    have = atoms(goal)
    out = []
    changed = True
    while changed:
        changed = False
        rest = []
        for h, a in todo:
            if a & have or not a:
                out.append(h)
                have |= a
                changed = True
            else:
                rest.append((h, a))
        todo = rest
    return out


WALL = 4.0


def _check(assertions, timeout, logic=None, enc=None):
    """One satisfiability query; real arithmetic runs in a child process that can be killed."""
    if enc is not None and enc.has_real:
        return _check_forked(assertions, timeout, logic, enc)
    return _check_here(assertions, timeout, logic)


def _check_forked(assertions, timeout, logic, enc):
    import os
    import pickle
    import select
    import signal

    t0 = time.time()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            # the limit is processor time, so that a busy machine does not change the answer
            signal.signal(signal.SIGPROF, signal.SIG_DFL)
            signal.setitimer(signal.ITIMER_PROF, timeout)
            st, m, dt = _check_here(assertions, timeout * WALL, logic)
            mod = None
            if m is not None:
                M = Model(m, enc)
                mod = (M.vals, M.raw)
            with os.fdopen(w, "wb") as f:
                f.write(pickle.dumps((st, mod)))
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    buf = b""
    end = t0 + timeout * WALL + 1.0
    try:
        while True:
            left = end - time.time()
            if left <= 0 or not select.select([r], [], [], left)[0]:
                break
            x = os.read(r, 1 << 16)
            if not x:
                break
            buf += x
    finally:
        os.close(r)
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)
    dt = time.time() - t0
    STATS["queries"] += 1
    STATS["z3_s"] += dt
    try:
        st, mod = pickle.loads(buf)
    except Exception:
        return "unknown", None, dt
    if mod is not None:
        M = Model.__new__(Model)
        M.vals, M.raw = mod
        mod = M
    return st, mod, dt


def _check_here(assertions, timeout, logic=None):
    if logic == "nlsat":
        s = z3.Tactic("qfnra-nlsat").solver()
    elif logic:
        s = z3.SolverFor(logic)
    else:
        s = z3.Solver()
    s.set("timeout", max(1, int(timeout * 1000)))
    for a in assertions:
        s.add(a)
    t0 = time.time()
    try:
        r = s.check()
    except z3.Z3Exception:
        return "unknown", None, time.time() - t0
    dt = time.time() - t0
    STATS["queries"] += 1
    STATS["z3_s"] += dt
    if r == z3.unsat:
        return "unsat", None, dt
    if r == z3.sat:
        return "sat", s.model(), dt
    return "unknown", None, dt


def z3_refute(hyps, goal, timeout, bv=None, want_model=True, no_cong_first=True):
    """Check hyps /\\ not goal."""
    enc = Z3Enc(bv)
    try:
        zs = [enc.enc(h) for h in hyps]
        zg = z3.Not(enc.enc(goal))
    except z3.Z3Exception as ex:
        return "unknown", None, enc, 0.0, f"encoding: {ex}"
    tot = 0.0
    cong = enc.congruence() if not bv else []
    if enc.has_real and not enc.has_int and not bv and not cong:
        st, m, dt = _check(zs + [zg], timeout * 0.5, "nlsat", enc)
        tot += dt
        if st in ("unsat", "sat"):
            return st, m, enc, tot, "z3-nlsat"
    st, m, dt = _check(zs + cong + [zg], timeout, None, enc)
    tot += dt
    return st, m, enc, tot, "z3"


def cvc5_refute(hyps, goal, timeout):
    import os
    import select
    import signal

    enc = Z3Enc()
    s = z3.Solver()
    for h in hyps:
        s.add(enc.enc(h))
    s.add(z3.Not(enc.enc(goal)))
    for c in enc.congruence():
        s.add(c)
    txt = s.to_smt2().replace("(check-sat)", "")
    t0 = time.time()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.write(w, _cvc5(txt, timeout).encode())
        finally:
            os._exit(0)
    os.close(w)
    st = b""
    try:
        if select.select([r], [], [], timeout + 1.0)[0]:
            st = os.read(r, 100)
    finally:
        os.close(r)
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)
    dt = time.time() - t0
    STATS["cvc5_s"] += dt
    return st.decode() or "unknown", dt


def _cvc5(txt, timeout):
    import cvc5

    try:
        tm = cvc5.TermManager()
        slv = cvc5.Solver(tm)
        slv.setOption("tlimit-per", str(int(timeout * 1000)))
        slv.setLogic("ALL")
        parser = cvc5.InputParser(slv)
        parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "q")
        sm = parser.getSymbolManager()
        while True:
            cmd = parser.nextCommand()
            if cmd.isNull():
                break
            if "set-info" in str(cmd) or "set-logic" in str(cmd):
                continue
            cmd.invoke(slv, sm)
        r = slv.checkSat()
        return "unsat" if r.isUnsat() else "sat" if r.isSat() else "unknown"
    except Exception:
        return "unknown"


# ---------------------------------------------------------------- discharge

_QUICK: dict = {}
_PURE: dict = {}
_INT_OPS = {"var", "c", "add", "smul", "eq0", "le0", "lt0", "and", "or", "not"}


def pure_int(t):
    """Linear conditions over integer variables only."""
    r = _PURE.get(t.id)
    if r is None:
        r = _PURE[t.id] = (t.op in ("var", "c") and t.sort == T.I) or (t.op not in ("var", "c") and t.op in _INT_OPS and all(pure_int(a) for a in T.children(t)))
    return r


def quick(goal, hyps, timeout=1.0):
    """Cheap validity test used for ite resolution and path decisions."""
    if goal is T.TRUE:
        return True
    if goal is T.FALSE:
        return False
    key = (goal.id, frozenset(h.id for h in hyps))
    r = _QUICK.get(key)
    if r is not None:
        return r
    hs = set(hyps)
    if goal in hs:
        _QUICK[key] = True
        return True
    r = False
    if pure_int(goal):
        # indices and sizes: the hypotheses about those alone usually decide
        core = [h for h in flatten_and(hyps) if h.op != "forall" and pure_int(h)]
        if z3_refute(relevant(goal, core), goal, timeout)[0] == "unsat":
            _QUICK[key] = True
            return True
    hy = instantiate(flatten_and(hyps), [goal])
    if any(u.op == "sqrt" for u in T.subterms([goal])):
        # radicals opaque first: only their signs and the hypotheses mentioning them
        light = flatten_and(hy) + light_axioms([goal] + hy)
        light = relevant1(goal, light)
        st, m, enc, dt, be = z3_refute(light, goal, timeout)
        if st == "unsat":
            _QUICK[key] = True
            return True
    base = hy + axioms_for([goal] + hy)
    base = relevant(goal, base)
    st, m, enc, dt, be = z3_refute(base, goal, timeout)
    r = st == "unsat"
    _QUICK[key] = r
    return r


_POS: dict = {}


def positive(d, hyps):
    """Is the real term d provably > 0 ?  (radicals opaque first)"""
    if d.op == "c":
        return T.cval(d) > 0
    if d.op in ("exp", "pi", "softplus", "sigmoid"):
        return True
    if d.op == "mul" and all(positive(a, hyps) for a, _ in d.args):
        return True
    if d.op == "inv":
        return positive(d.args[0], hyps)
    if d.op == "sqrt":
        key = (d.id, frozenset(h.id for h in hyps))
        r = _POS.get(key)
        if r is None:
            raw = T.mk("lt0", (T.neg(d),), T.B)
            hy = instantiate(flatten_and(hyps), [d])
            light = relevant1(raw, flatten_and(hy) + light_axioms([raw] + hy))
            st = z3_refute(light, raw, 1.0)[0]
            r = st == "unsat" or positive(d.args[0], hyps)
            _POS[key] = r
        return r
    return quick(T.lt(T.ZERO, d), hyps, 2.0)


def nonzero(d, hyps):
    if d.op == "mul":
        return all(nonzero(a, hyps) for a, _ in d.args)
    if d.op == "inv":
        return nonzero(d.args[0], hyps)
    if d.op == "sqrt":
        return positive(d, hyps)
    return quick(T.not_(T.eq(d, T.ZERO)), hyps, 2.0)


def light_axioms(ts):
    out = []
    for u in T.subterms(ts):
        if contains_bv(u):
            continue
        if u.op == "sqrt":
            out.append(T.le(T.ZERO, u))
        elif u.op == "inv":
            a = u.args[0]
            out += [T.implies(T.not_(T.eq(a, T.ZERO)), T.eq(T.mul(a, u), T.ONE)), T.implies(T.lt(T.ZERO, a), T.lt(T.ZERO, u))]
    return out


def _opaque_atoms(t):
    """Atoms of t with radicals opaque."""
    out = set()
    seen = set()

    def go(u):
        if u.id in seen:
            return
        seen.add(u.id)
        if u.op in ("sqrt", "app", "var"):
            out.add(u.id)
            _BYID[u.id] = u
            return
        for c in T.children(u):
            go(c)

    go(t)
    return out


def relevant1(goal, hyps):
    """Hypotheses whose radical-opaque atoms all occur (transitively) next to the goal's, keeping only small ones."""
    have = _opaque_atoms(goal)
    out = []
    todo = [(h, _opaque_atoms(h)) for h in hyps]
    for _ in range(2):
        rest = []
        for h, a in todo:
            if a and a <= have:
                out.append(h)
            else:
                rest.append((h, a))
        todo = rest
        more = [(h, a) for h, a in todo if a & have and all(T_BY_ID(x).op == "sqrt" for x in a)]
        for h, a in more:
            have |= a
        if not more:
            break
    for h, a in todo:
        if a and a <= have:
            out.append(h)
    return out


_BYID: dict = {}


def T_BY_ID(i):
    return _BYID[i]


def resolve_ites(t, hyps, timeout=0.5, limit=24):
    """Replace ites whose condition is decided by the hypotheses."""
    for _ in range(limit):
        conds = []
        for u in T.subterms([t]):
            if u.op == "ite" and not contains_bv(u.args[0]):
                conds.append(u.args[0])
        changed = False
        for c in dict.fromkeys(sorted(conds, key=lambda x: x.id)):
            if quick(c, hyps, timeout):
                t = assume_in(t, c, True)
                changed = True
                break
            if quick(T.not_(c), hyps, timeout):
                t = assume_in(t, c, False)
                changed = True
                break
        if not changed:
            return t
    return t


def poly_term(p, ring_atoms=None):
    """Polynomial -> term in a canonical order."""
    out = [T.ZERO]
    for m, k in sorted(p.items()):
        out.append(T.scale(T.mul(*[T.power(P.ATOMS[v], e) for v, e in m]) if m else T.ONE, k))
    return T.add(*out)


def canonical(t):
    return poly_term(P.Ring().poly(t))


def boxes(ts):
    return [u for u in T.subterms(ts) if u.op == "box"]


def under_cases(goal, hyps, cases):
    """Goal and ground hypotheses with the case literals replaced by true."""
    lits = flatten_and(cases)

    def simp(t):
        for c in lits:
            t = assume_in(t, c, True)
        return t

    goal = simp(goal)
    if goal is T.TRUE:
        return goal, list(hyps)
    hy = instantiate(hyps, [goal] + lits)
    out = []
    for h in hy:
        out.append(h if h in lits else simp(h) if h.op != "forall" else h)
    out = unit_propagate(out)
    have = set(lits)
    for h in flatten_and(out):
        if h.op == "eq0" and h not in have:
            z = T.num(0, h.args[0].sort)
            if T.lt(z, h.args[0]) in have or T.lt(h.args[0], z) in have:
                out.append(T.FALSE)
    return goal, out


def unit_propagate(hyps):
    """Implications whose guards are hypotheses become their conclusions."""
    have = set(hyps) | set(flatten_and(hyps))
    out = []
    for h in hyps:
        if h.op == "or":
            rest = [a for a in h.args if T.not_(a) not in have]
            if len(rest) < len(h.args):
                h = T.or_(*rest)
        out.append(h)
    return out


def discharge_boxed(goal, hyps, timeout, bv=None, cases=None):
    """Opaque products are first arbitrary reals (weaker hypotheses, so a proof stands); opened only if that fails."""
    t0 = time.time()
    if cases:
        goal, hyps = under_cases(goal, hyps, cases)
        if goal is T.TRUE or T.FALSE in hyps or goal in hyps:
            return Result("proved", "simplifier", time.time() - t0)
    bs = boxes([goal] + list(hyps))
    if not bs:
        return discharge(goal, hyps, timeout, bv=bv)
    hy = [h for h in instantiate(hyps, [goal])]
    bs = [u for u in boxes([goal] + hy) if not contains_bv(u)]
    outer = {u: T.var(f"box{u.id}", T.R) for u in bs}
    g = T.subst(goal, outer)
    r = discharge(g, [h if h.op == "forall" else T.subst(h, outer) for h in hy], timeout, bv=bv)
    if r.status == "proved":
        return r
    return discharge(open_boxes(goal), [open_boxes(h) for h in hyps], timeout, bv=bv)


def open_boxes(t):
    while True:
        bs = boxes([t])
        if not bs:
            return t
        t = T.subst(t, {u: u.args[0] for u in bs})


def _sqrt_norm(q, hyps):
    """sqrt(q) in a canonical form: rational squares and known denominators are pulled out."""
    try:
        ring = P.Ring()
        p = ring.poly(q)
        for _ in range(6):
            rules = _radical_rules(p, ring, hyps)
            p = P.reduce_poly(p, rules) if rules else p
            invs = {}
            for m in p:
                for v, e in m:
                    if P.ATOMS[v].op == "inv":
                        invs[v] = max(invs.get(v, 0), e)
            if not invs:
                break
            den = []
            num = p
            for v in sorted(invs, reverse=True):
                d = P.ATOMS[v].args[0]
                if not positive(d, hyps):
                    return T.sqrt(q)
                e = invs[v] + (invs[v] % 2)
                dp = ring.poly(d)
                num = P.substitute_atom(num, v, e, dp)
                den.append((d, e, dp))
            rules = _radical_rules(num, ring, hyps)
            num = P.reduce_poly(num, rules) if rules else num
            dd = {(): Fraction(1)}
            for d, e, dp in den:
                for _k in range(e):
                    dd = P.pmul(dd, dp)
            rules = _radical_rules(dd, ring, hyps)
            dd = P.reduce_poly(dd, rules) if rules else dd
            if num and dd:
                m0 = next(iter(dd))
                if m0 in num:
                    k = num[m0] / dd[m0]
                    if not P.padd(num, dd, -k):
                        return T.sqrt(T.rc(k))
            if any(P.ATOMS[v].op == "inv" for m in num for v, _ in m):
                return T.sqrt(q)
            return T.mul(_psq(num, hyps), *[T.power(T.inv(d), e // 2) for d, e, _ in den])
        return _psq(p, hyps)
    except P.TooBig:
        return T.sqrt(q)


def _psq(p, hyps):
    """sqrt of a reduced polynomial; a perfect square of a term of known sign is taken out."""
    r = P.psqrt(p)
    if r is not None:
        t = poly_term(r)
        if t.op == "c":
            return T.abs_(t)
        if quick(T.le(T.ZERO, t), hyps, 2.0):
            return t
        if quick(T.le(t, T.ZERO), hyps, 2.0):
            return T.neg(t)
    return T.sqrt(poly_term(p))


def _radical_rules(p, ring, hyps):
    rules = []
    for v in {v for m in p for v, _ in m}:
        u = P.ATOMS[v]
        if u.op == "sqrt" and (is_sos(u.args[0]) or quick(T.le(T.ZERO, u.args[0]), hyps, 2.0)):
            q = ring.poly(T.sub(T.mul(u, u), u.args[0]))
            if not any(P.ATOMS[v2].op == "inv" for m in q for v2, _ in m):
                rules.append(P.to_rule(q))
        elif u.op in ("sin", "cos"):
            s_, c_ = T.sin(u.args[0]), T.cos(u.args[0])
            r = P.to_rule(ring.poly(T.sub(T.add(T.mul(s_, s_), T.mul(c_, c_)), T.ONE)))
            if r and r not in rules:
                rules.append(r)
    vs = {v for m in p for v, _ in m}
    for h in hyps:
        if h.op == "eq0" and h.args[0].sort == T.R and not contains_bv(h):
            q = ring.poly(h.args[0])
            if len(q) <= 8 and vs & {v for m in q for v, _ in m} and not any(P.ATOMS[v].op in ("inv", "ite") for m in q for v, _ in m):
                r = P.to_rule(q)
                if r and r not in rules:
                    rules.append(r)
    return rules


def pnorm(t, hyps):
    """Canonical polynomial form modulo the defining equations of the atoms."""
    if t.op in ("c", "app", "var") or any(u.op == "ite" for u in T.subterms([t])):
        return t
    try:
        ring = P.Ring()
        p = ring.poly(t)
        rules = _radical_rules(p, ring, hyps)
        if rules:
            p = P.reduce_poly(p, rules)
        return poly_term(p)
    except P.TooBig:
        return t


INVTRIG = ("atan2", "asin", "acos", "atan")


def _sc(arg, hyps, go):
    """(sin arg, cos arg) with the inverse functions inside resolved by their defining equations."""
    c0, items = T.lin(arg)
    for a, c in items:
        if a.op in INVTRIG and abs(c) == 1:
            rest = T.sub(arg, T.scale(a, c))
            sa = ca = None
            if a.op == "atan2":
                y, x = a.args
                rho = go(T.sqrt(T.add(T.mul(x, x), T.mul(y, y))))
                if positive(rho, hyps):
                    ir = go(T.inv(rho))
                    sa, ca = T.mul(y, ir), T.mul(x, ir)
            elif a.op == "asin":
                sa, ca = a.args[0], go(T.sqrt(T.sub(T.ONE, T.mul(a.args[0], a.args[0]))))
            elif a.op == "acos":
                sa, ca = go(T.sqrt(T.sub(T.ONE, T.mul(a.args[0], a.args[0])))), a.args[0]
            elif a.op == "atan":
                ca = T.inv(go(T.sqrt(T.add(T.ONE, T.mul(a.args[0], a.args[0])))))
                sa = T.mul(a.args[0], ca)
            if sa is None:
                continue
            if c < 0:
                sa = T.neg(sa)
            if rest.op == "c" and T.cval(rest) == 0:
                return sa, ca
            sr, cr = _sc(rest, hyps, go)
            return T.add(T.mul(sa, cr), T.mul(ca, sr)), T.sub(T.mul(ca, cr), T.mul(sa, sr))
    return T.sin(arg), T.cos(arg)


RADICAL = ("sqrt", "atan2", "asin", "acos", "atan")


def radnorm(t, hyps, timeout=1.5):
    """Bottom-up normal form of nested radicals, deciding the conditionals met on the way (innermost first)."""
    memo = {}
    decided = {}

    def go(u):
        r = memo.get(u.id)
        if r is not None:
            return r
        if u.op in T.BINDERS or not T.children(u):
            r = u
        elif contains_bv(u):
            r = u
        elif u.op == "ite":
            c = go(u.args[0])
            r = None
            if c is T.TRUE:
                r = go(u.args[1])
            elif c is T.FALSE:
                r = go(u.args[2])
            else:
                d = decided.get(c.id)
                if d is None:
                    d = 1 if quick(c, hyps, timeout) else (0 if quick(T.not_(c), hyps, timeout) else 2)
                    decided[c.id] = d
                if d == 1:
                    r = go(u.args[1])
                elif d == 0:
                    r = go(u.args[2])
                else:
                    r = T.ite(c, go(u.args[1]), go(u.args[2]))
        else:
            ch = T.children(u)
            nk = [go(x) for x in ch]
            r = u if all(a is b for a, b in zip(nk, ch)) else T.rebuild(u, nk)
            if r.op == "sqrt" and not any(x.op == "ite" for x in T.subterms([r])):
                r = _sqrt_norm(r.args[0], hyps)
            if r.op in ("inv", "mul"):
                r = _cancel(r, hyps)
            if r.op == "atan2":
                y, x = pnorm(r.args[0], hyps), pnorm(r.args[1], hyps)
                r = T.ZERO if y is T.ZERO and positive(x, hyps) else T.fn("atan2", y, x)
            elif r.op in ("sin", "cos") and any(a.op in INVTRIG for a, _ in T.lin(r.args[0])[1]):
                r = _sc(r.args[0], hyps, go)[0 if r.op == "sin" else 1]
                if r.op not in ("sin", "cos"):
                    r = go(r)
        memo[u.id] = r
        return r

    return go(t)


def _cancel(t, hyps):
    """inv(inv(x)) -> x and x * inv(x) -> 1 for x proven non-zero."""
    fs = {}
    for a, k in t.args if t.op == "mul" else ((t, 1),):
        while a.op == "inv":
            a, k = a.args[0], -k
        if a.op == "mul":
            return t
        fs.setdefault(a, []).append(k)
    changed = False
    out = []
    for a, ks in fs.items():
        deep = any(x.op == "inv" and x.args[0].op == "inv" and _root(x) is a for x in ([y for y, _ in t.args] if t.op == "mul" else [t]))
        if deep or (min(ks) < 0 < max(ks)):
            if nonzero(a, hyps):
                e = sum(ks)
                changed = True
                if e > 0:
                    out.append(T.power(a, e))
                elif e < 0:
                    out.append(T.power(T.inv(a), -e))
                continue
            return t
        for k in ks:
            out.append(T.power(a, k) if k > 0 else T.power(T.inv(a), -k))
    if not changed:
        return t
    return T.mul(*out) if out else T.ONE


def _root(x):
    while x.op == "inv":
        x = x.args[0]
    return x


def assume_in(t, c, val):
    memo = {}
    nc = T.not_(c)

    def go(u):
        if u is c:
            return T.TRUE if val else T.FALSE
        if u is nc:
            return T.FALSE if val else T.TRUE
        r = memo.get(u.id)
        if r is not None:
            return r
        if u.op in T.BINDERS:
            r = u
        else:
            ch = T.children(u)
            if not ch:
                r = u
            else:
                nk = [go(x) for x in ch]
                r = u if all(a is b for a, b in zip(nk, ch)) else T.rebuild(u, nk)
        memo[u.id] = r
        return r

    return go(t)


def ring_prove(t, hyps, timeout=5.0, depth=0):
    """Try to show t == 0 by polynomial normalisation."""
    t0 = time.time()
    try:
        ring = P.Ring()
        p = ring.poly(t)
        # clear denominators, outermost first
        for _ in range(60):
            invs = {}
            for m in p:
                for v, e in m:
                    if P.ATOMS[v].op == "inv":
                        invs[v] = max(invs.get(v, 0), e)
            if not invs:
                break
            v = max(invs)
            den = P.ATOMS[v].args[0]
            if not nonzero(den, hyps):
                return False
            p = P.substitute_atom(p, v, invs[v], ring.poly(den))
        if not p:
            return True
        rules = []
        seen = set()
        for _ in range(4):
            atoms = set()
            for src in [p] + [dict([(r[0], 1)]) | r[1] for r in rules]:
                for m in src:
                    for v, e in m:
                        atoms.add(v)
            new = False
            for v in sorted(atoms):
                u = P.ATOMS[v]
                if u.id in seen:
                    continue
                seen.add(u.id)
                if u.op in ("sin", "cos"):
                    s, c = T.sin(u.args[0]), T.cos(u.args[0])
                    q = ring.poly(T.sub(T.add(T.mul(s, s), T.mul(c, c)), T.ONE))
                    r = P.to_rule(q)
                    if r and r not in rules:
                        rules.append(r)
                        new = True
                    if u.args[0].op == "atan2":
                        for ax in _axioms(u):
                            if ax.op == "eq0":
                                r = P.to_rule(ring.poly(ax.args[0]))
                                if r and r not in rules:
                                    rules.append(r)
                    if u.args[0].op == "atan":
                        r = P.to_rule(ring.poly(T.sub(T.mul(c, u.args[0].args[0]), s)))
                        if r and r not in rules:
                            rules.append(r)
                elif u.op == "sqrt":
                    if quick(T.le(T.ZERO, u.args[0]), hyps, 2.0) or is_sos(u.args[0]):
                        q = ring.poly(T.sub(T.mul(u, u), u.args[0]))
                        if not any(P.ATOMS[v2].op == "inv" for m in q for v2, _ in m):
                            rules.append(P.to_rule(q))
                        new = True
                elif u.op == "inv":
                    pass
            if not new:
                break
        for h in hyps:
            hs = h.args if h.op == "and" else (h,)
            for g in hs:
                if g.op == "eq0" and not contains_bv(g):
                    q = ring.poly(g.args[0])
                    if any(P.ATOMS[v].op == "inv" for m in q for v, _ in m):
                        continue
                    r = P.to_rule(q)
                    if r and r not in rules:
                        rules.append(r)
        pr = P.reduce_poly(p, rules)
        if not pr:
            return True
        rules2 = P.complete(rules)
        if len(rules2) > len(rules):
            pr = P.reduce_poly(pr, rules2)
            if not pr:
                return True
        return False
    except P.TooBig:
        return False
    finally:
        STATS["ring_s"] += time.time() - t0


def is_sos(t):
    """Syntactic sum of squares (plus non-negative constant)."""
    c0, items = T.lin(t)
    if c0 < 0:
        return False
    for a, c in items:
        if c < 0:
            return False
        if a.op == "sqrt":
            continue
        if a.op == "mul" and all(e % 2 == 0 or b.op == "sqrt" for b, e in a.args):
            continue
        return False
    return True


def open_psum(t, y):
    """The body of a finite sum at index y."""
    n, b, core = t.args
    return T.subst(core, {b: y})


def pull(atom, n):
    """The summand at a given index when the atom is a sum over 0 <= x < n (finite sums commute), else None."""
    fs = list(atom.args) if atom.op == "mul" else [(atom, 1)]
    ss = [f for f, e in fs if f.op == "psum" and e == 1]
    if len(ss) != 1:
        return None
    p = ss[0]
    rest = [T.power(f, e) for f, e in fs if f is not p]
    if p.args[0] is n:
        return lambda x: T.mul(*rest, open_psum(p, x)) if rest else open_psum(p, x)
    j = T.fresh("sw", T.I)
    c0, items = T.lin(open_psum(p, j))
    if c0 != 0 or T.occurs(n, j):
        return None
    ins = [(pull(a, n), c) for a, c in items]
    if not ins or any(f is None for f, _ in ins):
        return None
    m = p.args[0]

    def at(x):
        body = T.add(*[T.scale(f(x), c) for f, c in ins])
        s = T.psum(m, lambda i: T.subst(body, {j: i}))
        return T.mul(*rest, s) if rest else s

    return at


def bounds_of(atom):
    """Bounds of the sums in an atom, outermost first."""
    fs = [f for f, _ in atom.args] if atom.op == "mul" else [atom]
    for f in fs:
        if f.op == "psum":
            yield f.args[0]
            for a, _ in T.lin(open_psum(f, T.fresh("sw", T.I)))[1]:
                yield from bounds_of(a)


def spread(t):
    """t with products of a sum that contains finite sums multiplied out."""
    c0, items = T.lin(t)
    out, hit = [T.num(c0, t.sort)], False
    for a, c in items:
        if a.op == "mul":
            big = [f for f, e in a.args if f.op == "add" and e == 1 and any(u.op == "psum" for u in T.subterms([f]))]
            if len(big) == 1:
                k0, inner = T.lin(big[0])
                rest = T.mul(*[T.power(f, e) for f, e in a.args if f is not big[0]])
                out += [spread(T.scale(T.mul(rest, x), c * k)) for x, k in inner] + [T.scale(rest, c * k0)]
                hit = True
                continue
        out.append(T.scale(a, c))
    return T.add(*out) if hit else t


def sum_goals(goal):
    """Pointwise goals that imply an (in)equation between finite sums over the same range."""
    c0, items = T.lin(spread(goal.args[0]))
    if c0 != 0 or not items:
        return
    seen = []
    for a, _ in items:
        for n in bounds_of(a):
            if n not in seen and not contains_bv(n):
                seen.append(n)
    for n in seen[:4]:
        fs = [(pull(a, n), c) for a, c in items]
        if any(f is None for f, _ in fs):
            continue
        x = T.fresh("s", T.I)
        body = T.add(*[T.scale(f(x), c) for f, c in fs])
        z = T.num(0, body.sort)
        g = T.eq(body, z) if goal.op == "eq0" else T.le(body, z)
        yield g, [T.le(T.IZERO, x), T.lt(x, n)]


def discharge(goal, hyps, timeout=DEFAULT_TIMEOUT, bv=None, use_cvc5=True, splits=5, depth_sums=0):
    t0 = time.time()
    if goal is T.TRUE:
        return Result("proved", "simplifier")
    if goal.op == "and":
        be = set()
        for g in goal.args:
            r = discharge(g, hyps, timeout, bv, use_cvc5, splits, depth_sums)
            if r.status != "proved":
                r.seconds = time.time() - t0
                return r
            be.update(r.backend.split("+"))
        return Result("proved", "+".join(sorted(be)), time.time() - t0)
    if goal.op == "forall":
        vs, body = flatten_forall(goal)
        extra = [T.and_(T.le(T.IZERO, x), T.lt(x, n)) for x, n in vs]
        return discharge(body, list(hyps) + extra, timeout, bv, use_cvc5, splits, depth_sums)
    if goal.op == "or":
        # A or B or C: assume the negations of the side conditions; keep equations/foralls as the goal
        main = [g for g in goal.args if g.op in ("eq0", "forall", "and")]
        hard = [g for g in goal.args if g.op in ("le0", "lt0") and any(u.op in RADICAL for u in T.subterms([g]))]
        if len(hard) == 1 and not any(u.op in RADICAL for g in goal.args if g is not hard[0] for u in T.subterms([g])):
            main = hard
        if len(main) == 1:
            side = [T.not_(g) for g in goal.args if g is not main[0]]
            m = main[0]
            for h in flatten_and(side):
                m = assume_in(m, h, True)
            if m is T.TRUE:
                return Result("proved", "simplifier", time.time() - t0)
            if m.op in ("eq0", "and", "forall", "le0", "lt0"):
                main = [m]
            r = discharge(main[0], list(hyps) + side, timeout, bv, use_cvc5, splits, depth_sums)
            if r.status == "refuted":
                # the side conditions may contradict hypotheses that do not concern the main goal
                r2 = smt(goal, flatten_and(hyps), timeout, bv, use_cvc5, t0)
                if r2.status == "proved":
                    return r2
            return r
    hyps = [h for h in flatten_and(hyps) if h is not T.TRUE]
    if T.FALSE in hyps:
        return Result("proved", "simplifier")
    if goal in hyps:
        return Result("proved", "simplifier")
    if goal.op in ("eq0", "le0") and bv is None and depth_sums < 4:
        for g, rng in sum_goals(goal):
            r = discharge(g, hyps + rng, timeout, bv, use_cvc5, splits, depth_sums + 1)
            if r.status == "proved":
                r.seconds = time.time() - t0
                return r
    if goal.op == "eq0" and bv is None:
        if goal.args[0].sort == T.R or True:
            if not any(u.op == "ite" for u in T.subterms([goal])) and ring_prove(goal.args[0], ground_only(hyps)):
                return Result("proved", "ring", time.time() - t0)
        hy = instantiate(hyps, [goal])
        if len(hy) != len(hyps) and not any(u.op == "ite" for u in T.subterms([goal])) and ring_prove(goal.args[0], [h for h in flatten_and(hy) if h.op == "eq0"]):
            return Result("proved", "ring", time.time() - t0)
        if any(u.op in RADICAL for u in T.subterms([goal])):
            c = cheap_ite(goal)
            if c is not None and splits > 0:
                return split_on(goal, c, hyps, hy, timeout, bv, use_cvc5, splits, t0)
        g2 = goal
        if any(u.op in RADICAL for u in T.subterms([goal])):
            light = [h for h in hy if not any(u.op in INVTRIG for u in T.subterms([h]))]
            if len(light) < len(hy):
                # hypotheses free of inverse functions usually suffice, and keep the radicals simple
                g1 = radnorm(goal, light)
                if split_ring(g1, light, 3):
                    return Result("proved", "ring", time.time() - t0)
            hy = [radnorm(h, [x for x in hy if x is not h]) if any(u.op in RADICAL for u in T.subterms([h])) else h for h in hy]
            g2 = radnorm(goal, hy)
        if g2 is not goal and any(u.op == "ite" for u in T.subterms([g2])) and split_ring(g2, hy, 3):
            return Result("proved", "ring", time.time() - t0)
        g2 = resolve_ites(g2, hy) if g2 is not T.TRUE else g2
        if g2 is T.TRUE:
            return Result("proved", "simplifier", time.time() - t0)
        if g2.op == "eq0":
            eqs = hy + unit_eqs(hy)
            if ring_prove(g2.args[0], eqs):
                return Result("proved", "ring", time.time() - t0)
            if g2.op == "eq0" and splits > 0:
                c = pick_ite(g2)
                if c is not None:
                    r1 = discharge(assume_in(g2, c, True), hyps + [c], timeout, bv, use_cvc5, splits - 1)
                    if r1.status == "proved":
                        r2 = discharge(assume_in(g2, c, False), hyps + [T.not_(c)], timeout, bv, use_cvc5, splits - 1)
                        if r2.status == "proved":
                            return Result("proved", "+".join(sorted(set(r1.backend.split("+")) | set(r2.backend.split("+")))), time.time() - t0)
                        return r2
                    return r1
        goal = g2
    elif goal.op in ("le0", "lt0") and bv is None and monotone_args(goal) is not None:
        r = discharge(monotone_args(goal), hyps, timeout, bv, use_cvc5, splits)
        if r.status == "proved":
            return r
    if goal.op in ("le0", "lt0") and bv is None and any(u.op == "ite" for u in T.subterms([goal])):
        hy = instantiate(hyps, [goal])
        if any(u.op in RADICAL for u in T.subterms([goal])):
            c = cheap_ite(goal)
            if c is not None and splits > 0:
                return split_on(goal, c, hyps, hy, timeout, bv, use_cvc5, splits, t0)
        g2 = goal
        if any(u.op in RADICAL for u in T.subterms([goal])):
            hy = [radnorm(h, [x for x in hy if x is not h]) if any(u.op in RADICAL for u in T.subterms([h])) else h for h in hy]
            g2 = radnorm(goal, hy)
        g2 = resolve_ites(g2, hy) if g2 is not T.TRUE else g2
        if g2 is T.TRUE:
            return Result("proved", "simplifier", time.time() - t0)
        if g2 is not T.FALSE:
            if split_syntactic(g2, hy, 3):
                return Result("proved", "simplifier", time.time() - t0)
            if g2.op in ("le0", "lt0") and monotone_args(g2) is not None:
                r = discharge(monotone_args(g2), hyps, timeout, bv, use_cvc5, splits)
                if r.status == "proved":
                    return r
            goal = g2
            if g2.op == goal.op and splits > 0:
                c = pick_ite(g2)
                if c is not None and pure_real(c) and pure_real(g2):
                    return split_on(g2, c, hyps, hy, timeout, bv, use_cvc5, splits - 1, t0)
    return smt(goal, hyps, timeout, bv, use_cvc5, t0)


MONOTONE = {"acos": -1, "asin": 1, "atan": 1, "exp": 1, "tanh": 1, "softplus": 1, "sigmoid": 1}


def monotone_args(g):
    """For f(u) <= f(v) with f monotone: the comparison of the arguments."""
    c0, items = T.lin(g.args[0])
    if c0 != 0 or len(items) != 2:
        return None
    (a, ca), (b, cb) = items
    if a.op != b.op or a.op not in MONOTONE or ca + cb != 0 or len(a.args) != 1:
        return None
    u, v = (a.args[0], b.args[0]) if (ca > 0) == (MONOTONE[a.op] > 0) else (b.args[0], a.args[0])
    return T.le(u, v) if g.op == "le0" else T.lt(u, v)


def cheap_ite(t):
    """A tiny condition (a flag comparison) to split on before the radicals are looked at."""
    best = None
    for u in T.subterms([t]):
        if u.op == "ite" and not contains_bv(u.args[0]):
            c = u.args[0]
            if len(T.subterms([c])) <= 14 and not any(x.op in ("inv", "sqrt", "mul", "ite") or x.op in INVTRIG for x in T.subterms([c])):
                if best is None or c.id < best.id:
                    best = c
    return best


def split_on(goal, c, hyps, hy, timeout, bv, use_cvc5, splits, t0):
    be = set()
    for val, cc in ((True, c), (False, T.not_(c))):
        if quick(T.not_(cc), hy, 0.5):
            continue
        r = discharge(assume_in(goal, c, val), list(hyps) + [cc], timeout, bv, use_cvc5, splits - 1)
        if r.status != "proved":
            r.seconds = time.time() - t0
            return r
        be |= set(r.backend.split("+"))
    return Result("proved", "+".join(sorted(be)) or "z3", time.time() - t0)


def split_ring(g, hyps, k):
    """Ring proof of g on both sides of up to k conditions, without deciding them."""
    if g is T.TRUE:
        return True
    if g.op != "eq0":
        return False
    c = pick_ite(g)
    if c is None:
        return ring_prove(g.args[0], hyps)
    return k > 0 and split_ring(assume_in(g, c, True), hyps, k - 1) and split_ring(assume_in(g, c, False), hyps, k - 1)


def split_syntactic(g, hyps, k):
    """Case split on the conditions in g; every case is a hypothesis or follows from one by weakening."""
    if g is T.TRUE:
        return True
    hs = flatten_and(hyps)
    if g in hs or T.FALSE in hs or any(T.not_(h) in hs for h in hyps if h.op in ("le0", "lt0", "eq0")):
        return True
    if g.op == "le0" and T.lt(g.args[0], T.ZERO if g.args[0].sort == T.R else T.IZERO) in hs:
        return True
    c = pick_ite(g)
    if c is None:
        return len(T.subterms([g])) <= 30 and quick(g, hs, 0.5)
    return k > 0 and split_syntactic(assume_in(g, c, True), hyps + flatten_and([c]), k - 1) and split_syntactic(assume_in(g, c, False), hyps + flatten_and([T.not_(c)]), k - 1)


def unit_eqs(hy):
    """Equations available from instantiated implications whose guards are known."""
    out = []
    gs = set(hy)
    for h in hy:
        if h.op == "or":
            rest = [a for a in h.args if T.not_(a) not in gs]
            if len(rest) == 1:
                out.append(rest[0])
            elif len(rest) > 1:
                eqs = [a for a in rest if a.op in ("eq0", "and")]
                if len(eqs) == 1:
                    others = [a for a in rest if a is not eqs[0]]
                    if all(quick(T.not_(a), hy, 0.5) for a in others):
                        out.append(eqs[0])
    return out


def pick_ite(t):
    best = None
    for u in T.subterms([t]):
        if u.op == "ite" and not contains_bv(u.args[0]):
            if best is None or u.args[0].id < best.id:
                best = u.args[0]
    return best


def ground_only(hyps):
    return [h for h in hyps if h.op != "forall"]


def flatten_and(hs):
    out = []
    for h in hs:
        if h.op == "and":
            out.extend(flatten_and(h.args))
        else:
            out.append(h)
    return out


def smt(goal, hyps, timeout, bv, use_cvc5, t0):
    hy = instantiate(hyps, [goal])
    base = hy + axioms_for([goal] + hy)
    base = base + pair_axioms([goal] + hy)
    base += instantiate([h for h in hyps if h.op in ("forall",)], base, rounds=1)
    base = list(dict.fromkeys(base))
    rel = relevant(goal, base)
    if bv is None and pure_real(goal):
        # cheap slices first: purely real hypotheses, special atoms opaque, then with their axioms
        for slice_, tmo in ((relevant1(goal, flatten_and(hy)), 2.0), (rel, min(6.0, timeout * 0.3))):
            pr = [h for h in slice_ if pure_real(h)]
            if len(pr) == len(rel):
                break
            st, m, enc, dt, be = z3_refute(pr, goal, tmo)
            if st == "unsat":
                return Result("proved", be, time.time() - t0)
    st, m, enc, dt, be = z3_refute(rel, goal, timeout, bv)
    if st == "unsat":
        return Result("proved", be, time.time() - t0)
    if st == "unknown" and use_cvc5 and bv is None:
        c, dt2 = cvc5_refute(rel, goal, timeout)
        if c == "unsat":
            return Result("proved", "cvc5", time.time() - t0)
    if st == "sat":
        return Result("refuted", be, time.time() - t0, m if isinstance(m, Model) else Model(m, enc))
    return Result("unknown", be, time.time() - t0)


_PURE: dict = {}


def pure_real(t):
    """No integer arithmetic outside the arguments of applications."""
    r = _PURE.get(t.id)
    if r is None:
        if t.op == "app":
            r = t.sort == T.R
        elif t.op in T.BINDERS or t.sort == T.I or t.op == "toR":
            r = False
        else:
            r = all(pure_real(c) for c in T.children(t))
        _PURE[t.id] = r
    return r


class Model:
    """Values of the input atoms in a z3 model."""

    def __init__(self, m, enc):
        self.vals = {}
        self.raw = {}
        for aid, (z, u) in enc.atoms.items():
            v = m.eval(z, model_completion=True)
            x = to_py(v)
            if x is None:
                continue
            self.raw[u.id] = x
        # input variables and tensor elements
        ev = _ModelEnv(self)
        for aid, (z, u) in enc.atoms.items():
            if u.op == "var" and u.id in self.raw:
                self.vals[u.args[0]] = self.raw[u.id]
        for aid, (z, u) in enc.atoms.items():
            if u.op == "app" and u.id in self.raw:
                try:
                    idx = tuple(T.evaluate(a, ev) for a in u.args[1:])
                except Exception:
                    continue
                self.vals[(u.args[0],) + idx] = self.raw[u.id]


class _ModelEnv:
    def __init__(self, m):
        self.m = m

    def var(self, u):
        return self.m.raw.get(u.id, 0)

    def app(self, u, idx):
        return self.m.raw.get(u.id, 0)


def to_py(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_bv_value(v):
        return v.as_signed_long()
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return None
