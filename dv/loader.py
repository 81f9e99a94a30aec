"""Load the real source of /repo's ``artist`` package with torch replaced by the symbolic semantics.

What the loading drops or replaces (everything else is executed as written):
  * ``import torch[...]`` resolves to dv.symtorch, ``math`` to a symbolic-aware wrapper, ``torchvision``
    to an empty module; every other import is the real one;
  * the builtins int, float, bool, abs, min, max, sum, len, round, range, any, all, isinstance,
    enumerate, zip, sorted accept symbolic scalars and tensors;
  * an empty list display ``[]`` makes a list that can also hold symbolic runs of integers, and a comprehension over a
    symbolic range is reported as unsupported;
  * a ``for`` loop over a symbolic number of iterations is summarised by the loop rule in ``SymRange``.
"""

from __future__ import annotations

import ast
import builtins as B
import math as real_math
import os
import sys
import types

from . import terms as T
from . import symtorch as ST
from .ctx import Unsupported, ctx
from .sym import Sym, SymReal, term, wrap

REPO = os.environ.get("DV_REPO", "/repo")

_FAKE = None
_CODE: dict = {}


def fake_torch():
    global _FAKE
    if _FAKE is None:
        _FAKE = ST.build_modules()
    return _FAKE


# ---------------------------------------------------------------- builtins


def _issym(x):
    return B.isinstance(x, Sym) or B.hasattr(x, "_is_symtensor")


class _IntMeta(type):
    def __instancecheck__(cls, x):
        if B.isinstance(x, Sym):
            return x.term.sort == T.I
        return B.isinstance(x, B.int)

    def __subclasscheck__(cls, c):
        return B.issubclass(c, B.int)

    def __call__(cls, *a, **k):
        if a:
            x = a[0]
            if B.hasattr(x, "_is_symtensor"):
                x = x.item()
            if B.isinstance(x, Sym):
                t = x.term
                if t.sort == T.I:
                    return x
                if t.sort == T.B:
                    return wrap(T.to_int(t))
                u = T._unreal(t)
                if u is not None:
                    return wrap(u)
                if T.has_special(t):
                    raise Unsupported("int() of a possibly infinite value")
                if ctx().prove(T.le(T.ZERO, t)):
                    return wrap(T.floor(t))
                return wrap(T.ite(T.le(T.ZERO, t), T.floor(t), T.neg(T.floor(T.neg(t)))))
            a = (x,) + a[1:]
        return B.int(*a, **k)


class int_(B.int, metaclass=_IntMeta):
    pass


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        if B.isinstance(x, Sym):
            return x.term.sort == T.R
        return B.isinstance(x, B.float)

    def __subclasscheck__(cls, c):
        return B.issubclass(c, B.float)

    def __call__(cls, *a, **k):
        if a:
            x = a[0]
            if B.hasattr(x, "_is_symtensor"):
                x = x.item()
            if B.isinstance(x, Sym):
                return wrap(T.to_real(T.to_int(x.term) if x.term.sort == T.B else x.term))
            a = (x,) + a[1:]
        return B.float(*a, **k)


class float_(B.float, metaclass=_FloatMeta):
    pass


class _BoolMeta(type):
    def __instancecheck__(cls, x):
        if B.isinstance(x, Sym):
            return x.term.sort == T.B
        return B.isinstance(x, B.bool)

    def __subclasscheck__(cls, c):
        return B.issubclass(c, B.bool)

    def __call__(cls, *a):
        return B.bool(*a)


class bool_(B.int, metaclass=_BoolMeta):
    pass


_MAP = {int_: B.int, float_: B.float, bool_: B.bool}


def isinstance_(x, c):
    return B.isinstance(x, c)


def len_(x):
    if B.isinstance(x, ST.SymList):
        return x.n
    if B.hasattr(x, "_is_symtensor"):
        return x.shape[0]
    f = B.getattr(B.type(x), "__len__", None)
    if B.isinstance(f, types.FunctionType):
        return f(x)
    return B.len(x)


def abs_(x):
    return x.__abs__() if _issym(x) else B.abs(x)


def _mm(kind, a, k):
    key = k.get("key")
    if B.len(a) == 1:
        items = B.list(a[0])
        if not items and "default" in k:
            return k["default"]
    else:
        items = B.list(a)
    if key is None and B.any(_issym(x) for x in items) and B.all(B.isinstance(x, (Sym, B.int, B.float)) or B.hasattr(x, "_is_symtensor") for x in items):
        ts = [term(x) for x in items]
        if B.any(t.sort == T.R for t in ts):
            ts = [T.to_real(t) for t in ts]
        r = ts[0]
        for t in ts[1:]:
            # Python keeps the first on ties; the values are equal then
            lt = T.lt(t, r) if kind == "min" else T.lt(r, t)
            if ctx().prove(lt):
                r = t
            elif ctx().prove(T.not_(lt)):
                pass
            else:
                r = T.ite(lt, t, r)
        return wrap(r)
    f = B.min if kind == "min" else B.max
    return f(*a, **k)


def min_(*a, **k):
    return _mm("min", a, k)


def max_(*a, **k):
    return _mm("max", a, k)


def sum_(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def round_(x, n=None):
    if _issym(x):
        return x.__round__(n)
    return B.round(x) if n is None else B.round(x, n)


def any_(it):
    for x in it:
        if x:
            return True
    return False


def all_(it):
    for x in it:
        if not x:
            return False
    return True


def enumerate_(it, start=0):
    if B.isinstance(it, SymRange):
        return (((k + start), k) for k in it)
    if B.hasattr(it, "_is_symtensor") and B.isinstance(it.shape[0], Sym):
        return (((k + start), it[k]) for k in SymRange(it.shape[0]))
    return B.enumerate(it, start)


def zip_(*its, **kw):
    n = None
    for it in its:
        if B.isinstance(it, SymRange):
            n = it.n
        elif B.hasattr(it, "_is_symtensor") and B.isinstance(it.shape[0], Sym):
            n = it.shape[0]
    if n is None:
        return B.zip(*its, **kw)
    if not B.all(B.isinstance(i, SymRange) or B.hasattr(i, "_is_symtensor") for i in its):
        raise Unsupported("zip over a symbolic and a concrete sequence")
    return (tuple(it.at(k) if B.isinstance(it, SymRange) else it[k] for it in its) for k in SymRange(n))


class Seg:
    """The integers start, ..., start+n-1 inside a list."""

    def __init__(self, start, n):
        self.start, self.n = start, n


class LoopSeg:
    """What the iterations 0 <= k < n of a loop append: under each path condition its items."""

    def __init__(self, k, n, runs):
        self.k, self.n, self.runs = k, n, runs


class MList(B.list):
    def _sym(self):
        if B.any(B.isinstance(x, (Seg, LoopSeg)) for x in B.list.__iter__(self)):
            raise Unsupported("reading a list of symbolic length")

    def generic(self):
        """(k, n, item) for a list made of one item for every 0 <= k < n."""
        x = B.list(B.list.__iter__(self))
        if B.len(x) == 1 and B.isinstance(x[0], LoopSeg) and B.len(x[0].runs) == 1 and x[0].runs[0][0] is T.TRUE and B.len(x[0].runs[0][1]) == 1:
            return x[0].k, x[0].n, x[0].runs[0][1][0]
        return None

    def extend(self, it):
        if B.isinstance(it, SymRange):
            n = term(it.n)
            B.list.append(self, Seg(term(it.lo), n))
        elif B.isinstance(it, MList):
            for x in B.list.__iter__(it):
                B.list.append(self, x)
        else:
            for x in it:
                B.list.append(self, x)

    def __iter__(self):
        self._sym()
        return B.list.__iter__(self)

    def __len__(self):
        self._sym()
        return B.list.__len__(self)

    def __getitem__(self, i):
        self._sym()
        return B.list.__getitem__(self, i)


def occurrences(lst, i):
    """How often the integer term i occurs in a list."""

    def one(x):
        if B.isinstance(x, Seg):
            return T.to_int(T.and_(T.le(x.start, i), T.lt(i, T.add(x.start, x.n))))
        if B.isinstance(x, LoopSeg):
            def at(j):
                r = T.IZERO
                for pc, items in x.runs:
                    r = T.add(r, T.subst(T.ite(pc, many(items), T.IZERO), {x.k: j}))
                return r
            return T.psum(x.n, at)
        return T.to_int(T.eq(term(x), i))

    def many(items):
        return T.add(T.IZERO, *[one(x) for x in items])

    return many(B.list(B.list.__iter__(lst)))


class _Rewrite(ast.NodeTransformer):
    def visit_List(self, node):
        self.generic_visit(node)
        if not node.elts and B.isinstance(node.ctx, ast.Load):
            return ast.copy_location(ast.Call(ast.Name("__dv_list__", ast.Load()), [], []), node)
        return node

    def comp(self, node):
        self.generic_visit(node)
        for g in node.generators:
            g.iter = ast.copy_location(ast.Call(ast.Name("__dv_comp__", ast.Load()), [g.iter], []), g.iter)
        return node

    visit_SetComp = visit_DictComp = visit_GeneratorExp = comp

    def visit_ListComp(self, node):
        g = node.generators[0]
        if B.len(node.generators) > 1 or g.ifs or g.is_async or B.any(B.isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield)) for x in ast.walk(node)):
            return self.comp(node)
        self.generic_visit(node)
        one = ast.comprehension(g.target, ast.Tuple([ast.Name("__dv_v", ast.Load())], ast.Load()), [], 0)
        body = ast.Subscript(ast.ListComp(node.elt, [one]), ast.Constant(0), ast.Load())
        lam = ast.Lambda(ast.arguments([], [ast.arg("__dv_v")], None, [], [], None, []), body)
        return ast.copy_location(ast.Call(ast.Name("__dv_lc__", ast.Load()), [lam, g.iter], []), node)


def list_comp(f, it):
    """[f(x) for x in it], also over ranges and lists of symbolic length."""
    if B.isinstance(it, SymRange) and term(it.n).op != "c":
        n = term(it.n)
        k = T.fresh("comp", T.I)
        item = wrap(T.add(k, term(it.lo)))
    elif B.isinstance(it, MList) and it.generic() is not None:
        k, n, item = it.generic()
    else:
        return MList([f(x) for x in comp_iter(it)])
    c = ctx()
    h0, t0, a0 = B.list(c.hyps), B.list(c.taken), B.list(c.alternatives)
    v0 = [(t, t._ver()) for t in live_tensors()]
    c.hyps += [T.le(T.IZERO, k), T.lt(k, n)]
    try:
        r = f(item)
    finally:
        c.hyps[:] = h0
    if c.taken != t0 or c.alternatives != a0:
        raise Unsupported("a branch inside a comprehension of symbolic length")
    if B.any(t._ver() != v for t, v in v0):
        raise Unsupported("a write inside a comprehension of symbolic length")
    return MList([LoopSeg(k, n, [(T.TRUE, [r])])])


def comp_iter(it):
    if B.isinstance(it, SymRange) and term(it.n).op != "c":
        raise Unsupported("comprehension over a symbolic range")
    if B.isinstance(it, types.GeneratorType) and it.gi_code.co_filename == __file__:
        raise Unsupported("comprehension over a symbolic sequence")
    return it


class range_meta(type):
    def __instancecheck__(cls, x):
        return B.isinstance(x, (B.range, SymRange))

    def __call__(cls, *a):
        def norm(v):
            if B.hasattr(v, "_is_symtensor"):
                v = v.item()
            if B.isinstance(v, Sym) and v.term.op == "c":
                v = B.int(v.term.args[0])
            return v

        a = [norm(v) for v in a]
        if B.all(B.isinstance(v, B.int) for v in a):
            return B.range(*a)
        if B.len(a) == 1:
            return SymRange(a[0])
        if B.len(a) == 2:
            return SymRange(a[1] - a[0], a[0])
        return SymRange(None, a[0], a[2], stop=a[1])


class range_(metaclass=range_meta):
    pass


class SymRange:
    """range(lo, lo+n) for a symbolic n: the loop rule.

    The body is run once for a generic iteration k (0 <= k < n).  Tensors the body mutates are found
    by a dry run, then replaced by an arbitrary value H before the real run; the body must leave every
    cell outside ``{idx : idx[d] == k}`` equal to H, and what it writes inside must not depend on H
    (so iterations commute and no loop-carried state exists).  The result at idx is then the value
    written in iteration k := idx[d].  Anything else is Unsupported.
    """

    def __init__(self, n, lo=0, step=1, stop=None):
        self.n, self.lo, self.step, self.stop = n, lo, step, stop
        if step != 1:
            raise Unsupported("symbolic range with a step")

    def at(self, k):
        return self.lo + k

    def __len__(self):
        raise Unsupported("len of a symbolic range")

    def __iter__(self):
        c = ctx()
        n = term(self.n)
        if n.op == "c":
            for i in B.range(B.int(n.args[0])):
                yield self.lo + i
            return
        if c.decide(T.le(n, T.IZERO)):
            return
        live = live_tensors()
        before = {id(t): (t, t._ver(), t.snap()) for t in live if t._base is None}
        lo = T.lift(self.lo) if not B.isinstance(self.lo, Sym) else self.lo.term
        saved = (B.list(c.prefix), B.list(c.taken), B.list(c.alternatives), B.list(c.decided))
        hyps0, obl0 = B.list(c.hyps), B.list(c.obligations)
        frame = sys._getframe(1)
        while frame.f_code.co_filename == __file__ and frame.f_back is not None:
            frame = frame.f_back
        loc0 = caller_locals(frame)

        lists = [v for v in loc0.values() if B.isinstance(v, MList)]
        sizes0 = [B.list.__len__(v) for v in lists]

        def dirtied():
            return [t for t, v, s in before.values() if t._ver() != v] + [v for v, m in B.zip(lists, sizes0) if B.list.__len__(v) != m]

        def grown():
            r = {B.id(v): B.list(B.list.__iter__(v))[m:] for v, m in B.zip(lists, sizes0)}
            for v, m in B.zip(lists, sizes0):
                del v[m:]
            return r

        def check_locals():
            bad = changed_locals(frame, loc0)
            if bad:
                raise Unsupported(f"loop-carried local variable {bad}")

        # pass 1: finds what is written; its decisions are those of the enclosing path (they matter when the loop only checks)
        k = c.fresh_index(n, "loop")
        yield wrap(T.add(k, lo))
        check_locals()
        dirty = dirtied()
        stack = c.alternatives[B.len(saved[2]):]
        d0 = B.len(saved[1])
        after = (B.list(c.hyps), B.list(c.obligations), B.list(c.prefix), B.list(c.taken), B.list(c.alternatives), B.list(c.decided))
        c.escaping += 1
        while not dirty and stack:
            pre = stack.pop()
            c.hyps[:], c.obligations[:] = hyps0, obl0
            c.prefix, c.taken, c.alternatives, c.decided = pre, B.list(saved[1]), [], []
            k = c.fresh_index(n, "loop")
            yield wrap(T.add(k, lo))
            check_locals()
            stack.extend(c.alternatives)
            dirty = dirtied()
        if not dirty:
            c.hyps[:], c.obligations[:] = after[0], after[1]
            c.prefix, c.taken, c.alternatives, c.decided = after[2:]
            c.escaping -= 1
            return
        grown()
        dirty = {id(t): t for t in dirty if not B.isinstance(t, MList)}
        while True:
            havocs = {i: f"havoc{T.fresh('h', T.I).args[0]}" for i in dirty}
            runs, stack, again, obls = [], [[]], False, []
            k = T.fresh("loop", T.I)
            while stack:
                pre = stack.pop()
                c.hyps[:], c.obligations[:] = hyps0, []
                c.prefix, c.taken, c.alternatives, c.decided = pre, [], [], []
                c.assume(T.and_(T.le(T.IZERO, k), T.lt(k, n)))
                vers = {}
                for i, t in dirty.items():
                    t._set(lambda idx, name=havocs[i], sort=t.dtype.sort: T.app(name, idx, sort))
                    vers[i] = t._ver()
                others = {i: t._ver() for i, (t, v, s) in before.items() if i not in dirty}
                yield wrap(T.add(k, lo))
                check_locals()
                grew = grown()
                more = {i: t for i, (t, v, s) in before.items() if i in others and t._ver() != others[i]}
                if more:
                    for i, t in more.items():
                        t._set(before[i][2])
                    dirty.update(more)
                    again = True
                    break
                stack.extend(c.alternatives)
                obls.extend(c.obligations)
                runs.append((T.and_(*c.decided), {i: t.snap() for i, t in dirty.items()}, grew))
            if not again:
                break
        c.hyps[:], c.obligations[:] = hyps0, obl0 + obls
        c.prefix, c.taken, c.alternatives, c.decided = saved
        c.escaping -= 1
        names = set(havocs.values())
        for pc, _, _ in runs:
            if any_app(pc, names):
                raise Unsupported("a branch inside the loop depends on loop-carried state")
        for o in obls:
            if any_app(o[1], names):
                raise Unsupported("loop obligation depends on loop-carried state")
        for v in lists:
            segs = [(pc, g[B.id(v)]) for pc, _, g in runs if g[B.id(v)]]
            if segs:
                B.list.append(v, LoopSeg(k, n, segs))
        for i, t in dirty.items():

            def body(idx, i=i):
                r = runs[-1][1][i](idx)
                for pc, snaps, _ in runs[-2::-1]:
                    r = T.ite(pc, snaps[i](idx), r)
                return r

            t._set(summarise(t, havocs[i], body, before[i][2], k, n, names))


def any_app(t, names):
    return B.any(u.op == "app" and u.args[0] in names for u in T.subterms([t]))


def summarise(t, name, body, old, k, n, names):
    from . import solve as S

    nd = B.len(t.shape)
    sort = t.dtype.sort
    idx = tuple(T.fresh("li", T.I) for _ in B.range(nd))
    e = body(idx)
    hv = T.app(name, idx, sort)
    if e is hv:
        return old
    c = ctx()
    kin = c.hyps + [T.le(T.IZERO, k), T.lt(k, n)]
    # each iteration writes its own slice idx[d] == k only
    for d in B.range(nd):
        probe = T.fresh("lo", T.I)
        inside = tuple(probe if j == d else idx[j] for j in B.range(nd))
        v = body(inside)
        hv2 = T.app(name, inside, sort)
        ne = T.not_(T.eq(probe, k))
        out = S.assume_in(v, T.eq(probe, k), False)
        if out is not hv2:
            out = S.resolve_ites(v, kin + [ne])
        if out is not hv2:
            continue
        w = body(tuple(k if j == d else idx[j] for j in B.range(nd)))
        # what iteration k reads of its own slice is still the value from before the loop
        own = {u: old(u.args[1:]) for u in T.subterms([w]) if u.op == "app" and u.args[0] == name and u.args[1 + d] is k}
        if own:
            w = T.subst(w, own)
        if any_app(w, names):
            raise Unsupported("loop body reads what it writes")

        def nf(i, d=d, w=w):
            kk = i[d]
            val = T.subst(w, {**{idx[j]: i[j] for j in B.range(nd) if j != d}, k: kk})
            g = T.and_(T.le(T.IZERO, kk), T.lt(kk, n))
            return T.ite(g, val, old(i))

        return nf
    # running sums: every iteration adds something that does not depend on the running value
    if sort in (T.I, T.R):
        delta = add_part(e, hv)
        if delta is not None and not any_app(delta, names):
            return lambda i: T.add(old(i), T.psum(n, lambda kk: T.subst(delta, {**{idx[j]: i[j] for j in B.range(nd)}, k: kk})))
    raise Unsupported("loop writes are neither confined to one slice per iteration nor a running sum")


def add_part(e, hv):
    """delta with e == hv + delta, looking through case distinctions."""
    if e.op == "ite":
        a, b = add_part(e.args[1], hv), add_part(e.args[2], hv)
        return None if a is None or b is None else T.ite(e.args[0], a, b)
    return T.sub(e, hv)


def live_tensors():
    return [t for t in (r() for r in B.list(ST.LIVE.values())) if t is not None]


def caller_locals(frame):
    loc = dict(frame.f_locals)
    loc[".sizes"] = {k: B.len(v) for k, v in loc.items() if B.isinstance(v, (B.list, B.dict, B.set)) and not B.isinstance(v, MList)}
    return loc


def sizes(loc):
    return loc[".sizes"]


def changed_locals(frame, loc0):
    bad = []
    now = frame.f_locals
    for k, v in loc0.items():
        if k in now and now[k] is not v and not k.startswith("."):
            # loop targets change by design
            if _issym(v) or _issym(now[k]):
                bad.append(k)
            elif B.isinstance(v, (B.int, B.float)) and now[k] != v:
                bad.append(k)
    tg = loop_targets(frame)
    for k, v in loc0.items():
        if B.isinstance(v, (B.list, B.dict, B.set)) and not B.isinstance(v, MList) and now.get(k) is v and k in sizes(loc0) and B.len(v) != sizes(loc0)[k]:
            bad.append(k)
    return [b for b in bad if b not in tg]


def loop_targets(frame):
    """Names stored by the for-loop containing the current instruction (read from the code object)."""
    import dis

    names = set()
    prev = None
    for ins in dis.get_instructions(frame.f_code):
        if ins.opname in ("STORE_FAST", "STORE_NAME") and prev in ("FOR_ITER",):
            names.add(ins.argval)
        if prev == "UNPACK" and ins.opname in ("STORE_FAST", "STORE_NAME"):
            names.add(ins.argval)
        if ins.opname == "STORE_FAST_STORE_FAST":
            names.update(ins.argval)
        if ins.opname == "UNPACK_SEQUENCE" and prev == "FOR_ITER":
            prev = "UNPACK"
        elif prev == "UNPACK" and ins.opname == "STORE_FAST":
            prev = "UNPACK"
        else:
            prev = ins.opname
    return names


# ---------------------------------------------------------------- math


def _math():
    m = types.ModuleType("math")
    for k, v in real_math.__dict__.items():
        B.setattr(m, k, v)

    def one(name, f):
        r = B.getattr(real_math, name)

        def g(x):
            if _issym(x) or B.isinstance(x, Sym):
                return wrap(f(T.to_real(term(x))))
            return r(x)

        B.setattr(m, name, g)

    one("sqrt", T.sqrt)
    one("sin", T.sin)
    one("cos", T.cos)
    one("floor", T.floor)
    one("ceil", lambda t: T.neg(T.floor(T.neg(t))))
    one("exp", lambda t: T.fn("exp", t))
    one("log", lambda t: T.fn("log", t))
    one("radians", lambda t: T.mul(t, T.div(T.PI, T.rc(180))))
    one("degrees", lambda t: T.mul(t, T.div(T.rc(180), T.PI)))
    one("fabs", T.abs_)

    def isclose(a, b, **k):
        if _issym(a) or _issym(b):
            raise Unsupported("math.isclose of symbolic values")
        return real_math.isclose(a, b, **k)

    m.isclose = isclose
    return m


# ---------------------------------------------------------------- the loader


class Loader:
    def __init__(self, repo=None, overrides=None):
        self.repo = repo or REPO
        self.mods = {}
        self.math = _math()
        self.builtins = dict(B.__dict__)
        self.builtins.update(
            int=int_, float=float_, bool=bool_, abs=abs_, min=min_, max=max_, sum=sum_, len=len_, round=round_,
            any=any_, all=all_, enumerate=enumerate_, zip=zip_, range=range_, __dv_list__=MList, __dv_comp__=comp_iter, __dv_lc__=list_comp,
        )
        self.builtins["__import__"] = self._import
        self.overrides = overrides or {}
        self.sources = {}

    def _path(self, name):
        p = os.path.join(self.repo, *name.split("."))
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py"), True
        if os.path.exists(p + ".py"):
            return p + ".py", False
        return None, False

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        parent, _, leaf = name.rpartition(".")
        if parent:
            self.load(parent)
            if name in self.mods:
                return self.mods[name]
        path, pkg = self._path(name)
        if path is None:
            raise ModuleNotFoundError(f"No module named {name!r}")
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else parent
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__["__builtins__"] = self.builtins
        self.mods[name] = m
        code = _CODE.get(path)
        if code is None:
            with open(path) as f:
                src = f.read()
            code = compile(ast.fix_missing_locations(_Rewrite().visit(ast.parse(src, path))), path, "exec")
            _CODE[path] = code
        # (dataclasses look their module up there)
        known = sys.modules.setdefault(name, m)
        try:
            exec(code, m.__dict__)
        finally:
            if known is m:
                sys.modules.pop(name, None)
        if parent:
            B.setattr(self.mods[parent], leaf, m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"]
            parts = pkg.split(".")
            base = ".".join(parts[: B.len(parts) - (level - 1)])
            name = f"{base}.{name}" if name else base
        root = name.split(".")[0]
        if root == "artist":
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not B.hasattr(m, f) and self._path(f"{name}.{f}")[0]:
                        B.setattr(m, f, self.load(f"{name}.{f}"))
                return m
            return self.mods["artist"]
        if root == "torch":
            fk = fake_torch()
            if name not in fk:
                raise Unsupported(f"import {name}")
            return fk[name] if fromlist else fk["torch"]
        if root == "math":
            return self.math
        if root == "torchvision":
            m = types.ModuleType("torchvision")

            def missing(attr):
                if attr.startswith("__"):
                    raise AttributeError(attr)
                raise Unsupported("torchvision is not modelled")

            m.__getattr__ = missing
            return m
        return B.__import__(name, globals, locals, fromlist, level)


_LOADER = None


def get(name):
    """The symbolic incarnation of artist module ``name``."""
    global _LOADER
    if _LOADER is None:
        _LOADER = Loader()
    return _LOADER.load(name)


def fresh():
    global _LOADER
    _LOADER = Loader()
    return _LOADER
