"""Symbolic semantics of the part of torch the code under verification uses.

A tensor is a shape (Python ints or symbolic integers) and a function from index terms to element
terms, so batch sizes, ray counts, point counts ... stay symbolic.  Machine floats are mathematical
reals, machine integers are mathematical integers.  Every definition in this file is an assumed
contract on torch; ``dv.contract`` cross-checks the resulting terms against real torch executions of
the same functions on every run.
"""

from __future__ import annotations

import builtins
import itertools
import sys
import types
import weakref
from fractions import Fraction

from . import solve as S
from . import terms as T
from .ctx import Ctx, Unsupported, ctx
from .sym import Sym, SymReal, floordiv, idiv_simpl, mod, term, wrap

isinstance_ = builtins.isinstance
range_ = builtins.range
int_ = builtins.int
float_ = builtins.float
bool_ = builtins.bool
len_ = builtins.len


# ---------------------------------------------------------------- dtypes, devices


class dtype:
    def __init__(self, name, sort):
        self.name, self.sort = name, sort
        self.is_floating_point = sort == T.R

    def __repr__(self):
        return f"torch.{self.name}"


float32 = dtype("float32", T.R)
float64 = dtype("float64", T.R)
float16 = dtype("float16", T.R)
int32 = dtype("int32", T.I)
int64 = dtype("int64", T.I)
int16 = dtype("int16", T.I)
int8 = dtype("int8", T.I)
uint8 = dtype("uint8", T.I)
bool = dtype("bool", T.B)


class device:
    def __init__(self, type="cpu", index=None):
        if isinstance_(type, device):
            type = type.type
        self.type = str(type).split(":")[0]
        self.index = index

    def __repr__(self):
        return f"device(type='{self.type}')"

    def __eq__(self, o):
        return isinstance_(o, device) and o.type == self.type

    def __hash__(self):
        return hash(self.type)


_RANK = {T.B: 0, T.I: 1, T.R: 2}


def _join_dtype(*ds):
    best = None
    for d in ds:
        if best is None or _RANK[d.sort] > _RANK[best.sort]:
            best = d
    return best


class Size(tuple):
    def numel(self):
        r = 1
        for d in self:
            r = r * d
        return r

    def __getitem__(self, k):
        r = tuple.__getitem__(self, k)
        return Size(r) if isinstance_(k, slice) else r

    def __eq__(self, other):
        if not isinstance_(other, tuple):
            return False
        if len_(self) != len_(other):
            return False
        for a, b in zip(self, other):
            if not dim_eq(a, b):
                return False
        return True

    def __ne__(self, other):
        return not self.__eq__(other)

    __hash__ = tuple.__hash__

    def __add__(self, o):
        return Size(tuple.__add__(self, tuple(o)))


def dim_eq(a, b):
    """Decide equality of two dimensions (forks the path when it is open)."""
    if isinstance_(a, int_) and isinstance_(b, int_):
        return a == b
    ta, tb = dterm(a), dterm(b)
    if ta is tb:
        return True
    return ctx().decide(T.eq(ta, tb))


def dterm(d):
    return d.term if isinstance_(d, Sym) else T.ic(d)


def dwrap(t):
    return wrap(t)


def as_dim(v):
    if isinstance_(v, Tensor):
        v = v.item()
    if isinstance_(v, Sym):
        t = v.term
        if t.sort != T.I:
            t2 = T._unreal(t)
            if t2 is None:
                raise TypeError("shape must be an integer")
            t = t2
        return wrap(t)
    if isinstance_(v, builtins.float):
        raise TypeError("shape must be an integer")
    return int_(v)


def norm_shape(args):
    if len_(args) == 1 and isinstance_(args[0], (tuple, list)):
        args = tuple(args[0])
    return Size(as_dim(a) for a in args)


def _cast(t, sort):
    if t.sort == sort:
        return t
    if sort == T.R:
        return T.to_real(t)
    if sort == T.I:
        return T.to_int(t)
    return T.to_bool(t)


# ---------------------------------------------------------------- the tensor

LIVE: dict = {}  # id -> weakref of every tensor owning storage (used by the loop rule)


class OpaqueList:
    """A Python list of symbolic length: may only be printed."""

    def __repr__(self):
        return "[...]"

    def __format__(self, spec):
        return "[...]"

    def _no(self, *a, **k):
        raise Unsupported("list of a symbolic number of elements")

    __len__ = __iter__ = __getitem__ = __bool__ = __contains__ = __add__ = __eq__ = _no
    __hash__ = None


class SymList(OpaqueList):
    """A Python list of n opaque elements."""

    def __init__(self, n):
        self.n = n


class Tensor:
    _is_symtensor = True
    requires_grad = False
    grad = None
    is_leaf = True

    def __init__(self, shape, fn, dt, base=None):
        self._shape = shape if isinstance_(shape, Size) else Size(shape)
        self._raw = fn
        self._memo = {}
        self.dtype = dt
        self._base = base  # (base tensor, to_base(idx), from_base(idx)->(cond, idx))
        self._version = 0
        self._basever = None if base is None else base[0]._ver()
        self.tag = None
        if base is None:
            k = id(self)
            LIVE[k] = weakref.ref(self, lambda _, k=k: LIVE.pop(k, None))

    # --- structure
    @property
    def shape(self):
        return self._shape

    @property
    def ndim_(self):
        return len_(self._shape)

    @property
    def ndim(self):
        return len_(self._shape)

    def dim(self):
        return len_(self._shape)

    def size(self, dim=None):
        return self._shape if dim is None else self._shape[dim]

    def numel(self):
        return self._shape.numel()

    nelement = numel

    def element_size(self):
        return 4

    @property
    def device(self):
        return device("cpu")

    @property
    def is_cuda(self):
        return False

    def _ver(self):
        if self._base is not None:
            return (self._version, self._base[0]._ver())
        return (self._version,)

    # --- elements
    def elem(self, idx):
        """Current element at a tuple of integer terms."""
        if self._base is not None:
            b, to_base, _ = self._base
            return b.elem(to_base(idx))
        key = idx
        r = self._memo.get(key)
        if r is None:
            r = self._raw(idx)
            if r.sort != self.dtype.sort:
                r = _cast(r, self.dtype.sort)
            self._memo[key] = r
        return r

    def snap(self):
        """A frozen element function."""
        if self._base is not None:
            b, to_base, _ = self._base
            f = b.snap()
            return lambda idx: f(to_base(idx))
        raw, memo, s = self._raw, self._memo, self.dtype.sort

        def f(idx):
            r = memo.get(idx)
            if r is None:
                r = raw(idx)
                if r.sort != s:
                    r = _cast(r, s)
                memo[idx] = r
            return r

        return f

    def _set(self, fn):
        """Replace the contents (in place), writing through views."""
        if self._base is not None:
            b, to_base, from_base = self._base
            old = b.snap()
            dt = self.dtype.sort

            def nf(idx):
                cond, vi = from_base(idx)
                if cond is T.FALSE:
                    return old(idx)
                return T.ite(cond, _cast(fn(vi), dt), old(idx))

            b._set(nf)
            return
        self._raw = fn
        self._memo = {}
        self._version += 1

    # --- scalars
    def item(self):
        for d in self._shape:
            if not (isinstance_(d, int_) and d == 1):
                if not dim_eq(d, 1):
                    raise RuntimeError("a Tensor with more than one element cannot be converted to Scalar")
        return wrap(self.elem(tuple(T.IZERO for _ in self._shape)))

    def __bool__(self):
        v = self.item()
        if isinstance_(v, Sym):
            return ctx().decide(T.to_bool(v.term))
        return bool_(v)

    def __index__(self):
        v = self.item()
        if isinstance_(v, int_):
            return v
        raise Unsupported("symbolic tensor value used as a concrete integer")

    def __int__(self):
        v = self.item()
        if isinstance_(v, (int_, SymReal)):
            return int_(v)
        raise Unsupported("int(tensor) outside instrumented code")

    def __float__(self):
        v = self.item()
        return float_(v)

    def __len__(self):
        d = self._shape[0]
        if isinstance_(d, int_):
            return d
        raise Unsupported("len() of a symbolic dimension outside instrumented code")

    def __iter__(self):
        d = self._shape[0]
        if isinstance_(d, int_):
            return iter([self[i] for i in range_(d)])
        raise Unsupported("iteration over a symbolic dimension")

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return f"SymTensor(shape={tuple(self._shape)}, dtype={self.dtype})"

    def __format__(self, spec):
        return repr(self)

    def tolist(self):
        def go(prefix, shape):
            if not shape:
                return wrap(self.elem(prefix))
            if not isinstance_(shape[0], int_):
                return OpaqueList()
            return [go(prefix + (T.ic(i),), shape[1:]) for i in range_(shape[0])]

        return go((), tuple(self._shape))

    def numpy(self):
        raise Unsupported("numpy()")

    # --- no-ops
    def to(self, *a, **k):
        dt = None
        for x in list(a) + list(k.values()):
            if isinstance_(x, dtype):
                dt = x
            elif isinstance_(x, Tensor):
                dt = x.dtype
        if dt is not None and dt.sort != self.dtype.sort:
            return self._conv(dt)
        return self

    def _conv(self, dt):
        f = self.snap()
        s = dt.sort
        return Tensor(self._shape, lambda idx: _cast(f(idx), s), dt)

    def type(self, dt=None):
        return self if dt is None else self.to(dt)

    def type_as(self, o):
        return self.to(o.dtype)

    def float(self):
        return self.to(float32)

    def double(self):
        return self.to(float64)

    def long(self):
        return self.to(int64)

    def int(self):
        return self.to(int32)

    def bool(self):
        return self.to(bool)

    def cpu(self):
        return self

    def cuda(self, *a):
        return self

    def detach(self):
        return self

    @property
    def data(self):
        return self

    @data.setter
    def data(self, v):
        f = v.snap()
        self._set(f)

    def contiguous(self):
        return self

    def requires_grad_(self, v=True):
        return self

    def retain_grad(self):
        return None

    def clone(self, **k):
        return Tensor(self._shape, self.snap(), self.dtype)

    def copy_(self, o):
        return _inplace(self, lambda a, b: b, o)

    def is_floating_point(self):
        return self.dtype.sort == T.R

    def is_contiguous(self):
        return True

    # --- indexing
    def __getitem__(self, key):
        return _getitem(self, key)

    def __setitem__(self, key, value):
        _setitem(self, key, value)

    # --- views
    def view(self, *s):
        if len_(s) == 1 and isinstance_(s[0], dtype):
            raise Unsupported("reinterpreting view")
        return reshape(self, s[0] if len_(s) == 1 and isinstance_(s[0], (tuple, list)) else s)

    def view_as(self, o):
        return reshape(self, o.shape)

    def reshape(self, *s):
        return reshape(self, s[0] if len_(s) == 1 and isinstance_(s[0], (tuple, list)) else s)

    def unsqueeze(self, d):
        return unsqueeze(self, d)

    def squeeze(self, *d):
        return squeeze(self, *d)

    def flatten(self, start_dim=0, end_dim=-1):
        return flatten(self, start_dim, end_dim)

    def transpose(self, a, b):
        return transpose(self, a, b)

    def permute(self, *p):
        if len_(p) == 1 and isinstance_(p[0], (tuple, list)):
            p = tuple(p[0])
        return permute(self, p)

    def movedim(self, a, b):
        n = self.ndim
        order = [i for i in range_(n) if i != a % n]
        order.insert(b % n, a % n)
        return permute(self, order)

    @property
    def mT(self):
        return transpose(self, -1, -2)

    @property
    def T(self):
        if self.ndim < 2:
            return self
        return permute(self, tuple(reversed(range_(self.ndim))))

    def t(self):
        return self.T

    def expand(self, *s):
        return expand(self, s[0] if len_(s) == 1 and isinstance_(s[0], (tuple, list)) else s)

    def expand_as(self, o):
        return expand(self, o.shape)

    def repeat(self, *s):
        return repeat(self, s[0] if len_(s) == 1 and isinstance_(s[0], (tuple, list)) else s)

    def repeat_interleave(self, reps, dim=None, output_size=None):
        return repeat_interleave(self, reps, dim)

    def flip(self, *dims):
        return flip(self, dims[0] if len_(dims) == 1 and isinstance_(dims[0], (tuple, list)) else dims)

    def select(self, d, i):
        key = [slice(None)] * self.ndim
        key[d] = i
        return self[tuple(key)]

    def narrow(self, d, start, length):
        key = [slice(None)] * self.ndim
        key[d] = slice(start, start + length)
        return self[tuple(key)]

    def unbind(self, dim=0):
        return unbind(self, dim)

    def split(self, size, dim=0):
        return split(self, size, dim)

    def chunk(self, n, dim=0):
        return chunk(self, n, dim)

    # --- arithmetic
    def __neg__(self):
        return _map1(self, T.neg)

    def __pos__(self):
        return self

    def __abs__(self):
        return abs(self)

    def __add__(self, o):
        return add(self, o)

    __radd__ = __add__

    def __sub__(self, o):
        return sub(self, o)

    def __rsub__(self, o):
        return sub(o, self)

    def __mul__(self, o):
        return mul(self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return div(self, o)

    def __rtruediv__(self, o):
        return div(o, self)

    def __floordiv__(self, o):
        return floor_divide(self, o)

    def __rfloordiv__(self, o):
        return floor_divide(o, self)

    def __mod__(self, o):
        return remainder(self, o)

    def __rmod__(self, o):
        return remainder(o, self)

    def __pow__(self, o):
        return pow(self, o)

    def __rpow__(self, o):
        return pow(o, self)

    def __matmul__(self, o):
        return matmul(self, o)

    def __lt__(self, o):
        return lt(self, o)

    def __le__(self, o):
        return le(self, o)

    def __gt__(self, o):
        return gt(self, o)

    def __ge__(self, o):
        return ge(self, o)

    def __eq__(self, o):
        if o is None:
            return False
        return eq(self, o)

    def __ne__(self, o):
        if o is None:
            return True
        return ne(self, o)

    def __and__(self, o):
        return bitwise_and(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return bitwise_or(self, o)

    __ror__ = __or__

    def __xor__(self, o):
        return bitwise_xor(self, o)

    __rxor__ = __xor__

    def __invert__(self):
        return logical_not(self) if self.dtype.sort == T.B else sub(-1, self)

    def __lshift__(self, o):
        return _map2(self, o, lambda a, b: T.bitop("bshl", a, b), dt=self.dtype)

    def __rshift__(self, o):
        return _map2(self, o, lambda a, b: T.bitop("bshr", a, b), dt=self.dtype)

    # in-place
    def __iadd__(self, o):
        return self.add_(o)

    def __isub__(self, o):
        return self.sub_(o)

    def __imul__(self, o):
        return self.mul_(o)

    def __itruediv__(self, o):
        return self.div_(o)

    def __iand__(self, o):
        return _inplace(self, lambda a, b: T.and_(a, b) if a.sort == T.B else T.bitop("band", a, b), o)

    def __ior__(self, o):
        return _inplace(self, lambda a, b: T.or_(a, b) if a.sort == T.B else T.bitop("bor", a, b), o)

    def add_(self, o, alpha=1):
        return _inplace(self, lambda a, b: T.add(a, b if alpha == 1 else T.mul(term(alpha), b)), o)

    def sub_(self, o):
        return _inplace(self, T.sub, o)

    def mul_(self, o):
        return _inplace(self, T.mul, o)

    def div_(self, o):
        return _inplace(self, _tdiv, o)

    def fill_(self, v):
        return _inplace(self, lambda a, b: b, v)

    def zero_(self):
        return self.fill_(0)

    def clamp_(self, min=None, max=None):
        f = clamp(self, min, max).snap()
        self._set(f)
        return self

    def nan_to_num_(self, *a, **k):
        return self

    def scatter_add_(self, dim, index, src):
        return _scatter_add_(self, dim, index, src)

    def scatter_add(self, dim, index, src):
        return _scatter_add_(self.clone(), dim, index, src)

    def index_add_(self, dim, index, src, alpha=1):
        return _index_add_(self, dim, index, src, alpha)

    def index_add(self, dim, index, src, alpha=1):
        return _index_add_(self.clone(), dim, index, src, alpha)

    def index_put_(self, idx, values, accumulate=False):
        if accumulate:
            raise Unsupported("index_put_ accumulate")
        self[tuple(idx)] = values
        return self

    def masked_fill(self, m, v):
        return where(m, v, self)

    def masked_fill_(self, m, v):
        f = where(m, v, self).snap()
        self._set(f)
        return self

    def masked_select(self, m):
        return self[m]

    def index_select(self, dim, index):
        return index_select(self, dim, index)

    def gather(self, dim, index):
        return gather(self, dim, index)

    def take_along_dim(self, index, dim):
        return gather(self, dim, index)

    def nonzero(self, as_tuple=False):
        return nonzero(self, as_tuple=as_tuple)

    def where(self, c, o):
        return where(c, self, o)

    def new_zeros(self, *s, dtype=None, device=None):
        return zeros(*s, dtype=dtype or self.dtype)

    def new_ones(self, *s, dtype=None, device=None):
        return ones(*s, dtype=dtype or self.dtype)

    def new_empty(self, *s, dtype=None, device=None):
        return empty(*s, dtype=dtype or self.dtype)

    def new_full(self, s, v, dtype=None, device=None):
        return full(s, v, dtype=dtype or self.dtype)

    def new_tensor(self, v, **k):
        return tensor(v, dtype=self.dtype)

    def backward(self, *a, **k):
        return None

    def register_hook(self, *a, **k):
        return None


def _delegate(name):
    def m(self, *a, **k):
        return globals()[name](self, *a, **k)

    m.__name__ = name
    return m


for _n in (
    "sum mean prod max min amax amin argmax argmin any all abs sqrt rsqrt sin cos tan acos asin atan atan2 arccos arcsin "
    "arctan exp log log2 log1p expm1 tanh sigmoid floor ceil round trunc frac sign clamp clip square reciprocal pow norm cumsum sort argsort unique "
    "median std var isfinite isnan isinf isclose allclose equal lt le gt ge eq ne logical_and logical_or logical_not "
    "minimum maximum matmul mm bmm dot cross outer add sub mul div true_divide floor_divide remainder fmod diff diagonal trace neg "
    "deg2rad rad2deg softmax count_nonzero tile roll tril triu bitwise_and bitwise_or logsumexp addcmul lerp relu greater less "
    "greater_equal less_equal not_equal multiply divide subtract negative absolute hypot nan_to_num unflatten swapaxes inner mv"
).split():
    if not hasattr(Tensor, _n):
        setattr(Tensor, _n, _delegate(_n))


def swapaxes(x, a, b):
    return transpose(x, a, b)


Parameter_base = Tensor


# ---------------------------------------------------------------- broadcasting


def lift_tensor(v, like=None):
    if isinstance_(v, Tensor):
        return v
    if isinstance_(v, (list, tuple)):
        return tensor(v)
    t = term(v)
    dt = {T.R: float32, T.I: int64, T.B: bool}[t.sort]
    r = Tensor((), lambda idx: t, dt)
    r.scalar_ = True
    return r


def broadcast_dim(a, b):
    if isinstance_(a, int_) and isinstance_(b, int_):
        if a == b:
            return a
        if a == 1:
            return b
        if b == 1:
            return a
        raise RuntimeError(f"The size of tensor a ({a}) must match the size of tensor b ({b})")
    if isinstance_(a, int_) and a == 1:
        return b
    if isinstance_(b, int_) and b == 1:
        return a
    ta, tb = dterm(a), dterm(b)
    if ta is tb:
        return a
    c = ctx()
    if c.prove(T.eq(ta, tb)):
        return a if not isinstance_(a, int_) else a
    if c.decide(T.eq(ta, tb)):
        return b if isinstance_(b, int_) else a
    if c.decide(T.eq(ta, T.IONE)):
        return b
    if c.decide(T.eq(tb, T.IONE)):
        return a
    raise RuntimeError(f"The size of tensor a ({a}) must match the size of tensor b ({b})")


def broadcast_shapes(*shapes):
    n = builtins.max([len_(s) for s in shapes] or [0])
    out = []
    for k in range_(n):
        d = 1
        for s in shapes:
            j = k - (n - len_(s))
            if j >= 0:
                d = broadcast_dim(d, s[j])
        out.append(d)
    return Size(out)


def is_one(d):
    if isinstance_(d, int_):
        return d == 1
    return False


def bidx(shape, out, idx):
    """Index into a tensor of `shape` for broadcast position idx of `out`."""
    off = len_(out) - len_(shape)
    r = []
    for k, d in enumerate(shape):
        o = out[k + off]
        if is_one(d):
            r.append(T.IZERO)
        elif isinstance_(d, Sym) and not (isinstance_(o, Sym) and o.term is d.term) and not ctx_prove_eq(d, o):
            # the dimension is 1 on this path
            r.append(T.IZERO)
        else:
            r.append(idx[k + off])
    return tuple(r)


def ctx_prove_eq(a, b):
    c = ctx()
    return c.prove(T.eq(dterm(a), dterm(b)))


def _bc_reader(x, out):
    f = x.snap()
    shape = x.shape
    if len_(shape) == 0:
        return lambda idx: f(())
    # decide per-dimension behaviour once
    off = len_(out) - len_(shape)
    modes = []
    for k, d in enumerate(shape):
        o = out[k + off]
        if is_one(d):
            modes.append(is_one(o))
        elif isinstance_(d, int_) and isinstance_(o, int_):
            modes.append(True)
        else:
            modes.append(dterm(d) is dterm(o) or ctx_prove_eq(d, o))
    if off == 0 and builtins.all(modes):
        return f
    return lambda idx: f(tuple(idx[k + off] if m else T.IZERO for k, m in enumerate(modes)))


def _result_dtype(*xs):
    """torch promotion restricted to category (bool < int < float); 0-d python scalars only raise the category."""
    dims = [x for x in xs if x.ndim > 0]
    zero = [x for x in xs if x.ndim == 0]
    best = None
    for grp in (dims, [z for z in zero if not getattr(z, "scalar_", False)], [z for z in zero if getattr(z, "scalar_", False)]):
        for x in grp:
            if best is None or _RANK[x.dtype.sort] > _RANK[best.sort]:
                best = x.dtype
    return best


def _mapn(xs, f, dt=None):
    xs = [lift_tensor(x) for x in xs]
    out = broadcast_shapes(*[x.shape for x in xs])
    rs = [_bc_reader(x, out) for x in xs]
    d = dt or _result_dtype(*xs)
    r = Tensor(out, lambda idx: f(*[r(idx) for r in rs]), d)
    if builtins.all(getattr(x, "scalar_", False) for x in xs):
        pass
    return r


def _map2(a, b, f, dt=None):
    return _mapn((a, b), f, dt)


def _map1(x, f, dt=None):
    x = lift_tensor(x)
    g = x.snap()
    return Tensor(x.shape, lambda idx: f(g(idx)), dt or x.dtype)


def _inplace(x, f, o):
    o = lift_tensor(o)
    out = broadcast_shapes(x.shape, o.shape)
    if len_(out) != len_(x.shape):
        raise RuntimeError("in-place operation would change the shape")
    g, h = x.snap(), _bc_reader(o, x.shape)
    s = x.dtype.sort
    x._set(lambda idx: _cast(f(g(idx), h(idx)), s))
    return x


def _fl(x):
    """floating result dtype"""
    return x.dtype if x.dtype.sort == T.R else float32


def _real1(name):
    def f(x, *a, out=None):
        x = lift_tensor(x)
        return _map1(x, lambda t: T.fn(name, t), _fl(x))

    return f


# ---------------------------------------------------------------- arithmetic


def add(a, b, alpha=1):
    if alpha != 1:
        b = mul(b, alpha)
    return _map2(a, b, T.add)


def sub(a, b, alpha=1):
    if alpha != 1:
        b = mul(b, alpha)
    return _map2(a, b, T.sub)


def mul(a, b):
    return _map2(a, b, T.mul)


subtract, multiply = sub, mul


def _tdiv(a, b):
    return T.div(T.to_real(a), T.to_real(b))


def div(a, b, rounding_mode=None):
    if rounding_mode == "floor":
        return floor_divide(a, b)
    if rounding_mode == "trunc":
        return trunc(div(a, b))
    a, b = lift_tensor(a), lift_tensor(b)
    d = _result_dtype(a, b)
    return _map2(a, b, _tdiv, d if d.sort == T.R else float32)


true_divide = divide = div


def floor_divide(a, b):
    def f(x, y):
        if x.sort == T.I and y.sort == T.I:
            return idiv_simpl(x, y)
        return T.to_real(T.floor(T.div(T.to_real(x), T.to_real(y))))

    return _map2(a, b, f)


def remainder(a, b):
    def f(x, y):
        if x.sort == T.I and y.sort == T.I:
            return T.sub(x, T.mul(y, idiv_simpl(x, y)))
        return T.rmod(x, y)

    return _map2(a, b, f)


def fmod(a, b):
    def f(x, y):
        q = T.div(T.to_real(x), T.to_real(y))
        return T.sub(T.to_real(x), T.mul(T.to_real(y), T.to_real(T.to_int(q))))

    return _map2(a, b, f)


def pow(a, b):
    a, b = lift_tensor(a), lift_tensor(b)
    d = _result_dtype(a, b)
    return _map2(a, b, T.power, d)


def square(x):
    return _map1(x, lambda t: T.mul(t, t))


def neg(x):
    return -x


negative = neg


def abs(x):
    return _map1(x, T.abs_)


absolute = abs


def sqrt(x):
    x = lift_tensor(x)
    return _map1(x, T.sqrt, _fl(x))


def rsqrt(x):
    x = lift_tensor(x)
    return _map1(x, lambda t: T.inv(T.sqrt(t)), _fl(x))


def reciprocal(x):
    x = lift_tensor(x)
    return _map1(x, T.inv, _fl(x))


def sin(x):
    x = lift_tensor(x)
    return _map1(x, T.sin, _fl(x))


def cos(x):
    x = lift_tensor(x)
    return _map1(x, T.cos, _fl(x))


def tan(x):
    x = lift_tensor(x)
    return _map1(x, lambda t: T.div(T.sin(t), T.cos(t)), _fl(x))


acos = arccos = _real1("acos")
asin = arcsin = _real1("asin")
atan = arctan = _real1("atan")
exp = _real1("exp")
log = _real1("log")
tanh = _real1("tanh")
sigmoid = _real1("sigmoid")


def log1p(x):
    return log(x + 1)


def expm1(x):
    return exp(x) - 1


def atan2(a, b):
    return _map2(a, b, lambda y, x: T.fn("atan2", y, x), float32)


arctan2 = atan2


def hypot(a, b):
    return sqrt(a * a + b * b)


def floor(x):
    return _map1(x, lambda t: T.to_real(T.floor(t)) if t.sort == T.R else t)


def ceil(x):
    return _map1(x, lambda t: T.neg(T.to_real(T.floor(T.neg(t)))) if t.sort == T.R else t)


def trunc(x):
    return _map1(x, lambda t: T.to_real(T.to_int(t)))


def frac(x):
    return x - trunc(x)


def round(x, decimals=0):
    # half to even is approximated away from ties only: keep opaque at ties
    def f(t):
        if t.sort != T.R:
            return t
        if t.op == "c":
            return T.rc(builtins.round(T.cval(t)))
        return T.to_real(T.mk("roundhe", (t,), T.I))

    return _map1(x, f)


def _ax_round(u):
    x = u.args[0]
    r = T.to_real(u)
    h = T.rc(Fraction(1, 2))
    return [T.le(T.sub(x, h), r), T.le(r, T.add(x, h))]


S.AXIOM_HOOKS["roundhe"] = _ax_round


def sign(x):
    def f(t):
        z = T.num(0, t.sort)
        return T.ite(T.lt(z, t), T.num(1, t.sort), T.ite(T.eq(t, z), z, T.num(-1, t.sort)))

    return _map1(x, f)


def clamp(x, min=None, max=None):
    if min is not None:
        x = maximum(x, min)
    if max is not None:
        x = minimum(x, max)
    return x


clip = clamp


def clamp_min(x, m):
    return clamp(x, min=m)


def maximum(a, b):
    return _map2(a, b, lambda p, q: T.max_(*_same(p, q)))


def minimum(a, b):
    return _map2(a, b, lambda p, q: T.min_(*_same(p, q)))


fmax, fmin = maximum, minimum


def _same(p, q):
    if p.sort != q.sort:
        if T.B in (p.sort, q.sort):
            p, q = T.to_int(p), T.to_int(q)
        if p.sort != q.sort:
            p, q = T.to_real(p), T.to_real(q)
    return p, q


def deg2rad(x):
    return x * (T_pi / 180)


def rad2deg(x):
    return x * (180 / T_pi)


def relu(x):
    return clamp(x, min=0.0)


def lerp(a, b, w):
    return a + w * (b - a)


def addcmul(a, b, c, value=1):
    return a + value * b * c


def addcdiv(a, b, c, value=1):
    return a + value * b / c


def nan_to_num(x, *a, **k):
    return x


# comparisons


def _cmp(f):
    def g(a, b):
        return _map2(a, b, lambda p, q: f(*_same(p, q)), bool)

    return g


def _cmpraw(f):
    def g(p, q):
        if p.sort == T.B or q.sort == T.B:
            p, q = T.to_int(p), T.to_int(q)
            if p.sort != q.sort:
                p, q = T.to_real(p), T.to_real(q)
        return f(p, q)

    return g


lt = _cmp(_cmpraw(T.lt))
le = _cmp(_cmpraw(T.le))
gt = _cmp(_cmpraw(T.gt))
ge = _cmp(_cmpraw(T.ge))
eq = _cmp(T.eq)
ne = _cmp(lambda a, b: T.not_(T.eq(a, b)))
greater, less, greater_equal, less_equal, not_equal = gt, lt, ge, le, ne


def bitwise_and(a, b):
    return _map2(a, b, lambda x, y: T.and_(x, y) if x.sort == T.B and y.sort == T.B else T.bitop("band", T.to_int(x), T.to_int(y)))


def bitwise_or(a, b):
    return _map2(a, b, lambda x, y: T.or_(x, y) if x.sort == T.B and y.sort == T.B else T.bitop("bor", T.to_int(x), T.to_int(y)))


def bitwise_xor(a, b):
    def f(x, y):
        if x.sort == T.B and y.sort == T.B:
            return T.not_(T.eq(x, y))
        return T.bitop("bxor", T.to_int(x), T.to_int(y))

    return _map2(a, b, f)


def logical_and(a, b):
    return _map2(a, b, lambda x, y: T.and_(T.to_bool(x), T.to_bool(y)), bool)


def logical_or(a, b):
    return _map2(a, b, lambda x, y: T.or_(T.to_bool(x), T.to_bool(y)), bool)


def logical_xor(a, b):
    return _map2(a, b, lambda x, y: T.not_(T.eq(T.to_bool(x), T.to_bool(y))), bool)


def logical_not(a):
    return _map1(a, lambda x: T.not_(T.to_bool(x)), bool)


bitwise_not = logical_not


def isfinite(x):
    def f(t):
        return T.ite(T.TRUE, T.not_(special_cond(t)), T.FALSE)

    return _map1(x, f, bool)


def isinf(x):
    return _map1(x, lambda t: special_cond(t, ("inf", "ninf")), bool)


def isnan(x):
    return _map1(x, lambda t: special_cond(t, ("nan",)), bool)


def special_cond(t, kinds=("inf", "ninf", "nan")):
    if t.op in kinds:
        return T.TRUE
    if t.op == "ite":
        a, b = special_cond(t.args[1], kinds), special_cond(t.args[2], kinds)
        return T.ite(t.args[0], a, b)
    return T.FALSE


def where(c, a=None, b=None):
    c = lift_tensor(c)
    if a is None:
        return nonzero(c, as_tuple=True)
    a, b = lift_tensor(a), lift_tensor(b)
    d = _result_dtype(a, b)
    return _mapn((c, a, b), lambda p, x, y: T.ite(T.to_bool(p), _cast(x, d.sort), _cast(y, d.sort)), d)


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def f(x, y):
        x, y = _same(x, y)
        return T.le(T.abs_(T.sub(x, y)), T.add(T.num(float_(atol)), T.mul(T.num(float_(rtol)), T.abs_(y))))

    return _map2(a, b, f, bool)


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = all(isclose(a, b, rtol, atol)).item()
    return bool_(r)


def equal(a, b):
    if len_(a.shape) != len_(b.shape):
        return False
    if a.shape != b.shape:
        return False
    return bool_(all(eq(a, b)).item())


# ---------------------------------------------------------------- creation


def _flat_const(data):
    """Nested lists of scalars/tensors -> (shape, flat list of terms)."""
    if isinstance_(data, Tensor):
        if data.ndim == 0:
            return (), [data.elem(())]
        shape = tuple(data.shape)
        for d in shape:
            if not isinstance_(d, int_):
                raise Unsupported("tensor() of a symbolic tensor in a list")
        return shape, [data.elem(tuple(T.ic(i) for i in ix)) for ix in itertools.product(*[range_(d) for d in shape])]
    if isinstance_(data, (list, tuple)) or type(data).__name__ in ("ndarray", "deque"):
        if type(data).__name__ == "ndarray":
            data = data.tolist()
            if not isinstance_(data, list):
                return _flat_const(data)
        parts = [_flat_const(d) for d in data]
        if not parts:
            return (0,), []
        sh = parts[0][0]
        for p in parts:
            if p[0] != sh:
                raise ValueError("expected sequence of equal length")
        out = []
        for p in parts:
            out.extend(p[1])
        return (len_(parts),) + sh, out
    return (), [term(data)]


def _from_flat(shape, flat, dt):
    strides = []
    s = 1
    for d in reversed(shape):
        strides.append(s)
        s *= d
    strides = list(reversed(strides))

    def fn(idx):
        pos = 0
        for k, i in enumerate(idx):
            if i.op != "c":
                break
            pos += int_(i.args[0]) * strides[k]
        else:
            return flat[pos]

        # symbolic position: nested selection
        def go(k, off):
            if k == len_(shape):
                return flat[off]
            i = idx[k]
            if i.op == "c":
                return go(k + 1, off + int_(i.args[0]) * strides[k])
            r = go(k + 1, off + (shape[k] - 1) * strides[k])
            for j in range_(shape[k] - 2, -1, -1):
                r = T.ite(T.eq(i, T.ic(j)), go(k + 1, off + j * strides[k]), r)
            return r

        return go(0, 0)

    return Tensor(shape, fn, dt)


def tensor(data, dtype=None, device=None, requires_grad=False):
    if isinstance_(data, Tensor):
        r = data.clone()
        return r.to(dtype) if dtype else r
    shape, flat = _flat_const(data)
    sort = T.B
    for f in flat:
        if _RANK[f.sort] > _RANK[sort]:
            sort = f.sort
    if not flat:
        sort = T.R
    dt = dtype or {T.R: float32, T.I: int64, T.B: bool}[sort]
    flat = [_cast(f, dt.sort) for f in flat]
    return _from_flat(shape, flat, dt)


def as_tensor(data, dtype=None, device=None):
    if isinstance_(data, Tensor):
        return data.to(dtype) if dtype else data
    return tensor(data, dtype)


def from_numpy(a):
    return tensor(a)


def is_tensor(x):
    return isinstance_(x, Tensor)


def full(shape, value, dtype=None, device=None, requires_grad=False, **k):
    if not isinstance_(shape, (tuple, list)):
        shape = (shape,)
    t = term(value)
    dt = dtype or {T.R: float32, T.I: int64, T.B: bool}[t.sort]
    t = _cast(t, dt.sort)
    return Tensor(norm_shape(shape), lambda idx: t, dt)


def zeros(*shape, dtype=None, device=None, requires_grad=False, size=None, **k):
    if size is not None:
        shape = (size,)
    dt = dtype or float32
    z = _cast(T.IZERO, dt.sort)
    return Tensor(norm_shape(shape), lambda idx: z, dt)


def ones(*shape, dtype=None, device=None, requires_grad=False, **k):
    dt = dtype or float32
    z = _cast(T.IONE, dt.sort)
    return Tensor(norm_shape(shape), lambda idx: z, dt)


_EMPTY = [0]


def empty(*shape, dtype=None, device=None, requires_grad=False, **k):
    """Uninitialised memory: an arbitrary tensor."""
    dt = dtype or float32
    _EMPTY[0] += 1
    nm = f"uninit!{_EMPTY[0]}"
    return Tensor(norm_shape(shape), lambda idx: T.app(nm, idx, dt.sort), dt)


def zeros_like(x, dtype=None, device=None, **k):
    return zeros(x.shape, dtype=dtype or x.dtype)


def ones_like(x, dtype=None, device=None, **k):
    return ones(x.shape, dtype=dtype or x.dtype)


def empty_like(x, dtype=None, device=None, **k):
    return empty(x.shape, dtype=dtype or x.dtype)


def full_like(x, v, dtype=None, device=None, **k):
    return full(x.shape, v, dtype=dtype or x.dtype)


def eye(n, m=None, dtype=None, device=None, **k):
    m = n if m is None else m
    dt = dtype or float32
    return Tensor(norm_shape((n, m)), lambda idx: T.ite(T.eq(idx[0], idx[1]), _cast(T.IONE, dt.sort), _cast(T.IZERO, dt.sort)), dt)


def arange(start, end=None, step=1, dtype=None, device=None, **k):
    if end is None:
        start, end = 0, start
    a, b, s = term(start), term(end), term(step)
    if a.sort == T.I and b.sort == T.I and s.sort == T.I:
        if s is T.IONE:
            n = T.sub(b, a)
        else:
            n = T.neg(floordiv(T.sub(a, b), s))  # ceil((b-a)/s)
        dt = dtype or int64
    else:
        n = T.neg(T.floor(T.neg(T.div(T.sub(T.to_real(b), T.to_real(a)), T.to_real(s)))))
        dt = dtype or float32
    n = _nonneg(n)
    return Tensor((wrap(n),), lambda idx: _cast(T.add(a, T.mul(s, idx[0])), dt.sort), dt)


def _nonneg(n):
    if n.op == "c":
        return n if T.cval(n) >= 0 else T.IZERO
    c = ctx()
    if c is not None and c.prove(T.le(T.IZERO, n)):
        return n
    return T.max_(n, T.IZERO)


def linspace(start, end, steps, dtype=None, device=None, **k):
    a, b = T.to_real(term(start)), T.to_real(term(end))
    n = as_dim(steps)
    nt = T.to_real(dterm(n))
    if T.sub(T.sub(b, a), T.sub(nt, T.ONE)) is T.ZERO:
        return Tensor((n,), lambda idx: T.add(a, T.to_real(idx[0])), dtype or float32)

    def fn(idx):
        if isinstance_(n, int_) and n == 1:
            return a
        st = T.div(T.sub(b, a), T.sub(nt, T.ONE))
        v = T.add(a, T.mul(T.to_real(idx[0]), st))
        if isinstance_(n, int_):
            return v
        return T.ite(T.eq(nt, T.ONE), a, v)

    return Tensor((n,), fn, dtype or float32)


def meshgrid(*xs, indexing="ij"):
    if len_(xs) == 1 and isinstance_(xs[0], (tuple, list)):
        xs = tuple(xs[0])
    if indexing == "xy":
        xs = (xs[1], xs[0]) + tuple(xs[2:])
    shape = Size(x.shape[0] for x in xs)
    out = []
    for k, x in enumerate(xs):
        f = x.snap()
        out.append(Tensor(shape, (lambda f, k: lambda idx: f((idx[k],)))(f, k), x.dtype))
    if indexing == "xy":
        out = [transpose(o, 0, 1) for o in out]
        out = [out[1], out[0]] + out[2:]
    return tuple(out)


def cartesian_prod(*xs):
    if len_(xs) == 1:
        return xs[0]
    ds = [x.shape[0] for x in xs]
    fs = [x.snap() for x in xs]
    total = 1
    for d in ds:
        total = total * d
    k = len_(xs)

    def fn(idx):
        ii = unflatten_index(idx[0], ds)
        j = idx[1]
        if j.op == "c":
            return fs[int_(j.args[0])]((ii[int_(j.args[0])],))
        r = fs[-1]((ii[-1],))
        for q in range_(k - 2, -1, -1):
            r = T.ite(T.eq(j, T.ic(q)), fs[q]((ii[q],)), r)
        return r

    return Tensor((total, k), fn, xs[0].dtype)


def unflatten_index(i, dims):
    """Row-major multi-index of a flat index."""
    if len_(dims) == 1:
        return (i,)
    out = []
    for k in range_(len_(dims)):
        rest = T.IONE
        for d in dims[k + 1 :]:
            rest = T.mul(rest, dterm(d))
        q = idiv_simpl(i, rest) if rest is not T.IONE else i
        out.append(q)
        if rest is not T.IONE:
            i = T.sub(i, T.mul(q, rest))
    return tuple(out)


def flatten_index(idx, dims):
    r = T.IZERO
    for k, i in enumerate(idx):
        r = T.add(T.mul(r, dterm(dims[k])), i)
    return r


# ---------------------------------------------------------------- shape manipulation


def _view(base, shape, to_base, from_base):
    return Tensor(shape, None, base.dtype, (base, to_base, from_base))


def unsqueeze(x, d):
    n = x.ndim
    d = d % (n + 1)
    shape = tuple(x.shape[:d]) + (1,) + tuple(x.shape[d:])
    return _view(x, shape, lambda i: i[:d] + i[d + 1 :], lambda i: (T.TRUE, i[:d] + (T.IZERO,) + i[d:]))


def squeeze(x, *dims):
    if len_(dims) == 1 and isinstance_(dims[0], (tuple, list)):
        dims = tuple(dims[0])
    n = x.ndim
    if not dims or dims == (None,):
        drop = [k for k in range_(n) if isinstance_(x.shape[k], int_) and x.shape[k] == 1]
        for k in range_(n):
            if not isinstance_(x.shape[k], int_) and dim_eq(x.shape[k], 1):
                drop.append(k)
    else:
        drop = []
        for d in dims:
            d = d % n if n else 0
            if n and (is_one(x.shape[d]) or (not isinstance_(x.shape[d], int_) and dim_eq(x.shape[d], 1))):
                drop.append(d)
    keep = [k for k in range_(n) if k not in drop]
    shape = tuple(x.shape[k] for k in keep)

    def to_base(i):
        r = [T.IZERO] * n
        for a, k in zip(i, keep):
            r[k] = a
        return tuple(r)

    return _view(x, shape, to_base, lambda i: (T.TRUE, tuple(i[k] for k in keep)))


def permute(x, p, *rest):
    if rest:
        p = (p,) + rest
    n = x.ndim
    p = [q % n for q in p]
    shape = tuple(x.shape[q] for q in p)
    inv = [p.index(k) for k in range_(n)]
    return _view(x, shape, lambda i: tuple(i[inv[k]] for k in range_(n)), lambda i: (T.TRUE, tuple(i[p[k]] for k in range_(n))))


def transpose(x, a, b):
    n = x.ndim
    p = list(range_(n))
    p[a % n], p[b % n] = p[b % n], p[a % n]
    return permute(x, p)


def expand(x, shape):
    shape = [as_dim(s) for s in shape]
    off = len_(shape) - x.ndim
    out = []
    for k, s in enumerate(shape):
        if isinstance_(s, int_) and s == -1:
            out.append(x.shape[k - off])
        else:
            if k >= off:
                d = x.shape[k - off]
                if not is_one(d):
                    if not dim_eq(d, s):
                        if not dim_eq(d, 1):
                            raise RuntimeError(f"The expanded size of the tensor ({s}) must match the existing size ({d})")
            out.append(s)
    out = Size(out)
    f = _bc_reader(x, out)
    return Tensor(out, f, x.dtype)


broadcast_to = expand


def repeat(x, reps):
    reps = [as_dim(r) for r in reps]
    off = len_(reps) - x.ndim
    dims = [1] * off + list(x.shape)
    out = Size(d * r for d, r in zip(dims, reps))
    f = x.snap()

    def fn(idx):
        r = []
        for k in range_(off, len_(dims)):
            d, m, i = dims[k], reps[k], idx[k]
            if is_one(m):
                r.append(i)
            elif is_one(d):
                r.append(T.IZERO)
            else:
                r.append(T.sub(i, T.mul(dterm(d), idiv_simpl(i, dterm(d)))))
        return f(tuple(r))

    return Tensor(out, fn, x.dtype)


tile = repeat


def reshape(x, shape, *more):
    if more:
        shape = (shape,) + more
    if not isinstance_(shape, (tuple, list)):
        shape = (shape,)
    shape = [as_dim(s) for s in shape]
    neg1 = [k for k, s in enumerate(shape) if isinstance_(s, int_) and s == -1]
    old = list(x.shape)
    if neg1:
        k = neg1[0]
        # cancel syntactically equal factors
        num = [dterm(d) for d in old]
        den = [dterm(s) for j, s in enumerate(shape) if j != k]
        cn = T.mul(*num) if num else T.IONE
        cd = T.mul(*den) if den else T.IONE
        for t in list(den):
            if t in num and t.op != "c":
                num.remove(t)
                den.remove(t)
        cn, cd = (T.mul(*num) if num else T.IONE), (T.mul(*den) if den else T.IONE)
        if cd is T.IONE:
            v = cn
        else:
            v = cancel_div(cn, cd)
        shape[k] = wrap(v)
    total_old = T.mul(*[dterm(d) for d in old]) if old else T.IONE
    total_new = T.mul(*[dterm(d) for d in shape]) if shape else T.IONE
    if total_old is not total_new:
        if not poly_equal(total_old, total_new) and not ctx().decide(T.eq(total_old, total_new)):
            raise RuntimeError(f"shape '{shape}' is invalid for input of size {old}")
    shape = Size(shape)
    # drop ones, then match groups of dims from the left
    groups = _match_groups(old, list(shape))

    def to_base(idx):
        r = [T.IZERO] * len_(old)
        for og, ng in groups:
            if len_(og) == 1 and len_(ng) == 1:
                r[og[0]] = idx[ng[0]]
                continue
            if not og:
                continue
            flat = flatten_index([idx[k] for k in ng], [shape[k] for k in ng]) if ng else T.IZERO
            for k, v in zip(og, unflatten_index(flat, [old[k] for k in og])):
                r[k] = v
        return tuple(r)

    def from_base(idx):
        r = [T.IZERO] * len_(shape)
        for og, ng in groups:
            if len_(og) == 1 and len_(ng) == 1:
                r[ng[0]] = idx[og[0]]
                continue
            if not ng:
                continue
            flat = flatten_index([idx[k] for k in og], [old[k] for k in og]) if og else T.IZERO
            for k, v in zip(ng, unflatten_index(flat, [shape[k] for k in ng])):
                r[k] = v
        return T.TRUE, tuple(r)

    return _view(x, shape, to_base, from_base)


def poly_equal(a, b):
    from . import poly as P

    r = P.Ring()
    try:
        return r.poly(a) == r.poly(b)
    except P.TooBig:
        return False


def cancel_div(cn, cd):
    """cn / cd when cd divides cn exactly."""
    if cn.op == "c" and cd.op == "c":
        q = T.cval(cn) / T.cval(cd)
        if q.denominator != 1:
            raise RuntimeError("shape is invalid for input size")
        return T.ic(q)
    r = idiv_simpl(cn, cd)
    return r


def _match_groups(old, new):
    o = [k for k, d in enumerate(old) if not is_one(d)]
    n = [k for k, d in enumerate(new) if not is_one(d)]
    groups = []
    i = j = 0
    while i < len_(o) or j < len_(n):
        if i >= len_(o) or j >= len_(n):
            groups.append((o[i:], n[j:]))
            break
        og, ng = [o[i]], [n[j]]
        a, b = dterm(old[o[i]]), dterm(new[n[j]])
        i += 1
        j += 1
        while not (a is b or poly_equal(a, b) or _known_eq(a, b)):
            # extend the smaller side when comparable, otherwise everything
            if a.op == "c" and b.op == "c":
                if T.cval(a) < T.cval(b):
                    if i >= len_(o):
                        break
                    a = T.mul(a, dterm(old[o[i]]))
                    og.append(o[i])
                    i += 1
                else:
                    if j >= len_(n):
                        break
                    b = T.mul(b, dterm(new[n[j]]))
                    ng.append(n[j])
                    j += 1
                continue
            # try to find a prefix product match
            hit = False
            aa = a
            for q in range_(i, len_(o)):
                aa = T.mul(aa, dterm(old[o[q]]))
                if aa is b or poly_equal(aa, b):
                    og += o[i : q + 1]
                    i = q + 1
                    a = aa
                    hit = True
                    break
            if hit:
                continue
            bb = b
            for q in range_(j, len_(n)):
                bb = T.mul(bb, dterm(new[n[q]]))
                if bb is a or poly_equal(bb, a):
                    ng += n[j : q + 1]
                    j = q + 1
                    b = bb
                    hit = True
                    break
            if hit:
                continue
            og += o[i:]
            ng += n[j:]
            i, j = len_(o), len_(n)
            break
        groups.append((og, ng))
    return groups


def _known_eq(a, b):
    c = ctx()
    return c is not None and c.prove(T.eq(a, b))


def flatten(x, start_dim=0, end_dim=-1):
    n = x.ndim
    if n == 0:
        return reshape(x, (1,))
    s, e = start_dim % n, end_dim % n
    mid = 1
    for d in x.shape[s : e + 1]:
        mid = mid * d
    return reshape(x, tuple(x.shape[:s]) + (mid,) + tuple(x.shape[e + 1 :]))


ravel = flatten


def unflatten(x, dim, sizes):
    d = dim % x.ndim
    return reshape(x, tuple(x.shape[:d]) + tuple(sizes) + tuple(x.shape[d + 1 :]))


def flip(x, dims):
    if isinstance_(dims, int_):
        dims = (dims,)
    ds = [d % x.ndim for d in dims]
    f = x.snap()
    shape = x.shape

    def fn(idx):
        r = list(idx)
        for d in ds:
            r[d] = T.sub(T.sub(dterm(shape[d]), T.IONE), idx[d])
        return f(tuple(r))

    return Tensor(shape, fn, x.dtype)


def roll(x, shifts, dims=None):
    if dims is None:
        raise Unsupported("roll without dims")
    if isinstance_(shifts, int_):
        shifts, dims = (shifts,), (dims,)
    f = x.snap()
    shape = x.shape

    def fn(idx):
        r = list(idx)
        for s, d in zip(shifts, dims):
            d = d % len_(shape)
            n = dterm(shape[d])
            v = T.sub(idx[d], term(s))
            r[d] = T.sub(v, T.mul(n, idiv_simpl(v, n)))
        return f(tuple(r))

    return Tensor(shape, fn, x.dtype)


def stack(xs, dim=0):
    g = builtins.getattr(xs, "generic", None)
    g = g() if g is not None else None
    if g is not None:
        k, n, item = g
        item = lift_tensor(item)
        f, d = item.snap(), dim % (item.ndim + 1)
        return Tensor(tuple(item.shape[:d]) + (wrap(n),) + tuple(item.shape[d:]), lambda idx: T.subst(f(idx[:d] + idx[d + 1 :]), {k: idx[d]}), item.dtype)
    xs = [lift_tensor(x) for x in xs]
    if not xs:
        raise RuntimeError("stack expects a non-empty TensorList")
    n = xs[0].ndim + 1
    d = dim % n
    for x in xs[1:]:
        if x.shape != xs[0].shape:
            raise RuntimeError("stack expects each tensor to be equal size")
    fs = [x.snap() for x in xs]
    shape = tuple(xs[0].shape[:d]) + (len_(xs),) + tuple(xs[0].shape[d:])
    dt = _join_dtype(*[x.dtype for x in xs])

    def fn(idx):
        j = idx[d]
        rest = idx[:d] + idx[d + 1 :]
        if j.op == "c":
            return fs[int_(j.args[0])](rest)
        r = fs[-1](rest)
        for q in range_(len_(fs) - 2, -1, -1):
            r = T.ite(T.eq(j, T.ic(q)), fs[q](rest), r)
        return r

    return Tensor(shape, fn, dt)


def cat(xs, dim=0, **k):
    xs = [lift_tensor(x) for x in xs]
    xs0 = [x for x in xs if not (x.ndim == 1 and isinstance_(x.shape[0], int_) and x.shape[0] == 0 and builtins.any(y.ndim != 1 for y in xs))]
    xs = xs0 or xs
    if len_(xs) == 0:
        raise RuntimeError("expected a non-empty list of Tensors")
    n = xs[0].ndim
    d = dim % n
    shape = list(xs[0].shape)
    tot = xs[0].shape[d]
    for x in xs[1:]:
        if x.ndim != n:
            raise RuntimeError("Tensors must have same number of dimensions")
        for k in range_(n):
            if k != d and not dim_eq(shape[k], x.shape[k]):
                raise RuntimeError("Sizes of tensors must match except in dimension")
        tot = tot + x.shape[d]
    shape[d] = tot
    dt = _join_dtype(*[x.dtype for x in xs])
    fs = [x.snap() for x in xs]
    offs = []
    o = 0
    for x in xs:
        offs.append(o)
        o = o + x.shape[d]

    def fn(idx):
        j = idx[d]
        r = None
        for q in range_(len_(fs) - 1, -1, -1):
            sz = xs[q].shape[d]
            if isinstance_(sz, int_) and sz == 0:
                continue
            off = dterm(offs[q])
            inside = T.le(off, j)
            if r is None:
                r = ("last", q, off)
                last = (q, off)
                continue
            break

        def at(q):
            off = dterm(offs[q])
            return fs[q](idx[:d] + (T.sub(j, off),) + idx[d + 1 :])

        live = [q for q in range_(len_(fs)) if not (isinstance_(xs[q].shape[d], int_) and xs[q].shape[d] == 0)]
        if not live:
            return at(0)
        # evaluate only feasible pieces
        res = None
        for q in reversed(live):
            off = dterm(offs[q])
            if q == live[-1] or res is None:
                end_ok = T.le(off, j)
                if end_ok is T.FALSE:
                    continue
                res = at(q)
                continue
            nxt = dterm(offs[q] + xs[q].shape[d])
            c = T.lt(j, nxt)
            if c is T.FALSE:
                continue
            lo = T.le(off, j)
            if lo is T.FALSE:
                continue
            res = T.ite(c, at(q), res)
        if res is None:
            res = at(live[0])
        return res

    return Tensor(shape, fn, dt)


concat = concatenate = cat


def hstack(xs):
    return cat(xs, 0 if xs[0].ndim == 1 else 1)


def vstack(xs):
    return cat([x.unsqueeze(0) if x.ndim == 1 else x for x in xs], 0)


def unbind(x, dim=0):
    d = dim % x.ndim
    n = x.shape[d]
    if not isinstance_(n, int_):
        raise Unsupported("unbind over a symbolic dimension")
    key = [slice(None)] * x.ndim
    out = []
    for i in range_(n):
        key[d] = i
        out.append(x[tuple(key)])
    return tuple(out)


def split(x, size, dim=0):
    d = dim % x.ndim
    n = x.shape[d]
    out = []
    key = [slice(None)] * x.ndim
    if isinstance_(size, (list, tuple)):
        o = 0
        for s in size:
            key[d] = slice(o, o + s)
            out.append(x[tuple(key)])
            o = o + s
        return tuple(out)
    if not isinstance_(n, int_):
        raise Unsupported("split over a symbolic dimension")
    for o in range_(0, n, size):
        key[d] = slice(o, builtins.min(o + size, n))
        out.append(x[tuple(key)])
    return tuple(out)


def chunk(x, n, dim=0):
    d = dim % x.ndim
    sz = x.shape[d]
    if not isinstance_(sz, int_):
        raise Unsupported("chunk over a symbolic dimension")
    return split(x, -(-sz // n), dim)


def diagonal(x, offset=0, dim1=0, dim2=1):
    if offset != 0:
        raise Unsupported("diagonal offset")
    n = x.ndim
    a, b = dim1 % n, dim2 % n
    keep = [k for k in range_(n) if k not in (a, b)]
    f = x.snap()

    def fn(idx):
        r = [None] * n
        for k, i in zip(keep, idx[:-1]):
            r[k] = i
        r[a] = r[b] = idx[-1]
        return f(tuple(r))

    return Tensor(tuple(x.shape[k] for k in keep) + (x.shape[a],), fn, x.dtype)


def trace(x):
    return sum(diagonal(x))


def diag(x):
    if x.ndim == 2:
        return diagonal(x)
    f = x.snap()
    z = T.num(0, x.dtype.sort)
    return Tensor((x.shape[0], x.shape[0]), lambda i: T.ite(T.eq(i[0], i[1]), f((i[0],)), z), x.dtype)


diag_embed = diag


# ---------------------------------------------------------------- reductions


def _dims(x, dim):
    n = x.ndim
    if dim is None:
        return list(range_(n))
    if isinstance_(dim, (tuple, list)):
        return [d % n for d in dim]
    if n == 0:
        return []
    d = int_(dim)
    if d < -n or d >= n:
        raise IndexError(f"Dimension out of range (expected to be in range of [{-n}, {n-1}], but got {d})")
    return [d % n]


def _reduce(x, dim, keepdim, comb, dt):
    """comb(list of (dimension, k)) builds the reduction given an element reader."""
    ds = sorted(_dims(x, dim))
    f = x.snap()
    n = x.ndim
    keep = [k for k in range_(n) if k not in ds]
    shape = tuple((1 if k in ds else x.shape[k]) for k in range_(n)) if keepdim else tuple(x.shape[k] for k in keep)

    def fn(idx):
        base = [None] * n
        if keepdim:
            for k in keep:
                base[k] = idx[k]
        else:
            for k, i in zip(keep, idx):
                base[k] = i

        def read(red):
            b = list(base)
            for d, i in zip(ds, red):
                b[d] = i
            return f(tuple(b))

        return comb([dterm(x.shape[d]) for d in ds], read)

    return Tensor(shape, fn, dt)


def _sum_over(ns, read, lift=lambda t: t):
    def go(rest, idx):
        if not rest:
            return lift(read(idx))
        return T.psum(rest[0], lambda i: go(rest[1:], idx + (i,)))

    return go(list(ns), ())


def sum(x, dim=None, keepdim=False, dtype=None, axis=None):
    if axis is not None:
        dim = axis
    x = lift_tensor(x)
    dt = dtype or (int64 if x.dtype.sort != T.R else x.dtype)
    return _reduce(x, dim, keepdim, lambda ns, read: _sum_over(ns, read, lambda t: _cast(t, dt.sort)), dt)


def count_nonzero(x, dim=None):
    return sum(x != 0 if x.dtype.sort != T.B else x, dim)


def mean(x, dim=None, keepdim=False, dtype=None, axis=None):
    if axis is not None:
        dim = axis
    x = lift_tensor(x)

    def comb(ns, read):
        tot = T.IONE
        for n in ns:
            tot = T.mul(tot, n)
        return T.div(T.to_real(_sum_over(ns, read, T.to_real)), T.to_real(tot))

    return _reduce(x, dim, keepdim, comb, _fl(x))


def prod(x, dim=None, keepdim=False, dtype=None):
    x = lift_tensor(x)

    def comb(ns, read):
        cs = []
        for n in ns:
            if n.op != "c":
                raise Unsupported("prod over a symbolic dimension")
            cs.append(range_(int_(T.cval(n))))
        r = [read(tuple(T.ic(i) for i in ix)) for ix in itertools.product(*cs)]
        return T.mul(*r) if r else T.num(1, x.dtype.sort)

    return _reduce(x, dim, keepdim, comb, x.dtype)


def _quant(name):
    def f(x, dim=None, keepdim=False):
        x = lift_tensor(x)

        def comb(ns, read):
            g = lambda *i: T.to_bool(read(i))
            return T.forall(ns, g) if name == "all" else T.exists(ns, g)

        return _reduce(x, dim, keepdim, comb, bool)

    return f


all = _quant("all")
any = _quant("any")


class _VI(tuple):
    @property
    def values(self):
        return self[0]

    @property
    def indices(self):
        return self[1]


def _ext_comb(kind, want):
    better = (lambda a, b: T.lt(b, a)) if kind == "max" else (lambda a, b: T.lt(a, b))

    def comb(ns, read):
        if builtins.all(n.op == "c" for n in ns):
            best = None
            flat = 0
            for ix in itertools.product(*[range_(int_(T.cval(n))) for n in ns]):
                v = read(tuple(T.ic(i) for i in ix))
                if v.sort == T.B:
                    v = T.to_int(v)
                if best is None:
                    best = (v, T.ic(0))
                else:
                    c = better(v, best[0])
                    best = (T.ite(c, v, best[0]), T.ite(c, T.ic(flat), best[1]))
                flat += 1
            if best is None:
                raise RuntimeError("reduction over an empty dimension")
            return best[0] if want == "value" else best[1]
        if len_(ns) == 1:
            op = ("r" + kind) if want == "value" else ("arg" + kind)
            sample = read((T.IZERO,))
            return T.bind(op, ns[0], lambda i: read((i,)), sample.sort if want == "value" else T.I)
        if want == "value":
            # nested reductions
            def go(rest, idx):
                if not rest:
                    return read(idx)
                if rest[0].op == "c":
                    vals = [go(rest[1:], idx + (T.ic(i),)) for i in range_(int_(T.cval(rest[0])))]
                    r = vals[0]
                    for v in vals[1:]:
                        r = T.ite(better(v, r), v, r)
                    return r
                s = read(tuple(T.IZERO for _ in ns)).sort
                return T.bind("r" + kind, rest[0], lambda i: go(rest[1:], idx + (i,)), s)

            return go(list(ns), ())
        raise Unsupported("argmax over several symbolic dimensions")

    return comb


def _extremum(kind):
    def f(x, dim=None, keepdim=False, *, other=None):
        x = lift_tensor(x)
        if isinstance_(dim, Tensor):
            return maximum(x, dim) if kind == "max" else minimum(x, dim)
        dt = x.dtype if x.dtype.sort != T.B else int64
        if dim is None:
            return _reduce(x, None, False, _ext_comb(kind, "value"), dt)
        return _VI((_reduce(x, dim, keepdim, _ext_comb(kind, "value"), dt), _reduce(x, dim, keepdim, _ext_comb(kind, "index"), int64)))

    return f


max = _extremum("max")
min = _extremum("min")


def amax(x, dim=None, keepdim=False):
    return _reduce(x, dim, keepdim, _ext_comb("max", "value"), x.dtype)


def amin(x, dim=None, keepdim=False):
    return _reduce(x, dim, keepdim, _ext_comb("min", "value"), x.dtype)


def argmax(x, dim=None, keepdim=False):
    if dim is None:
        x, dim = flatten(x), 0
    return _reduce(x, dim, keepdim, _ext_comb("max", "index"), int64)


def argmin(x, dim=None, keepdim=False):
    if dim is None:
        x, dim = flatten(x), 0
    return _reduce(x, dim, keepdim, _ext_comb("min", "index"), int64)


def cumsum(x, dim):
    x = lift_tensor(x)
    d = int_(dim) % x.ndim
    f = x.snap()
    dt = x.dtype if x.dtype.sort == T.R else int64

    def fn(idx):
        return T.psum(T.add(idx[d], T.IONE), lambda j: _cast(f(idx[:d] + (j,) + idx[d + 1 :]), dt.sort))

    return Tensor(x.shape, fn, dt)


def diff(x, dim=-1):
    d = dim % x.ndim
    key1, key2 = [slice(None)] * x.ndim, [slice(None)] * x.ndim
    key1[d], key2[d] = slice(1, None), slice(None, -1)
    return x[tuple(key1)] - x[tuple(key2)]


def norm(x, p=2, dim=None, keepdim=False, dtype=None, ord=None, axis=None):
    if ord is not None:
        p = ord
    if axis is not None:
        dim = axis
    if p in (2, "fro", 2.0, None):
        return sqrt(sum(x * x, dim, keepdim))
    if p == 1:
        return sum(abs(x), dim, keepdim)
    raise Unsupported(f"norm p={p}")


def var(x, dim=None, unbiased=True, keepdim=False, correction=None):
    ds = _dims(x, dim)
    n = 1
    for d in ds:
        n = n * x.shape[d]
    m = mean(x, ds, keepdim=True)
    s = sum((x - m) ** 2, ds, keepdim)
    k = correction if correction is not None else (1 if unbiased else 0)
    return s / (n - k)


def std(x, dim=None, unbiased=True, keepdim=False, correction=None):
    return sqrt(var(x, dim, unbiased, keepdim, correction))


def logsumexp(x, dim, keepdim=False):
    return log(sum(exp(x), dim, keepdim))


def softmax(x, dim=-1):
    e = exp(x)
    return e / sum(e, dim, keepdim=True)


# ---------------------------------------------------------------- linear algebra


def _boxed(t):
    c = Ctx.cur
    return T.box(t) if c is not None and c.box and t.sort == T.R else t


def matmul(a, b):
    if a.ndim == 1 and b.ndim == 1:
        return dot(a, b)
    if a.ndim == 1:
        return squeeze(matmul(unsqueeze(a, 0), b), -2)
    if b.ndim == 1:
        return squeeze(matmul(a, unsqueeze(b, -1)), -1)
    ka, kb = a.shape[-1], b.shape[-2]
    if not dim_eq(ka, kb):
        raise RuntimeError(f"mat1 and mat2 shapes cannot be multiplied ({tuple(a.shape)} and {tuple(b.shape)})")
    batch = broadcast_shapes(a.shape[:-2], b.shape[:-2])
    fa = _bc_reader(a, Size(tuple(batch) + tuple(a.shape[-2:])))
    fb = _bc_reader(b, Size(tuple(batch) + tuple(b.shape[-2:])))
    kt = dterm(ka)
    dt = _join_dtype(a.dtype, b.dtype)

    def fn(idx):
        bi, i, j = idx[:-2], idx[-2], idx[-1]
        if kt.op == "c":
            return _boxed(T.add(*[T.mul(fa(bi + (i, T.ic(k))), fb(bi + (T.ic(k), j))) for k in range_(int_(T.cval(kt)))]))
        return T.psum(kt, lambda k: T.mul(fa(bi + (i, k)), fb(bi + (k, j))))

    r = Tensor(tuple(batch) + (a.shape[-2], b.shape[-1]), fn, dt)
    r.tag = ("matmul", a, b, r._ver())
    return r


mm = bmm = matmul


def mv(a, b):
    return matmul(a, b)


def dot(a, b):
    return sum(a * b)


inner = dot


def outer(a, b):
    return unsqueeze(a, 1) * unsqueeze(b, 0)


def cross(a, b, dim=-1):
    out = broadcast_shapes(a.shape, b.shape)
    if dim is None:
        dim = -1
    d = dim % len_(out)
    if not dim_eq(out[d], 3):
        raise RuntimeError("cross: dimension does not have size 3")
    fa, fb = _bc_reader(a, out), _bc_reader(b, out)

    def fn(idx):
        def c(k):
            g = lambda f, q: f(idx[:d] + (T.ic(q % 3),) + idx[d + 1 :])
            return T.sub(T.mul(g(fa, k + 1), g(fb, k + 2)), T.mul(g(fa, k + 2), g(fb, k + 1)))

        j = idx[d]
        if j.op == "c":
            return c(int_(j.args[0]))
        return T.ite(T.eq(j, T.IZERO), c(0), T.ite(T.eq(j, T.IONE), c(1), c(2)))

    return Tensor(out, fn, _join_dtype(a.dtype, b.dtype))


def einsum(spec, *xs):
    if len_(xs) == 1 and isinstance_(xs[0], (tuple, list)):
        xs = tuple(xs[0])
    spec = spec.replace(" ", "")
    if "->" in spec:
        lhs, out = spec.split("->")
    else:
        lhs = spec
        letters = [c for c in spec if c.isalpha()]
        out = "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
    ins = lhs.split(",")
    if "..." in spec:
        nb = 0
        for s, x in zip(ins, xs):
            if "..." in s:
                nb = builtins.max(nb, x.ndim - (len_(s) - 3))
        pool = [c for c in "ABCDEFGHIJKLMNOPQRSTUVWXYZ" if c not in spec][:nb]
        ins2 = []
        for s, x in zip(ins, xs):
            if "..." in s:
                k = x.ndim - (len_(s) - 3)
                s = s.replace("...", "".join(pool[nb - k :]))
            ins2.append(s)
        ins = ins2
        out = out.replace("...", "".join(pool))
    size = {}
    for s, x in zip(ins, xs):
        for c, d in zip(s, x.shape):
            if c in size:
                size[c] = broadcast_dim(size[c], d)
            else:
                size[c] = d
    red = [c for c in dict.fromkeys("".join(ins)) if c not in out]
    fs = [x.snap() for x in xs]
    ones_ = [[is_one(d) for d in x.shape] for x in xs]

    def fn(idx):
        env = dict(zip(out, idx))

        def go(rest, env):
            if not rest:
                return T.mul(*[f(tuple(T.IZERO if o else env[c] for c, o in zip(s, on))) for f, s, on in zip(fs, ins, ones_)])
            return T.psum(dterm(size[rest[0]]), lambda i: go(rest[1:], {**env, rest[0]: i}))

        return _boxed(go(red, env))

    return Tensor(tuple(size[c] for c in out), fn, _join_dtype(*[x.dtype for x in xs]))


def inverse(x):
    raise Unsupported("matrix inverse")


# ---------------------------------------------------------------- indexing


def _iterm(v, n):
    """Index scalar -> in-range term with python negative wrap, with the range obligation."""
    t = term(v)
    if t.sort == T.B:
        raise Unsupported("boolean scalar index")
    if t.sort == T.R:
        raise IndexError("only integers are valid indices")
    nt = dterm(n)
    c = ctx()
    if t.op == "c" and nt.op == "c":
        i, m = int_(T.cval(t)), int_(T.cval(nt))
        if not -m <= i < m:
            raise IndexError(f"index {i} is out of bounds for dimension with size {m}")
        return T.ic(i % m)
    if t.op == "c":
        i = int_(T.cval(t))
        if i >= 0:
            if not c.decide(T.lt(t, nt)):
                raise IndexError(f"index {i} is out of bounds")
            return t
        if not c.decide(T.le(T.neg(t), nt)):
            raise IndexError(f"index {i} is out of bounds")
        return T.add(nt, t)
    if not c.decide(T.and_(T.le(T.neg(nt), t), T.lt(t, nt))):
        raise IndexError("index is out of bounds")
    if c.prove(T.le(T.IZERO, t)):
        return t
    return T.ite(T.lt(t, T.IZERO), T.add(t, nt), t)


def _slice(s, n):
    """slice -> (start term, step int, length dim)"""
    nt = dterm(n)
    step = 1 if s.step is None else s.step
    if isinstance_(step, Tensor):
        step = step.item()
    c = ctx()

    def bound(v, default):
        if v is None:
            return default
        t = term(v)
        if t.op == "c" and nt.op == "c":
            i, m = int_(T.cval(t)), int_(T.cval(nt))
            if i < 0:
                i = builtins.max(0, i + m)
            return T.ic(builtins.min(i, m))
        if t.op == "c":
            i = int_(T.cval(t))
            if i >= 0:
                if i == 0 or c.prove(T.le(t, nt)):
                    return t
                return T.min_(t, nt)
            v2 = T.add(nt, t)
            if c.prove(T.le(T.IZERO, v2)):
                return v2
            return T.max_(v2, T.IZERO)
        if c.prove(T.le(T.IZERO, t)):
            r = t
        elif c.prove(T.lt(t, T.IZERO)):
            r = T.max_(T.add(nt, t), T.IZERO)
        else:
            r = T.ite(T.lt(t, T.IZERO), T.max_(T.add(nt, t), T.IZERO), t)
        if c.prove(T.le(r, nt)):
            return r
        return T.min_(r, nt)

    a = bound(s.start, T.IZERO)
    b = bound(s.stop, nt)
    if isinstance_(step, int_) and step == 1:
        ln = T.sub(b, a)
    else:
        st = term(step)
        ln = T.neg(floordiv(T.sub(a, b), st))
    return a, term(step), wrap(_nonneg(ln))


def _expand_key(key, ndim):
    if not isinstance_(key, tuple):
        key = (key,)
    key = list(key)
    key = [tensor(k) if isinstance_(k, list) else k for k in key]
    used = 0
    for k in key:
        if k is None or k is Ellipsis:
            continue
        if isinstance_(k, Tensor) and k.dtype.sort == T.B:
            used += builtins.max(k.ndim, 0)
        else:
            used += 1
    if any_is(key, Ellipsis):
        p = [i for i, k in enumerate(key) if k is Ellipsis][0]
        key = key[:p] + [slice(None)] * (ndim - used) + key[p + 1 :]
    else:
        key = key + [slice(None)] * (ndim - used)
    if used > ndim:
        raise IndexError(f"too many indices for tensor of dimension {ndim}")
    return key


def any_is(seq, obj):
    return builtins.any(s is obj for s in seq)


class _Plan:
    """Resolved index expression."""


def _plan(x, key):
    key = _expand_key(key, x.ndim)
    # split boolean masks into integer indices
    items = []  # (kind, payload, src dims consumed)
    d = 0
    for k in key:
        if k is None:
            items.append(("new", None, None))
            continue
        if isinstance_(k, slice):
            a, st, ln = _slice(k, x.shape[d])
            items.append(("slice", (a, st, ln), d))
            d += 1
            continue
        if isinstance_(k, Tensor) and k.dtype.sort == T.B and k.ndim > 0:
            m = k
            for q in range_(m.ndim):
                if not dim_eq(m.shape[q], x.shape[d + q]):
                    raise IndexError(f"The shape of the mask {tuple(m.shape)} does not match the shape of the indexed tensor {tuple(x.shape)}")
            items.append(("mask", m, (d, m.ndim)))
            d += m.ndim
            continue
        if isinstance_(k, Tensor) and k.ndim > 0:
            items.append(("idx", k, d))
            d += 1
            continue
        if isinstance_(k, Tensor) or isinstance_(k, (int_, Sym)):
            if isinstance_(k, bool_):
                raise Unsupported("bool scalar index")
            adv_present = builtins.any(isinstance_(z, Tensor) and z.ndim > 0 for z in key)
            items.append(("int", _iterm(k, x.shape[d]), d))
            d += 1
            continue
        raise Unsupported(f"index of type {type(k)}")
    return items


def _mask_select(m):
    """Enumeration of the True positions of a mask: (count dim, sel(k)->index tuple, rank(idx))."""
    f = m.snap()
    shape = tuple(m.shape)
    tot = T.IONE
    for s in shape:
        tot = T.mul(tot, dterm(s))

    def flatread(i):
        return T.to_bool(f(unflatten_index(i, shape)))

    if len_(shape) == 1:
        flatread = lambda i: T.to_bool(f((i,)))
    if tot.op == "c" and T.cval(tot) <= 64:
        vals = [flatread(T.ic(i)) for i in range_(int_(T.cval(tot)))]
        if builtins.all(v.op == "b" for v in vals):
            pos = [i for i, v in enumerate(vals) if v is T.TRUE]

            def sel(k):
                if k.op == "c":
                    return unflatten_index(T.ic(pos[int_(T.cval(k))]), shape)
                r = T.ic(pos[-1]) if pos else T.IZERO
                for q in range_(len_(pos) - 2, -1, -1):
                    r = T.ite(T.eq(k, T.ic(q)), T.ic(pos[q]), r)
                return unflatten_index(r, shape)

            def rank(idx):
                i = flatten_index(idx, shape)
                if i.op == "c":
                    return T.ic(builtins.sum(1 for p in pos if p < int_(T.cval(i))))
                r = T.IZERO
                for q, p in enumerate(pos):
                    r = T.ite(T.eq(i, T.ic(p)), T.ic(q), r)
                return r

            return len_(pos), sel, rank
    lam = T.bind("lamfn", tot, flatread, T.I)
    cnt = T.psum(tot, lambda i: T.to_int(flatread(i)))
    c = ctx()
    c.assume(T.le(T.IZERO, cnt))
    c.assume(T.le(cnt, tot))
    # if every element is selected / none is, the enumeration is trivial
    def sel(k):
        s = T.mk("msel", (lam, k), T.I)
        return unflatten_index(s, shape)

    sel.lam = lam

    def rank(idx):
        i = flatten_index(idx, shape)
        return T.psum(i, lambda j: T.to_int(flatread(j)))

    return wrap(cnt), sel, rank


def _lam_at(lam, i):
    return T.open_binder(lam, i)


def _ax_msel(u):
    lam, k = u.args
    n = lam.args[0]
    cnt = T.psum(n, lambda i: T.to_int(_lam_at(lam, i)))
    rank = T.psum(u, lambda j: T.to_int(_lam_at(lam, j)))
    inr = T.and_(T.le(T.IZERO, k), T.lt(k, cnt))
    return [T.implies(inr, T.and_(T.le(T.IZERO, u), T.lt(u, n), _lam_at(lam, u), T.eq(rank, k)))]


S.AXIOM_HOOKS["msel"] = _ax_msel


def _adv_adjacent(items):
    k = [i for i, it in enumerate(items) if it[0] in ("idx", "mask", "int")]
    return k == list(range_(k[0], k[0] + len_(k)))


def _getitem(x, key):
    items = _plan(x, key)
    adv = [it for it in items if it[0] in ("idx", "mask")]
    if not adv:
        # basic view
        shape = []
        spec = []
        for kind, p, d in items:
            if kind == "new":
                shape.append(1)
                spec.append(None)
            elif kind == "slice":
                shape.append(p[2])
                spec.append((d, p))
        ints = {d: p for kind, p, d in items if kind == "int"}
        n = x.ndim

        def to_base(idx):
            r = [None] * n
            for d, t in ints.items():
                r[d] = t
            for i, s in zip(idx, spec):
                if s is None:
                    continue
                d, (a, st, ln) = s
                r[d] = T.add(a, T.mul(st, i)) if not (a is T.IZERO and st is T.IONE) else i
            return tuple(r)

        def from_base(idx):
            cond = []
            for d, t in ints.items():
                cond.append(T.eq(idx[d], t))
            out = []
            for s in spec:
                if s is None:
                    out.append(T.IZERO)
                    continue
                d, (a, st, ln) = s
                if st is T.IONE:
                    i = T.sub(idx[d], a)
                else:
                    i = idiv_simpl(T.sub(idx[d], a), st)
                    cond.append(T.eq(T.add(a, T.mul(st, i)), idx[d]))
                full_ = a is T.IZERO and st is T.IONE and dterm(ln) is dterm(x.shape[d])
                if not full_:
                    cond.append(T.le(T.IZERO, i))
                    cond.append(T.lt(i, dterm(ln)))
                out.append(i)
            return T.and_(*cond), tuple(out)

        return _view(x, shape, to_base, from_base)
    # advanced: ints join the advanced group as 0-d
    f = x.snap()
    comps, pos, out_adv_shape, adjacent, first = _advanced(x, items)
    basic = [(kind, p, d) for kind, p, d in items if kind in ("new", "slice")]
    shape_basic_before, shape_basic_after = _placement(items, adjacent)
    shape = Size(
        [s for s in shape_basic_before[0]] + list(out_adv_shape) + [s for s in shape_basic_after[0]]
    )
    nb, na = len_(shape_basic_before[0]), len_(out_adv_shape)
    n = x.ndim

    def fn(idx):
        r = [None] * n
        ai = idx[nb : nb + na]
        for d, g in comps:
            v = g(ai)
            if isinstance_(d, tuple):
                for q, t in zip(range_(d[0], d[0] + d[1]), v):
                    r[q] = t
            else:
                r[d] = v
        for i, s in zip(idx[:nb] + idx[nb + na :], shape_basic_before[1] + shape_basic_after[1]):
            if s is None:
                continue
            d, (a, st, ln) = s
            r[d] = T.add(a, T.mul(st, i))
        return f(tuple(r))

    return Tensor(shape, fn, x.dtype)


def _placement(items, adjacent):
    before, after = ([], []), ([], [])
    seen_adv = False
    for kind, p, d in items:
        if kind in ("idx", "mask", "int"):
            seen_adv = True
            continue
        tgt = after if (not adjacent or seen_adv) else before
        if kind == "new":
            tgt[0].append(1)
            tgt[1].append(None)
        else:
            tgt[0].append(p[2])
            tgt[1].append((d, p))
    return before, after


def _advanced(x, items):
    kinds = [("A" if k in ("idx", "mask", "int") else "b") for k, _, _ in items]
    s = "".join(kinds).strip("b")
    adjacent = "b" not in s
    shapes = []
    readers = []  # (d, reader builder)
    for kind, p, d in items:
        if kind == "int":
            shapes.append(())
        elif kind == "idx":
            shapes.append(tuple(p.shape))
        elif kind == "mask":
            cnt, sel, rank = _mask_select(p)
            shapes.append((cnt,))
            items[items.index((kind, p, d))] = ("mask", (p, cnt, sel, rank), d)
    out = broadcast_shapes(*shapes)
    comps = []
    for kind, p, d in items:
        if kind == "int":
            comps.append((d, (lambda t: lambda ai: t)(p)))
        elif kind == "idx":
            rd = _bc_reader(p, out)
            n = dterm(x.shape[d])
            c = ctx()
            # generic bounds obligation and negative wrap
            wrapneg = _index_bounds(p, n)
            if wrapneg:
                comps.append((d, (lambda rd, n: lambda ai: (lambda t: T.ite(T.lt(t, T.IZERO), T.add(t, n), t))(rd(ai)))(rd, n)))
            else:
                comps.append((d, rd))
        elif kind == "mask":
            m, cnt, sel, rank = p
            cshape = (cnt,)
            if len_(out) == 1 or True:
                comps.append((d, (lambda sel, off: lambda ai: sel(ai[off]) if not (isinstance_(cnt, int_) and cnt == 1 and False) else sel(ai[off]))(sel, len_(out) - 1)))
    return comps, None, out, adjacent, None


def _index_bounds(p, n):
    """Require every element of an index tensor to lie in [-n, n); True when negatives are possible."""
    c = ctx()
    idx = []
    guard = []
    concrete = builtins.all(isinstance_(s, int_) for s in p.shape) and builtins.all(True for _ in [0])
    if concrete:
        tot = 1
        for s in p.shape:
            tot *= s
        if tot <= 64:
            neg_possible = False
            f = p.snap()
            for ix in itertools.product(*[range_(s) for s in p.shape]):
                t = f(tuple(T.ic(i) for i in ix))
                ok = T.and_(T.le(T.neg(n), t), T.lt(t, n))
                if ok is T.TRUE:
                    if T.lt(t, T.IZERO) is not T.FALSE:
                        neg_possible = True
                    continue
                if ok is T.FALSE:
                    raise IndexError("index out of range in an index tensor")
                if not c.prove(ok):
                    c.require("index in range", ok)
                if not c.prove(T.le(T.IZERO, t)):
                    neg_possible = True
            return neg_possible
    hyps = []
    for s in p.shape:
        x = T.fresh("ix", T.I)
        idx.append(x)
        hyps.append(T.and_(T.le(T.IZERO, x), T.lt(x, dterm(s))))
    save = list(c.hyps)
    for h in hyps:
        if h is T.FALSE:
            return False
        c.hyps.append(h)
    try:
        t = p.elem(tuple(idx))
        if c.prove(T.and_(T.le(T.IZERO, t), T.lt(t, n)), 2.0):
            return False
        if c.strict_index:
            c.obligations.append(("index in range", T.and_(T.le(T.neg(n), t), T.lt(t, n)), list(c.hyps)))
        return not c.prove(T.le(T.IZERO, t), 2.0)
    finally:
        c.hyps = save


def _setitem(x, key, value):
    items = _plan(x, key)
    adv = [it for it in items if it[0] in ("idx", "mask")]
    value = lift_tensor(value)
    if not adv:
        v = _getitem(x, key)
        out = broadcast_shapes_to(value.shape, v.shape)
        rd = _bc_reader(_strip(value, v.shape), v.shape)
        s = x.dtype.sort
        v._set(lambda idx: _cast(rd(idx), s))
        return
    masks = [it for it in items if it[0] == "mask"]
    others = [it for it in items if it[0] in ("idx", "int")]
    if len_(masks) == 1 and builtins.all(it[0] == "mask" or (it[0] == "slice" and it[1][1] is T.IONE) or it[0] == "int" for it in items) and _adv_adjacent(items):
        m, (d0, nd) = masks[0][1], masks[0][2]
        fm = m.snap()
        old = x.snap()
        s = x.dtype.sort
        before = [it for it in items if it[0] == "slice" and it[2] < d0]
        after = [it for it in items if it[0] == "slice" and it[2] >= d0 + nd]
        ints = [it for it in items if it[0] == "int"]
        xshape = tuple(x.shape)
        blen, alen = tuple(it[1][2] for it in before), tuple(it[1][2] for it in after)

        def place(idx):
            cond = []
            bi = [_inv_slice((it[2], it[1]), idx, cond, xshape) for it in before]
            ai = [_inv_slice((it[2], it[1]), idx, cond, xshape) for it in after]
            for it in ints:
                cond.append(T.eq(idx[it[2]], it[1]))
            return tuple(bi), tuple(ai), T.and_(*cond)

        if value.ndim <= len_(alen):
            vshape = Size(blen + (1,) + alen)
            rd = _bc_reader(value, vshape)

            def nf0(idx):
                bi, ai, c = place(idx)
                if c is T.FALSE:
                    return old(idx)
                return T.ite(T.and_(c, T.to_bool(fm(idx[d0 : d0 + nd]))), _cast(rd(bi + (T.IZERO,) + ai), s), old(idx))

            x._set(nf0)
            return
        cnt, sel, rank = _mask_select(m)
        vshape = Size(blen + (cnt,) + alen)
        broadcast_shapes_to(value.shape, vshape)
        rd = _bc_reader(_strip(value, vshape), vshape)
        lam = getattr(sel, "lam", None)

        def nf(idx):
            mi = idx[d0 : d0 + nd]
            bi, ai, c = place(idx)
            c = T.and_(T.to_bool(fm(mi)), c)
            if c is T.FALSE:
                return old(idx)
            r = rank(mi)
            v = _cast(rd(bi + (r,) + ai), s)
            if lam is not None:
                # under the guard the position is selected: sel(rank(i)) = i
                at = T.mk("msel", (lam, r), T.I)
                if T.occurs_term(v, at):
                    v = T.subst(v, {at: flatten_index(mi, tuple(m.shape))})
            return T.ite(c, v, old(idx))

        x._set(nf)
        return
    # integer-tensor assignment: last write wins; supported for concrete index counts or provably injective index
    f = x.snap()
    comps, _, out_adv, adjacent, _ = _advanced(x, items)
    before, after = _placement(items, adjacent)
    nb, na = len_(before[0]), len_(out_adv)
    vshape = Size(list(before[0]) + list(out_adv) + list(after[0]))
    broadcast_shapes_to(value.shape, vshape)
    rd = _bc_reader(_strip(value, vshape), vshape)
    s = x.dtype.sort
    if not builtins.all(isinstance_(q, int_) for q in out_adv):
        _setitem_symbolic(x, f, comps, before, after, out_adv, rd, s)
        return
    tot = 1
    for q in out_adv:
        tot *= q
    if tot > 64:
        raise Unsupported("integer-tensor assignment of more than 64 positions")

    def nf(idx):
        r = f(idx)
        for ai in itertools.product(*[range_(q) for q in out_adv]):
            at = tuple(T.ic(i) for i in ai)
            cond = []
            for d, g in comps:
                v = g(at)
                if isinstance_(d, tuple):
                    for q, t in zip(range_(d[0], d[0] + d[1]), v):
                        cond.append(T.eq(idx[q], t))
                else:
                    cond.append(T.eq(idx[d], v))
            pos = []
            for sp in before[1]:
                pos.append(_inv_slice(sp, idx, cond, tuple(x.shape)))
            mid = at
            aft = []
            for sp in after[1]:
                aft.append(_inv_slice(sp, idx, cond, tuple(x.shape)))
            c = T.and_(*cond)
            if c is T.FALSE:
                continue
            r = T.ite(c, _cast(rd(tuple(pos) + mid + tuple(aft)), s), r)
        return r

    x._set(nf)


def _setitem_symbolic(x, f, comps, before, after, out_adv, rd, s):
    """x[..., idx, ...] = v with a symbolic number of positions.

    The written position is described by an inverse function: for the position p,
    if some k has idx(k)==p the value is v(inv(p)), otherwise it is the old one.  When the index is not
    injective torch leaves the winner unspecified, which the uninterpreted inverse models.
    """
    if len_(out_adv) != 1:
        raise Unsupported("multi-dimensional symbolic index assignment")
    K = dterm(out_adv[0])
    probe = T.fresh("k", T.I)
    key = []
    for d, g in comps:
        v = g((probe,))
        key.extend(v if isinstance_(v, tuple) else (v,))
    lamk = tuple(T.bind("lamfn", K, (lambda t: lambda i: T.subst(t, {probe: i}))(t), t.sort) for t in key)

    def nf(idx):
        pos = []
        for d, g in comps:
            if isinstance_(d, tuple):
                pos.extend(idx[d[0] : d[0] + d[1]])
            else:
                pos.append(idx[d])
        cond = []
        b = [_inv_slice(sp, idx, cond, tuple(x.shape)) for sp in before[1]]
        a = [_inv_slice(sp, idx, cond, tuple(x.shape)) for sp in after[1]]
        # identity-like index (arange) shortcut
        if len_(key) == 1:
            off = T.sub(key[0], probe)
            if not T.occurs(off, probe):
                k = T.sub(pos[0], off)
                hit = T.and_(T.le(T.IZERO, k), T.lt(k, K))
                return T.ite(T.and_(hit, *cond), _cast(rd(tuple(b) + (k,) + tuple(a)), s), f(idx))
        inv_ = T.mk("idxinv", lamk + tuple(pos), T.I)
        hit = T.exists([K], lambda i: T.and_(*[T.eq(T.subst(t, {probe: i}), p) for t, p in zip(key, pos)]))
        return T.ite(T.and_(hit, *cond), _cast(rd(tuple(b) + (inv_,) + tuple(a)), s), f(idx))

    x._set(nf)


def _ax_idxinv(u):
    n = len_(u.args) // 2
    lams, pos = u.args[:n], u.args[n:]
    K = lams[0].args[0]
    hit = T.exists([K], lambda i: T.and_(*[T.eq(_lam_at(l, i), p) for l, p in zip(lams, pos)]))
    return [T.implies(hit, T.and_(T.le(T.IZERO, u), T.lt(u, K), *[T.eq(_lam_at(l, u), p) for l, p in zip(lams, pos)]))]


S.AXIOM_HOOKS["idxinv"] = _ax_idxinv


def _inv_slice(sp, idx, cond, full=None):
    if sp is None:
        return T.IZERO
    d, (a, st, ln) = sp
    if a is T.IZERO and st is T.IONE and full is not None and dterm(full[d]) is not dterm(ln):
        cond.append(T.lt(idx[d], dterm(ln)))
    i = T.sub(idx[d], a) if st is T.IONE else idiv_simpl(T.sub(idx[d], a), st)
    if not (a is T.IZERO and st is T.IONE):
        cond.append(T.le(T.IZERO, i))
        cond.append(T.lt(i, dterm(ln)))
        if st is not T.IONE:
            cond.append(T.eq(T.add(a, T.mul(st, i)), idx[d]))
    return i


def _strip(v, shape):
    """Drop leading 1-dims so a value broadcasts into the target."""
    while v.ndim > len_(shape) and is_one(v.shape[0]):
        v = v[0]
    return v


def broadcast_shapes_to(src, dst):
    src = list(src)
    while len_(src) > len_(dst) and is_one(src[0]):
        src = src[1:]
    if len_(src) > len_(dst):
        raise RuntimeError(f"shape mismatch: value tensor of shape {tuple(src)} cannot be broadcast to indexing result of shape {tuple(dst)}")
    off = len_(dst) - len_(src)
    for k, d in enumerate(src):
        o = dst[k + off]
        if is_one(d):
            continue
        if not dim_eq(d, o):
            if not isinstance_(d, int_) and dim_eq(d, 1):
                continue
            raise RuntimeError(f"shape mismatch: value tensor of shape {tuple(src)} cannot be broadcast to indexing result of shape {tuple(dst)}")
    return dst


def nonzero(x, as_tuple=False):
    m = x if x.dtype.sort == T.B else (x != 0)
    if m.ndim == 0:
        raise Unsupported("nonzero of a scalar")
    cnt, sel, rank = _mask_select(m)
    n = m.ndim
    if as_tuple:
        return tuple(Tensor((cnt,), (lambda q: lambda idx: sel(idx[0])[q])(q), int64) for q in range_(n))

    def fn(idx):
        t = sel(idx[0])
        j = idx[1]
        if j.op == "c":
            return t[int_(T.cval(j))]
        r = t[-1]
        for q in range_(n - 2, -1, -1):
            r = T.ite(T.eq(j, T.ic(q)), t[q], r)
        return r

    return Tensor((cnt, n), fn, int64)


def index_select(x, dim, index):
    key = [slice(None)] * x.ndim
    key[dim % x.ndim] = index
    return x[tuple(key)]


def gather(x, dim, index):
    d = dim % x.ndim
    f, g = x.snap(), index.snap()
    n = dterm(x.shape[d])
    wrapneg = _index_bounds(index, n)
    return Tensor(index.shape, lambda idx: f(idx[:d] + (g(idx),) + idx[d + 1 :]), x.dtype)


take_along_dim = lambda x, index, dim: gather(x, dim, index)


def _scatter_add_(x, dim, index, src):
    d = dim % x.ndim
    src = lift_tensor(src)
    f, g, h = x.snap(), index.snap(), src.snap()
    _index_bounds(index, dterm(x.shape[d]))
    n = index.ndim
    K = dterm(index.shape[d])

    def fn(idx):
        tot = f(idx)
        add_ = T.psum(K, lambda k: (lambda at: T.ite(T.eq(g(at), idx[d]), h(at), T.num(0, src.dtype.sort)))(idx[:d] + (k,) + idx[d + 1 :]))
        inb = []
        for q in range_(n):
            if q != d and dterm(index.shape[q]) is not dterm(x.shape[q]):
                inb.append(T.lt(idx[q], dterm(index.shape[q])))
        if inb:
            add_ = T.ite(T.and_(*inb), add_, T.num(0, src.dtype.sort))
        return T.add(tot, add_)

    x._set(fn)
    return x


def _index_add_(x, dim, index, src, alpha=1):
    d = dim % x.ndim
    f, g, h = x.snap(), index.snap(), src.snap()
    _index_bounds(index, dterm(x.shape[d]))
    K = dterm(index.shape[0])

    def fn(idx):
        return T.add(f(idx), T.psum(K, lambda k: T.ite(T.eq(g((k,)), idx[d]), h(idx[:d] + (k,) + idx[d + 1 :]), T.num(0, src.dtype.sort))))

    x._set(fn)
    return x


def scatter_add(x, dim, index, src):
    return _scatter_add_(x.clone(), dim, index, src)


def repeat_interleave(x, reps, dim=None, output_size=None):
    if dim is None:
        x = flatten(x)
        dim = 0
    d = dim % x.ndim
    f = x.snap()
    if isinstance_(reps, Tensor) and reps.ndim == 1 and is_one(reps.shape[0]):
        reps = reps[0]
    if not isinstance_(reps, Tensor) or reps.ndim == 0:
        r = term(reps)
        n = wrap(T.mul(dterm(x.shape[d]), r))
        shape = tuple(x.shape[:d]) + (n,) + tuple(x.shape[d + 1 :])
        if r is T.IONE:
            return Tensor(shape, f, x.dtype)
        return Tensor(shape, lambda idx: f(idx[:d] + (idiv_simpl(idx[d], r),) + idx[d + 1 :]), x.dtype)
    if not dim_eq(reps.shape[0], x.shape[d]):
        raise RuntimeError("repeats must have the same size as input along dim")
    g = reps.snap()
    nd = dterm(x.shape[d])
    read = lambda i: T.to_int(g((i,)))
    c = ctx()
    x0 = T.fresh("b", T.I)
    if not c.prove(T.implies(T.and_(T.le(T.IZERO, x0), T.lt(x0, nd)), T.le(T.IZERO, read(x0)))):
        if not c.decide(T.forall([nd], lambda i: T.le(T.IZERO, read(i)))):
            raise RuntimeError("repeats can not be negative")
    if nd.op == "c" and builtins.all(read(T.ic(i)).op == "c" for i in range_(int_(T.cval(nd)))):
        src = []
        for i in range_(int_(T.cval(nd))):
            src += [i] * int_(T.cval(read(T.ic(i))))
        it = tensor(src, dtype=int64)
        key = [slice(None)] * x.ndim
        key[d] = it
        if not src:
            shape = tuple(x.shape[:d]) + (0,) + tuple(x.shape[d + 1 :])
            return Tensor(shape, f, x.dtype)
        return x[tuple(key)]
    lam = T.bind("lamfn", nd, read, T.I)
    tot = T.psum(nd, read)
    c.assume(T.le(T.IZERO, tot))
    shape = tuple(x.shape[:d]) + (wrap(tot),) + tuple(x.shape[d + 1 :])
    return Tensor(shape, lambda idx: f(idx[:d] + (_rsrc(lam, idx[d]),) + idx[d + 1 :]), x.dtype)


def _rsrc(lam, k):
    """Source row of output row k of a repetition; row prefix(h) + r with 0 <= r < count(h) comes from h."""
    i = T.fresh("b", T.I)
    cnt = _lam_at(lam, i)
    if not T.occurs(cnt, i) and T.lt(T.IZERO, cnt) is T.TRUE:
        return idiv_simpl(k, cnt)
    c0, items = T.lin(k)
    for a, q in items:
        if q == 1 and a.op == "psum" and a.sort == T.I:
            h = a.args[0]
            if T.psum(h, lambda j: _lam_at(lam, j)) is a:
                r = T.sub(k, a)
                if ctx().prove(T.and_(T.le(T.IZERO, h), T.lt(h, lam.args[0]), T.le(T.IZERO, r), T.lt(r, _lam_at(lam, h)))):
                    return h
    return T.mk("rsrc", (lam, k), T.I)


def _ax_rsrc(u):
    lam, k = u.args
    n = lam.args[0]
    tot = T.psum(n, lambda i: _lam_at(lam, i))
    start = T.psum(u, lambda i: _lam_at(lam, i))
    inr = T.and_(T.le(T.IZERO, k), T.lt(k, tot))
    return [T.implies(inr, T.and_(T.le(T.IZERO, u), T.lt(u, n), T.le(start, k), T.lt(k, T.add(start, _lam_at(lam, u)))))]


S.AXIOM_HOOKS["rsrc"] = _ax_rsrc


def _pair_rsrc(subs):
    """Prefix sums of the (non-negative) repetition counts are monotone."""
    out = []
    us = [u for u in subs if u.op == "rsrc"]
    if not us:
        return out
    sums = [p for p in subs if p.op == "psum" and p.sort == T.I]
    for u in us:
        lam = u.args[0]
        tot = T.psum(lam.args[0], lambda i: _lam_at(lam, i))
        for p in sums:
            h = p.args[0]
            if h is u or T.psum(h, lambda i: _lam_at(lam, i)) is not p:
                continue
            inr = T.and_(T.le(T.IZERO, h), T.lt(h, lam.args[0]))
            su, lu, lh = T.psum(u, lambda i: _lam_at(lam, i)), _lam_at(lam, u), _lam_at(lam, h)
            out.append(T.implies(T.and_(inr, T.lt(h, u)), T.le(T.add(p, lh), su)))
            out.append(T.implies(T.and_(inr, T.lt(u, h)), T.le(T.add(su, lu), p)))
            out.append(T.implies(inr, T.and_(T.le(T.IZERO, p), T.le(T.add(p, lh), tot))))
    return out


S.PAIR_HOOKS.append(_pair_rsrc)


def _sortperm(x, d, descending, idx_rest):
    f = x.snap()
    n = dterm(x.shape[d])
    lam = T.bind("lamfn", n, lambda i: f(idx_rest[0] + (i,) + idx_rest[1]), x.dtype.sort)
    return lam, n


def sort(x, dim=-1, descending=False, stable=False):
    if x.ndim == 0:
        return _VI((x, zeros((), dtype=int64)))
    d = dim % x.ndim
    f = x.snap()
    n = x.shape[d]
    if isinstance_(n, int_) and n <= 8:
        # stable insertion by rank: position of element j
        def rank_of(j, rest):
            a, b = rest
            vj = f(a + (T.ic(j),) + b)
            r = T.IZERO
            for q in range_(n):
                if q == j:
                    continue
                vq = f(a + (T.ic(q),) + b)
                before = T.lt(vq, vj) if not descending else T.lt(vj, vq)
                if q < j:
                    before = T.or_(before, T.eq(vq, vj))
                r = T.add(r, T.to_int(before))
            return r

        def index_fn(idx):
            rest = (idx[:d], idx[d + 1 :])
            r = T.ic(n - 1)
            for j in range_(n - 2, -1, -1):
                r = T.ite(T.eq(rank_of(j, rest), idx[d]), T.ic(j), r)
            return r

        def val_fn(idx):
            rest = (idx[:d], idx[d + 1 :])
            r = f(rest[0] + (T.ic(n - 1),) + rest[1])
            for j in range_(n - 2, -1, -1):
                r = T.ite(T.eq(rank_of(j, rest), idx[d]), f(rest[0] + (T.ic(j),) + rest[1]), r)
            return r

        return _VI((Tensor(x.shape, val_fn, x.dtype), Tensor(x.shape, index_fn, int64)))

    def index_fn(idx):
        lam, nt = _sortperm(x, d, descending, (idx[:d], idx[d + 1 :]))
        return T.mk("sortperm", (lam, idx[d], T.ic(1 if descending else 0)), T.I)

    def val_fn(idx):
        return f(idx[:d] + (index_fn(idx),) + idx[d + 1 :])

    return _VI((Tensor(x.shape, val_fn, x.dtype), Tensor(x.shape, index_fn, int64)))


def _ax_sortperm(u):
    lam, k, desc = u.args
    n = lam.args[0]
    inr = T.and_(T.le(T.IZERO, k), T.lt(k, n))
    inv_ = T.mk("sortinv", (lam, u, desc), T.I)
    nxt = T.mk("sortperm", (lam, T.add(k, T.IONE), desc), T.I)
    return [T.implies(inr, T.and_(T.le(T.IZERO, u), T.lt(u, n), T.eq(inv_, k)))]


S.AXIOM_HOOKS["sortperm"] = _ax_sortperm


def argsort(x, dim=-1, descending=False, stable=False):
    return sort(x, dim, descending)[1]


def median(x, dim=None, keepdim=False):
    if dim is None:
        x, dim = flatten(x), 0
        whole = True
    else:
        whole = False
    d = dim % x.ndim
    n = x.shape[d]
    v, i = sort(x, d)
    k = (n - 1) // 2 if isinstance_(n, int_) else wrap(idiv_simpl(T.sub(dterm(n), T.IONE), T.ic(2)))
    key = [slice(None)] * x.ndim
    key[d] = k
    r = v[tuple(key)]
    if whole:
        return r
    if keepdim:
        r = r.unsqueeze(d)
    return _VI((r, i[tuple(key)]))


def _unique_along(x, dim):
    """Distinct slices of a tensor whose slices do not depend on the other dimensions and are sorted."""
    dim = dim % x.ndim
    n, f, s = x.shape[dim], x.snap(), x.dtype.sort
    lead = [T.fresh("lead", T.I) for _ in x.shape]
    at = lambda i: f(tuple(i if k == dim else lead[k] for k in range_(x.ndim)))
    c = ctx()
    i = T.fresh("uniq", T.I)
    v = at(i)
    fv = T.free_vars(v)
    if not c.prove(T.lt(T.IZERO, dterm(n))):
        raise Unsupported("unique of nothing")
    if builtins.any(l in fv for k, l in enumerate(lead) if k != dim):
        raise Unsupported("unique of slices that differ")
    h0 = list(c.hyps)
    try:
        c.hyps += [T.le(T.IZERO, i), T.lt(T.add(i, T.ic(1)), dterm(n))]
        if not c.prove(T.le(v, at(T.add(i, T.ic(1)))), timeout=5.0):
            raise Unsupported("unique of unsorted values")
    finally:
        c.hyps[:] = h0
    cnt = T.add(T.ic(1), T.psum(T.sub(dterm(n), T.ic(1)), lambda i: T.ite(T.eq(at(i), at(T.add(i, T.ic(1)))), T.IZERO, T.ic(1))))
    name = T.fresh("uval", s).args[0]
    return Tensor(tuple(wrap(cnt) if k == dim else d for k, d in enumerate(x.shape)), lambda idx: T.app(name, (idx[dim],), s), x.dtype)


def unique(x, sorted=True, return_inverse=False, return_counts=False, dim=None):
    if dim is not None and not return_inverse and not return_counts:
        return _unique_along(x, dim)
    x = flatten(x)
    n = x.shape[0]
    f = x.snap()
    if return_inverse or return_counts or dim is not None:
        raise Unsupported("unique with inverse/counts")
    if isinstance_(n, int_) and n <= 16:
        vals = [f((T.ic(i),)) for i in range_(n)]
        if builtins.all(v.op == "c" for v in vals):
            s = builtins.sorted({T.cval(v) for v in vals})
            return tensor([T.num(q, x.dtype.sort) if False else wrap(T.num(q if x.dtype.sort == T.R else int_(q), x.dtype.sort)) for q in s], dtype=x.dtype) if s else empty(0, dtype=x.dtype)
    if x.dtype.sort != T.I:
        raise Unsupported("unique of symbolic reals")
    lam = T.bind("lamfn", dterm(n), lambda i: f((i,)), T.I)
    cnt = T.mk("ucount", (lam,), T.I)
    c = ctx()
    nt = dterm(n)
    c.assume(T.and_(T.le(T.IZERO, cnt), T.le(cnt, nt), T.implies(T.lt(T.IZERO, nt), T.lt(T.IZERO, cnt))))
    return Tensor((wrap(cnt),), lambda idx: T.mk("uval", (lam, idx[0]), T.I), int64)


def _ax_uval(u):
    lam, k = u.args
    n = lam.args[0]
    cnt = T.mk("ucount", (lam,), T.I)
    src = T.mk("usrc", (lam, k), T.I)
    inr = T.and_(T.le(T.IZERO, k), T.lt(k, cnt))
    return [T.implies(inr, T.and_(T.le(T.IZERO, src), T.lt(src, n), T.eq(u, _lam_at(lam, src))))]


S.AXIOM_HOOKS["uval"] = _ax_uval


def bincount(x, minlength=0):
    raise Unsupported("bincount")


def searchsorted(*a, **k):
    raise Unsupported("searchsorted")


def tril(x, diagonal=0):
    f = x.snap()
    z = T.num(0, x.dtype.sort)
    return Tensor(x.shape, lambda i: T.ite(T.le(i[-1], T.add(i[-2], T.ic(diagonal))), f(i), z), x.dtype)


def triu(x, diagonal=0):
    f = x.snap()
    z = T.num(0, x.dtype.sort)
    return Tensor(x.shape, lambda i: T.ite(T.le(T.add(i[-2], T.ic(diagonal)), i[-1]), f(i), z), x.dtype)


# ---------------------------------------------------------------- nn.functional


def F_normalize(x, p=2.0, dim=1, eps=1e-12, out=None):
    n = norm(x, p, dim, keepdim=True)
    return div(x, clamp(n, min=eps))


def F_softplus(x, beta=1, threshold=20):
    """log(1+exp(beta x))/beta; the linear branch above the threshold is a float optimisation."""
    b = term(beta)

    def f(t):
        t = T.to_real(t)
        if b is T.IONE or b is T.ONE:
            return T.fn("softplus", t)
        return T.div(T.fn("softplus", T.mul(T.to_real(b), t)), T.to_real(b))

    return _map1(x, f)


def F_pad(x, pad, mode="constant", value=0):
    if mode not in ("constant", "replicate"):
        raise Unsupported("pad mode")
    k = len_(pad) // 2
    shape = list(x.shape)
    lo = {}
    for q in range_(k):
        d = x.ndim - 1 - q
        lo[d] = pad[2 * q]
        shape[d] = shape[d] + pad[2 * q] + pad[2 * q + 1]
    f = x.snap()
    v = _cast(term(value or 0), x.dtype.sort)

    def fn(idx):
        r = list(idx)
        cond = []
        for d, l in lo.items():
            r[d] = T.sub(idx[d], term(l))
            if mode == "replicate":
                last = T.sub(dterm(x.shape[d]), T.IONE)
                r[d] = T.ite(T.lt(r[d], T.IZERO), T.IZERO, T.ite(T.lt(last, r[d]), last, r[d]))
                continue
            cond.append(T.le(T.IZERO, r[d]))
            cond.append(T.lt(r[d], dterm(x.shape[d])))
        return T.ite(T.and_(*cond), f(tuple(r)), v)

    return Tensor(shape, fn, x.dtype)


def F_mse_loss(a, b, reduction="mean"):
    r = (a - b) ** 2
    return _red(r, reduction)


def F_l1_loss(a, b, reduction="mean"):
    return _red(abs(a - b), reduction)


def _red(r, reduction):
    if reduction == "none":
        return r
    return mean(r) if reduction == "mean" else sum(r)


def F_kl_div(inp, target, reduction="mean", log_target=False, size_average=None, reduce=None):
    if log_target:
        r = exp(target) * (target - inp)
    else:
        def f(t, i):
            return T.ite(T.lt(T.ZERO, t), T.mul(t, T.sub(T.fn("log", t), i)), T.ite(T.eq(t, T.ZERO), T.ZERO, T.NAN))

        r = _map2(target, inp, f)
    if reduction == "batchmean":
        return sum(r) / r.shape[0]
    return _red(r, reduction)


def F_cosine_similarity(a, b, dim=1, eps=1e-8):
    na = clamp(norm(a, 2, dim), min=eps)
    nb = clamp(norm(b, 2, dim), min=eps)
    return sum(a * b, dim) / (na * nb)


def F_grid_sample(inp, grid, mode="bilinear", padding_mode="zeros", align_corners=False):
    if mode != "bilinear" or padding_mode != "zeros":
        raise Unsupported("grid_sample mode")
    N, C, H, W = inp.shape
    f, g = inp.snap(), grid.snap()
    Hr, Wr = T.to_real(dterm(H)), T.to_real(dterm(W))
    half = T.rc(Fraction(1, 2))

    def unnorm(t, n):
        if align_corners:
            return T.mul(T.scale(T.add(t, T.ONE), Fraction(1, 2)), T.sub(n, T.ONE))
        return T.scale(T.sub(T.mul(T.add(t, T.ONE), n), T.ONE), Fraction(1, 2))

    def fn(idx):
        b, c, i, j = idx
        x = unnorm(g((b, i, j, T.IZERO)), Wr)
        y = unnorm(g((b, i, j, T.IONE)), Hr)
        x0, y0 = T.floor(x), T.floor(y)
        tot = []
        for dx in (0, 1):
            for dy in (0, 1):
                xi, yi = T.add(x0, T.ic(dx)), T.add(y0, T.ic(dy))
                wx = T.sub(x, T.to_real(x0)) if dx else T.sub(T.add(T.to_real(x0), T.ONE), x)
                wy = T.sub(y, T.to_real(y0)) if dy else T.sub(T.add(T.to_real(y0), T.ONE), y)
                inb = T.and_(T.le(T.IZERO, xi), T.lt(xi, dterm(W)), T.le(T.IZERO, yi), T.lt(yi, dterm(H)))
                if inb is T.FALSE:
                    continue
                tot.append(T.ite(inb, T.mul(wx, wy, f((b, c, yi, xi))), T.ZERO))
        return T.add(*tot) if tot else T.ZERO

    return Tensor((N, C, grid.shape[1], grid.shape[2]), fn, inp.dtype)


def F_affine_grid(theta, size, align_corners=False):
    N, C, H, W = size
    f = theta.snap()

    def base(i, n):
        nr = T.to_real(dterm(n))
        ir = T.to_real(i)
        if align_corners:
            return T.sub(T.div(T.scale(ir, 2), T.sub(nr, T.ONE)), T.ONE)
        return T.sub(T.div(T.add(T.scale(ir, 2), T.ONE), nr), T.ONE)

    def fn(idx):
        b, i, j, k = idx
        x, y = base(j, W), base(i, H)
        return T.add(T.mul(f((b, k, T.IZERO)), x), T.mul(f((b, k, T.IONE)), y), f((b, k, T.ic(2))))

    return Tensor((N, as_dim(H), as_dim(W), 2), fn, theta.dtype)


# ---------------------------------------------------------------- modules


class Module:
    training = True

    def __init__(self, *a, **k):
        pass

    def __call__(self, *a, **k):
        return self.forward(*a, **k)

    def register_buffer(self, name, t, persistent=True):
        setattr(self, name, t)

    def register_parameter(self, name, p):
        setattr(self, name, p)

    def add_module(self, name, m):
        setattr(self, name, m)

    def parameters(self, recurse=True):
        return [v for v in self.__dict__.values() if isinstance_(v, Parameter)]

    def named_parameters(self):
        return [(k, v) for k, v in self.__dict__.items() if isinstance_(v, Parameter)]

    def to(self, *a, **k):
        return self

    def train(self, mode=True):
        return self

    def eval(self):
        return self


class _PMeta(type):
    def __call__(cls, data=None, requires_grad=True):
        if data is None:
            data = empty(0)
        r = Tensor.__new__(Parameter)
        Tensor.__init__(r, data.shape, data.snap(), data.dtype)
        return r


class Parameter(Tensor, metaclass=_PMeta):
    __hash__ = Tensor.__hash__


class ModuleList(list, Module):
    pass


class MSELoss(Module):
    def __init__(self, size_average=None, reduce=None, reduction="mean"):
        self.reduction = reduction

    def forward(self, a, b):
        return F_mse_loss(a, b, self.reduction)


class L1Loss(MSELoss):
    def forward(self, a, b):
        return F_l1_loss(a, b, self.reduction)


class KLDivLoss(Module):
    def __init__(self, size_average=None, reduce=None, reduction="mean", log_target=False):
        self.reduction, self.log_target = reduction, log_target

    def forward(self, a, b):
        return F_kl_div(a, b, self.reduction, self.log_target)


class CosineSimilarity(Module):
    def __init__(self, dim=1, eps=1e-8):
        self.dim, self.eps = dim, eps

    def forward(self, a, b):
        return F_cosine_similarity(a, b, self.dim, self.eps)


class _NoGrad:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __call__(self, f):
        return f


class Dataset:
    def __class_getitem__(cls, k):
        return cls

    def __init__(self, *a, **k):
        pass


class Sampler(Dataset):
    pass


class DataLoader:
    """Batches in sampler order, collated by stacking tensors (batching loops need a concrete length)."""

    def __init__(self, dataset, batch_size=1, shuffle=False, sampler=None, drop_last=False, **k):
        self.dataset, self.batch_size, self.sampler, self.drop_last = dataset, batch_size, sampler, drop_last

    def __class_getitem__(cls, k):
        return cls

    def __iter__(self):
        order = list(self.sampler) if self.sampler is not None else list(range_(len_(self.dataset)))
        for k in range_(0, len_(order), self.batch_size):
            ix = order[k : k + self.batch_size]
            if self.drop_last and len_(ix) < self.batch_size:
                return
            yield collate([self.dataset[i] for i in ix])


def collate(items):
    if isinstance_(items[0], (tuple, list)):
        return [collate([it[k] for it in items]) for k in range_(len_(items[0]))]
    if isinstance_(items[0], Tensor):
        return stack(items)
    return tensor(items)


class _MVN:
    def __init__(self, loc, covariance_matrix=None, **k):
        self.loc, self.cov = loc, covariance_matrix

    def sample(self, shape=()):
        shape = norm_shape((shape,)) if not isinstance_(shape, (tuple, list)) else norm_shape((tuple(shape),))
        _EMPTY[0] += 1
        nm = f"sample!{_EMPTY[0]}"
        out = Size(tuple(shape) + tuple(self.loc.shape))
        return Tensor(out, lambda idx: T.app(nm, idx, T.R), float32)


def manual_seed(s):
    return None


T_pi = Sym(T.PI)
inf = builtins.float("inf")
nan = builtins.float("nan")


def get_default_dtype():
    return float32


def is_grad_enabled():
    return False


class Optimizer:
    pass


class _LR:
    def __init__(self, optimizer=None, *a, **k):
        self.optimizer, self.args, self.kwargs = optimizer, a, k

    def step(self, *a):
        return None


def build_modules():
    """The fake torch package as {module name: module}."""
    me = sys.modules[__name__]
    t = types.ModuleType("torch")
    for k, v in me.__dict__.items():
        if not k.startswith("_") and k not in ("S", "T", "ctx", "Ctx", "builtins", "itertools", "sys", "types", "Fraction", "term", "wrap", "Sym", "SymReal", "Unsupported"):
            setattr(t, k, v)
    for k in ("range_", "int_", "float_", "bool_", "len_", "isinstance_", "annotations", "floordiv", "idiv_simpl", "mod"):
        if hasattr(t, k):
            delattr(t, k)
    t.Tensor = Tensor
    t.float = float32
    t.double = float64
    t.long = int64
    t.int = int32
    t.pi = T_pi
    t.inf = inf
    t.e = 2.718281828459045
    t.__version__ = "sym"
    t.no_grad = _NoGrad
    t.enable_grad = _NoGrad
    t.inference_mode = _NoGrad
    t.FloatTensor = Tensor
    nn = types.ModuleType("torch.nn")
    for k in ("Module", "Parameter", "ModuleList", "MSELoss", "L1Loss", "KLDivLoss", "CosineSimilarity"):
        setattr(nn, k, getattr(me, k))
    Fm = types.ModuleType("torch.nn.functional")
    for k, v in me.__dict__.items():
        if k.startswith("F_"):
            setattr(Fm, k[2:], v)
    Fm.relu = relu
    Fm.softmax = softmax
    Fm.sigmoid = sigmoid
    Fm.tanh = tanh
    nn.functional = Fm
    t.nn = nn
    lin = types.ModuleType("torch.linalg")
    lin.cross = cross
    lin.norm = lambda x, ord=None, dim=None, keepdim=False: norm(x, 2 if ord is None else ord, dim, keepdim)
    lin.vector_norm = lambda x, ord=2, dim=None, keepdim=False: norm(x, ord, dim, keepdim)
    lin.vecdot = lambda a, b, dim=-1: sum(a * b, dim)
    lin.matmul = matmul
    t.linalg = lin
    cuda = types.ModuleType("torch.cuda")
    cuda.is_available = lambda: False
    cuda.device_count = lambda: 0
    cuda.manual_seed = lambda s: None
    cuda.manual_seed_all = lambda s: None
    cuda.set_device = lambda d: None
    t.cuda = cuda
    dist = types.ModuleType("torch.distributed")
    dist.is_available = lambda: False
    dist.is_initialized = lambda: False
    dist.get_rank = lambda *a, **k: 0
    dist.get_world_size = lambda *a, **k: 1

    class ProcessGroup:
        pass

    dist.ProcessGroup = ProcessGroup

    class ReduceOp:
        SUM, MIN, MAX, AVG = "sum", "min", "max", "avg"

    dist.ReduceOp = ReduceOp
    t.distributed = dist
    ut = types.ModuleType("torch.utils")
    data = types.ModuleType("torch.utils.data")
    data.Dataset, data.Sampler, data.DataLoader = Dataset, Sampler, DataLoader
    ut.data = data
    t.utils = ut
    opt = types.ModuleType("torch.optim")
    opt.Optimizer = Optimizer

    class Adam(Optimizer):
        def __init__(self, params, lr=1e-3, **k):
            params = list(params)
            if params and isinstance_(params[0], dict):
                self.param_groups = [dict(p) for p in params]
            else:
                self.param_groups = [{"params": params, "lr": lr}]

        def step(self):
            return None

        def zero_grad(self, *a, **k):
            return None

    opt.Adam = Adam
    lrs = types.ModuleType("torch.optim.lr_scheduler")
    lrs.LRScheduler = _LR
    lrs.ExponentialLR = type("ExponentialLR", (_LR,), {})
    lrs.CyclicLR = type("CyclicLR", (_LR,), {})
    lrs.ReduceLROnPlateau = type("ReduceLROnPlateau", (_LR,), {})
    opt.lr_scheduler = lrs
    t.optim = opt
    ds = types.ModuleType("torch.distributions")
    ds.MultivariateNormal = _MVN
    t.distributions = ds
    sp = types.ModuleType("torch.special")
    t.special = sp
    mods = {m.__name__: m for m in (t, nn, Fm, lin, cuda, dist, ut, data, opt, lrs, ds, sp)}

    def missing(name):
        def g(attr):
            if attr.startswith("__"):
                raise AttributeError(attr)
            raise Unsupported(f"{name}.{attr} is not modelled")

        return g

    for nm, m in mods.items():
        m.__getattr__ = missing(nm)
    return mods
