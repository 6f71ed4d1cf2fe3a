"""Arrays of symbolic shape and content: the assumed contracts of the array libraries.

A SymArray is a view (an index map) on a Buffer.  Every operation below is the *contract* this
framework assumes for the NumPy / PyTorch / JAX function of that name: precondition failures of the
library (broadcast errors, out-of-range fancy indices, ...) raise the library's exception on a forked
path, results are given elementwise.  The contracts are cross-checked against the real libraries on
concrete arrays by einv.selftest.
"""
from __future__ import annotations

import itertools
import math

import numpy
import z3

from .sym import (
    P,
    SBool,
    SInt,
    Unsupported,
    _int_term,
    fold_const,
    is_realish,
    is_sym,
    ite,
    mk_bool,
    mk_int,
    t_add,
    t_and,
    t_clip,
    t_eq,
    t_le,
    t_lt,
    t_max,
    t_min,
    t_mod,
    t_mul,
    t_ne,
    t_not,
    t_or,
    t_real,
    t_sub,
    t_uf,
    term,
)

KINDS = {"b": numpy.dtype(bool), "i": numpy.dtype("int64"), "f": numpy.dtype("float64")}
ORDER = {"b": 0, "i": 1, "f": 2}
SORT = {"b": z3.BoolSort, "i": z3.IntSort, "f": z3.RealSort}


def _p_current():
    from .sym import Path

    return Path.current


class LibraryError(Exception):
    """An exception the array library would raise on this path."""


class AliasError(LibraryError):
    """A protected buffer was written to (frame condition violated)."""


def kind_of_dtype(dt):
    if dt is None:
        return "f"
    if isinstance(dt, SymDType):
        return dt.kind
    if dt is bool:
        return "b"
    if dt is int:
        return "i"
    if dt is float:
        return "f"
    s = str(dt)
    if "bool" in s:
        return "b"
    if "int" in s:
        return "i"
    if "float" in s or "double" in s:
        return "f"
    raise Unsupported(f"dtype {dt}")


class SymDType:
    def __init__(self, kind):
        self.kind = kind

    def __eq__(self, o):
        try:
            return kind_of_dtype(o) == self.kind
        except Unsupported:
            return False

    def __hash__(self):
        return hash(self.kind)

    def __repr__(self):
        return {"b": "bool", "i": "int64", "f": "float64"}[self.kind]


class Buffer:
    __slots__ = ("content", "shape", "kind", "protected", "name", "written")

    def __init__(self, content, shape, kind, protected=False, name=None):
        self.content, self.shape, self.kind = content, tuple(shape), kind
        self.protected, self.name = protected, name
        self.written = False


def d_term(d):
    return term(d)


def prod_nonzero(shape):
    return t_and(*(t_ne(d_term(d), 0) for d in shape))


class SSize:
    """Number of elements; only its comparison with zero is used by the code."""

    def __init__(self, shape):
        self.shape = shape

    def __bool__(self):
        return P().branch(prod_nonzero(self.shape))

    def _val(self):
        r = 1
        for d in self.shape:
            r = r * d
        return r

    def __eq__(self, o):
        if isinstance(o, int) and o == 0:
            return mk_bool(t_not(prod_nonzero(self.shape)))
        return self._val() == o

    def __ne__(self, o):
        if isinstance(o, int) and o == 0:
            return mk_bool(prod_nonzero(self.shape))
        return self._val() != o

    def __gt__(self, o):
        if isinstance(o, int) and o == 0:
            return mk_bool(prod_nonzero(self.shape))
        return self._val() > o

    def __hash__(self):
        return 0x52

    def __getattr__(self, n):
        raise Unsupported(f"size.{n}")


def norm_axis(axis, ndim):
    axis = int(axis)
    if not -ndim <= axis < ndim:
        raise LibraryError(f"AxisError: axis {axis} is out of bounds for array of dimension {ndim}")
    return axis % ndim if ndim else 0


class SymArray:
    __array_priority__ = 1000

    def __init__(self, buf, shape, imap=None, kind=None):
        self.buf = buf
        self._shape = tuple(shape)
        self.imap = imap  # None = identity
        self.kind = buf.kind

    # ---- construction
    @classmethod
    def make(cls, shape, kind, fn, protected=False, name=None):
        memo = {}

        def content(idx):
            key = tuple(i.get_id() if is_sym(i) else ("c", i) for i in idx)
            hit = memo.get(key)
            if hit is None:
                hit = (idx, fn(idx))
                memo[key] = hit
            return hit[1]

        shape = tuple(mk_int(term(d)) for d in shape)
        return cls(Buffer(content, shape, kind, protected, name), shape)

    @classmethod
    def const(cls, value, lazy=False):
        a = numpy.asarray(value)
        if a.dtype == object:
            raise Unsupported("object array")
        kind = kind_of_dtype(a.dtype)
        if a.ndim == 0:
            v = a.item()
            return cls.make((), kind, lambda idx: v)

        def fn(idx):
            if all(not is_sym(i) for i in idx):
                if not a.size:
                    raise Unsupported("read of an empty constant")
                # out of range only under a condition that excludes it
                return a[tuple(min(max(i, 0), d - 1) for i, d in zip(idx, a.shape))].item()
            # finite table
            if a.size > 64:
                raise Unsupported("large constant")
            res = None
            for pos in itertools.product(*(range(d) for d in a.shape)):
                v = a[pos].item()
                c = t_and(*(t_eq(i, p) for i, p in zip(idx, pos)))
                res = v if res is None else ite(c, v, res)
            if res is None:
                raise Unsupported("read of an empty constant")
            return res

        return cls.make(a.shape, kind, fn)

    def reader(self):
        """Snapshot of the content: later in-place writes do not affect it."""
        content, imap = self.buf.content, self.imap
        if imap is None:
            return content
        return lambda idx: content(imap(idx))

    def view(self, shape, imap):
        old = self.imap
        new = imap if old is None else (lambda idx: old(imap(idx)))
        return SymArray(self.buf, tuple(mk_int(term(d)) for d in shape), new)

    def at(self, idx):
        return self.reader()(tuple(idx))

    # ---- attributes
    @property
    def shape(self):
        return self._shape

    @property
    def ndim(self):
        return len(self._shape)

    def dim(self):
        return self.ndim

    @property
    def size(self):
        return SSize(self._shape)

    @property
    def dtype(self):
        return KINDS[self.kind]

    @property
    def base(self):
        """Views have a base, whose memory order may or may not be monotonic."""
        if self.imap is None or _p_current() is None:
            return None
        p = P()
        p.base_forks = getattr(p, "base_forks", 0) + 1
        mono = p.choose() if p.base_forks <= 1 else True

        class Base:
            strides = (16, 8) if mono else (8, 16)

        return Base()

    @property
    def strides(self):
        raise Unsupported("strides")

    @property
    def device(self):
        return "cpu"

    @property
    def T(self):
        return transpose(self, None)

    @property
    def flags(self):
        class F:
            writeable = True

        return F()

    def __len__(self):
        d = self._shape[0]
        if isinstance(d, SInt):
            raise Unsupported("len of symbolic array")
        return d

    def __iter__(self):
        if not self.ndim:
            raise TypeError("iteration over a 0-d array")
        for i in sym_range(self._shape[0]):
            yield self[i]

    def __repr__(self):
        return f"SymArray(shape={self._shape}, kind={self.kind})"

    def scalar_term(self):
        if not self.ndim:
            return fold_const(self.at(()))
        # one-element arrays convert as well
        for d in self._shape:
            if P().branch(t_ne(term(d), 1)):
                raise TypeError("only length-1 arrays can be converted to Python scalars")
        return fold_const(self.at((0,) * self.ndim))

    def item(self):
        t = self.scalar_term()
        if self.kind == "b":
            return mk_bool(t)
        if self.kind == "i":
            return mk_int(t)
        if is_sym(t):
            raise Unsupported("symbolic float item")
        return t

    def __bool__(self):
        t = self.scalar_term()
        if self.kind == "b":
            return P().branch(t)
        return P().branch(t_ne(t, 0))

    def __index__(self):
        t = self.scalar_term()
        if not is_sym(t):
            return int(t)
        return SInt(t).__index__()

    def __int__(self):
        return self.__index__()

    def __hash__(self):
        return id(self)

    # ---- operators
    def _op(self, name, *args, swap=False):
        ops = [self, *args]
        if swap:
            ops.reverse()
        for o in ops:
            if not is_arraylike(o):
                return NotImplemented
        return elementwise(name, *ops)

    def __add__(self, o):
        return self._op("add", o)

    def __radd__(self, o):
        return self._op("add", o, swap=True)

    def __sub__(self, o):
        return self._op("subtract", o)

    def __rsub__(self, o):
        return self._op("subtract", o, swap=True)

    def __mul__(self, o):
        return self._op("multiply", o)

    def __rmul__(self, o):
        return self._op("multiply", o, swap=True)

    def __mod__(self, o):
        return self._op("mod", o)

    def __neg__(self):
        return elementwise("negative", self)

    def __invert__(self):
        return elementwise("logical_not", self)

    def __and__(self, o):
        return self._op("logical_and", o)

    def __or__(self, o):
        return self._op("logical_or", o)

    def __lt__(self, o):
        return self._op("less", o)

    def __le__(self, o):
        return self._op("less_equal", o)

    def __gt__(self, o):
        return self._op("less", o, swap=True)

    def __ge__(self, o):
        return self._op("less_equal", o, swap=True)

    def __eq__(self, o):
        return self._op("equal", o)

    def __ne__(self, o):
        return self._op("not_equal", o)

    def _inplace(self, name, o):
        return elementwise(name, self, o, out=self)

    def __iadd__(self, o):
        return self._inplace("add", o)

    def __isub__(self, o):
        return self._inplace("subtract", o)

    def __imul__(self, o):
        return self._inplace("multiply", o)

    # ---- methods shared by the libraries
    def astype(self, dtype, **_):
        return cast(self, dtype)

    def to(self, dtype=None, **kw):
        return cast(self, dtype if dtype is not None else kw.get("dtype"))

    type = to

    def float(self):
        return cast(self, float)

    def double(self):
        return cast(self, float)

    def long(self):
        return cast(self, int)

    def copy(self):
        r = self.reader()
        return SymArray.make(self._shape, self.kind, r)

    clone = copy
    contiguous = copy

    def detach(self):
        return self

    def permute(self, *perm):
        if len(perm) == 1 and isinstance(perm[0], (tuple, list)):
            perm = tuple(perm[0])
        return transpose(self, perm)

    def transpose(self, *perm):
        if len(perm) == 1 and isinstance(perm[0], (tuple, list)):
            perm = tuple(perm[0])
        return transpose(self, perm or None)

    def squeeze(self, axis=None, dim=None):
        axis = axis if axis is not None else dim
        return squeeze(self, axis, torch_style=True)

    def unsqueeze(self, axis):
        return expand_dims(self, (axis,))

    def clip(self, lo=None, hi=None, min=None, max=None):
        return clip(self, lo if lo is not None else min, hi if hi is not None else max)

    clamp = clip

    def index_select(self, dim, index):
        dim = norm_axis(dim, self.ndim)
        return self[(slice(None),) * dim + (index,)]

    def new_zeros(self, *shape, **kw):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return full(shape, 0, self.kind)

    def new_full(self, shape, value, **kw):
        return full(shape, value, self.kind)

    def new_empty(self, *shape, **kw):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return empty(shape, self.kind)

    def repeat(self, n, axis=None):
        return repeat(self, n, axis)

    def repeat_interleave(self, n, dim=None):
        return repeat(self, n, dim)

    def expand(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        shape = tuple(
            self._shape[i - (len(shape) - self.ndim)] if isinstance(d, int) and d == -1 else d
            for i, d in enumerate(shape)
        )
        return broadcast_to(self, shape)

    def reshape(self, *shape):
        raise Unsupported("reshape")

    def sum(self, axis=None, dim=None, **kw):
        return reduce_axis("add", self, axis if axis is not None else dim)

    def amin(self, axis=None, dim=None, **kw):
        return reduce_axis("minimum", self, axis if axis is not None else dim)

    def amax(self, axis=None, dim=None, **kw):
        return reduce_axis("maximum", self, axis if axis is not None else dim)

    min, max = amin, amax

    def take(self, idx, axis=None, mode="raise"):
        return take(self, idx, axis, mode)

    # ---- indexing
    def __getitem__(self, item):
        return getitem(self, item)

    def __setitem__(self, item, value):
        setitem(self, item, value)

    # ---- NumPy / PyTorch dispatch
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from .libs import numpy_ufunc

        return numpy_ufunc(ufunc, method, *inputs, **kw)

    def __array_function__(self, func, types, args, kwargs):
        from .libs import numpy_function

        return numpy_function(func, args, kwargs)

    def __array__(self, *a, **k):
        raise Unsupported("conversion of a symbolic array to a concrete one")

    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        from .libs import torch_function

        return torch_function(func, args, kwargs or {})


def is_arraylike(x):
    if isinstance(x, (SymArray, SInt, SBool, bool, int, float, numpy.ndarray, numpy.generic)):
        return True
    return is_foreign(x)


def is_foreign(x):
    m = type(x).__module__.split(".")[0]
    return m in ("torch", "jax", "jaxlib") and hasattr(x, "shape") and hasattr(x, "dtype")


def asarr(x) -> SymArray:
    if isinstance(x, SymArray):
        return x
    if isinstance(x, SInt):
        t = x.t
        return SymArray.make((), "i", lambda idx: t)
    if isinstance(x, SBool):
        t = x.t
        return SymArray.make((), "b", lambda idx: t)
    if isinstance(x, (bool, int, float, numpy.ndarray, numpy.generic)):
        return SymArray.const(x)
    if is_foreign(x):
        return SymArray.const(numpy.asarray(x))
    if isinstance(x, (list, tuple)):
        xs = [asarr(e) for e in x]
        return stack(xs)
    raise Unsupported(f"array-like {type(x)}")


def stack(xs):
    shape = (len(xs), *xs[0].shape)
    kind = max((x.kind for x in xs), key=ORDER.get)
    rs = [cast(x, KINDS[kind]).reader() for x in xs]

    def fn(idx):
        res = rs[-1](idx[1:])
        for j in range(len(rs) - 2, -1, -1):
            res = ite(t_eq(idx[0], j), rs[j](idx[1:]), res)
        return res

    return SymArray.make(shape, kind, fn)


# ---------------------------------------------------------------- contracts


def same_dim(a, b) -> bool:
    return P().branch(t_eq(term(a), term(b)))


def broadcast_dims(*shapes, what="operands"):
    n = max((len(s) for s in shapes), default=0)
    out = []
    for k in range(n):
        dims = [s[k - (n - len(s))] for s in shapes if k - (n - len(s)) >= 0]
        cur = dims[0]
        for d in dims[1:]:
            if isinstance(cur, int) and cur == 1:
                cur = d
            elif isinstance(d, int) and d == 1:
                pass
            elif same_dim(cur, d):
                pass
            elif P().branch(t_eq(term(cur), 1)):
                cur = d
            elif P().branch(t_eq(term(d), 1)):
                pass
            else:
                raise LibraryError(f"ValueError: {what} could not be broadcast together")
        out.append(cur)
    return tuple(out)


def bmap(shape_from, shape_to):
    """Index map for broadcasting shape_from into shape_to (dims already compatible on this path)."""
    off = len(shape_to) - len(shape_from)
    ones = []
    for k, d in enumerate(shape_from):
        e = shape_to[k + off]
        if isinstance(d, int) and d == 1:
            ones.append(True)
        elif not isinstance(d, SInt) and not isinstance(e, SInt):
            ones.append(d == 1 and e != 1)
        elif isinstance(d, SInt) and isinstance(e, SInt) and d.t.eq(e.t):
            ones.append(False)
        else:
            # equal on this path unless broadcast from one
            ones.append(not same_dim(d, e))

    def f(idx):
        return tuple(0 if o else idx[k + off] for k, o in enumerate(ones))

    return f


def broadcast_to(a, shape):
    a = asarr(a)
    out = broadcast_dims(a.shape, tuple(shape))
    for d, e in zip(out, shape):
        if not (isinstance(d, int) and isinstance(e, int) and d == e) and not same_dim(d, e):
            raise LibraryError("ValueError: cannot broadcast to shape")
    m = bmap(a.shape, shape)
    return a.view(shape, m)


def coerce(t, kind_from, kind_to):
    if kind_from == kind_to:
        return t
    if kind_to == "f":
        return t_real(t)
    if kind_to == "i" and kind_from == "b":
        return ite(t, 1, 0) if is_sym(t) else int(t)
    if kind_to == "b":
        return t_ne(t, 0)
    if kind_to == "i" and kind_from == "f":
        if not is_sym(t):
            return int(t)
        fl = z3.ToInt(t)
        return z3.If(t >= 0, fl, -z3.ToInt(-t))
    raise Unsupported(f"cast {kind_from}->{kind_to}")


def cast(a, dtype):
    a = asarr(a)
    if dtype is None:
        return a
    k = kind_of_dtype(dtype)
    r, k0 = a.reader(), a.kind
    return SymArray.make(a.shape, k, lambda idx: coerce(r(idx), k0, k))


def _pow(a, b):
    if not is_sym(a) and not is_sym(b):
        try:
            return float(numpy.power(float(a), float(b)))
        except Exception:
            raise Unsupported("power")
    return t_uf("pow", t_real(a), t_real(b))


def _unary(name, pyf):
    def f(a):
        if not is_sym(a):
            return pyf(a)
        return t_uf(name, t_real(a))

    return f


def _recip(a):
    if not is_sym(a):
        if a == 0:
            raise Unsupported("reciprocal of zero")
        return 1.0 / a
    return t_uf("recip", t_real(a))


ARITH = "arith"  # result kind = promoted operand kind
BOOL = "bool"
FLOAT = "float"
LOGIC = "logic"
ELEMENTWISE = {
    "add": (2, ARITH, t_add),
    "subtract": (2, ARITH, t_sub),
    "multiply": (2, ARITH, t_mul),
    "mod": (2, ARITH, t_mod),
    "minimum": (2, ARITH, t_min),
    "maximum": (2, ARITH, t_max),
    "less": (2, BOOL, t_lt),
    "less_equal": (2, BOOL, t_le),
    "greater": (2, BOOL, lambda a, b: t_lt(b, a)),
    "greater_equal": (2, BOOL, lambda a, b: t_le(b, a)),
    "equal": (2, BOOL, t_eq),
    "not_equal": (2, BOOL, t_ne),
    "logical_and": (2, LOGIC, lambda a, b: t_and(a, b)),
    "logical_or": (2, LOGIC, lambda a, b: t_or(a, b)),
    "logical_not": (1, LOGIC, t_not),
    "negative": (1, ARITH, lambda a: -a),
    "absolute": (1, ARITH, lambda a: t_max(a, -a)),
    "power": (2, FLOAT, _pow),
    "reciprocal": (1, FLOAT, _recip),
    "exp": (1, FLOAT, _unary("exp", lambda x: float(numpy.exp(x)))),
    "sin": (1, FLOAT, _unary("sin", lambda x: float(numpy.sin(x)))),
    "cos": (1, FLOAT, _unary("cos", lambda x: float(numpy.cos(x)))),
    "true_divide": (2, FLOAT, lambda a, b: t_mul(t_real(a), _recip(t_real(b)))),
}
ALIASES = {
    "remainder": "mod",
    "divide": "true_divide",
    "multiply_": "multiply",
    "pow": "power",
    "eq": "equal",
    "ne": "not_equal",
    "lt": "less",
    "le": "less_equal",
    "gt": "greater",
    "ge": "greater_equal",
    "neg": "negative",
    "sub": "subtract",
    "mul": "multiply",
    "abs": "absolute",
    "fmod_": "mod",
}


def elementwise(name, *operands, out=None, where=None):
    name = ALIASES.get(name, name)
    if where is not None and where is not True:
        raise Unsupported("ufunc where=")
    ops = [asarr(o) for o in operands]
    if name not in ELEMENTWISE:
        # unknown elementwise function: uninterpreted, on floats
        def fun(*ts):
            if not any(is_sym(t) for t in ts) and hasattr(numpy, name):
                with numpy.errstate(all="ignore"):
                    return float(getattr(numpy, name)(*(numpy.float64(t) for t in ts)))
            return t_uf("np_" + name, *(t_real(t) for t in ts))

        arity, mode = len(ops), FLOAT
    else:
        arity, mode, fun = ELEMENTWISE[name]
    if arity != len(ops):
        raise TypeError(f"{name} takes {arity} operands, got {len(ops)}")
    kind = max((o.kind for o in ops), key=ORDER.get)
    if mode == LOGIC:
        opkind, rkind = "b", "b"
    elif mode == BOOL:
        opkind, rkind = kind, "b"
    elif mode == FLOAT:
        if name == "reciprocal" and kind == "i":
            raise Unsupported("integer reciprocal")
        if name == "power" and kind != "f":
            raise Unsupported("integer power")
        opkind, rkind = "f", "f"
    else:
        if kind == "b" and name in ("subtract", "negative"):
            raise TypeError(f"numpy boolean {name} is not supported")
        if kind == "b":
            if name in ("add", "maximum"):
                fun = lambda a, b: t_or(a, b)  # noqa
            elif name in ("multiply", "minimum"):
                fun = lambda a, b: t_and(a, b)  # noqa
            else:
                raise Unsupported(f"{name} on booleans")
        opkind, rkind = kind, kind
    shape = broadcast_dims(*(o.shape for o in ops))
    parts = [(o.reader(), bmap(o.shape, shape), o.kind) for o in ops]

    def fn(idx):
        return fun(*(coerce(r(m(idx)), k, opkind) for r, m, k in parts))

    res = SymArray.make(shape, rkind, fn)
    if out is not None:
        if isinstance(out, tuple):
            (out,) = out
        return write_out(res, out)
    return res


def write_out(res, out):
    if not isinstance(out, SymArray):
        raise Unsupported("out= is a concrete array")
    if len(res.shape) != len(out.shape):
        if len(res.shape) > len(out.shape):
            raise LibraryError("ValueError: non-broadcastable output operand")
    full_shape = broadcast_dims(res.shape, out.shape)
    for d, e in zip(full_shape, out.shape):
        if d is not e and not same_dim(d, e):
            raise LibraryError("ValueError: non-broadcastable output operand")
    if ORDER[res.kind] > ORDER[out.kind]:
        raise LibraryError("UFuncTypeError: cannot cast output with casting rule same_kind")
    b = broadcast_to(res, out.shape) if res.shape is not out.shape else res
    r, k, ko = b.reader(), res.kind, out.kind
    store(out, None, lambda idx: coerce(r(idx), k, ko))
    return out


def store(target, region, value):
    """target[idx] := value(idx) wherever region(idx) (None = everywhere)."""
    buf = target.buf
    if buf.protected:
        raise AliasError(f"write to protected array {buf.name}")
    if target.imap is not None:
        raise Unsupported("in-place write through a view")
    buf.written = True
    old = buf.content
    memo = {}

    def content(idx):
        key = tuple(i.get_id() if is_sym(i) else ("c", i) for i in idx)
        if key not in memo:
            if region is None:
                v = value(idx)
            else:
                c = region(idx)
                c = fold_const(c)
                if c is True:
                    v = value(idx)
                elif c is False:
                    v = old(idx)
                else:
                    v = ite(c, value(idx), old(idx))
            memo[key] = (idx, v)
        return memo[key][1]

    buf.content = content


def select(c, x, y):
    c, x, y = asarr(c), asarr(x), asarr(y)
    kind = max(x.kind, y.kind, key=ORDER.get)
    shape = broadcast_dims(c.shape, x.shape, y.shape)
    cr, cm = c.reader(), bmap(c.shape, shape)
    xr, xm = x.reader(), bmap(x.shape, shape)
    yr, ym = y.reader(), bmap(y.shape, shape)
    ck, xk, yk = c.kind, x.kind, y.kind

    def fn(idx):
        return ite(
            coerce(cr(cm(idx)), ck, "b"),
            coerce(xr(xm(idx)), xk, kind),
            coerce(yr(ym(idx)), yk, kind),
        )

    return SymArray.make(shape, kind, fn)


def clip(a, lo, hi):
    r = asarr(a)
    if lo is not None:
        r = elementwise("maximum", r, lo)
    if hi is not None:
        r = elementwise("minimum", r, hi)
    return r


def transpose(a, perm=None):
    a = asarr(a)
    if perm is None:
        perm = tuple(range(a.ndim))[::-1]
    perm = tuple(norm_axis(p, a.ndim) for p in perm)
    if len(perm) != a.ndim or sorted(perm) != list(range(a.ndim)):
        raise LibraryError("ValueError: axes don't match array")
    if perm == tuple(range(a.ndim)):
        return a.view(a.shape, lambda idx: idx)
    inv = [0] * len(perm)
    for k, p in enumerate(perm):
        inv[p] = k
    return a.view(
        tuple(a.shape[p] for p in perm), lambda idx: tuple(idx[inv[q]] for q in range(len(inv)))
    )


def moveaxis(a, src, dst):
    a = asarr(a)
    s = [norm_axis(x, a.ndim) for x in (src if isinstance(src, (tuple, list)) else (src,))]
    d = [norm_axis(x, a.ndim) for x in (dst if isinstance(dst, (tuple, list)) else (dst,))]
    order = [n for n in range(a.ndim) if n not in s]
    for de, so in sorted(zip(d, s)):
        order.insert(de, so)
    return transpose(a, tuple(order))


def swapaxes(a, i, j):
    a = asarr(a)
    perm = list(range(a.ndim))
    i, j = norm_axis(i, a.ndim), norm_axis(j, a.ndim)
    perm[i], perm[j] = perm[j], perm[i]
    return transpose(a, tuple(perm))


def expand_dims(a, axes):
    a = asarr(a)
    if isinstance(axes, int):
        axes = (axes,)
    n = a.ndim + len(axes)
    axes_ = [norm_axis(x, n) for x in axes]
    if len(set(axes_)) != len(axes_):
        raise LibraryError("ValueError: repeated axis")
    shape, keep, it = [], [], iter(a.shape)
    for k in range(n):
        if k in axes_:
            shape.append(1)
        else:
            shape.append(next(it))
            keep.append(k)
    return a.view(shape, lambda idx: tuple(idx[k] for k in keep))


def squeeze(a, axes, torch_style=False):
    a = asarr(a)
    if axes is None:
        raise Unsupported("squeeze of all axes")
    if not isinstance(axes, (tuple, list)):
        axes = (axes,)
    axes_ = [norm_axis(x, a.ndim) for x in axes]
    drop = set()
    for x in axes_:
        d = a.shape[x]
        if isinstance(d, int) and d == 1:
            drop.add(x)
        elif P().branch(t_eq(term(d), 1)):
            drop.add(x)
        elif not torch_style:
            raise LibraryError("ValueError: cannot select an axis to squeeze out which has size not equal to one")
    keep = [k for k in range(a.ndim) if k not in drop]
    n = a.ndim

    def m(idx):
        out = [0] * n
        for v, k in zip(idx, keep):
            out[k] = v
        return tuple(out)

    return a.view(tuple(a.shape[k] for k in keep), m)


def concatenate(arrays, axis=0):
    arrays = [asarr(a) for a in arrays]
    if not arrays:
        raise LibraryError("ValueError: need at least one array to concatenate")
    n = arrays[0].ndim
    if any(a.ndim != n for a in arrays) or n == 0:
        raise LibraryError("ValueError: dimension mismatch in concatenate")
    axis = norm_axis(axis, n)
    for a in arrays[1:]:
        for k in range(n):
            if k != axis and not same_dim(arrays[0].shape[k], a.shape[k]):
                raise LibraryError("ValueError: dimensions must match exactly in concatenate")
    kind = max((a.kind for a in arrays), key=ORDER.get)
    total = arrays[0].shape[axis]
    for a in arrays[1:]:
        total = total + a.shape[axis]
    parts = [(a.reader(), a.kind, term(a.shape[axis])) for a in arrays]

    def fn(idx):
        offs, off = [], 0
        for r, k, d in parts:
            offs.append(off)
            off = t_add(off, d)
        i = idx[axis]

        def sub(j):
            r, k, d = parts[j]
            ii = idx[:axis] + (fold_const(t_sub(i, offs[j])),) + idx[axis + 1 :]
            return coerce(r(ii), k, kind)

        def pick(j):  # lazily: only the parts that can hold the position are read
            if j == len(parts) - 1:
                return sub(j)
            c = fold_const(t_lt(i, t_add(offs[j], parts[j][2])))
            return sub(j) if c is True else pick(j + 1) if c is False else ite(c, sub(j), pick(j + 1))

        return pick(0)

    shape = arrays[0].shape[:axis] + (total,) + arrays[0].shape[axis + 1 :]
    return SymArray.make(shape, kind, fn)


def int_term(x):
    """Integer term of a scalar-like (int, SInt, 0-d array)."""
    t = _int_term(x)
    if t is not None:
        return t
    if isinstance(x, SymArray):
        if x.kind == "f":
            raise TypeError("float cannot be interpreted as an integer")
        t = x.scalar_term()
        return coerce(t, x.kind, "i")
    a = numpy.asarray(x)
    if a.size == 1 and a.dtype.kind in "iub":
        return int(a.reshape(()))
    raise TypeError(f"{type(x)} cannot be interpreted as an integer")


def arange(*args, dtype=None, **kw):
    if len(args) == 1:
        lo, hi = 0, args[0]
    elif len(args) == 2:
        lo, hi = args
    else:
        raise Unsupported("arange with step")
    lo, hi = int_term(lo), int_term(hi)
    n = mk_int(t_max(t_sub(hi, lo), 0))
    if kw.get("_torch") and P().branch(t_lt(hi, lo)):
        raise LibraryError("RuntimeError: upper bound and larger bound inconsistent with step sign")
    k = kind_of_dtype(dtype) if dtype is not None else "i"
    return SymArray.make((n,), k, lambda idx: coerce(t_add(lo, idx[0]), "i", k))


def check_shape(shape):
    if not isinstance(shape, (tuple, list)):
        shape = (shape,)
    out = []
    for d in shape:
        t = int_term(d)
        if P().branch(t_lt(t, 0)):
            raise LibraryError("ValueError: negative dimensions are not allowed")
        out.append(mk_int(t))
    return tuple(out)


def empty(shape, kind="f"):
    shape = check_shape(shape)
    f = P().fresh_fun("garbage", *([z3.IntSort()] * len(shape)), SORT[kind]())
    return SymArray.make(
        shape, kind, lambda idx: f(*(i if is_sym(i) else z3.IntVal(i) for i in idx)) if idx else P().fresh("garbage", SORT[kind]())
    )


def full(shape, value, kind=None):
    shape = check_shape(shape)
    v = asarr(value)
    if v.ndim:
        raise Unsupported("full with array value")
    t = v.at(())
    kind = kind or v.kind
    t = coerce(t, v.kind, kind)
    return SymArray.make(shape, kind, lambda idx: t)


def repeat(a, n, axis=None):
    a = asarr(a)
    if axis is None:
        raise Unsupported("flattening repeat")
    axis = norm_axis(axis, a.ndim)
    n = int_term(n)
    if P().branch(t_lt(n, 0)):
        raise LibraryError("ValueError: repeats may not contain negative values.")
    d = a.shape[axis]
    r = a.reader()
    if isinstance(d, int) and d == 1:
        size = mk_int(n)

        def fn(idx):
            return r(idx[:axis] + (0,) + idx[axis + 1 :])
    elif not is_sym(n):
        size = d * n

        def fn(idx):
            from .sym import t_floordiv

            return r(idx[:axis] + (t_floordiv(idx[axis], n),) + idx[axis + 1 :])
    else:
        if not P().branch(t_eq(term(d), 1)):
            raise Unsupported("symbolic repeat of a symbolic axis")
        size = mk_int(n)

        def fn(idx):
            return r(idx[:axis] + (0,) + idx[axis + 1 :])

    return SymArray.make(a.shape[:axis] + (size,) + a.shape[axis + 1 :], a.kind, fn)


def edge_pad(a, pads):
    a = asarr(a)
    pads = [(int_term(l), int_term(r)) for l, r in pads]
    if len(pads) != a.ndim:
        raise LibraryError("ValueError: pad widths do not match the rank")
    for d, (l, r) in zip(a.shape, pads):
        if P().branch(t_or(t_lt(l, 0), t_lt(r, 0))):
            raise LibraryError("ValueError: index can't contain negative values")
        if P().branch(t_and(t_eq(term(d), 0), t_or(t_lt(0, l), t_lt(0, r)))):
            raise LibraryError("ValueError: can't extend empty axis using modes other than 'constant' or 'empty'")
    shape = tuple(mk_int(t_add(t_add(term(d), l), r)) for d, (l, r) in zip(a.shape, pads))
    rd = a.reader()
    dims = [term(d) for d in a.shape]

    def fn(idx):
        return rd(
            tuple(
                i if (not is_sym(l) and l == 0 and not is_sym(r) and r == 0) else t_clip(t_sub(i, l), 0, t_sub(d, 1))
                for i, d, (l, r) in zip(idx, dims, pads)
            )
        )

    return SymArray.make(shape, a.kind, fn)


def fresh_index(shape, hint="k"):
    """A symbolic index tuple within shape (with its bounds), for 'for all elements' checks."""
    p = P()
    idx, bounds = [], []
    for d in shape:
        k = p.fresh(hint, z3.IntSort())
        idx.append(k)
        bounds += [k >= 0, t_lt(k, term(d))]
    return tuple(idx), bounds


def require_in_range(arr, dim, what):
    """IndexError unless every element of arr is in [-dim, dim)."""
    p = P()
    idx, bounds = fresh_index(arr.shape)
    v = arr.at(idx)
    bad = t_and(*bounds, t_or(t_lt(v, t_sub(0, term(dim))), t_le(term(dim), v)))
    bad = fold_const(bad)
    if bad is False:
        return
    if bad is True:
        raise LibraryError(f"IndexError: {what}")
    if p.feasible(bad):
        if p.choose():
            p.assume(bad)
            raise LibraryError(f"IndexError: {what}")


def wrap_index(v, d):
    """Python-style wrap-around of negative positions."""
    if not is_sym(v) and v >= 0:
        return v
    c = fold_const(t_lt(v, 0)) if is_sym(v) else v < 0
    if c is False:
        return v
    return ite(c, t_add(v, term(d)), v)


def norm_slice(s, d):
    if s.step is not None:
        st = int_term(s.step)
    else:
        st = 1
    if is_sym(st) or st == 0:
        raise Unsupported("slice step")
    dt = term(d)
    if st > 0:

        def bound(x, default):
            if x is None:
                return default
            x = int_term(x)
            return fold_const(ite(t_lt(x, 0), t_max(t_add(x, dt), 0), t_min(x, dt)))

        lo, hi = bound(s.start, 0), bound(s.stop, dt)
        span = t_max(t_sub(hi, lo), 0)
        n = span if st == 1 else _ceildiv(span, st)
    else:

        def bound(x, default):
            if x is None:
                return default
            x = int_term(x)
            return fold_const(ite(t_lt(x, 0), t_max(t_add(x, dt), -1), t_min(x, t_sub(dt, 1))))

        lo, hi = bound(s.start, t_sub(dt, 1)), bound(s.stop, -1)
        span = t_max(t_sub(lo, hi), 0)
        n = span if st == -1 else _ceildiv(span, -st)
    return lo, st, mk_int(n)


def _ceildiv(a, k):
    from .sym import t_floordiv

    return t_floordiv(t_add(a, k - 1), k)


def is_scalar_index(x):
    return isinstance(x, (int, SInt, numpy.integer)) and not isinstance(x, bool)


def getitem(a, item):
    items = list(item) if isinstance(item, tuple) else [item]
    if Ellipsis in [i for i in items if i is Ellipsis]:
        pos = next(k for k, i in enumerate(items) if i is Ellipsis)
        used = sum(1 for i in items if i is not None and i is not Ellipsis)
        items[pos : pos + 1] = [slice(None)] * (a.ndim - used)
    used = sum(1 for i in items if i is not None)
    if used > a.ndim:
        raise LibraryError("IndexError: too many indices for array")
    items += [slice(None)] * (a.ndim - used)

    adv = []
    plan = []  # per source dim
    out_shape = []
    src = 0
    for it in items:
        if it is None:
            out_shape.append(1)
            plan.append(("new",))
            continue
        d = a.shape[src]
        src += 1
        if isinstance(it, slice):
            if it == slice(None):
                plan.append(("all", len(out_shape)))
                out_shape.append(d)
            else:
                lo, st, n = norm_slice(it, d)
                plan.append(("slice", len(out_shape), lo, st))
                out_shape.append(n)
        elif is_scalar_index(it):
            t = int_term(it)
            if P().branch(t_or(t_lt(t, t_sub(0, term(d))), t_le(term(d), t))):
                raise LibraryError("IndexError: index out of bounds")
            plan.append(("at", wrap_index(t, d)))
        else:
            ia = asarr(it)
            if ia.kind != "i":
                raise LibraryError("IndexError: arrays used as indices must be of integer type")
            require_in_range(ia, d, "index out of bounds")
            plan.append(("adv", len(adv), d))
            adv.append(ia)
    if adv and any(p[0] == "at" for p in plan):
        raise Unsupported("mixed scalar and array indices")
    if not adv:
        def m(idx):
            out = []
            for p in plan:
                if p[0] == "all":
                    out.append(idx[p[1]])
                elif p[0] == "slice":
                    _, k, lo, st = p
                    out.append(fold_const(t_add(lo, t_mul(idx[k], st) if st != 1 else idx[k])))
                elif p[0] == "at":
                    out.append(p[1])
            return tuple(out)

        return a.view(out_shape, m)
    # advanced indexing: copies
    positions = [k for k, p in enumerate(plan) if p[0] == "adv"]
    contiguous = positions == list(range(positions[0], positions[0] + len(positions)))
    bshape = broadcast_dims(*(x.shape for x in adv), what="shape mismatch: indexing arrays")
    at = 0
    if contiguous:
        at = sum(1 for p in plan[: positions[0]] if p[0] != "adv")
    basic = [s for s in out_shape]
    shape = tuple(basic[:at]) + tuple(bshape) + tuple(basic[at:])
    nb = len(bshape)
    readers = [(x.reader(), bmap(x.shape, bshape)) for x in adv]
    rd = a.reader()

    def fn(idx):
        bidx = idx[at : at + nb]
        rest = idx[:at] + idx[at + nb :]
        out = []
        for p in plan:
            if p[0] == "all":
                out.append(rest[p[1]])
            elif p[0] == "slice":
                _, k, lo, st = p
                out.append(t_add(lo, t_mul(rest[k], st)))
            elif p[0] == "adv":
                r, bm = readers[p[1]]
                out.append(wrap_index(r(bm(bidx)), p[2]))
        return rd(tuple(out))

    return SymArray.make(shape, a.kind, fn)


def setitem(a, item, value):
    items = list(item) if isinstance(item, tuple) else [item]
    if any(i is Ellipsis for i in items):
        pos = next(k for k, i in enumerate(items) if i is Ellipsis)
        items[pos : pos + 1] = [slice(None)] * (a.ndim - (len(items) - 1))
    items += [slice(None)] * (a.ndim - len(items))
    if len(items) > a.ndim:
        raise LibraryError("IndexError: too many indices for array")
    plan, shape = [], []
    for it, d in zip(items, a.shape):
        if isinstance(it, slice):
            lo, st, n = norm_slice(it, d)
            if st != 1:
                raise Unsupported("strided store")
            plan.append((lo, n, len(shape)))
            shape.append(n)
        elif is_scalar_index(it):
            t = int_term(it)
            if P().branch(t_or(t_lt(t, t_sub(0, term(d))), t_le(term(d), t))):
                raise LibraryError("IndexError: index out of bounds")
            plan.append((wrap_index(t, d), None, None))
        else:
            raise Unsupported("advanced store")
    v = asarr(value)
    vs = v.shape
    while len(vs) > len(shape) and isinstance(vs[0], int) and vs[0] == 1:
        v = v[0]
        vs = v.shape
    if len(vs) > len(shape):
        raise LibraryError("ValueError: could not broadcast input array")
    full_shape = broadcast_dims(tuple(shape), vs, what="input array")
    for d, e in zip(full_shape, shape):
        if d is not e and not same_dim(d, e):
            raise LibraryError("ValueError: could not broadcast input array into shape")
    m = bmap(vs, tuple(shape))
    r, k, ka = v.reader(), v.kind, a.kind

    def region(idx):
        cs = []
        for i, (lo, n, _) in zip(idx, plan):
            if n is None:
                cs.append(t_eq(i, lo))
            else:
                cs += [t_le(lo, i), t_lt(i, t_add(lo, term(n)))]
        return t_and(*cs)

    def val(idx):
        sub = tuple(t_sub(i, lo) for i, (lo, n, _) in zip(idx, plan) if n is not None)
        return coerce(r(m(sub)), k, ka)

    store(a, region, val)


def take(a, idx, axis=None, mode="raise"):
    a = asarr(a)
    if axis is None:
        if a.ndim != 1:
            raise Unsupported("flattening take")
        axis = 0
    axis = norm_axis(axis, a.ndim)
    i = asarr(idx)
    if mode == "clip":
        d = term(a.shape[axis])
        if P().branch(t_eq(d, 0)) and P().branch(prod_nonzero(i.shape)):
            raise LibraryError("IndexError: cannot do a non-empty take from an empty axes.")
        i = clip(i, 0, mk_int(t_sub(d, 1)))
    return a[(slice(None),) * axis + (i,)]


def take_along_axis(a, item, axis):
    a, item = asarr(a), asarr(item)
    if a.ndim != item.ndim:
        raise LibraryError("ValueError: `indices` and `arr` must have the same number of dimensions")
    axis = norm_axis(axis, a.ndim)
    if item.kind != "i":
        raise LibraryError("IndexError: `indices` must be an integer array")
    sa = a.shape[:axis] + (1,) + a.shape[axis + 1 :]
    si = item.shape[:axis] + (1,) + item.shape[axis + 1 :]
    out = broadcast_dims(sa, si)
    d = a.shape[axis]
    require_in_range(item, d, "index out of bounds in take_along_axis")
    shape = out[:axis] + (item.shape[axis],) + out[axis + 1 :]
    ma = bmap(sa, out)
    mi = bmap(si, out)
    ra, ri = a.reader(), item.reader()

    def fn(idx):
        z = idx[:axis] + (0,) + idx[axis + 1 :]
        ii = mi(z)
        pos = ri(ii[:axis] + (idx[axis],) + ii[axis + 1 :])
        aa = ma(z)
        return ra(aa[:axis] + (wrap_index(pos, d),) + aa[axis + 1 :])

    return SymArray.make(shape, a.kind, fn)


def torch_gather(a, axis, item):
    a, item = asarr(a), asarr(item)
    if a.ndim != item.ndim:
        raise LibraryError("RuntimeError: gather ranks differ")
    axis = norm_axis(axis, a.ndim)
    for k in range(a.ndim):
        if k != axis and P().branch(t_lt(term(a.shape[k]), term(item.shape[k]))):
            raise LibraryError("RuntimeError: Size does not match in gather")
    p = P()
    idx, bounds = fresh_index(item.shape)
    v = item.at(idx)
    bad = t_and(*bounds, t_or(t_lt(v, 0), t_le(term(a.shape[axis]), v)))
    if p.feasible(bad) and p.choose():
        p.assume(bad)
        raise LibraryError("RuntimeError: index out of bounds in gather")
    ra, ri = a.reader(), item.reader()
    return SymArray.make(
        item.shape, a.kind, lambda ix: ra(ix[:axis] + (ri(ix),) + ix[axis + 1 :])
    )


# --- sums: concrete extents are unrolled, symbolic ones become SUM terms
class SumTerm:
    """Registry of uninterpreted sums: SUM(n, lambda k. body(k))."""


SUM_UNROLL = 6


def sum_over(n, fn, op="add"):
    """Value of folding fn(0..n-1) with op, identity initial."""
    ident = {"add": 0.0, "minimum": float("inf"), "maximum": -float("inf")}[op]
    f = ELEMENTWISE[op][2]
    if isinstance(n, SInt):
        p = P()
        k = 0
        while True:
            if not p.branch(t_lt(k, n.t)):
                break
            k += 1
            if k > SUM_UNROLL:
                raise Unsupported("reduction over an unbounded symbolic extent")
        n = k
    acc = None
    for k in range(n):
        v = fn(k)
        acc = v if acc is None else f(acc, v)
    return acc if acc is not None else ident


def concretise_dim(d):
    """Fork until the extent is a concrete number (bounded by SUM_UNROLL)."""
    if not isinstance(d, SInt):
        return d
    p = P()
    k = 0
    while True:
        if p.branch(t_eq(d.t, k)):
            return k
        k += 1
        if k > SUM_UNROLL:
            raise Unsupported("reduction over an unbounded symbolic extent")


def reduce_axis(op, a, axis, initial=None, keepdims=False):
    a = asarr(a)
    if axis is None:
        if a.ndim == 1:
            axis = 0
        else:
            raise Unsupported("full reduction")
    if isinstance(axis, (tuple, list)):
        for ax in sorted((norm_axis(x, a.ndim) for x in axis), reverse=True):
            a = reduce_axis(op, a, ax, initial)
        return a
    axis = norm_axis(axis, a.ndim)
    n = concretise_dim(a.shape[axis])
    if n == 0 and op != "add" and initial is None:
        raise LibraryError("ValueError: zero-size array to reduction operation which has no identity")
    r = a.reader()
    kind = a.kind if not (a.kind == "b" and op == "add") else "i"
    f = ELEMENTWISE[op][2]
    k0 = a.kind
    init = None
    if initial is not None:
        ia = asarr(initial)
        if ORDER[ia.kind] > ORDER[kind]:
            kind = ia.kind
        init = coerce(ia.at(()), ia.kind, kind)

    def fn(idx):
        acc = init
        for k in range(n):
            v = coerce(r(idx[:axis] + (k,) + idx[axis:]), k0, kind)
            acc = v if acc is None else f(acc, v)
        if acc is None:
            acc = 0.0 if kind == "f" else 0
        return acc

    return SymArray.make(a.shape[:axis] + a.shape[axis + 1 :], kind, fn)


def einsum(subs, *ops, **kw):
    subs = subs.replace(" ", "")
    ins, res = subs.split("->")
    ins = ins.split(",")
    ops = [asarr(o) for o in ops]
    if len(ins) != len(ops):
        raise LibraryError("ValueError: wrong number of einsum operands")
    dims: dict = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise LibraryError("ValueError: einsum subscript rank mismatch")
        for c, d in zip(s, o.shape):
            if c in dims:
                e = dims[c]
                if isinstance(e, int) and e == 1:
                    dims[c] = d
                elif isinstance(d, int) and d == 1:
                    pass
                elif not same_dim(d, e):
                    if P().branch(t_eq(term(e), 1)):
                        dims[c] = d
                    elif not P().branch(t_eq(term(d), 1)):
                        raise LibraryError("ValueError: einsum operands could not be broadcast")
            else:
                dims[c] = d
    for c in res:
        if c not in dims:
            raise LibraryError("ValueError: einsum output subscript not in inputs")
    contracted = [c for c in dict.fromkeys("".join(ins)) if c not in res]
    ns = {c: concretise_dim(dims[c]) for c in contracted}
    kind = max((o.kind for o in ops), key=ORDER.get)
    readers = []
    for s, o in zip(ins, ops):
        ones = []
        for c, d in zip(s, o.shape):
            e = dims[c]
            ones.append(
                isinstance(d, int) and d == 1 and not (isinstance(e, int) and e == 1)
                or (isinstance(d, SInt) and d is not e and not same_dim(d, e))
            )
        readers.append((s, ones, o.reader(), o.kind))

    def fn(idx):
        env = dict(zip(res, idx))
        acc = None
        for combo in itertools.product(*(range(ns[c]) for c in contracted)):
            full_env = env | dict(zip(contracted, combo))
            prod = None
            for s, ones, r, k in readers:
                v = coerce(
                    r(tuple(0 if o else full_env[c] for c, o in zip(s, ones))), k, kind
                )
                prod = v if prod is None else t_mul(prod, v)
            acc = prod if acc is None else t_add(acc, prod)
        return acc if acc is not None else (0.0 if kind == "f" else 0)

    return SymArray.make(tuple(dims[c] for c in res), kind, fn)


def sym_range(*args):
    if len(args) == 1:
        lo, hi, st = 0, args[0], 1
    elif len(args) == 2:
        lo, hi, st = *args, 1
    else:
        lo, hi, st = args
    if all(isinstance(x, int) and not isinstance(x, SInt) for x in (lo, hi, st)):
        yield from range(lo, hi, st)
        return
    if st != 1:
        raise Unsupported("symbolic range with step")
    lo_t, hi_t = int_term(lo), int_term(hi)
    k = 0
    while P().branch(t_lt(t_add(lo_t, k), hi_t)):
        yield mk_int(t_add(lo_t, k))
        k += 1
        if k > 8:
            raise Unsupported("unbounded symbolic loop")
