"""Binding of the array libraries' functions to the contracts in symarray.

While a compiled program of /repo runs on symbolic arrays, calls of NumPy / PyTorch functions on
SymArrays arrive here through the libraries' own dispatch protocols (__array_ufunc__,
__array_function__, __torch_function__).  Creation functions (arange, zeros, ...), JAX (which has no
such protocol) and the builtins int/len/range are reached by module-level stand-ins installed in the
backend modules only for the duration of a symbolic run (`active()`); the code of /repo itself is
executed unchanged.
"""
from __future__ import annotations

import builtins
import contextlib
import importlib
import types

import numpy

from . import symarray as sa
from .sym import P, Path, SBool, SInt, Unsupported, mk_int, t_add, t_lt, t_max, term
from .symarray import LibraryError, SymArray, asarr


def is_symbolic(x):
    if isinstance(x, (SymArray, SInt, SBool)):
        return True
    if isinstance(x, (list, tuple)):
        return any(is_symbolic(e) for e in x)
    return False


def any_symbolic(args, kw):
    return any(is_symbolic(a) for a in args) or any(is_symbolic(a) for a in kw.values())


# ------------------------------------------------------------------ NumPy protocols


def numpy_ufunc(ufunc, method, *inputs, **kw):
    name = ufunc.__name__
    if method == "__call__":
        out = kw.pop("out", None)
        where = kw.pop("where", None)
        dtype = kw.pop("dtype", None)
        if kw:
            raise Unsupported(f"ufunc keyword {list(kw)}")
        res = sa.elementwise(name, *inputs, out=out, where=where)
        return sa.cast(res, dtype) if dtype is not None else res
    if method == "reduce":
        (a,) = inputs
        out = kw.pop("out", None)
        if out not in (None, (None,)):
            raise Unsupported("reduce out=")
        axis = kw.pop("axis", 0)
        initial = kw.pop("initial", None)
        if initial is numpy._NoValue:
            initial = None
        keepdims = kw.pop("keepdims", False)
        if keepdims or any(v is not None and v is not numpy._NoValue for v in kw.values()):
            raise Unsupported(f"reduce keywords {kw}")
        return sa.reduce_axis(name, a, axis, initial)
    raise Unsupported(f"ufunc method {method}")


def _where(*args):
    if len(args) != 3:
        raise Unsupported("where with one argument")
    return sa.select(*args)


def _pad(a, pads, mode="constant", **kw):
    if mode != "edge":
        raise Unsupported(f"pad mode {mode}")
    return sa.edge_pad(a, pads)


def _clip(a, lo=None, hi=None, out=None, a_min=None, a_max=None, min=None, max=None, **kw):
    lo = next((x for x in (lo, a_min, min) if x is not None), None)
    hi = next((x for x in (hi, a_max, max) if x is not None), None)
    if out is not None or kw:
        raise Unsupported("clip keywords")
    return sa.clip(a, lo, hi)


def _reducer(op):
    def f(a, axis=None, dim=None, initial=None, keepdims=False, keepdim=False, **kw):
        if keepdims or keepdim:
            raise Unsupported("keepdims")
        if initial is numpy._NoValue:
            initial = None
        if any(v is not None and v is not numpy._NoValue for v in kw.values()):
            raise Unsupported("reduction keywords")
        return sa.reduce_axis(op, a, axis if axis is not None else dim, initial)

    return f


def _concat(arrays, axis=0, dim=None, **kw):
    return sa.concatenate(arrays, axis if dim is None else dim)


def _squeeze(a, axis=None, dim=None):
    return sa.squeeze(a, axis if axis is not None else dim)


def _expand_dims(a, axis=None, dim=None):
    return sa.expand_dims(a, axis if axis is not None else dim)


def _transpose(a, axes=None):
    return sa.transpose(a, axes)


def _take(a, indices, axis=None, out=None, mode="raise", **kw):
    return sa.take(a, indices, axis, mode)


def _repeat(a, repeats, axis=None, dim=None, **kw):
    return sa.repeat(a, repeats, axis if axis is not None else dim)


def _shape(a):
    return a.shape


def _full_like(v):
    def f(a, *args, dtype=None, **kw):
        a = asarr(a)
        k = sa.kind_of_dtype(dtype) if dtype is not None else a.kind
        return sa.full(a.shape, v if not args else args[0], k)

    return f


def _empty_like(a, dtype=None, **kw):
    a = asarr(a)
    return sa.empty(a.shape, sa.kind_of_dtype(dtype) if dtype is not None else a.kind)


def _copyto(dst, src, **kw):
    dst[...] = src


def _stack(arrays, axis=0, dim=None):
    axis = axis if dim is None else dim
    return sa.concatenate([sa.expand_dims(a, (axis,)) for a in arrays], axis)


def _atleast_1d(a):
    a = asarr(a)
    return a if a.ndim else sa.expand_dims(a, (0,))


NUMPY_FUNCTIONS = {
    "transpose": _transpose,
    "permute_dims": _transpose,
    "moveaxis": sa.moveaxis,
    "swapaxes": sa.swapaxes,
    "squeeze": _squeeze,
    "expand_dims": _expand_dims,
    "take_along_axis": lambda arr, indices, axis: sa.take_along_axis(arr, indices, axis),
    "take": _take,
    "clip": _clip,
    "concatenate": _concat,
    "stack": _stack,
    "repeat": _repeat,
    "pad": _pad,
    "einsum": lambda subs, *ops, **kw: sa.einsum(subs, *ops),
    "where": _where,
    "sum": _reducer("add"),
    "amin": _reducer("minimum"),
    "amax": _reducer("maximum"),
    "min": _reducer("minimum"),
    "max": _reducer("maximum"),
    "shape": _shape,
    "ndim": lambda a: a.ndim,
    "size": lambda a: a.size,
    "broadcast_to": lambda a, shape, **kw: sa.broadcast_to(a, shape),
    "zeros_like": _full_like(0),
    "ones_like": _full_like(1),
    "full_like": _full_like(None),
    "empty_like": _empty_like,
    "copy": lambda a, **kw: asarr(a).copy(),
    "copyto": _copyto,
    "atleast_1d": _atleast_1d,
    "broadcast_shapes": lambda *shapes: sa.broadcast_dims(*shapes),
    "flip": lambda a, axis: a[(slice(None),) * axis + (slice(None, None, -1),)],
}


def numpy_function(func, args, kwargs):
    name = func.__name__
    if name in NUMPY_FUNCTIONS:
        return NUMPY_FUNCTIONS[name](*args, **kwargs)
    raise Unsupported(f"numpy.{name}")


# ------------------------------------------------------------------ PyTorch protocol


def _torch_minmax(op):
    def f(a, b=None, dim=None, **kw):
        if b is not None and not isinstance(b, int):
            return sa.elementwise(op, a, b)
        raise Unsupported("torch.min/max with indices")

    return f


def _torch_same_kinds(name):
    """torch.minimum etc. broadcast and promote."""

    def f(*args, **kw):
        return sa.elementwise(name, *args, **kw)

    return f


def _torch_squeeze(a, dim=None):
    return sa.squeeze(a, dim, torch_style=True)


def _take_along_dim(a, idx, dim=None):
    if dim is None:
        raise Unsupported("flattening take_along_dim")
    return sa.take_along_axis(a, idx, dim)


def _index_select(a, dim, index):
    return a.index_select(dim, index)


def _permute(a, dims):
    return sa.transpose(a, dims)


TORCH_FUNCTIONS = {
    **NUMPY_FUNCTIONS,
    "concat": _concat,
    "cat": _concat,
    "concatenate": _concat,
    "permute": _permute,
    "squeeze": _torch_squeeze,
    "unsqueeze": lambda a, dim: sa.expand_dims(a, (dim,)),
    "take_along_dim": _take_along_dim,
    "gather": lambda a, dim, index, **kw: sa.torch_gather(a, dim, index),
    "index_select": _index_select,
    "clip": _clip,
    "clamp": _clip,
    "repeat_interleave": _repeat,
    "einsum": lambda subs, *ops, **kw: sa.einsum(
        subs, *(ops[0] if len(ops) == 1 and isinstance(ops[0], (list, tuple)) else ops)
    ),
    "sum": _reducer("add"),
    "amin": _reducer("minimum"),
    "amax": _reducer("maximum"),
    "min": _torch_minmax("minimum"),
    "max": _torch_minmax("maximum"),
    "where": _where,
    "broadcast_to": lambda a, shape: sa.broadcast_to(a, shape),
    "clone": lambda a, **kw: a.copy(),
    "zeros_like": _full_like(0),
    "ones_like": _full_like(1),
    "full_like": _full_like(None),
    "empty_like": _empty_like,
}
for _k in ("transpose", "take", "pad", "copyto", "flip", "expand_dims", "repeat", "shape", "ndim", "size"):
    TORCH_FUNCTIONS.pop(_k, None)


def torch_function(func, args, kwargs):
    name = getattr(func, "__name__", str(func))
    if name in TORCH_FUNCTIONS:
        return TORCH_FUNCTIONS[name](*args, **kwargs)
    base = sa.ALIASES.get(name, name)
    if base in sa.ELEMENTWISE:
        if kwargs:
            raise Unsupported(f"torch.{name} keywords {list(kwargs)}")
        return sa.elementwise(base, *args)
    if name in ("__getitem__",):
        return asarr(args[0])[args[1]]
    if name in FOREIGN_ELEMENTWISE:
        return sa.elementwise(name, *args)
    raise Unsupported(f"torch.{name}")


FOREIGN_ELEMENTWISE = {"sinh", "cosh", "tan", "arctan2", "hypot", "logaddexp", "atan2", "sqrt", "log", "expm1", "log1p"}


# ------------------------------------------------------------------ stand-ins for module globals


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.int, SInt))

    def __subclasscheck__(cls, c):
        return issubclass(c, (builtins.int, SInt))

    def __eq__(cls, o):
        return o is builtins.int or o is cls

    def __hash__(cls):
        return hash(builtins.int)


class IntShim(metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if isinstance(x, SInt):
            return x
        if isinstance(x, SBool):
            from .sym import ite

            return mk_int(ite(x.t, 1, 0))
        if isinstance(x, SymArray):
            t = x.scalar_term()
            return mk_int(sa.coerce(t, x.kind, "i"))
        return builtins.int(x, *a)


def len_shim(x):
    if isinstance(x, SymArray):
        if not x.ndim:
            raise TypeError("len() of unsized object")
        return x.shape[0]
    return builtins.len(x)


class RangeShim:
    def __new__(cls, *args):
        if any(isinstance(a, (SInt, SymArray)) for a in args):
            return sa.sym_range(*args)
        return builtins.range(*args)


class _NdMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (numpy.ndarray, SymArray))


class NdarrayShim(metaclass=_NdMeta):
    pass


BUILTIN_SHIMS = {"int": IntShim, "len": len_shim, "range": RangeShim}


def _running():
    return Path.current is not None


class ModuleProxy:
    """Stand-in for an array library module: overridden names, everything else from the library."""

    def __init__(self, real, table, wrap_all=None):
        self.__dict__["_real"] = real
        self.__dict__["_table"] = table
        self.__dict__["_wrap_all"] = wrap_all

    def __getattr__(self, name):
        t = self._table
        if name in t:
            v = t[name]
            if isinstance(v, Guarded):
                real = getattr(self._real, name, None)
                return v.bind(real)
            return v
        v = getattr(self._real, name)
        if self._wrap_all is not None:
            return self._wrap_all(name, v)
        return v


class Guarded:
    """Use the contract when `when` says so, the real function otherwise."""

    def __init__(self, fn, always=False):
        self.fn, self.always = fn, always

    def bind(self, real):
        def call(*args, **kw):
            if _running() and (self.always or any_symbolic(args, kw)):
                return self.fn(*args, **kw)
            return real(*args, **kw)

        call.__name__ = getattr(real, "__name__", "f")
        return call


def _mk_arange(torch=False):
    def f(*args, **kw):
        dtype = kw.pop("dtype", None)
        kw.pop("device", None)
        if kw:
            raise Unsupported("arange keywords")
        return sa.arange(*args, dtype=dtype, _torch=torch)

    return f


def _shape_of(args):
    if len(args) == 1 and isinstance(args[0], (tuple, list)):
        return tuple(args[0])
    return tuple(args)


def _np_empty(shape, dtype=None, **kw):
    return sa.empty(shape, sa.kind_of_dtype(dtype))


def _np_full(v):
    def f(shape, *a, dtype=None, **kw):
        if a and v is not None:
            dtype = a[0] if dtype is None else dtype
        val = v if v is not None else a[0]
        return sa.full(shape, val, sa.kind_of_dtype(dtype) if dtype is not None else ("f" if v is not None else None))

    return f


def _np_array(x, dtype=None, copy=True, **kw):
    r = asarr(x)
    r = sa.cast(r, dtype) if dtype is not None else r
    return r.copy() if copy and isinstance(x, SymArray) else r


def _np_asarray(x, dtype=None, **kw):
    r = asarr(x)
    return r if dtype is None or sa.kind_of_dtype(dtype) == r.kind else sa.cast(r, dtype)


NUMPY_TABLE = {
    "arange": Guarded(_mk_arange(), always=True),
    "empty": Guarded(_np_empty, always=True),
    "zeros": Guarded(_np_full(0.0), always=True),
    "ones": Guarded(_np_full(1.0), always=True),
    "full": Guarded(_np_full(None), always=True),
    "array": Guarded(_np_array),
    "asarray": Guarded(_np_asarray),
    "ascontiguousarray": Guarded(_np_asarray),
    "isscalar": Guarded(lambda x: isinstance(x, (SInt, SBool))),
}


def _torch_zeros(v):
    def f(*shape, dtype=None, **kw):
        return sa.full(_shape_of(shape), v, sa.kind_of_dtype(dtype))

    return f


def _torch_full(shape, v, dtype=None, **kw):
    return sa.full(shape, v, sa.kind_of_dtype(dtype) if dtype is not None else None)


def _scalar_tensor(x, dtype=None, **kw):
    return sa.cast(asarr(x), dtype if dtype is not None else float)


TORCH_TABLE = {
    "arange": Guarded(_mk_arange(True), always=True),
    "zeros": Guarded(_torch_zeros(0), always=True),
    "ones": Guarded(_torch_zeros(1), always=True),
    "full": Guarded(_torch_full, always=True),
    "empty": Guarded(lambda *s, dtype=None, **kw: sa.empty(_shape_of(s), sa.kind_of_dtype(dtype)), always=True),
    "scalar_tensor": Guarded(_scalar_tensor, always=True),
    "tensor": Guarded(_np_array, always=True),
    "as_tensor": Guarded(_np_asarray, always=True),
    "from_numpy": Guarded(lambda x: asarr(x), always=True),
}


def _jnp_arange(*args, dtype=None, **kw):
    return sa.arange(*args, dtype=dtype)


JNP_TABLE = {
    "arange": _jnp_arange,
    "zeros": _np_full(0.0),
    "ones": _np_full(1.0),
    "full": _np_full(None),
    "empty": _np_full(0.0),
    "array": lambda x, dtype=None, **kw: _np_array(x, dtype),
    "asarray": _np_asarray,
    "take": lambda a, idx, axis=None, mode=None, **kw: _jnp_take(a, idx, axis, mode),
    "pad": lambda a, pads, mode="constant", **kw: _jnp_pad(a, pads, mode),
    "clip": _clip,
    "take_along_axis": lambda arr, indices, axis, **kw: _jnp_take_along_axis(arr, indices, axis),
}


def _jnp_take_along_axis(arr, indices, axis):
    arr = asarr(arr)
    if not arr.size:
        raise LibraryError("TypeError: Slice size in gather op is out of range")
    return sa.take_along_axis(arr, indices, axis)



def _jnp_pad(a, pads, mode):
    if mode != "edge":
        raise Unsupported("pad mode")
    return sa.edge_pad(a, pads)


def _jnp_take(a, idx, axis, mode):
    raise Unsupported("jnp.take")


def jnp_lookup(name, real):
    if name in JNP_TABLE:
        return JNP_TABLE[name]
    if name in NUMPY_FUNCTIONS:
        return NUMPY_FUNCTIONS[name]
    base = sa.ALIASES.get(name, name)
    if base in sa.ELEMENTWISE or base in FOREIGN_ELEMENTWISE:
        return lambda *args: sa.elementwise(base, *args)
    return None


def jnp_wrap(name, real):
    if not callable(real) or isinstance(real, type):
        return real
    fn = jnp_lookup(name, real)

    def call(*args, **kw):
        if _running():
            if fn is None:
                raise Unsupported(f"jnp.{name}")
            return fn(*args, **kw)
        return real(*args, **kw)

    call.__name__ = name
    return call


def torch_wrap(name, real):
    if not callable(real) or isinstance(real, type):
        return real

    def call(*args, **kw):
        if _running() and any_symbolic(args, kw):
            return torch_function(real, args, kw)
        return real(*args, **kw)

    call.__name__ = name
    return call


def _same_structure(a, b):
    if isinstance(a, tuple) != isinstance(b, tuple):
        raise LibraryError("TypeError: fori_loop carry structure changed")
    if isinstance(a, tuple):
        if len(a) != len(b):
            raise LibraryError("TypeError: fori_loop carry structure changed")
        for x, y in zip(a, b):
            _same_structure(x, y)
        return
    a, b = asarr(a), asarr(b)
    if a.ndim != b.ndim:
        raise LibraryError("TypeError: fori_loop carry changed rank")
    if a.kind != b.kind:
        raise LibraryError("TypeError: fori_loop carry changed dtype")
    for d, e in zip(a.shape, b.shape):
        if not sa.same_dim(d, e):
            raise LibraryError("TypeError: fori_loop carry changed shape")


def _fori_loop(lo, hi, body, init, **kw):
    acc = init
    for i in sa.sym_range(sa.int_term_obj(lo), sa.int_term_obj(hi)):
        new = body(asarr(i), acc)
        _same_structure(acc, new)
        acc = new
    return acc


class _NullCtx:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class LaxProxy:
    def __init__(self, real):
        self._real = real

    def __getattr__(self, name):
        real = getattr(self._real, name)
        if name == "fori_loop":
            def call(*a, **k):
                return _fori_loop(*a, **k) if _running() else real(*a, **k)

            return call
        if callable(real):
            def call2(*a, **k):
                if _running():
                    raise Unsupported(f"jax.lax.{name}")
                return real(*a, **k)

            return call2
        return real


class JaxProxy:
    def __init__(self, real, jnp):
        self._real = real
        self.lax = LaxProxy(real.lax)
        self.numpy = jnp

    def jit(self, f, *a, **k):
        return f if _running() else self._real.jit(f, *a, **k)

    def ensure_compile_time_eval(self):
        return _NullCtx() if _running() else self._real.ensure_compile_time_eval()

    def __getattr__(self, name):
        return getattr(self._real, name)


BACKEND_MODULES = ("array_backend", "numpy_backend", "torch_backend", "jax_backend", "naive")


def _const_wrapper(orig):
    def constant(self, value):
        r = orig(self, value)
        if isinstance(r, SymArray):
            return r
        a = numpy.asarray(r)
        if a.dtype == object:
            raise Unsupported("object constant")
        s = SymArray.const(a, lazy=True)
        s.buf.protected, s.buf.name = True, "constant"
        return s

    constant._einv_wrapped = True
    return constant


def _wrap_callable_dict(d):
    """JAX dispatch tables hold jnp functions captured at import."""
    out = {}
    for k, v in d.items():
        nm = getattr(v, "__name__", None)
        out[k] = jnp_wrap(nm, v) if callable(v) and nm else v
    return out


@contextlib.contextmanager
def active(modules=None):
    """Install the stand-ins in the backend modules of /repo (restored on exit)."""
    undo = []

    def put(obj, name, value):
        missing = object()
        old = obj.__dict__.get(name, missing)
        undo.append((obj, name, old, missing))
        setattr(obj, name, value)

    try:
        jnp_proxy = None
        vm = importlib.import_module("ein.value")
        if hasattr(vm, "_ARRAY_TYPES"):
            put(vm, "_ARRAY_TYPES", (*vm._ARRAY_TYPES, SymArray))
        if isinstance(vars(vm).get("numpy"), types.ModuleType):
            put(vm, "numpy", ModuleProxy(numpy, NUMPY_TABLE | {"ndarray": NdarrayShim}))
        for mn in BACKEND_MODULES:
            try:
                mod = importlib.import_module(f"ein.backend.{mn}")
            except ImportError:
                continue
            for bn, shim in BUILTIN_SHIMS.items():
                put(mod, bn, shim)
            for name, val in list(vars(mod).items()):
                if isinstance(val, types.ModuleType):
                    root = val.__name__
                    if root == "numpy":
                        put(mod, name, ModuleProxy(val, NUMPY_TABLE))
                    elif root == "torch":
                        put(mod, name, ModuleProxy(val, TORCH_TABLE, torch_wrap))
                    elif root == "jax.numpy":
                        jnp_proxy = jnp_proxy or ModuleProxy(val, {}, jnp_wrap)
                        put(mod, name, jnp_proxy)
                    elif root == "jax":
                        import jax.numpy as jnp

                        jnp_proxy = jnp_proxy or ModuleProxy(jnp, {}, jnp_wrap)
                        put(mod, name, JaxProxy(val, jnp_proxy))
                elif mn == "jax_backend" and isinstance(val, dict) and not name.startswith("__"):
                    if val and all(callable(v) for v in val.values()):
                        put(mod, name, _wrap_callable_dict(val))
                elif isinstance(val, type) and "constant" in vars(val) and not getattr(
                    vars(val)["constant"], "__isabstractmethod__", False
                ):
                    orig = vars(val)["constant"]
                    if not getattr(orig, "_einv_wrapped", False):
                        put(val, "constant", _const_wrapper(orig))
        yield
    finally:
        for obj, name, old, missing in reversed(undo):
            if old is missing:
                delattr(obj, name)
            else:
                setattr(obj, name, old)


if not hasattr(sa, "int_term_obj"):

    def int_term_obj(x):
        return mk_int(sa.int_term(x))

    sa.int_term_obj = int_term_obj
