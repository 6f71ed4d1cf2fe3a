"""Programs, their symbolic verification against the specification, and concrete replay."""
from __future__ import annotations

import contextlib
import os
import re
import sys
import time
import traceback
import warnings

import numpy
import z3

from . import libs, ref, sym
from . import symarray as sa
from .ref import EinNS, RefNS, Undefined
from .sym import Path, Unsupported, explore, is_sym, t_and, t_eq, t_or, t_not, term
from .symarray import SymArray

KIND_PY = {"b": bool, "i": int, "f": float}


class ArgSpec:
    """'f[n,m]' or 'i' ; dims may be names or numbers"""

    def __init__(self, text, name):
        m = re.fullmatch(r"([bif])(?:\[(.*)\])?", text.replace(" ", ""))
        assert m, text
        self.kind = m.group(1)
        self.dims = tuple(d for d in (m.group(2) or "").split(",") if d)
        self.name = name
        self.text = text

    @property
    def type(self):
        from ein.phi.type_system import ndarray_type

        return ndarray_type(len(self.dims), KIND_PY[self.kind])


class Program:
    """A term skeleton: source of `lambda ns, *args: ...`, argument types, preconditions.

    dims: {name: (lo, hi)} bounds of extents (hi None = unbounded).
    vals: {arg: (lo, hi)} bounds on an argument's integer values.
    """

    def __init__(self, name, src, args=(), *, dims=None, vals=None, props=(), backends=("numpy", "torch", "jax"),
                 env=None, bounded=None, sym=True, weight=1, pre=None, tol=1e-7):
        self.name, self.src = name, src
        self.args = [ArgSpec(t, f"x{k}") for k, t in enumerate(args)]
        self.dims = dict(dims or {})
        self.vals = dict(vals or {})
        self.props = tuple(props)
        self.backends = tuple(backends)
        self.sym = sym
        self.env = env or {}
        self.pre = pre
        self.weight = weight
        self.tol = tol
        self._fn = None
        for a in self.args:
            for d in a.dims:
                if not d.isdigit():
                    self.dims.setdefault(d, (0, None))
        # bounded: some loop runs over an extent for which the proof unrolls
        self.bounded = bool(bounded) if bounded is not None else any(
            hi is not None for lo, hi in list(self.dims.values()) + list(self.vals.values())
        )

    @property
    def fn(self):
        if self._fn is None:
            g = dict(prog_globals())
            g.update(self.env)
            self._fn = eval(self.src, g)
        return self._fn


def prog_globals():
    from . import prelude

    from ein.phi.type_system import Scalar

    prelude.SCF = Scalar(float)
    return vars(prelude)


# ------------------------------------------------------------------ running the real code


class Stats:
    programs_run = 0


def ein_ns():
    return EinNS()


def build_phi(prog: Program):
    from ein.frontend.functions import with_varargs

    ns = ein_ns()
    return with_varargs([a.type for a in prog.args], lambda *xs: prog.fn(ns, *xs))


# Configurations of the compiler (ein.codegen.phi_to_yarr.transform), as suffixes of backends: numpy+gathers and so on.
VARIANTS = {
    "no_takes": dict(use_takes=False),
    "no_pads": dict(use_slice_pads=False),
    "no_elision": dict(use_slice_elision=False),
    "gathers": dict(use_takes=False, use_slice_pads=False),
    "no_einsum": dict(use_einsum=False),
    "no_reductions": dict(use_reductions=False),
    "loops": dict(use_einsum=False, use_reductions=False),
    "no_cancellations": dict(do_shape_cancellations=False, do_tuple_cancellations=False),
}


def has_variant(variant):
    """The options are still there."""
    import inspect

    try:
        from ein.codegen.phi_to_yarr import transform

        return set(VARIANTS[variant]) <= set(inspect.signature(transform).parameters)
    except Exception:
        return False


def stage_backend(expr, backend):
    """The staged program on a backend, by its public entry point; or in another configuration of the compiler."""
    from ein.backend import STAGE_BACKENDS

    base, _, variant = backend.partition("+")
    if not variant:
        return STAGE_BACKENDS[base](expr)
    from unittest import mock

    from ein.codegen import phi_to_yarr

    if not has_variant(variant):
        raise Unsupported("no such configuration")
    real = phi_to_yarr.transform
    with mock.patch.object(phi_to_yarr, "transform", lambda program, **kw: real(program, **{**VARIANTS[variant], **kw})):
        return STAGE_BACKENDS[base](expr)


def stage_symbolic(prog: Program, backend):
    from ein.backend import naive

    with libs.active():
        varargs, expr = build_phi(prog)
        if backend == "naive":
            call = lambda env: naive.interpret(expr, env)  # noqa
        else:
            call = stage_backend(expr, backend)
    return varargs, call


# ------------------------------------------------------------------ symbolic check


class Result:
    def __init__(self, prog, backend):
        self.prog, self.backend = prog, backend
        self.status = None  # proved | violated | undecided
        self.reason = ""
        self.obligations = []
        self.paths = 0
        self.time = 0.0
        self.replay = None


def symbolic_args(prog):
    p = sym.P()
    dims = {}
    for d, (lo, hi) in prog.dims.items():
        v = z3.Int(f"dim_{d}")
        p.assume(v >= lo)
        if hi is not None:
            p.assume(v <= hi)
        dims[d] = v
    out = []
    for a in prog.args:
        shape = tuple(sym.mk_int(dims[d]) if not d.isdigit() else int(d) for d in a.dims)
        sort = sa.SORT[a.kind]()
        if shape:
            f = z3.Function(f"arg_{a.name}", *([z3.IntSort()] * len(shape)), sort)

            def fn(idx, f=f):
                return f(*(i if is_sym(i) else z3.IntVal(i) for i in idx))
        else:
            c = z3.Const(f"arg_{a.name}", sort)

            def fn(idx, c=c):
                return c

        bounds = prog.vals.get(a.name)
        if bounds is not None:
            lo, hi = bounds
            base = fn

            def fn(idx, base=base, lo=lo, hi=hi):
                t = base(idx)
                q = Path.current
                if q is not None:
                    if lo is not None:
                        q.assume(t >= lo)
                    if hi is not None:
                        q.assume(t <= hi)
                return t
        out.append(SymArray.make(shape, a.kind, fn, protected=True, name=a.name))
    if prog.pre is not None:
        c = prog.pre(dims, out)
        p.assume(c)
    return dims, out


def compare(expected_leaf, actual, tag):
    """Obligations: rank, kind, shape, every element."""
    p = sym.P()
    shape, e = ref.shape_of(expected_leaf)
    if not isinstance(actual, SymArray):
        actual = sa.asarr(actual)
    if not p.prove(actual.ndim == len(shape), f"{tag}:rank"):
        return
    if not p.prove(actual.kind == e.kind, f"{tag}:kind", f"{actual.kind} instead of {e.kind}"):
        return
    for k, (d, x) in enumerate(zip(actual.shape, shape)):
        if not p.prove(t_eq(term(d), x), f"{tag}:shape[{k}]"):
            return
    idx, bounds = sa.fresh_index(shape, "out")
    exp = ref.at_index(expected_leaf, idx)
    got = actual.at(idx)
    eq = t_eq(got, exp.t) if e.kind != "b" else iff(got, exp.t)
    p.prove(t_or(*(t_not(b) for b in bounds), t_not(exp.ok), eq), f"{tag}:elements")


def iff(a, b):
    if not is_sym(a) and not is_sym(b):
        return bool(a) == bool(b)
    a, b = sym.unify(a, b)
    return a == b


def symbolic_check(prog: Program, backend, *, budget_s=20.0, max_paths=600) -> Result:
    t0 = time.time()
    res = Result(prog, backend)
    try:
        varargs, call = stage_symbolic(prog, backend)
    except Unsupported as e:
        res.status, res.reason = "undecided", f"staging: {e}"
        res.time = time.time() - t0
        return res
    except Exception as e:
        res.status, res.reason = "candidate", f"building the program raised {type(e).__name__}: {e}"
        res.time = time.time() - t0
        return res

    def run():
        p = sym.P()
        p.vars = symbolic_args(prog)
        dims, args = p.vars
        try:
            expected = prog.fn(RefNS, *(ref.from_symarray(a) for a in args))
            parts = ref.split_records(expected)
            # the specification's own preconditions (sizes, agreement of extents) first
            for part in parts:
                shape, e = ref.shape_of(part)
                ix, bounds = sa.fresh_index(shape, "pre")
                ref.at_index(part, ix)
        except Undefined:
            raise sym.Infeasible
        if not p.feasible():
            raise sym.Infeasible
        try:
            with libs.active():
                actual = call(dict(zip(varargs, args)))
                outs = list(actual) if isinstance(actual, tuple) else [actual]
                outs = flatten(outs)
                if p.prove(len(outs) == len(parts), "number of fields"):
                    for k, (part, out) in enumerate(zip(parts, outs)):
                        compare(part, out, f"field{k}" if len(parts) > 1 else "value")
        except (Unsupported, sym.Infeasible, z3.Z3Exception):
            raise
        except Exception as e:  # the code fails on this path
            p.exc = "".join(traceback.format_exception_only(type(e), e)).strip()
            if os.environ.get("EINV_TRACE"):
                traceback.print_exc()
            p.prove(False, f"no exception", p.exc)

    out = explore_with_model(run, budget_s, max_paths)
    res.obligations = out.obligations
    res.paths = out.paths
    res.time = time.time() - t0
    if out.failed:
        res.status = "candidate"
        o = out.failed[0]
        res.reason = f"{o.name} {o.detail}".strip()
        res.failed = o
    elif not out.complete:
        res.status = "undecided"
        res.reason = "; ".join(sorted(set(out.unsupported)))[:300] or (
            "solver: unknown" if out.unknown else "paths truncated"
        )
    elif not out.obligations:
        res.status, res.reason = "undecided", "no feasible path (vacuous)"
    else:
        res.status = "proved"
    return res


def flatten(x):
    r = []
    for e in x:
        if isinstance(e, tuple):
            r += flatten(e)
        else:
            r.append(e)
    return r


def explore_with_model(run, budget_s, max_paths):
    return explore(run, budget_s=budget_s, max_paths=max_paths)


# ------------------------------------------------------------------ concrete runs and replay


def concrete_from_model(prog, model, rng):
    """Concrete arguments for a z3 model (function interpretations read pointwise)."""
    dims = {}
    for d, (lo, hi) in prog.dims.items():
        v = model.eval(z3.Int(f"dim_{d}"), model_completion=True).as_long()
        if v > 64:
            return None
        dims[d] = v
    arrays = []
    for a in prog.args:
        shape = tuple(dims[d] if not d.isdigit() else int(d) for d in a.dims)
        out = numpy.zeros(shape, {"b": bool, "i": numpy.int64, "f": numpy.float64}[a.kind])
        sort = sa.SORT[a.kind]()
        if int(numpy.prod(shape)) > 4096:
            return None
        if shape:
            f = z3.Function(f"arg_{a.name}", *([z3.IntSort()] * len(shape)), sort)
            for idx in numpy.ndindex(*shape):
                out[idx] = clampv(sym.model_num(model, f(*idx)), a.kind)
        else:
            out[()] = clampv(sym.model_num(model, z3.Const(f"arg_{a.name}", sort)), a.kind)
        arrays.append(out)
    return arrays


def clampv(v, kind):
    if kind == "i":
        return max(-(2**62), min(2**62, int(v)))
    return v


def random_arrays(prog, rng, max_dim=4, dims=None):
    if dims is None:
        dims = {}
        for d, (lo, hi) in prog.dims.items():
            top = max_dim if hi is None else min(hi, max_dim)
            dims[d] = int(rng.integers(lo, max(top, lo) + 1))
    arrays = []
    for a in prog.args:
        shape = tuple(dims[d] if not d.isdigit() else int(d) for d in a.dims)
        if a.kind == "f":
            arr = rng.normal(size=shape)
        elif a.kind == "b":
            arr = rng.integers(0, 2, size=shape).astype(bool)
        else:
            lo, hi = prog.vals.get(a.name, (-4, 7))
            lo = -4 if lo is None else lo
            hi = 7 if hi is None else hi
            arr = rng.integers(lo, hi + 1, size=shape)
        arrays.append(numpy.asarray(arr))
    return arrays


def long_arrays(prog, rng):
    """Arrays with one long dimension (beyond the bound of any unrolling), or None."""
    ds = [d for d, (lo, hi) in prog.dims.items() if hi is None or hi > max(lo, 1)]
    if not ds:
        return None
    d = ds[int(rng.integers(len(ds)))]
    dims = {e: max(lo, min(2, hi if hi is not None else 2)) for e, (lo, hi) in prog.dims.items()}
    dims[d] = int(rng.choice([9, 13, 18, 34, 67]))
    return random_arrays(prog, rng, dims=dims)


def spec_value(prog, arrays):
    """List of (values, defined) per field, or raises Undefined/TypeError/ValueError."""
    v = prog.fn(RefNS, *(ref.rwrap(a) for a in arrays))
    return [ref.to_numpy_ok(part) for part in ref.split_records(v)]


class Disagreement(Exception):
    pass


def to_np(x):
    if type(x).__module__.split(".")[0] == "torch":
        return x.detach().numpy()
    return numpy.asarray(x)


def run_real(prog, arrays, backend, mode="staged"):
    """Run the real code; returns list of numpy arrays."""
    from ein.backend import naive

    ns = ein_ns()
    if mode == "const":
        v = ns.wrap(prog.fn(ns, *(ns.wrap(a) for a in arrays)))
        out = v.eval(backend=backend)
    elif mode == "function":
        from ein.frontend.functions import Function

        f = Function(lambda *xs: prog.fn(ns, *xs))
        out = getattr(f, backend)(*arrays)
    else:
        varargs, expr = build_phi(prog)
        if backend == "naive":
            out = naive.interpret(expr, dict(zip(varargs, arrays)))
        else:
            env = dict(zip(varargs, (backend_array(a, backend) for a in arrays)))
            out = stage_backend(expr, backend)(env)
    outs = flatten([out])
    if backend == "naive" and outs and not isinstance(outs[0], numpy.ndarray):
        outs = [numpy.asarray(o) for o in outs]
    return [to_np(o) for o in outs]


def backend_array(a, backend):
    backend = backend.partition("+")[0]
    if backend == "torch":
        import torch

        return torch.from_numpy(numpy.array(a))
    if backend == "jax":
        import jax.numpy as jnp

        return jnp.asarray(a)
    return a


KIND_OF = {"b": "b", "i": "i", "u": "i", "f": "f"}


def compare_concrete(expected, outs, tol):
    if len(expected) != len(outs):
        return f"{len(outs)} fields instead of {len(expected)}"
    for k, ((val, ok), out) in enumerate(zip(expected, outs)):
        if out.shape != val.shape:
            return f"field {k}: shape {out.shape} instead of {val.shape}"
        if KIND_OF.get(out.dtype.kind) != KIND_OF[val.dtype.kind]:
            return f"field {k}: dtype {out.dtype} instead of kind {val.dtype}"
        if val.dtype.kind == "f":
            scale = numpy.abs(val[ok & numpy.isfinite(val)]).max(initial=1.0)
            good = numpy.isclose(out.astype(float), val, rtol=1e-6, atol=tol * scale, equal_nan=True)
        else:
            good = out == val
        bad = ~good & ok
        if bad.any():
            pos = tuple(int(i) for i in numpy.argwhere(bad)[0])
            return f"field {k}: element {list(pos)} is {out[pos]!r} instead of {val[pos]!r}"
    return None


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with numpy.errstate(all="ignore"):
            yield


NEEDS_STATIC = ("ConcretizationTypeError", "TracerIntegerConversionError", "TracerArrayConversionError", "must have static start/stop/step",
                "NonConcreteBooleanIndexError", "Shapes must be 1D sequences of concrete values")


def concrete_check(prog, arrays, backend, mode="staged"):
    """None if it agrees with the specification (or has none), else a description."""
    with quiet():
        try:
            expected = spec_value(prog, arrays)
        except Undefined:
            return None
        before = [a.copy() for a in arrays]
        try:
            outs = run_real(prog, arrays, backend, mode)
        except (RecursionError, MemoryError):
            return None
        except Exception as e:
            if "can't allocate memory" in str(e):
                return None
            if prog.name.startswith("gen/") and backend.startswith("jax") and any(m in f"{type(e).__name__} {e}" for m in NEEDS_STATIC):
                return None  # JAX cannot trace what this program reads or how far it counts
            if os.environ.get("EINV_TRACE"):
                traceback.print_exc()
            return f"raised {type(e).__name__}: {str(e)[:200]}"
        for a, b in zip(arrays, before):
            if not numpy.array_equal(a, b, equal_nan=a.dtype.kind == "f"):
                return "an input array was modified"
        return compare_concrete(expected, outs, prog.tol)
