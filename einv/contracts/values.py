"""C13: equality and hashing of constants and terms."""
from __future__ import annotations

import itertools

import numpy

from .. import ref
from . import Registry, need

CASES = Registry()


def similar_arrays():
    """Groups of constants that agree in some respect (data, bytes, size, shape, dtype)."""
    nan = float("nan")
    out = []
    for data in ([0, 1, 2, 3, 4, 5], [1, 1, 1, 1, 1, 1], [0, 0, 0, 0, 0, 0]):
        for dt in (numpy.int64, numpy.float64, numpy.int32, numpy.float32):
            a = numpy.array(data, dt)
            for s in ((6,), (2, 3), (3, 2), (1, 6), (6, 1), (1, 2, 3)):
                out.append(a.reshape(s))
            out.append(a.reshape(2, 3).T)
            out.append(a.reshape(3, 2).T)
            out.append(a[::-1])
        out.append(numpy.array(data, bool))
        out.append(numpy.array(data, bool).reshape(2, 3))
    z = numpy.zeros(2)
    out += [z, -z, numpy.array([0.0, -0.0]), numpy.array([-0.0, 0.0]), numpy.array([nan, 0.0]), numpy.array([0.0, nan]), numpy.array([nan, nan])]
    out += [numpy.array(v) for v in (0.0, -0.0, 0, 1, 1.0, True, False, nan, float("inf"), -float("inf"), 2**53, 2**53 + 1, float(2**53))]
    out += [numpy.zeros((0,)), numpy.zeros((0, 3)), numpy.zeros((3, 0)), numpy.zeros((0,), int), numpy.zeros((0,), bool)]
    out += [numpy.array([numpy.pi]).view(numpy.int64), numpy.array([numpy.pi])]
    for n in (1023, 1024, 1025, 3000):
        a = numpy.arange(n, dtype=float)
        b = a.copy()
        b[n // 2] += 1
        c = a.copy()
        c[-1] += 1
        d = a.copy()
        d[0] += 1
        out += [a, a.copy(), b, c, d, a.astype(int), a.reshape(n, 1), a.reshape(1, n)]
    wide = numpy.arange(5000.0).reshape(2, 2500)
    w2 = wide.copy()
    w2[1, 2499] += 1
    out += [wide, w2, wide.reshape(2500, 2)]
    # views of one memory: rows, columns, windows, strides, orders, types
    base = (numpy.arange(1100.0 * 1100) * 0.5).reshape(1100, 1100)
    flat = base.reshape(-1)
    out += [base[0], base[1], base[:, 0], base[:, 1], numpy.diagonal(base), base[0][::-1], flat[:1100], flat[1:1101], flat[: 2 * 1100 : 2],
            numpy.broadcast_to(flat[:1], (1100,)), base[0].view(numpy.int64), base[:1100, :2], base[:2, :1100].T, base[::2, :2], base[:1100, 1:3]]
    few = numpy.arange(12.0)
    out += [few[:6], few[6:], few[::2], few[1::2], few[5::-1], few.reshape(6, 2)[:, 0], few[:6].view(numpy.int64), numpy.broadcast_to(few[:1], (6,)),
            few[:6].reshape(2, 3), few[:6].reshape(3, 2).T, few[:6].reshape(2, 3, order="F")]
    return out


def similar_tensors(lib):
    """The same, of PyTorch or JAX (as NumPy arrays to build them from: views are made of the library's own)."""
    nan = float("nan")
    if lib == "torch":
        import torch

        t = torch.tensor
    else:
        import jax.numpy as jnp

        t = jnp.asarray
    data = numpy.arange(6.0)
    out = [t(data), t(data), t(data + 1), t(data.astype(int)), t(data.astype(numpy.float32)), t(data.reshape(2, 3)), t(data.reshape(3, 2)), t(data.reshape(1, 6)),
           t(numpy.array([0.0, 1.0])), t(numpy.array([-0.0, 1.0])), t(numpy.array([0.0, nan])), t(numpy.array([-0.0, nan])), t(numpy.array([nan, 0.0])),
           t(numpy.array([0, 1])), t(numpy.array([False, True])), t(numpy.array([True, True])), t(numpy.zeros((0, 2))), t(numpy.zeros((2, 0))), t(numpy.zeros(0)),
           t(numpy.array(0.0)), t(numpy.array(-0.0)), t(numpy.array(0)), t(numpy.array(False))]
    big = numpy.arange(3000.0)
    other = big.copy()
    other[2999] += 1
    out += [t(big), t(big.copy()), t(other), t(big.reshape(3, 1000)), t(big.astype(int))]
    m = t(numpy.arange(9.0).reshape(3, 3))
    out += [m, m.T, m[0], m[:, 0], m[1], m[:, 1]]
    return out


def raw(x):
    return numpy.asarray(x)


def _closures():
    def make(c):
        def scale(x):
            return x * c

        return scale

    return [make(2.0), make(3.0), (lambda x: x), (lambda x: -x), numpy.sin, numpy.cos]


FUNS = _closures()


def identical(a, b):
    return (a.shape == b.shape and a.dtype == b.dtype and numpy.ascontiguousarray(a).tobytes() == numpy.ascontiguousarray(b).tobytes())


@CASES.case("value-eq", "C13", ("ein/value.py:Value.__eq__", "ein/value.py:Value.__hash__", "ein/value.py:_data_is_small"))
def _(ctx):
    """Const terms of different arrays are different terms (eq and hash are what every table in the compiler uses)."""
    from ein.phi import phi
    from ein.value import Value

    arrs = similar_arrays()
    terms = [phi.Const(Value(a)) for a in arrs]
    for (a, s), (b, t) in itertools.product(zip(arrs, terms), repeat=2):
        equal = ctx.no_raise(lambda: s == t, "comparison")
        if equal:
            ctx.expect(hash(s) == hash(t), "equal terms hash alike")
            ctx.expect(identical(a, b), "equal terms have the same constant",
                       lambda: f"{a!r} and {b!r}")
    # reflexivity: a term is found again in a table
    for a, s in zip(arrs, terms):
        ctx.expect(s == s and {s: 1}.get(s) == 1, "a term is found in a table again")
    table = {}
    for a, s in zip(arrs, terms):
        table.setdefault(s, a)
        ctx.expect(identical(table[s], a), "a table keyed by terms never gives another constant", lambda: f"{table[s]!r} for {a!r}")


def tensors(ctx, lib):
    """The same of constants given as PyTorch or JAX arrays; and programs with two of them."""
    from ein.phi import phi
    from ein.value import Value

    from ..core import to_np

    ns = ref.EinNS()
    xs = similar_tensors(lib)
    terms = [phi.Const(Value(x)) for x in xs]
    for (a, s), (b, t) in itertools.product(zip(xs, terms), repeat=2):
        if ctx.no_raise(lambda: bool(s == t), "comparison"):
            ctx.expect(hash(s) == hash(t), "equal terms hash alike")
            ctx.expect(identical(raw(a), raw(b)), f"equal terms have the same constant ({lib})", lambda: f"{a!r} and {b!r}")
    for s in terms:
        ctx.expect(s == s and {s: 1}.get(s) == 1, "a term is found in a table again")
    for (n, a), (k, b) in itertools.combinations(list(enumerate(xs)), 2):
        A, B = raw(a), raw(b)
        if A.ndim not in (1, 2) or not A.size or A.shape != B.shape or A.size > 100 and (n + k) % 3:
            continue
        wa, wb = ns.wrap(a), ns.wrap(b)

        def num(w, x, *ix):
            e = w[tuple(ix[: x.ndim])]
            return e.float() if x.dtype.kind == "i" else e.where(1.0, 0.0) if x.dtype.kind == "b" else e

        m = 3
        off = max(len(A) - 2, 0)
        p = ns.array(lambda i, j: 1.0 / num(wa, A, i + off, j) + 2.0 / num(wb, B, i + off, j), size=(m, m))
        with numpy.errstate(all="ignore"):
            at = lambda x, i, j: numpy.float64(x[min(i + off, len(x) - 1)] if x.ndim == 1 else x[min(i + off, len(x) - 1), min(j, x.shape[1] - 1)])
            want = numpy.array([[1 / at(A, i, j) + 2 / at(B, i, j) for j in range(m)] for i in range(m)])
            out = ctx.no_raise(lambda: to_np(p.eval(backend=lib)), f"evaluates with constants {A.dtype}{A.shape}, {B.dtype}{B.shape} of {lib}")
        ctx.expect(numpy.allclose(out, want, equal_nan=True, rtol=1e-4), f"two similar constants of {lib}", lambda: f"{a!r} and {b!r}: {out} instead of {want}")


for _lib in ("torch", "jax"):
    CASES.case(f"tensors-{_lib}", "C13", ("ein/value.py:Value.__eq__", "ein/value.py:Value.__hash__"))(lambda ctx, lib=_lib: tensors(ctx, lib))


@CASES.case("term-eq", "C13 C07", ("ein/term.py:Term.__eq__", "ein/term.py:Term.__hash__", "ein/term.py:Term.hash"))
def _(ctx):
    """Terms are equal exactly when they are the same constructor applied to equal components."""
    from ein.phi import phi
    from ein.phi.type_system import Scalar, Vector
    from ein.symbols import Index, Variable

    V = [Variable() for _ in range(3)]
    ix = [Index() for _ in range(2)]
    F, Int, B = Scalar(float), Scalar(int), Scalar(bool)
    c = [phi.Const(phi.Value(x)) for x in (0, 1, 0.0, 1.0, True)]
    f = [phi.Store(V[0], F), phi.Store(V[1], F)]
    n = [phi.Store(V[0], Int), phi.Store(V[1], Int), phi.at(ix[0]), phi.at(ix[1])]
    v = [phi.Store(V[2], Vector(F)), phi.Store(V[2], Vector(Vector(F)))]

    def mk():
        out = []
        for e in c + f + n + v:
            out.append(e)
        for cls in (phi.Add, phi.Subtract, phi.Multiply, phi.Min, phi.Max, phi.Power, phi.Less, phi.LessEqual, phi.Equal, phi.NotEqual):
            for a, b in itertools.product(f + [c[2]], repeat=2):
                out.append(cls((a, b)))
        for cls in (phi.Negate, phi.Reciprocal, phi.Exp, phi.Sin, phi.Cos):
            out += [cls((a,)) for a in f]
        for a in n + c[:2]:
            out.append(phi.Get(v[0], a))
            out.append(phi.Get(v[1], a))
            for k in ix:
                if k not in a.free_indices:
                    out.append(phi.Vec(k, a, f[0])) if not a.free_indices else None
                    out.append(phi.Vec(k, c[1], phi.Get(v[0], phi.at(k))))
        for a, b in itertools.product(f + n[:1], repeat=2):
            out.append(phi.Cons(a, b))
            out.append(phi.First(phi.Cons(a, b)))
            out.append(phi.Second(phi.Cons(a, b)))
        for a in v:
            for d in (0, 1):
                out.append(phi.Dim(a, d))
        for x, y in itertools.permutations(V[:2], 2):
            out.append(phi.Fold(x, c[1], y, c[2], phi.Store(y, F)))
            out.append(phi.Fold(x, c[0], y, c[2], phi.Store(y, F)))
            out.append(phi.Fold(x, c[1], y, c[3], phi.Store(y, F)))
            out.append(phi.Let(x, c[2], phi.Store(x, F)))
            out.append(phi.Let(x, c[2], phi.Store(y, F)))
            out.append(phi.Reduce(c[2], x, y, phi.Add((phi.Store(x, F), phi.Store(y, F))), (v[0],)))
            out.append(phi.Reduce(c[2], x, y, phi.Add((phi.Store(y, F), phi.Store(x, F))), (v[0],)))
        for fun in FUNS:
            for typ in (F, Int):
                out.append(phi.Extrinsic(typ, fun, (f[0],)))
                out.append(phi.Extrinsic(typ, fun, (f[1],)))
                out.append(phi.Extrinsic(typ, fun, (f[0], f[1])))
                out.append(phi.Extrinsic(typ, fun, (f[1], f[0])))
        out.append(phi.Concat(v[0], v[0]))
        out.append(phi.AssertEq(c[0], (c[0], c[1])))
        out.append(phi.AssertEq(c[1], (c[0], c[1])))
        return out

    def key(e):
        """structural key, computed without the code's equality"""
        if isinstance(e, phi.Const):
            a = numpy.asarray(e.value.value)
            return ("Const", a.dtype.str, a.shape, a.tobytes())
        if isinstance(e, phi.Store):
            return ("Store", id(e.symbol), str(e.inner_type))
        import dataclasses

        r = [type(e).__name__]
        for fl in dataclasses.fields(e):
            x = getattr(e, fl.name)
            if isinstance(x, phi.AbstractExpr):
                r.append(key(x))
            elif isinstance(x, tuple):
                r.append(tuple(key(y) if isinstance(y, phi.AbstractExpr) else y for y in x))
            elif isinstance(x, (Variable, Index)) or callable(x):
                r.append(id(x))
            else:
                r.append(repr(x))
        return tuple(r)

    first, second = mk(), mk()
    keys1, keys2 = [key(e) for e in first], [key(e) for e in second]
    for e, k in zip(first, keys1):
        for g, h in zip(second, keys2):
            eq = e == g
            if eq:
                ctx.expect(k == h, "equal terms have the same structure", lambda: f"{k} and {h}")
                ctx.expect(hash(e) == hash(g), "equal terms hash alike")


@CASES.case("constants-in-programs", "C13", ("ein/value.py:Value", "ein/term.py:Term", "ein/midend/lining.py:outline", "ein/codegen/phi_to_yarr.py:transform"))
def _(ctx):
    """Programs with two similar constants give each use its own constant's value, on every backend."""
    from ..core import to_np

    ns = ref.EinNS()
    arrs = [a for a in similar_arrays() if a.ndim in (1, 2) and a.size and a.dtype.itemsize == 8 or a.dtype == bool and a.ndim in (1, 2)]
    arrs = [a for a in arrs if not (a.ndim == 2 and a.size > 100)]

    def probe(w, a, i):
        e = w[i] if a.ndim == 1 else w[i, i]
        if a.dtype.kind == "i":
            return e.float()
        if a.dtype.kind == "b":
            return e.where(1.0, 0.0)
        return e

    def val(a, i):
        x = a[min(i, len(a) - 1)] if a.ndim == 1 else a[min(i, a.shape[0] - 1), min(i, a.shape[1] - 1)]
        return float(x)

    rng = numpy.random.default_rng(9 + ctx.seed)
    pairs = list(itertools.combinations(range(len(arrs)), 2))
    near = [(i, j) for i, j in pairs if arrs[i].size == arrs[j].size]
    rng.shuffle(near)
    for n, (i, j) in enumerate(near[:700]):
        a, b = arrs[i], arrs[j]
        A, B = ns.wrap(a), ns.wrap(b)
        k = 3
        big = max(len(a), len(b))
        off = 0 if big < 100 else int(rng.integers(0, 3)) * (big // 2) - int(rng.integers(0, 2))
        p = ns.array(lambda t: (probe(A, a, t + off) * 2.0 + probe(B, b, t + off)) + (probe(A, a, 0) - probe(B, b, 0)), size=k)
        with numpy.errstate(all="ignore"):
            want = [val(a, max(t + off, 0)) * 2 + val(b, max(t + off, 0)) + (val(a, 0) - val(b, 0)) for t in range(k)]
        backend = ("numpy", "torch", "numpy", "naive")[n % 4]
        if backend == "torch" and (any(s < 0 for s in a.strides) or any(s < 0 for s in b.strides)):
            backend = "numpy"
        out = ctx.no_raise(lambda: to_np(p.eval(backend=backend)), f"evaluates with constants {a.dtype}{a.shape}, {b.dtype}{b.shape}")
        ctx.expect(numpy.allclose(out, want, equal_nan=True), f"two similar constants on {backend}",
                   lambda: f"{a!r} and {b!r}: {out} instead of {want}")
        if ctx.time_left() < 1:
            break


@CASES.case("signed-zero", "C13", ("ein/value.py:Value",))
def _(ctx):
    """Constants that compare equal as numbers but differ (0.0 and -0.0, 1 and 1.0 and True) stay apart."""
    from ..core import to_np

    ns = ref.EinNS()
    for backend in ("numpy", "torch", "jax", "naive"):
        z = ns.array(lambda i: ns.where(i > 0, 1.0 / ns.wrap(0.0), 1.0 / ns.wrap(-0.0)), size=2)
        with numpy.errstate(all="ignore"):
            out = ctx.no_raise(lambda: to_np(z.eval(backend=backend)), f"signed zeros on {backend}")
        ctx.expect(out.tolist() == [-float("inf"), float("inf")], f"0.0 and -0.0 on {backend}", str(out))
        v = ns.array(lambda i: 1.0 / ns.wrap(numpy.array([0.0, 0.0]))[i] - 1.0 / ns.wrap(numpy.array([0.0, -0.0]))[i])
        with numpy.errstate(all="ignore"):
            out = ctx.no_raise(lambda: to_np(v.eval(backend=backend)), f"signed zero vectors on {backend}")
        ctx.expect(numpy.isnan(out[0]) and out[1] == float("inf"), f"vectors of signed zeros on {backend}", str(out))
        w = ns.array(lambda i: ns.where(ns.wrap(True), ns.wrap(1).float() + ns.wrap(1.0) * 0.5, 0.0) + ns.where(ns.wrap(False), 7.0, ns.wrap(0).float()), size=1)
        out = ctx.no_raise(lambda: to_np(w.eval(backend=backend)), f"1, 1.0 and True on {backend}")
        ctx.expect(out.tolist() == [1.5], f"1, 1.0 and True on {backend}", str(out))
