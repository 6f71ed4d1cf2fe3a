"""C09 / C14: the typing rules.  The oracle is the specification (einv.ref), which rejects ill-typed
programs on its own; every operator is tried with every combination of operand types."""
from __future__ import annotations

import itertools

import numpy

from .. import ref
from . import Failed, Registry, need

CASES = Registry()

KPY = {"b": bool, "i": int, "f": float}

SAMPLES = {
    "b": numpy.array(True), "i": numpy.array(3), "f": numpy.array(1.5),
    "vb": numpy.array([True, False]), "vi": numpy.array([2, -1, 4]), "vf": numpy.array([0.5, -2.0, 3.0]),
    "mf": numpy.arange(6.0).reshape(2, 3), "mi": numpy.arange(6).reshape(2, 3),
}

UNARY = ["-{0}", "~{0}", "abs({0})", "{0}.abs()", "{0}.exp()", "{0}.sin()", "{0}.cos()", "{0}.tanh()", "{0}.float()"]
BINARY = ["{0} + {1}", "{0} - {1}", "{0} * {1}", "{0} / {1}", "{0} % {1}", "{0} & {1}", "{0} | {1}", "{0} < {1}",
          "{0} <= {1}", "{0} > {1}", "{0} >= {1}", "{0} == {1}", "{0} != {1}", "{0}.min({1})", "{0}.max({1})",
          "ns.std.min({0}, {1})", "ns.std.max({0}, {1})"]
TERNARY = ["{0}.where({1}, {2})", "ns.where({0}, {1}, {2})"]
LITERALS = {"b": "True", "i": "2", "f": "2.5"}


def ein_type(a):
    from ein.phi.type_system import type_from_ndarray

    return type_from_ndarray(a)


def build(src, names, samples, ns):
    from ein.frontend.functions import with_varargs

    f = eval(f"lambda ns, {', '.join(names)}: {src}" if names else f"lambda ns: {src}")
    return with_varargs([ein_type(a) for a in samples], lambda *xs: f(ns, *xs))


def spec(src, names, samples):
    f = eval(f"lambda ns, {', '.join(names)}: {src}" if names else f"lambda ns: {src}")
    return f(ref.RefNS, *(ref.rwrap(a) for a in samples))


REJECT = (TypeError, ValueError, AttributeError)


def verdict(ctx, src, names, kinds, run=("numpy",)):
    from ein.backend import STAGE_BACKENDS

    samples = [SAMPLES[k] for k in kinds]
    label = f"{src} with {dict(zip(names, kinds))}"
    try:
        want = spec(src, names, samples)
        parts = ref.split_records(want)
        vals = [ref.to_numpy_ok(p) for p in parts]
    except ref.Undefined:
        return
    except REJECT:
        ctx.raises(lambda: build(src, names, samples, ref.EinNS()), f"rejects {label}")
        return
    varargs, expr = ctx.no_raise(lambda: build(src, names, samples, ref.EinNS()), f"accepts {label}")
    from ..core import KIND_OF, flatten, to_np, backend_array

    prims = expr.type.primitive_type.elems
    ctx.expect(len(prims) == len(vals), f"type of {label}", str(expr.type))
    for (v, ok), pt in zip(vals, prims):
        ctx.expect(pt.rank == v.ndim and {bool: "b", int: "i", float: "f"}[pt.kind] == KIND_OF[v.dtype.kind],
                   f"static type of {label}", lambda: f"{expr.type} for a value of dtype {v.dtype}, rank {v.ndim}")
    if "reduce(y" in src:  # y is no identity: only the typing is specified
        return
    for b in run:
        env = {v: backend_array(a, b) for v, a in zip(varargs, samples)}
        out = ctx.no_raise(lambda: STAGE_BACKENDS[b](expr)(env), f"evaluates {label} on {b}")
        outs = [to_np(o) for o in flatten([out])]
        ctx.expect(len(outs) == len(vals), f"fields of {label} on {b}")
        for (v, ok), o in zip(vals, outs):
            ctx.expect(o.ndim == v.ndim and KIND_OF.get(o.dtype.kind) == KIND_OF[v.dtype.kind],
                       f"kind of the value of {label} on {b}", lambda: f"{o.dtype} instead of {v.dtype}")
            if v.dtype.kind == "f":
                good = numpy.isclose(o, v, rtol=1e-6, atol=1e-9, equal_nan=True) | ~ok
            else:
                good = (o == v) | ~ok
            ctx.expect(good.all(), f"value of {label} on {b}", lambda: f"{o} instead of {v}")


OPS_FUNCS = ("ein/phi/type_system.py:resolve_scalar_signature", "ein/phi/phi.py:AbstractScalarOperator.type",
             "ein/frontend/ndarray.py:Scalar operators", "ein/frontend/ndarray.py:wrap")


@CASES.case("unary", "C09 C11", OPS_FUNCS)
def _(ctx):
    for e in UNARY:
        for k in SAMPLES:
            verdict(ctx, e.format("x"), ["x"], [k], run=("numpy", "torch", "jax"))


for _lhs in ("b", "i", "f", "vi", "vf"):
    @CASES.case(f"binary-{_lhs}", "C09 C11", OPS_FUNCS)
    def _(ctx, k1=_lhs):
        for e in BINARY:
            for k2 in SAMPLES:
                verdict(ctx, e.format("x", "y"), ["x", "y"], [k1, k2])


@CASES.case("binary-literals", "C09 C11", OPS_FUNCS)
def _(ctx):
    for e in BINARY:
        for k in ("b", "i", "f"):
            for kl, lit in LITERALS.items():
                verdict(ctx, e.format("x", lit), ["x"], [k])
                if not e.startswith("{0}.") and "&" not in e and "|" not in e and "%" not in e:
                    verdict(ctx, e.format(lit, "x"), ["x"], [k])


@CASES.case("ternary", "C09 C11", OPS_FUNCS)
def _(ctx):
    for e in TERNARY:
        for ks in itertools.product(("b", "i", "f", "vf"), repeat=3):
            if e.startswith("{0}.") and ks[0].startswith("v"):
                continue
            verdict(ctx, e.format("x", "y", "z"), ["x", "y", "z"], ks)
        for k in "bif":
            for l1, l2 in itertools.product(LITERALS.values(), repeat=2):
                verdict(ctx, e.format("x", l1, l2), ["x"], [k])


@CASES.case("powers", "C09 C11", OPS_FUNCS + ("ein/frontend/ndarray.py:Scalar.__pow__",))
def _(ctx):
    for k in ("i", "f"):
        for p in range(-6, 20):
            verdict(ctx, f"x ** {p}" if p >= 0 else f"x ** ({p})", ["x"], [k])
        for p in ("2.0", "0.5", "-1.5", "True", "y"):
            for k2 in ("b", "i", "f") if p == "y" else ("f",):
                if p == "True":
                    continue
                verdict(ctx, f"x ** {p}", ["x", "y"], [k, k2])


STRUCTURE = [
    # (source, parameters)
    ("x[y]", 2), ("x[y, y]", 2), ("x[0]", 1), ("x[1.0]", 1), ("x[True]", 1), ("x[0, 0]", 1), ("x[0, 0, 0]", 1),
    ("x[0].float()", 1), ("x.concat(y)", 2), ("x.size()", 1),
    ("ns.array(lambda i: x[i])", 1), ("ns.array(lambda i: x[i] + y)", 2), ("ns.array(lambda i: x[i] + y[i], size=2)", 2),
    ("ns.array(lambda i: x, size=y)", 2), ("ns.array(lambda i: x, size=2.0)", 1), ("ns.array(lambda i: x, size=True)", 1),
    ("ns.array(lambda i, j: x, size=(y, 2))", 2), ("ns.array(lambda i, j: x, size=(2, y))", 2),
    ("ns.array(lambda i: x[i].float() * 2.0, size=3)", 1), ("ns.array(lambda i: i + x, size=3)", 1),
    ("ns.array(lambda i: i.float() + x, size=3)", 1),
    ("ns.fold(x, lambda i, a: a + y, count=2)", 2), ("ns.fold(x, lambda i, a: y, count=2)", 2),
    ("ns.fold(x, lambda i, a: a, count=y)", 2), ("ns.fold(0, lambda i, a: a + x, count=2)", 1),
    ("ns.fold(0.0, lambda i, a: a + x, count=2)", 1), ("ns.fold(True, lambda i, a: a & x, count=2)", 1),
    ("ns.fold(0, lambda i, a: a + i, count=x)", 1), ("ns.fold(0.0, lambda i, a: a + i, count=3)", 0),
    ("ns.fold((x, y), lambda i, a: (a[0], a[1]), count=2)[0]", 2), ("ns.fold((x, y), lambda i, a: (a[1], a[0]), count=2)[0]", 2),
    ("ns.fold((x, 0), lambda i, a: (a[0], a[1], i), count=2)[0]", 1), ("ns.fold(x, lambda i, a: (a, a), count=2)", 1),
    ("ns.fold((x, x), lambda i, a: a[0], count=2)[0]", 1),
    ("x.reduce(y, lambda a, b: a + b)", 2), ("x.reduce(y, lambda a, b: b)", 2), ("x.reduce(0.0, lambda a, b: a + b)", 1),
    ("x.reduce(0, lambda a, b: a + b)", 1), ("x.reduce(0, lambda a, b: (a + b).float())", 1),
    ("x.reduce(y, lambda a, b: (a, b))", 2), ("x.reduce((y, y), lambda a, b: a)", 2),
    ("ns.where(x, y, y)", 2), ("ns.where(True, x, y)", 2), ("ns.where(x < 1, y, y)", 2), ("ns.where(x, (y, 1), (y, 2))[0]", 2),
    ("ns.where(True, (x, y), (y, x))[1]", 2), ("ns.where(True, (x, y), x)", 2), ("ns.where(True, (x,), (x, x))", 1),
    ("ns.std.fold_sum(lambda i: x[i])", 1), ("ns.std.fold_min(lambda i: x[i])", 1), ("ns.std.fold_max(lambda i: x[i])", 1),
    ("ns.std.fold_argmin(lambda i: x[i])", 1), ("ns.std.reduce_sum(lambda i: x[i])", 1), ("ns.std.reduce_argmin(lambda i: x[i])", 1),
    ("ns.array(lambda i: ns.std.fold_sum(lambda j: x[i, j] * y[j]))", 2),
    ("ns.array(lambda i: ns.std.fold_sum(lambda j: x[j].float()) + y[i])", 2),
]


for _n in range(6):
    @CASES.case(f"structure-{_n}", "C09", ("ein/phi/phi.py:Get.type", "ein/phi/phi.py:Vec.type", "ein/phi/phi.py:Fold.type",
                                            "ein/phi/phi.py:Reduce.type", "ein/phi/phi.py:Concat.type",
                                            "ein/frontend/comprehension.py:array", "ein/frontend/comprehension.py:fold",
                                            "ein/frontend/ndarray.py:Vec.reduce", "ein/frontend/std.py:where"))
    def _(ctx, n=_n):
        for e, k in STRUCTURE[n::6]:
            names = ["x", "y"][:k]
            for ks in itertools.product(SAMPLES, repeat=k):
                verdict(ctx, e, names, ks, run=("numpy",) if k == 2 else ("numpy", "torch"))


@CASES.case("rejections", "C09", ("ein/phi/phi.py:Vec.type", "ein/phi/phi.py:Get.type", "ein/frontend/ndarray.py:_Array"))
def _(ctx):
    """Programs that are never well-typed, whatever else they contain."""
    ns = ref.EinNS()
    w = ns.wrap
    v = w(numpy.arange(4.0))
    iv = w(numpy.arange(4))
    m = w(numpy.arange(6.0).reshape(2, 3))
    bad = {
        "index-dependent size": lambda: ns.array(lambda i: ns.array(lambda j: v[j], size=i), size=3),
        "index-dependent size through a vector": lambda: ns.array(lambda i: ns.array(lambda j: v[j], size=iv[i]), size=3),
        "index-dependent size, arithmetic": lambda: ns.array(lambda i: ns.array(lambda j: v[j], size=i * 0 + 2), size=3),
        "index-dependent size of a later index": lambda: ns.array(lambda i, k: ns.array(lambda j: v[j], size=k), size=(3, 2)),
        "float size": lambda: ns.array(lambda i: v[i], size=2.0),
        "float scalar size": lambda: ns.array(lambda i: v[i], size=v[0]),
        "vector size": lambda: ns.array(lambda i: v[i], size=iv),
        "bool size": lambda: ns.array(lambda i: v[i], size=w(True)),
        "float count": lambda: ns.fold(0.0, lambda i, a: a, count=2.0),
        "vector count": lambda: ns.fold(0.0, lambda i, a: a, count=iv),
        "float index": lambda: v[v[0]],
        "bool index": lambda: v[w(True)],
        "vector index": lambda: v[iv],
        "index a scalar": lambda: v[0][0],
        "index a scalar twice": lambda: m[0, 0, 0],
        "no such size to infer": lambda: ns.array(lambda i: i.float()),
        "wrong number of sizes": lambda: ns.array(lambda i, j: v[i], size=(2,)),
        "fold changes kind": lambda: ns.fold(0, lambda i, a: a.float(), count=2),
        "fold changes rank": lambda: ns.fold(0.0, lambda i, a: v, count=2),
        "fold changes rank of a record": lambda: ns.fold((0.0, 0.0), lambda i, a: (v, a[1]), count=2)[0],
        "fold changes kind in a record": lambda: ns.fold((0.0, 0), lambda i, a: (a[1], a[0]), count=2)[0],
        "fold changes structure": lambda: ns.fold({"a": 0.0, "b": 1.0}, lambda i, a: {"a": 0.0, "c": 1.0}, count=2)["a"],
        "fold changes order of fields": lambda: ns.fold({"a": 0.0, "b": 1.0}, lambda i, a: {"b": 0.0, "a": 1.0}, count=2)["a"],
        "reduce changes kind": lambda: iv.reduce(0, lambda a, b: (a + b).float()),
        "reduce with another identity": lambda: iv.reduce(0.0, lambda a, b: a + b),
        "reduce changes rank": lambda: v.reduce(0.0, lambda a, b: v),
        "concat of different kinds": lambda: v.concat(iv),
        "concat of different ranks": lambda: v.concat(m),
        "add vectors": lambda: v[0] + v,
        "truth of a scalar": lambda: bool(v[0] > 0.0),
        "iterate a vector": lambda: list(v),
        "where on a float": lambda: ns.where(v[0], 1.0, 2.0),
        "where on different kinds": lambda: ns.where(v[0] > 0.0, 1.0, 2),
        "and of integers": lambda: iv[0] & iv[1],
        "not of an integer": lambda: ~iv[0],
        "divide integers": lambda: iv[0] / iv[1],
        "modulo of floats": lambda: v[0] % v[1],
        "exp of an integer": lambda: iv[0].exp(),
        "compare kinds": lambda: iv[0] < v[0],
        "equal kinds": lambda: iv[0] == v[0],
        "add kinds": lambda: iv[0] + v[0],
        "add a float literal": lambda: iv[0] + 1.0,
        "add an integer literal": lambda: v[0] + 1,
        "add a bool literal": lambda: v[0] + True,
        "int add a bool literal": lambda: iv[0] + True,
        "cast a float": lambda: v[0].float(),
        "cast a bool": lambda: (v[0] > 0.0).float(),
        "wrap a string": lambda: w("x"),
        "wrap complex": lambda: w(numpy.array([1j])),
        "wrap a list": lambda: w([1.0, 2.0]),
        "wrap None": lambda: w(None),
        "slice": lambda: v[1:],
        "free variable": lambda: ns.array(lambda i: i.float(), size=2)[0] + free(ns),
    }

    def free(ns):
        from ein.frontend.ndarray import Scalar
        from ein.phi import phi
        from ein.symbols import Variable
        from ein.phi.type_system import scalar_type

        Scalar(phi.variable(Variable(), scalar_type(float))).numpy()
        return 0.0

    for name, f in bad.items():
        ctx.raises(f, f"rejects {name}")


@CASES.case("signature", "C14 C09", ("ein/frontend/ndarray.py:ext", "ein/phi/phi.py:Extrinsic"))
def _(ctx):
    """Every extrinsic signature of up to three operands, applied to every list of up to four operands."""
    from ein.phi.type_system import Scalar, Vector, ndarray_type

    ns = ref.EinNS()
    pool = {k: ns.wrap(SAMPLES[k]) for k in ("b", "i", "f", "vf", "vi", "mf")}
    typs = {"b": Scalar(bool), "i": Scalar(int), "f": Scalar(float), "vf": ndarray_type(1, float), "vi": ndarray_type(1, int),
            "mf": ndarray_type(2, float)}

    def fun(*args):
        return numpy.float64(len(args))

    for n in range(0, 4):
        for sig in itertools.product(typs, repeat=n):
            if n == 3 and len(set(sig)) < 2:
                continue
            f = ns.ext(fun, ([typs[k] for k in sig], Scalar(float)))
            for m in range(0, 5):
                if abs(m - n) > 1:
                    continue
                opts = itertools.product(pool, repeat=m) if m <= 2 else [
                    sig[:i] + (k,) + sig[i + 1:] for i in range(m) for k in pool] if m == n else [
                    (sig + (k,))[:m] for k in pool] if m > n else [sig[:m]]
                for ops in opts:
                    args = [pool[k] for k in ops]
                    if tuple(ops) == sig:
                        r = ctx.no_raise(lambda: f(*args), f"accepts {ops} for {sig}")
                        ctx.expect(r.expr.type == Scalar(float), f"type of ext{sig}", str(r.expr.type))
                    else:
                        ctx.raises(lambda: f(*args), f"rejects operands {ops} for the signature {sig}")


@CASES.case("ext-operands", "C14", ("ein/frontend/ndarray.py:ext", "ein/codegen/phi_to_yarr.py:transform (Extrinsic)",
                                     "ein/backend/array_backend.py:AbstractArrayBackend.stage (Extrinsic)"))
def _(ctx):
    """Outside comprehensions the function receives exactly the operands, in argument order, on every backend."""
    from ein.phi.type_system import Scalar, ndarray_type
    from ..core import to_np

    ns = ref.EinNS()
    rng = numpy.random.default_rng(5)
    shapes = [(), (1,), (3,), (0,), (2, 3), (3, 2), (2, 1, 3)]
    for backend in ("numpy", "torch", "jax", "naive"):
        for n in (1, 2, 3):
            for combo in itertools.islice(itertools.product(shapes, repeat=n), 0, 60 if n == 3 else None):
                arrays = [rng.normal(size=s) if k % 2 == 0 else rng.integers(0, 9, size=s) for k, s in enumerate(combo)]
                got = []

                def fun(*args):
                    got.append([numpy.array(to_np(a)) if backend != "jax" else (a.shape, a.dtype) for a in args])
                    return args[0] + 0.0 if backend != "naive" else numpy.asarray(args[0]) + 0.0

                sig = [ndarray_type(a.ndim, float if a.dtype.kind == "f" else int) for a in arrays]
                e = ns.ext(fun, (sig, sig[0]))(*(ns.wrap(numpy.asarray(a)) for a in arrays))
                out = ctx.no_raise(lambda: to_np(e.eval(backend=backend)), f"applies to operands of shapes {combo} on {backend}")
                ctx.expect(len(got) >= 1, f"calls the function on {backend}")
                for call in got:
                    ctx.expect(len(call) == n, "number of operands")
                    for a, g in zip(arrays, call):
                        if backend == "jax":
                            ctx.expect(tuple(g[0]) == a.shape and g[1].kind == a.dtype.kind, f"operand on {backend}", str(g))
                        else:
                            ctx.expect(g.shape == a.shape and g.dtype == a.dtype and numpy.array_equal(g, a),
                                       f"operand {combo} on {backend}", lambda: f"{g} instead of {a}")
                ctx.expect(out.shape == arrays[0].shape and numpy.array_equal(out, arrays[0]), f"result on {backend}",
                           lambda: f"{out} instead of {arrays[0]}")
        if backend == "numpy":
            # several results, in order: a function of all operands that is not symmetric
            for perm in itertools.permutations(range(3)):
                xs = [rng.normal(size=(3,)) for _ in range(3)]
                f = ns.ext(lambda a, b, c: a + 10 * b + 100 * c, ([ndarray_type(1, float)] * 3, ndarray_type(1, float)))
                e = f(*(ns.wrap(xs[p]) for p in perm))
                want = xs[perm[0]] + 10 * xs[perm[1]] + 100 * xs[perm[2]]
                ctx.expect(numpy.allclose(e.numpy(), want), "operand order")
