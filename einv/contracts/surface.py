"""The names users import: every function of std, the typed helpers, `function`/`typed_function`/`with_varargs`, the methods of
vectors, and evaluation with an environment, each against NumPy on arrays of several sizes and every backend.  Ground obligations."""
from __future__ import annotations

import numpy

from . import Registry
from .large import agree

CASES = Registry()
BACKS = ("numpy", "torch", "jax", "naive")


def api():
    import ein
    from ein.frontend import functions, std, typed

    return ein, std, typed, functions


def value(x, backend):
    from ..core import to_np

    if isinstance(x, (tuple, list)):
        return tuple(value(y, backend) for y in x)
    return to_np(x.eval(backend=backend))


def check(ctx, label, thunk, want, backs=BACKS):
    for b in backs:
        got = ctx.no_raise(lambda: value(thunk(), b), f"{label} on {b}")
        if isinstance(want, tuple):
            ctx.expect(isinstance(got, tuple) and len(got) == len(want), f"{label} on {b}: components")
            for k, (w, g) in enumerate(zip(want, got)):
                agree(ctx, f"{label} on {b}, component {k}", w, g)
        else:
            agree(ctx, f"{label} on {b}", want, got)


def clip(a, i):
    return a[numpy.clip(i, 0, len(a) - 1)]


def sample(n, seed=0):
    rng = numpy.random.default_rng([n, seed])
    return numpy.round(rng.normal(size=n) * 64) / 64


def of_std(ctx, props):
    ein, std, typed, functions = api()
    for n in (1, 2, 5):
        a, b = sample(n), sample(n, 1)
        A, B = ein.wrap(a), ein.wrap(b)
        f = lambda i: A[i] * 2.0 - B[i]  # noqa: E731
        v = a * 2 - b
        for c in (None, 1, 3, ein.wrap(2)):
            m = n if c is None else 2 if not isinstance(c, int) else c
            w = clip(v, numpy.arange(m))
            said = f"of {n} elements, count {'inferred' if c is None else m}"
            if props == "C04":
                check(ctx, f"fold_sum {said}", lambda: std.fold_sum(f, c), w.sum())
                check(ctx, f"fold_min {said}", lambda: std.fold_min(f, c), w.min())
                check(ctx, f"fold_max {said}", lambda: std.fold_max(f, c), w.max())
                check(ctx, f"fold_argmin {said}", lambda: std.fold_argmin(f, c), numpy.asarray(w.argmin()))
            else:
                check(ctx, f"reduce_sum {said}", lambda: std.reduce_sum(f, c), w.sum())
                check(ctx, f"reduce_min {said}", lambda: std.reduce_min(f, c), w.min())
                check(ctx, f"reduce_max {said}", lambda: std.reduce_max(f, c), w.max())
                check(ctx, f"reduce_argmin {said}", lambda: std.reduce_argmin(f, c), numpy.asarray(w.argmin()))
        ties = numpy.array([2.0, 1.0, 1.0, 3.0, 1.0])[:n]
        T = ein.wrap(ties)
        if props == "C04":
            check(ctx, f"fold_argmin with ties of {n}", lambda: std.fold_argmin(lambda i: T[i]), numpy.asarray(ties.argmin()))
        else:
            check(ctx, f"reduce_argmin with ties of {n}", lambda: std.reduce_argmin(lambda i: T[i]), numpy.asarray(ties.argmin()))
    # Monoids of the user: composition of affine maps, which is associative and not commutative
    p, q = numpy.array([2, 3, -1, 5]), numpy.array([1, -2, 4, 3])
    P, Q = ein.wrap(p), ein.wrap(q)
    affine = std.Monoid((ein.wrap(1), ein.wrap(0)), lambda x, y: (x[0] * y[0], x[1] * y[0] + y[1]))
    for m in (1, 2, 3, 4, 6):
        k, t = 1, 0
        for i in range(m):
            k, t = k * p[min(i, 3)], t * p[min(i, 3)] + q[min(i, 3)]
        want = (numpy.asarray(k), numpy.asarray(t))
        if props == "C04":
            check(ctx, f"fold of {m} affine maps", lambda: affine.fold(lambda i: (P[i], Q[i]), m), want)
        else:
            check(ctx, f"reduction of {m} affine maps", lambda: affine.reduce(lambda i: (P[i], Q[i]), m), want)


CASES.case("std-fold", "C04 C03", ("ein/frontend/std.py:fold_*", "ein/frontend/std.py:Monoid.fold"), bounded="3 sizes, 4 counts",
           domain="each fold of std, with its count given or inferred")(lambda ctx: of_std(ctx, "C04"))
CASES.case("std-reduce", "C05", ("ein/frontend/std.py:reduce_*", "ein/frontend/std.py:Monoid.reduce"), bounded="3 sizes, 4 counts",
           domain="each reduction of std, with its count given or inferred")(lambda ctx: of_std(ctx, "C05"))


def typed_arrays(ctx):
    ein, std, typed, functions = api()
    m = numpy.arange(2 * 3 * 4 * 5).reshape(2, 3, 4, 5) * 1.0
    M, N, K, L = ein.wrap(m), ein.wrap(m[0]), ein.wrap(m[0, 0]), ein.wrap(m[0, 0, 0])
    check(ctx, "array1", lambda: typed.array1(lambda i: L[i] + 1.0), m[0, 0, 0] + 1)
    check(ctx, "array2", lambda: typed.array2(lambda i, j: K[i, j] + 1.0), m[0, 0] + 1)
    check(ctx, "array2, transposed", lambda: typed.array2(lambda i, j: K[j, i]), m[0, 0].T)
    check(ctx, "array3", lambda: typed.array3(lambda i, j, k: N[i, j, k] + 1.0), m[0] + 1)
    check(ctx, "array3, permuted", lambda: typed.array3(lambda i, j, k: N[k, i, j]), m[0].transpose(1, 2, 0))
    check(ctx, "array4", lambda: typed.array4(lambda i, j, k, l: M[i, j, k, l] + 1.0), m + 1)
    check(ctx, "array4, permuted", lambda: typed.array4(lambda i, j, k, l: M[l, i, k, j]), m.transpose(1, 3, 2, 0))
    sizes = (2, 3, 1, 2, 2, 3)
    for n in range(7):
        want = sum((10 ** (n - 1 - k)) * numpy.arange(s).reshape([-1] + [1] * (n - 1 - k)) for k, s in enumerate(sizes[:n])) if n else numpy.asarray(7)
        body = {0: lambda: ein.wrap(7), 1: lambda i: i, 2: lambda i, j: i * 10 + j, 3: lambda i, j, k: i * 100 + j * 10 + k,
                4: lambda i, j, k, l: i * 1000 + j * 100 + k * 10 + l, 5: lambda i, j, k, l, o: i * 10000 + j * 1000 + k * 100 + l * 10 + o,
                6: lambda i, j, k, l, o, p: i * 100000 + j * 10000 + k * 1000 + l * 100 + o * 10 + p}[n]
        check(ctx, f"a comprehension of {n} indices", lambda: ein.array(body, size=sizes[:n]), want)
        if n == 1:
            check(ctx, "a comprehension whose size is not a tuple", lambda: ein.array(body, size=2), want)
    # slices and several positions in one index
    check(ctx, "m[:]", lambda: K[:], m[0, 0])
    check(ctx, "m[:, 1]", lambda: K[:, 1], m[0, 0][:, 1])
    check(ctx, "m[1, :]", lambda: K[1, :], m[0, 0][1])
    check(ctx, "m[:, 2, :]", lambda: N[:, 2, :], m[0][:, 2, :])
    check(ctx, "m[1, :, 2, :]", lambda: M[1, :, 2, :], m[1, :, 2, :])
    check(ctx, "m[:, 1, :, 4]", lambda: M[:, 1, :, 4], m[:, 1, :, 4])
    check(ctx, "m[1][2][0][3]", lambda: M[1][2][0][3], m[1, 2, 0, 3])
    check(ctx, "m[()]", lambda: K[()], m[0, 0])
    for k in range(4):
        check(ctx, f"size({k})", lambda: M.size(k), numpy.asarray(m.shape[k]))
    # concatenation of several
    parts = [sample(k, k) for k in (2, 1, 3, 4)]
    W = [ein.wrap(x) for x in parts]
    for n in range(1, 5):
        check(ctx, f"concat of {n}", lambda: std.concat(*W[:n]), numpy.concatenate(parts[:n]))
        check(ctx, f"concat of {n}, last first", lambda: std.concat(*reversed(W[:n])), numpy.concatenate(parts[:n][::-1]))
    pairs = [ein.array(lambda i: (w[i], i)) for w in W]
    for b in BACKS:
        got = std.concat(*pairs)
        agree(ctx, f"concat of vectors of pairs on {b}", numpy.concatenate(parts), value(ein.array(lambda i: got[i][0]), b))
        agree(ctx, f"concat of vectors of pairs on {b}, positions", numpy.concatenate([numpy.arange(len(x)) for x in parts]), value(ein.array(lambda i: got[i][1]), b))


CASES.case("arrays", "C01", ("ein/frontend/typed.py:array1", "ein/frontend/typed.py:array2", "ein/frontend/typed.py:array3", "ein/frontend/typed.py:array4",
                             "ein/frontend/comprehension.py:array", "ein/frontend/ndarray.py:Vec.__getitem__", "ein/frontend/std.py:concat"),
           bounded="one shape each", domain="array1..array4, comprehensions of 0..6 indices, slices, concatenations of 1..4 vectors")(typed_arrays)


def choices(ctx):
    ein, std, typed, functions = api()
    for n in (1, 3):
        a, b = sample(n), sample(n, 1)
        A, B = ein.wrap(a), ein.wrap(b)
        for c in (True, False):
            C = ein.wrap(c)
            for cond, said in ((C, "staged"), (c, "Python's"), (A[0] > (-100.0 if c else 100.0), "computed")):
                check(ctx, f"where of scalars, condition {said} {c}", lambda: std.where(cond, A[0], B[0]), (a if c else b)[0])
                check(ctx, f"where of vectors of {n}, condition {said} {c}", lambda: std.where(cond, A, B), a if c else b)
                check(ctx, f"where of pairs, condition {said} {c}", lambda: std.where(cond, (A[0], 1), (B[0], 2)), ((a if c else b)[0], numpy.asarray(1 if c else 2)))
                check(ctx, f"where of a vector and a scalar, condition {said} {c}", lambda: std.where(cond, (A, A[0]), (B, B[0])), ((a, a[0]) if c else (b, b[0])))
        rows = numpy.stack([a, b])
        R = ein.wrap(rows)
        for c in (True, False):
            check(ctx, f"where of matrices {c}", lambda: std.where(ein.wrap(c), R, ein.array(lambda i, j: -R[i, j])), rows if c else -rows)
        check(ctx, f"where at each position of {n}", lambda: ein.array(lambda i: std.where(A[i] > B[i], A[i], B[i])), numpy.maximum(a, b))
        check(ctx, f"where of rows at each position of {n}", lambda: ein.array(lambda i: std.where(A[i] > 0.0, A, B), size=n), numpy.where((a > 0)[:, None], a[None], b[None]))
        check(ctx, f"std.min of 1..4 of {n}", lambda: std.min(A[0], B[0], 0.25, A[n - 1]), min(a[0], b[0], 0.25, a[n - 1]))
        check(ctx, f"std.max of 1..4 of {n}", lambda: std.max(A[0], B[0], 0.25, A[n - 1]), max(a[0], b[0], 0.25, a[n - 1]))
        check(ctx, "std.min of one", lambda: std.min(A[0]), a[0])
        check(ctx, "std.max of one", lambda: std.max(A[0]), a[0])
        check(ctx, f"or_empty of {n}", lambda: A.or_empty(n - 1, -1.0), a[n - 1])
    E = ein.wrap(numpy.zeros(0))
    check(ctx, "or_empty of none", lambda: E.or_empty(0, -1.0), numpy.asarray(-1.0))
    xs = numpy.array([0.5, -2.0, 3.0, 1.0])
    X = ein.wrap(xs)
    for k in list(range(-5, 20)) + [31, 32, 33]:
        check(ctx, f"the power {k}", lambda: ein.array(lambda i: X[i] ** k, size=4), xs ** float(k), ("numpy", "naive"))
    ds = numpy.array([2, -3, 1, 0])
    D = ein.wrap(ds)
    for k in range(0, 12):
        check(ctx, f"the power {k} of integers", lambda: ein.array(lambda i: D[i] ** k, size=4), ds**k, ("numpy", "naive"))


CASES.case("choices", "C11", ("ein/frontend/std.py:where", "ein/frontend/std.py:min", "ein/frontend/std.py:max", "ein/frontend/ndarray.py:Vec.or_empty", "ein/frontend/ndarray.py:Scalar.__pow__"),
           bounded="2 sizes; powers -5..33", domain="where of every structure, std.min/max, or_empty, integer powers")(choices)


def calls(ctx):
    import torch

    ein, std, typed, functions = api()
    from ein.phi.type_system import Scalar, Vector, type_from_ndarray

    S = {k: Scalar(k) for k in (int, float, bool)}
    for k, s in S.items():
        ctx.expect(ein.scalar_type(k) == s and ein.vector_type(k) == Vector(s) and ein.matrix_type(k) == Vector(Vector(s)), f"types of {k.__name__} vectors and matrices")
        t = s
        for r in range(7):
            ctx.expect(ein.ndarray_type(r, k) == t and type_from_ndarray(numpy.zeros((1,) * r, dtype=k)) == t, f"the type of arrays of {k.__name__} of rank {r}")
            t = Vector(t)
    f = functions.function(lambda a, b, c: ein.array(lambda i: a[i] * b - c[i].float()))
    g = functions.typed_function(Vector(S[float]), S[float], Vector(S[int]))(lambda a, b, c: ein.array(lambda i: a[i] * b - c[i].float()))
    for n in (3, 1, 5, 3):
        a, b, c = sample(n), numpy.float64(2.5), numpy.arange(n) * 2 + 1
        want = a * b - c
        T = [torch.from_numpy(numpy.asarray(x)) for x in (a, b, c)]
        for nm, fn in (("function", f), ("typed_function", g)):
            got = ctx.no_raise(lambda: fn(a, b, c), f"{nm} called on arrays")
            agree(ctx, f"{nm} called on arrays of {n}", want, got)
            ctx.expect(isinstance(got, numpy.ndarray), f"{nm} called on arrays is an array")
            for args in ([T[0], T[1], T[2]], [T[0], numpy.asarray(b), c], [a, numpy.asarray(b), T[2]]):
                got = ctx.no_raise(lambda: fn(*args), f"{nm} called on tensors")
                ctx.expect(isinstance(got, torch.Tensor), f"{nm} called on some tensor is a tensor")
                agree(ctx, f"{nm} called on tensors of {n}", want, got.numpy())
            agree(ctx, f"{nm}.numpy of {n}", want, ctx.no_raise(lambda: fn.numpy(a, b, c), f"{nm}.numpy"))
            agree(ctx, f"{nm}.torch of {n}", want, ctx.no_raise(lambda: fn.torch(a, numpy.asarray(b), c), f"{nm}.torch").numpy())
            agree(ctx, f"{nm}.jax of {n}", want, numpy.asarray(ctx.no_raise(lambda: fn.jax(a, b, c), f"{nm}.jax")))
    for bad in ((numpy.zeros((2, 2)), numpy.float64(1), numpy.arange(2)), (numpy.zeros(2), numpy.zeros(1), numpy.arange(2)), (numpy.zeros(2), numpy.float64(1), numpy.zeros(2)),
                (numpy.zeros(2, dtype=bool), numpy.float64(1), numpy.arange(2)), (numpy.zeros(2), numpy.float64(1)), (numpy.zeros(2), numpy.float64(1), numpy.arange(2), numpy.arange(2))):
        try:
            g(*bad)
            ctx.expect(False, "a typed function refuses arguments of other types", lambda: str(bad))
        except TypeError:
            ctx.expect(True, "a typed function refuses arguments of other types")
    # environments: variables are bound by name, whatever their order
    vs, expr = functions.with_varargs([Vector(S[float]), S[int], Vector(S[float])], lambda a, k, b: ein.array(lambda i: a[i] * k.float() - b[i] * 2.0))
    A, K, B = numpy.array([1.0, 2.0, 4.0]), numpy.asarray(3), numpy.array([0.5, 0.25, 8.0])
    want = A * 3 - B * 2
    from ..core import to_np

    for b, run in (("numpy", ein.interpret_with_numpy), ("torch", ein.interpret_with_torch), ("jax", ein.interpret_with_jax), ("naive", ein.interpret_with_naive)):
        from ..core import backend_array

        conv = (lambda x: x) if b == "naive" else (lambda x: backend_array(x, b))
        for order in ((0, 1, 2), (2, 1, 0), (1, 2, 0)):
            env = {vs[k]: conv((A, K, B)[k]) for k in order}
            agree(ctx, f"interpret_with_{b}, variables in the order {order}", want, ctx.no_raise(lambda: to_np(run(expr, env)), f"interpret_with_{b}"))
    w = ein.Vec(expr)
    env = dict(zip(vs, (A, K, B)))
    agree(ctx, "eval with an environment", want, to_np(ctx.no_raise(lambda: w.eval(env=env), "eval")))
    agree(ctx, "numpy with an environment", want, to_np(ctx.no_raise(lambda: w.numpy(env=env), "numpy")))
    agree(ctx, "jax with an environment", want, to_np(ctx.no_raise(lambda: w.jax(env={v: backend_array(x, "jax") for v, x in env.items()}), "jax")))
    agree(ctx, "torch with an environment", want, to_np(ctx.no_raise(lambda: w.torch(env={v: backend_array(x, "torch") for v, x in env.items()}), "torch")))
    for missing in vs:
        try:
            w.eval(env={v: x for v, x in env.items() if v != missing})
            ctx.expect(False, "evaluation without one of the variables is refused")
        except ValueError:
            ctx.expect(True, "evaluation without one of the variables is refused")


CASES.case("calls", "C12 C09 C10", ("ein/frontend/functions.py:Function", "ein/frontend/functions.py:function", "ein/frontend/functions.py:typed_function",
                                    "ein/frontend/functions.py:with_varargs", "ein/frontend/ndarray.py:_Array.eval", "ein/phi/type_system.py:ndarray_type"),
           bounded="4 sizes, 3 orders of an environment", domain="calls of functions on arrays and tensors, environments, types of arrays of rank 0..6")(calls)


class Steps:
    """Run a thunk for at most so many function calls."""

    def __init__(self, limit):
        self.limit = limit

    def __call__(self, thunk):
        import sys

        left = [self.limit]

        def tick(frame, event, arg):
            if event == "call":
                left[0] -= 1
                if left[0] < 0:
                    sys.setprofile(None)
                    raise TimeoutError(f"not evaluated within {self.limit} calls")

        sys.setprofile(tick)
        try:
            return thunk()
        finally:
            sys.setprofile(None)


def deep(ctx, only):
    """A term of n levels, each of which uses the one below twice, is evaluated in time polynomial in n (there are 2**n paths to the leaf)."""
    ein, std, typed, functions = api()
    a, m = numpy.array([1.0, 0.5, -2.0]), numpy.array([[1.0, 0.5], [0.25, -1.0]])
    A, M = ein.wrap(a), ein.wrap(m)

    def again(f, x, n):
        for _ in range(n):
            x = f(x)
        return x

    def rev(v):
        return v[::-1]

    n = 30
    fold2 = lambda x: again(lambda s: s * 0.25 + x, x, 2)  # noqa: E731
    P = {
        "scalars": (lambda: again(lambda x: (x + x) * 0.5, A[1], n), a[1]),
        "elements": (lambda: ein.array(lambda i: again(lambda x: (x + x) * 0.5, A[i], n)), a),
        "elements of a sized comprehension": (lambda: ein.array(lambda i: again(lambda x: (x + x) * 0.5, A[i], n), size=3), a),
        "records": (lambda: again(lambda p: (p[0] * 0.5 + p[1], p[0] - p[1] * 0.5), (A[0], A[1]), n)[0], again(lambda p: (p[0] * 0.5 + p[1], p[0] - p[1] * 0.5), (a[0], a[1]), n)[0]),
        "vectors": (lambda: again(lambda v: ein.array(lambda i: (v[i] + v[i]) * 0.5), A, n), a),
        "vectors read in both directions": (lambda: again(lambda v: ein.array(lambda i: v[i] * 0.5 + v[2 - i], size=3), A, n), again(lambda v: v * 0.5 + rev(v), a, n)),
        "vectors of records": (lambda: again(lambda v: ein.array(lambda i: (v[i][0] * 0.5 + v[i][1], v[i][1])), ein.array(lambda i: (A[i], A[i])), n)[1][0], again(lambda p: (p[0] * 0.5 + p[1], p[1]), (a[1], a[1]), n)[0]),
        "folds": (lambda: again(lambda x: ein.fold(x, lambda k, s: s * 0.25 + x, count=2), A[0], 8), again(fold2, a[0], 8)),
        "choices": (lambda: again(lambda x: std.where(x > 0.5, x * 0.5, x + 1.0), A[0], n), again(lambda x: x * 0.5 if x > 0.5 else x + 1, a[0], n)),
        "steps of a fold": (lambda: ein.fold(0.0, lambda k, s: again(lambda x: (x + x) * 0.5, s + A[k], n)), a.sum()),
        "combiners": (lambda: A.reduce(0.0, lambda x, y: again(lambda z: (z + z) * 0.5, x + y, n)), a.sum()),
        "products of matrices": (lambda: again(lambda x: ein.array(lambda i, j: std.fold_sum(lambda k: x[i, k] * x[k, j])), M, 8), again(lambda x: x @ x, m, 8)),
        "transposes": (lambda: again(lambda x: ein.array(lambda i, j: (x[i, j] + x[j, i]) * 0.5), M, 12), (m + m.T) / 2),
        "concatenations": (lambda: again(lambda v: ein.array(lambda i: (v.concat(v)[i] + v[i]) * 0.5, size=3), A, 12), a),
    }
    for k, (build, want) in enumerate(P.values()):
        name = list(P)[k]
        if (name in ("elements", "vectors", "steps of a fold", "products of matrices", "transposes", "vectors of records")) != (only == "C08"):
            continue
        for b in ("numpy", "naive"):
            label = f"{name} with deep sharing on {b}"
            agree(ctx, label, want, ctx.no_raise(lambda: Steps(20_000_000)(lambda: value(build(), b)), label))


CASES.case("deep-sizes", "C08", ("ein/frontend/comprehension.py:_infer_sizes",), bounded="30 levels", domain="sizes inferred through deeply shared terms")(lambda ctx: deep(ctx, "C08"))
CASES.case("deep-terms", "C07", ("ein/midend/lining.py:outline", "ein/midend/substitution.py:substitute", "ein/term.py:Term"), bounded="30 levels", domain="deeply shared terms")(lambda ctx: deep(ctx, "C07"))


def many(ctx):
    """Sums of products of many factors, and of factors that are sums: evaluated within a number of steps, whatever the way."""
    ein, std, typed, functions = api()
    rng = numpy.random.default_rng(3)
    ms = [numpy.round(rng.uniform(0.5, 1.5, size=(2, 3)) * 8) / 8 for _ in range(40)]
    W = [ein.wrap(m) for m in ms]

    def prod(xs):
        out = xs[0]
        for x in xs[1:]:
            out = out * x
        return out

    steps = Steps(3_000_000)
    for n in (2, 3, 5, 6, 7, 9, 12, 40):
        want = prod(ms[:n]).sum(axis=1)
        for b in BACKS:
            label = f"a sum of products of {n} factors on {b}"
            agree(ctx, label, want, ctx.no_raise(lambda: steps(lambda: value(ein.array(lambda i: std.fold_sum(lambda k: prod([w[i, k] for w in W[:n]]))), b)), label))
            label = f"a contraction of {n} matrices by one index each on {b}"
            if n <= 12 and b != "jax":
                agree(ctx, label, numpy.asarray(prod([m.sum(axis=1) for m in ms[:n]]).sum()),
                      ctx.no_raise(lambda: steps(lambda: value(std.fold_sum(lambda i: prod([std.fold_sum(lambda k, w=w: w[i, k], count=3) for w in W[:n]]), count=2), b)), label))
    for n in (2, 4, 6, 7, 10, 16, 30):
        want = prod([m + ms[n][:1] for m in ms[:n]]).sum(axis=1)
        for b in ("numpy", "torch", "naive"):
            label = f"a sum of products of {n} sums on {b}"
            agree(ctx, label, want, ctx.no_raise(lambda: steps(lambda: value(ein.array(lambda i: std.fold_sum(lambda k: prod([w[i, k] + W[n][0, k] for w in W[:n]]))), b)), label))


CASES.case("many", "C04 C10", ("ein/codegen/phi_to_yarr.py:Dot", "ein/backend/*:prepare_einsum"), bounded="up to 40 factors", domain="sums of products of many factors")(many)
