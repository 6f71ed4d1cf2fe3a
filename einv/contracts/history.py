"""C12: staged functions over call histories; nothing is modified, nothing leaks between calls."""
from __future__ import annotations

import itertools

import numpy

from .. import ref
from . import Registry

CASES = Registry()

FUNCS = ("ein/frontend/functions.py:Function._interpret", "ein/frontend/functions.py:Function._types_from_args",
         "ein/frontend/functions.py:Function.numpy/torch/jax/__call__")


def bodies(ns):
    """Functions of one or two arguments that depend on their arguments' types when they are built."""
    from ein.phi.type_system import Scalar, Vector

    def kind(x):
        t = x.expr.type
        while isinstance(t, Vector):
            t = t.elem
        return t.kind

    def rank(x):
        t, k = x.expr.type, 0
        while isinstance(t, Vector):
            t, k = t.elem, k + 1
        return k

    def num(e, k):
        return e if k is float else e.float() if k is int else e.where(1.0, 0.0)

    def total(x, r, k):
        if r == 0:
            return num(x, k)
        return ns.std.fold_sum(lambda i: total(x[i], r - 1, k) * 0.5 + 0.25, count=x.size())

    def one(x):
        return total(x, rank(x), kind(x))

    def double(x):
        r, k = rank(x), kind(x)

        def go(y, r):
            if r == 0:
                return y + y if k is not bool else ~y
            return ns.array(lambda i: go(y[i], r - 1))

        return go(x, r)

    def two(x, y):
        return one(x) * 3.0 + one(y)

    def outer(x, y):
        if rank(x) == 1 and rank(y) == 1 and kind(x) == kind(y) and kind(x) is not bool:
            return ns.array(lambda i, j: x[i] * y[j] + x[i])
        return two(x, y)

    def ident(x):
        return x

    def rev(x):
        if rank(x) == 0:
            return x
        return ns.array(lambda i: x[x.size() - 1 - i], size=x.size())

    return {"one": (one, 1), "double": (double, 1), "two": (two, 2), "outer": (outer, 2), "ident": (ident, 1), "rev": (rev, 1)}


def np_ref(name, *a):
    def num(x):
        return x.astype(float)

    def one(x):
        if x.ndim == 0:
            return float(x)
        return sum(one(numpy.asarray(e)) * 0.5 + 0.25 for e in x) + 0.0

    def two(x, y):
        return one(x) * 3.0 + one(y)

    if name == "one":
        return numpy.asarray(one(*a))
    if name == "double":
        return ~a[0] if a[0].dtype.kind == "b" else a[0] + a[0]
    if name == "two":
        return numpy.asarray(two(*a))
    if name == "ident":
        return a[0]
    if name == "rev":
        return a[0] if not a[0].ndim else a[0][::-1]
    x, y = a
    if x.ndim == y.ndim == 1 and x.dtype.kind == y.dtype.kind != "b":
        return x[:, None] * y[None, :] + x[:, None]
    return numpy.asarray(two(x, y))


def pool(rng):
    out = []
    for shape in ((), (1,), (3,), (4,), (0,), (2, 3), (3, 2), (3, 3)):
        out.append(rng.normal(size=shape))
        out.append(rng.integers(-5, 6, size=shape))
        if len(shape) < 2:
            out.append(rng.integers(0, 2, size=shape).astype(bool))
    return [numpy.asarray(a) for a in out]


def call(f, backend, args):
    import jax.numpy as jnp
    import torch

    if backend == "numpy":
        return f.numpy(*args)
    if backend == "call":
        return f(*args)
    if backend == "torch":
        return f.torch(*(torch.from_numpy(numpy.array(a)) for a in args))
    if backend == "torch-np":
        return f.torch(*(numpy.array(a) for a in args))
    if backend == "torch-call":
        return f(*(torch.from_numpy(numpy.array(a)) for a in args))
    if backend == "jax":
        return f.jax(*(jnp.asarray(a) for a in args))
    return f.jax(*args)


def kinds(x):
    return {"b": "b", "i": "i", "u": "i", "f": "f"}[x.dtype.kind]


def check_history(ctx, fname, fun, n, history, backends):
    from ein.frontend.functions import Function

    from ..core import to_np

    f = Function(fun)
    results = []
    for step, (args, backend) in enumerate(zip(history, backends)):
        args = [numpy.array(a) for a in args]
        before = [a.copy() for a in args]
        label = f"{fname}: call {step} of the history {[(tuple((str(a.dtype), a.shape) for a in h), b) for h, b in zip(history, backends)][:step + 1]}"
        out = ctx.no_raise(lambda: call(f, backend, args), label)
        val = to_np(out)
        want = np_ref(fname, *before)
        ctx.expect(val.shape == want.shape and kinds(val) == kinds(want) and numpy.allclose(val, want),
                   label, lambda: f"{val!r} instead of {want!r}")
        import torch

        if backend.startswith("torch"):
            ctx.expect(isinstance(out, torch.Tensor), f"result type on {backend}", type(out).__name__)
        for a, b in zip(args, before):
            ctx.expect(numpy.array_equal(a, b), f"arguments unchanged in {label}")
        results.append((out, val.copy(), label, before, backend))
        for o, v, lb, _, _ in results[:-1]:
            ctx.expect(numpy.array_equal(to_np(o), v, equal_nan=v.dtype.kind == "f"), f"earlier result unchanged ({lb}) by {label}")
    # the same calls again, in reverse order
    for out, v, lb, before, backend in reversed(results):
        again = to_np(ctx.no_raise(lambda: call(f, backend, before), f"again {lb}"))
        ctx.expect(again.shape == v.shape and numpy.array_equal(again, v, equal_nan=v.dtype.kind == "f"), f"repeats {lb}")


for _name in ("one", "double", "two", "outer", "ident", "rev"):
    @CASES.case(f"calls-{_name}", "C12", FUNCS, bounded="histories of up to 12 calls over 22 argument types and shapes")
    def _(ctx, name=_name):
        ns = ref.EinNS()
        fun, n = bodies(ns)[name]
        rng = numpy.random.default_rng(11 + ctx.seed)
        args = pool(rng)
        if n == 1:
            # every ordered pair of argument types: the second call must not see the first
            for a, b in itertools.product(args, repeat=2):
                check_history(ctx, name, fun, 1, [(a,), (b,), (a,)], ["numpy"] * 3)
                if ctx.time_left() < ctx.budget * 0.5:
                    break
        for k in range(14):
            m = 6
            if n == 1:
                hist = [(args[int(rng.integers(len(args)))],) for _ in range(m)]
            else:
                hist = [tuple(args[int(rng.integers(len(args)))] for _ in range(2)) for _ in range(m)]
            bks = [("numpy", "torch", "call", "jax", "torch-np", "torch-call", "jax-np")[int(rng.integers(7))] for _ in hist]
            if k % 3 == 0:
                bks = ["numpy"] * len(hist)
            check_history(ctx, name, fun, n, hist, bks)
            if ctx.time_left() < 1:
                break
        if n == 2:
            for a, b in itertools.product(args[::2], repeat=2):
                check_history(ctx, name, fun, 2, [(a, b), (b, a), (a, b)], ["numpy"] * 3)
                if ctx.time_left() < 1:
                    break


@CASES.case("typed", "C12 C09", FUNCS + ("ein/frontend/functions.py:typed_function",))
def _(ctx):
    """A typed function accepts exactly its signature, whatever was called before."""
    from ein.frontend.functions import typed_function
    from ein.phi.type_system import type_from_ndarray

    ns = ref.EinNS()
    rng = numpy.random.default_rng(2)
    args = pool(rng)
    for a in args:
        f = typed_function(type_from_ndarray(a))(lambda x: x)
        for b in args:
            same = type_from_ndarray(a) == type_from_ndarray(b)
            if same:
                out = ctx.no_raise(lambda: f(b), "accepts its own type")
                ctx.expect(numpy.array_equal(out, b), "identity")
            else:
                ctx.raises(lambda: f(b), f"rejects {b.dtype}{b.shape} for {type_from_ndarray(a)}")
        ctx.raises(lambda: f(a, a), "rejects a second argument")
        ctx.raises(lambda: f(), "rejects no argument")
    # functions of any number of arguments have only the arity of their signature
    f3 = {float: numpy.array(1.5), int: numpy.array(2), bool: numpy.array(True)}
    for kinds in [(float,), (float, float), (int, float), (float, float, float), (bool, int, float)]:
        want = [f3[k] for k in kinds]
        f = typed_function(*(type_from_ndarray(a) for a in want))(lambda *xs: xs[0])
        ctx.expect(numpy.array_equal(ctx.no_raise(lambda: f(*want), "accepts its signature"), want[0]), "first argument")
        for n in range(5):
            for other in itertools.product(f3, repeat=n):
                if other != kinds:
                    args_ = [f3[k] for k in other]
                    ctx.raises(lambda: f(*args_), f"rejects {[k.__name__ for k in other]} for {[k.__name__ for k in kinds]}")


PURE = [
    "x[i] + 1.0", "-x[i]", "x[i] * x[i]", "x[2 - i]", "x[i].max(y[i])", "x[i] + y[i]", "(x[i] + 1.0) * y[i]", "x[i]", "x[0] + y[i]",
    "ns.fold(x[i], lambda k, a: a + y[k], count=3)", "ns.where(x[i] > 0.0, x[i], y[i])", "x[i] / (y[i] * y[i] + 1.0)",
]


@CASES.case("frame", "C12", ("ein/backend/numpy_backend.py:stage_in_array", "ein/codegen/phi_to_yarr.py:apply_inplace_on_temporaries"))
def _(ctx):
    """Neither wrapped constants, arguments nor earlier results are written to; results are fresh or read-only views of none."""
    import torch

    from ein.backend import STAGE_BACKENDS
    from ein.frontend.functions import Function

    from ..core import to_np

    ns = ref.EinNS()
    rng = numpy.random.default_rng(3)

    def variants():
        base = rng.normal(size=(3,))
        yield base
        yield numpy.asfortranarray(rng.normal(size=(3, 3)))[:, 1]
        yield rng.normal(size=(6,))[::2]
        yield rng.normal(size=(5,))[::-1][1:4]
        yield numpy.broadcast_to(rng.normal(size=(1,)), (3,))

    for e in PURE:
        src = eval(f"lambda ns, x, y: ns.array(lambda i: {e}, size=3)")
        for n, (x, y) in enumerate(itertools.product(variants(), repeat=2)):
            x0, y0 = x.copy(), y.copy()
            want = ref.to_numpy(src(ref.RefNS, ref.rwrap(x0), ref.rwrap(y0)))
            xs = []
            const = ctx.no_raise(lambda: src(ns, ns.wrap(x), ns.wrap(y)), "builds")
            for r in range(2):
                out = ctx.no_raise(lambda: const.numpy(), f"evaluates {e}")
                ctx.expect(numpy.allclose(out, want), f"value of {e}, evaluation {r}", lambda: f"{out} instead of {want}")
                xs.append((out, out.copy()))
            f = Function(lambda a, b: src(ns, a, b))
            for r in range(2):
                out = ctx.no_raise(lambda: f.numpy(x, y), f"calls {e}")
                ctx.expect(numpy.allclose(out, want), f"value of {e}, call {r}", lambda: f"{out} instead of {want}")
                xs.append((out, out.copy()))
            if x.flags.writeable and x.strides[0] > 0:
                tx, ty = torch.from_numpy(x.copy()), torch.from_numpy(y0.copy())
                out = ctx.no_raise(lambda: f.torch(tx, ty), f"calls {e} on torch")
                ctx.expect(numpy.allclose(to_np(out), want), f"value of {e} on torch")
                ctx.expect(numpy.array_equal(tx.numpy(), x0) and numpy.array_equal(ty.numpy(), y0), f"torch arguments of {e} unchanged")
            if n % 8 == 0:
                out = ctx.no_raise(lambda: f.jax(x0, y0), f"calls {e} on jax")
                ctx.expect(numpy.allclose(to_np(out), want), f"value of {e} on jax")
            ctx.expect(numpy.array_equal(x, x0) and numpy.array_equal(y, y0), f"arguments of {e} unchanged")
            for o, c in xs:
                ctx.expect(numpy.array_equal(o, c), f"earlier results of {e} unchanged")


@CASES.case("shared-argument", "C12", FUNCS)
def _(ctx):
    """The same array passed twice, results fed back as arguments, and a constant shared by two programs."""
    from ein.frontend.functions import Function

    ns = ref.EinNS()
    rng = numpy.random.default_rng(4)
    f = Function(lambda a, b: ns.array(lambda i: (a[i] + 1.0) * (b[i] + 2.0)))
    g = Function(lambda a: ns.array(lambda i: a[i] * 2.0 + 1.0))
    for _ in range(5):
        a = rng.normal(size=4)
        k = a.copy()
        ctx.expect(numpy.allclose(f(a, a), (k + 1) * (k + 2)), "the same array twice")
        r = g(a)
        r0 = r.copy()
        r2 = g(r)
        ctx.expect(numpy.allclose(r2, r0 * 2 + 1) and numpy.array_equal(r, r0), "result fed back")
        ctx.expect(numpy.allclose(f(r, r2), (r0 + 1) * (r2 + 2)), "results as arguments")
        ctx.expect(numpy.array_equal(a, k), "argument unchanged")
        c = ns.wrap(a)
        p = ns.array(lambda i: c[i] + 1.0)
        q = ns.array(lambda i: p[i] * c[i])
        for _ in range(2):
            ctx.expect(numpy.allclose(p.numpy(), k + 1), "constant in p")
            ctx.expect(numpy.allclose(q.numpy(), (k + 1) * k), "constant in q")
        ctx.expect(numpy.array_equal(a, k), "constant unchanged")


@CASES.case("env", "C12", ("ein/frontend/ndarray.py:_Array.eval", "ein/backend/*:interpret", "ein/backend/*:stage"))
def _(ctx):
    """Evaluating twice with the same environment object, in any backend order, gives the same values."""
    from ein.backend import BACKENDS, STAGE_BACKENDS

    from ..core import to_np, build_phi, backend_array
    from .. import programs

    rng = numpy.random.default_rng(6)
    from ..core import random_arrays, spec_value, compare_concrete
    from ..ref import Undefined

    progs = [p for p in programs.all_programs() if "C03" in p.props or "C05" in p.props or "C12" in p.props]
    for p in progs[:: max(1, len(progs) // 40)]:
        arrays = random_arrays(p, rng, max_dim=3)
        try:
            want = spec_value(p, arrays)
        except Undefined:
            continue
        if len(want) != 1:
            continue
        varargs, expr = build_phi(p)
        staged = {}
        for b in ("numpy", "torch", "numpy", "torch", "numpy"):
            if b not in p.backends:
                continue
            env = dict(zip(varargs, (backend_array(a, b) for a in arrays)))
            if b not in staged:
                staged[b] = STAGE_BACKENDS[b](expr)
            for _ in range(2):
                out = ctx.no_raise(lambda: to_np(staged[b](env)), f"{p.name} on {b}")
                d = compare_concrete(want, [out], p.tol)
                ctx.expect(d is None, f"repeated evaluation of {p.name} on {b}", d)
                ctx.expect(set(env) == set(varargs), f"environment of {p.name} on {b} unchanged", str(len(env)))


@CASES.case("eval-env", "C12 C10", ("ein/frontend/ndarray.py:_Array.eval", "ein/frontend/ndarray.py:_Array.numpy/torch/jax"))
def _(ctx):
    """Free variables take the values the environment gives them, on every backend; without a value they are an error."""
    import torch
    from ein.phi import phi
    from ein.phi.type_system import Scalar, Vector
    from ein.symbols import Variable

    from ..core import backend_array, to_np

    ns = ref.EinNS()
    rng = numpy.random.default_rng(8)
    V, S = type(ns.wrap(numpy.zeros(2))), type(ns.wrap(1.0))
    for src in ("ns.array(lambda i: x[i] * s + i.float())", "ns.array(lambda i: x[i])", "ns.array(lambda i: x[x.size() - 1 - i] - s, size=x.size())", "ns.fold(s, lambda i, a: a + x[i] * x[i], count=x.size())"):
        xv, sv = Variable(), Variable()
        src = eval("lambda ns, x, s: " + src)
        prog = ctx.no_raise(lambda: src(ns, V(phi.Store(xv, Vector(Scalar(float)))), S(phi.Store(sv, Scalar(float)))), "builds")
        free = prog.expr.free_symbols
        for k in range(4):
            x, s = rng.normal(size=(3, 1, 5, 0)[k]), rng.normal()
            want = ref.to_numpy(src(ref.RefNS, ref.rwrap(x), ref.rwrap(s)))
            for b in ("numpy", "naive", "torch", "jax"):
                env = {v: backend_array(numpy.array(a), b) for v, a in ((xv, x), (sv, s))}
                keep = dict(env)
                for how in ("eval", "method"):
                    if how == "method" and b == "naive":
                        continue
                    out = ctx.no_raise(lambda: to_np(prog.eval(env=env, backend=b) if how == "eval" else getattr(prog, b)(env=env)), f"evaluates with an environment on {b}")
                    ctx.expect(out.shape == want.shape and numpy.allclose(out, want), f"value with an environment on {b}", lambda: f"{out} instead of {want}")
                    ctx.expect(set(env) == set(keep) and all(env[v] is keep[v] for v in keep), f"environment unchanged on {b}")
                for v in free:
                    part = {w: a for w, a in env.items() if w != v}
                    ctx.raises(lambda: prog.eval(env=part, backend=b), f"no value for a free variable on {b}")
                ctx.raises(lambda: prog.eval(backend=b), f"no environment on {b}")
    _ = torch


def _hooked(hook):
    """A function with lets, a loop, a reduction and temporaries around a foreign call, which first runs hook()."""
    import ein
    from ein.frontend.functions import Function
    from ein.phi.type_system import Scalar

    def foreign(x):
        hook(x)
        return x * 3.0

    f = ein.ext(foreign, ((Scalar(float),), Scalar(float)))

    def body(a, b):
        shared = ein.array(lambda i: a[i] * 2.0 + b)
        total = shared.reduce(0.0, lambda x, y: x + y)
        looped = ein.fold(b, lambda k, s: s * 0.5 + f(s + shared[k]))
        return ein.array(lambda i: (f(shared[i] + 1.0) + looped) * 2.0 - total * a[i])

    return Function(body)


def _hooked_value(a, b):
    shared = a * 2 + b
    s = b
    for x in shared:
        s = s * 0.5 + (s + x) * 3
    return ((shared + 1) * 3 + s) * 2 - shared.sum() * a


@CASES.case("reentrant", "C12 C14", FUNCS + ("ein/backend/array_backend.py:stage",), bounded="4 sizes, 7 points of interruption, 2 threads")
def reentrant(ctx):
    """A call that starts, fails or is suspended while another is in progress leaves that one's value, and later ones, unchanged."""
    import threading

    from ..core import to_np

    cases = [(numpy.array([1.0, 2.0, -1.0]), numpy.float64(0.5)), (numpy.array([3.0]), numpy.float64(-2.0)), (numpy.array([0.25, 4.0, 1.5, -3.0]), numpy.float64(8.0)), (numpy.array([2.0, 2.0, 2.0]), numpy.float64(1.0))]

    def good(v, args, label):
        ctx.expect(numpy.allclose(to_np(v), _hooked_value(*args)), label, lambda: f"{to_np(v)} instead of {_hooked_value(*args)}")

    # a call from within a call
    depth, inner = [0], []

    def call_again(x):
        if depth[0] < 2:
            depth[0] += 1
            try:
                other = cases[(len(inner) + depth[0]) % len(cases)]
                inner.append((other, fn.numpy(*other)))
            finally:
                depth[0] -= 1

    fn = _hooked(call_again)
    for args in cases[:2]:
        inner.clear()
        v = ctx.no_raise(lambda: fn.numpy(*args), "a call with calls of the same function inside")
        good(v, args, "a call with calls of the same function inside")
        for o, w in inner:
            good(w, o, "a call from within a call of the same function")
    # a call that fails at some point
    for stop in range(7):
        for again in range(2):
            seen = [0]

            def fail(x):
                seen[0] += 1
                if seen[0] == stop + 1:
                    raise KeyError("stop")

            fn = _hooked(fail)
            if again:
                seen[0] = 100
                ctx.no_raise(lambda: fn.numpy(*cases[1]), "a first call")
                seen[0] = 0
            try:
                fn.numpy(*cases[0])
            except KeyError:
                pass
            seen[0] = 100
            for args in (cases[0], cases[2], cases[0]):
                good(ctx.no_raise(lambda: fn.numpy(*args), "a call after one that failed"), args, f"a call after one that failed in its {stop + 1}. foreign call")
    # two threads that take turns at each foreign call
    results = {}
    turn = threading.Barrier(2)

    def wait(x):
        try:
            turn.wait(timeout=2.0)
        except threading.BrokenBarrierError:
            pass

    fn = _hooked(wait)

    def work(k, args):
        try:
            results[k] = fn.numpy(*args)
        except Exception as e:  # noqa: BLE001
            results[k] = e

    for pair in ((cases[0], cases[3]), (cases[0], cases[2])):
        turn.reset()
        ts = [threading.Thread(target=work, args=(k, args)) for k, args in enumerate(pair)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
            turn.abort()
        for k, args in enumerate(pair):
            ctx.expect(not isinstance(results[k], Exception), "calls in two threads that take turns", lambda: repr(results[k]))
            good(results[k], args, "calls in two threads that take turns")
