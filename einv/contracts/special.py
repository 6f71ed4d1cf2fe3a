"""Values the solver's real arithmetic does not have: infinities, NaN, signed zeros.  Ground obligations over the whole grid."""
from __future__ import annotations

import itertools

import numpy

from .. import ref
from . import Registry

CASES = Registry()
INF, NAN = float("inf"), float("nan")
GRID = [0.0, -0.0, 1.0, -1.0, 0.5, -2.5, 3.0, INF, -INF, NAN]
BACK = ("numpy", "torch", "jax", "naive")


def run(ns, body, args, backend):
    from ein.frontend.functions import Function

    from ..core import to_np

    if backend == "naive":
        return numpy.asarray(body(ns, *(ns.wrap(a) for a in args)).eval(backend="naive"))
    return to_np(getattr(Function(lambda *xs: body(ns, *xs)), backend)(*args))


def agree(ctx, name, want, got, args):
    same = want.shape == got.shape and numpy.isclose(got.astype(float), want.astype(float), rtol=1e-6, atol=0, equal_nan=True)
    ctx.expect(numpy.all(same), name, lambda: f"{got} instead of {want} for {[a.tolist() for a in args]}")


def operators(ctx, shard, shards):
    """Every operator, on every pair of the grid, has the value of the reference interpreter on all the backends."""
    from ..programs import BIN, FLT, UN

    ns = ref.EinNS()
    X, Y = map(numpy.array, zip(*itertools.product(GRID, GRID)))
    for n, e in enumerate(BIN + UN + FLT):
        if n % shards != shard:
            continue
        body = eval(f"lambda ns,a,b: ns.array(lambda i: (lambda x,y: {e})(a[i],b[i]))")
        want = ctx.no_raise(lambda: run(ns, body, (X, Y), "naive"), e)
        for b in BACK[:3]:
            got = ctx.no_raise(lambda: run(ns, body, (X, Y), b), f"{e} on {b}")
            agree(ctx, f"{e} on {b}", want, got, (X, Y))


# operators with one meaning on all floating-point numbers (minima and maxima propagate NaN)
IEEE = {
    "x<y": numpy.less, "x<=y": numpy.less_equal, "x>y": numpy.greater, "x>=y": numpy.greater_equal, "x==y": numpy.equal, "x!=y": numpy.not_equal,
    "x+y": numpy.add, "x-y": numpy.subtract, "x*y": numpy.multiply, "x/y": numpy.divide, "x.min(y)": numpy.minimum, "x.max(y)": numpy.maximum,
    "ns.std.min(x,y)": numpy.minimum, "ns.std.max(x,y)": numpy.maximum,
    "-x": lambda x, y: -x, "abs(x)": lambda x, y: numpy.abs(x), "x.exp()": lambda x, y: numpy.exp(x), "x.sin()": lambda x, y: numpy.sin(x),
    "x.cos()": lambda x, y: numpy.cos(x), "x<2.5": lambda x, y: x < 2.5, "x>=2.5": lambda x, y: x >= 2.5, "2.5>=x": lambda x, y: 2.5 >= x,
    "2.5<x": lambda x, y: 2.5 < x, "x!=2.5": lambda x, y: x != 2.5, "2.5==x": lambda x, y: x == 2.5, "x-2.5": lambda x, y: x - 2.5,
    "2.5-x": lambda x, y: 2.5 - x, "2.5/x": lambda x, y: 2.5 / x, "x/2.5": lambda x, y: x / 2.5, "x.min(2.5)": lambda x, y: numpy.minimum(x, 2.5),
    "ns.where(x<y,x,y)": lambda x, y: numpy.where(x < y, x, y), "ns.where(x>=y,x,y)": lambda x, y: numpy.where(x >= y, x, y),
    "(x!=x).where(1.0,0.0)": lambda x, y: numpy.isnan(x) * 1.0, "~(x<=y)": lambda x, y: ~(x <= y), "(x<y)|(x>=y)": lambda x, y: (x < y) | (x >= y),
    "(x>=y)&(x<=y)": lambda x, y: (x >= y) & (x <= y), "x**2": lambda x, y: x * x, "x**3": lambda x, y: x * x * x,
}


def ieee(ctx):
    """The operators as they are written, against floating-point arithmetic itself."""
    ns = ref.EinNS()
    X, Y = map(numpy.array, zip(*itertools.product(GRID, GRID)))
    for e, f in IEEE.items():
        body = eval(f"lambda ns,a,b: ns.array(lambda i: (lambda x,y: {e})(a[i],b[i]))")
        with numpy.errstate(all="ignore"):
            want = f(X, Y)
        for b in BACK:
            got = ctx.no_raise(lambda: run(ns, body, (X, Y), b), f"{e} on {b}")
            agree(ctx, f"{e} on {b}", want, got, (X, Y))


def reductions(ctx):
    """Sums, minima and maxima are those of the loop, NaN and infinities included; argmin of the first minimal element."""
    ns = ref.EinNS()
    step = {"sum": numpy.add, "min": numpy.minimum, "max": numpy.maximum}
    unit = {"sum": 0.0, "min": INF, "max": -INF}
    for r in (0, 1, 2, 3):
        M = numpy.array(list(itertools.product([1.0, -2.0, INF, -INF, NAN, 0.0], repeat=r)), dtype=float).reshape(6**r, r)
        for op in step:
            want = numpy.full(len(M), unit[op])
            for k in range(r):
                want = step[op](want, M[:, k])
            for how in ("fold", "reduce"):
                rows = eval(f"lambda ns,a: ns.array(lambda i: ns.std.{how}_{op}(lambda k: a[i,k]))")
                one = eval(f"lambda ns,a: ns.std.{how}_{op}(lambda k: a[k])")
                for b in BACK:
                    # the interpreter evaluates a row at a time
                    sub = slice(None, None, 7) if b == "naive" and r == 3 else slice(None)
                    got = ctx.no_raise(lambda: run(ns, rows, (M[sub],), b), f"{how}_{op} of rows on {b}")
                    agree(ctx, f"{how}_{op} of rows on {b}", want[sub], got, (M[sub],))
                for row, w in list(zip(M, want))[:: 1 if r < 3 else 31]:
                    for b in ("numpy", "torch"):
                        got = ctx.no_raise(lambda: run(ns, one, (row,), b), f"{how}_{op} on {b}")
                        agree(ctx, f"{how}_{op} on {b}", numpy.array(w), got, (row,))
        if r:
            M = numpy.array(list(itertools.product([1.0, -2.0, INF, -INF, 0.0], repeat=r)), dtype=float).reshape(5**r, r)
            want = numpy.argmin(M, axis=1)
            for how in ("fold", "reduce"):
                rows = eval(f"lambda ns,a: ns.array(lambda i: ns.std.{how}_argmin(lambda k: a[i,k]))")
                for b in BACK[:3]:
                    got = ctx.no_raise(lambda: run(ns, rows, (M,), b), f"{how}_argmin of rows on {b}")
                    agree(ctx, f"{how}_argmin of rows on {b}", want, got, (M,))


for _s in range(2):
    CASES.case(f"operators-{_s}", "C10", ("ein/frontend/ndarray.py:Scalar", "ein/backend/*: elementwise operations"), bounded="10 x 10 values",
               domain="pairs of zeros, finite numbers, infinities and NaN")(lambda ctx, s=_s: operators(ctx, s, 2))
CASES.case("ieee", "C11 C10", ("ein/frontend/ndarray.py:Scalar", "ein/backend/*: elementwise operations"), bounded="10 x 10 values",
           domain="pairs of zeros, finite numbers, infinities and NaN")(ieee)
CASES.case("reductions", "C04 C10 C11", ("ein/frontend/std.py", "ein/backend/*: ReduceAxis", "ein/codegen/phi_to_yarr.py:match_reduction"), bounded="vectors of up to 3 of 6 values",
           domain="vectors of zeros, finite numbers, infinities and NaN")(reductions)
