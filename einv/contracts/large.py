"""Inputs beyond what the other concrete runs use: sizes up to 100003, and arrays that are views (reversed, strided, broadcast,
in another memory order) or of narrow types.  Ground obligations against NumPy."""
from __future__ import annotations

import numpy

from .. import ref
from . import Registry

CASES = Registry()


def run(ns, body, args, backend, mode):
    from ein.frontend.functions import Function

    from ..core import backend_array, to_np

    if mode == "const" or backend == "naive":
        return to_np(body(ns, *(ns.wrap(a) for a in args)).eval(backend=backend))
    return to_np(getattr(Function(lambda *xs: body(ns, *xs)), backend)(*(backend_array(a, backend) for a in args)))


def agree(ctx, label, want, got):
    want = numpy.asarray(want)
    ok = want.shape == got.shape and want.dtype.kind == got.dtype.kind
    ok = ok and (numpy.allclose(got, want, rtol=1e-4, atol=1e-6) if want.dtype.kind == "f" else numpy.array_equal(got, want))
    ctx.expect(ok, label, lambda: f"{str(got)[:200]} instead of {str(want)[:200]}")


def clipped(a, ix):
    return a[numpy.clip(ix, 0, len(a) - 1)]


def ordered(d):
    """The last non-zero element, by a combiner that is associative and not commutative."""
    nz = d[d != 0]
    return nz[-1] if len(nz) else 0


# name: (properties, source of a and d of length n, its value by NumPy, slow: a loop of Python)
PROGRAMS = {
    "comprehension": ("C01", "lambda ns,a,d: ns.array(lambda i: a[i]*2.0-1.0)", lambda a, d: a * 2 - 1, False),
    "positions": ("C01", "lambda ns,a,d: ns.array(lambda i: i*3, size=a.size())", lambda a, d: numpy.arange(len(a)) * 3, False),
    "concat": ("C01", "lambda ns,a,d: a.concat(a)", lambda a, d: numpy.concatenate([a, a]), False),
    "shift": ("C02", "lambda ns,a,d: ns.array(lambda i: a[i+3], size=a.size())", lambda a, d: clipped(a, numpy.arange(len(a)) + 3), False),
    "shift-far": ("C02", "lambda ns,a,d: ns.array(lambda i: a[i-1000], size=a.size())", lambda a, d: clipped(a, numpy.arange(len(a)) - 1000), False),
    "reverse": ("C02", "lambda ns,a,d: ns.array(lambda i: a[a.size()-i], size=a.size())", lambda a, d: clipped(a, len(a) - numpy.arange(len(a))), False),
    "take": ("C02", "lambda ns,a,d: ns.array(lambda i: a[d[i]*1000])", lambda a, d: clipped(a, d * 1000), False),
    "gather": ("C02", "lambda ns,a,d: ns.array(lambda i: ns.array(lambda j: a[j]*d[i].float(), size=2)[d[i]])", lambda a, d: clipped(a[:2], d) * d, False),
    "last": ("C02", "lambda ns,a,d: a[a.size()-1]-a[a.size()+5]+a[0]-a[-7]", lambda a, d: numpy.float64(0.0), False),
    "fold": ("C03", "lambda ns,a,d: ns.fold(0, lambda k,s: (s*3+d[k])%1009)", lambda a, d: numpy.array(loop(d)), True),
    "fold-vec": ("C03", "lambda ns,a,d: ns.fold(ns.wrap(numpy.array([0, 1])), lambda k,v: ns.array(lambda i: (v[1-i]+d[k])%101, size=2))", lambda a, d: loop2(d), True),
    "sum": ("C04", "lambda ns,a,d: ns.std.fold_sum(lambda k: a[k])", lambda a, d: a.sum(), False),
    "dot": ("C04", "lambda ns,a,d: ns.std.fold_sum(lambda k: a[k]*a[k]*2.0)", lambda a, d: (a * a * 2).sum(), False),
    "min": ("C04", "lambda ns,a,d: ns.std.fold_min(lambda k: a[k]-1.0)", lambda a, d: a.min() - 1, False),
    "max": ("C04", "lambda ns,a,d: ns.std.fold_max(lambda k: -a[k])", lambda a, d: (-a).max(), False),
    "reduce": ("C05", "lambda ns,a,d: d.reduce(0, lambda p,q: p+q)", lambda a, d: d.sum(), False),
    "reduce-last": ("C05", "lambda ns,a,d: d.reduce(0, lambda p,q: ns.where(q==0,p,q))", lambda a, d: numpy.asarray(ordered(d)), False),
    "reduce-first": ("C05", "lambda ns,a,d: d.reduce(0, lambda p,q: ns.where(p==0,q,p))", lambda a, d: numpy.asarray(ordered(d[::-1])), False),
    "reduce-rows": ("C05", "lambda ns,a,d: ns.array(lambda j: ns.array(lambda i: d[i]+j, size=d.size()).reduce(0, lambda p,q: ns.where(q==0,p,q)), size=2)",
                    lambda a, d: numpy.array([ordered(d), ordered(d + 1)]), False),
    "record": ("C06", "lambda ns,a,d: (lambda v: ns.array(lambda i: v[i][1].float()-v[i][0]))(ns.array(lambda i: (a[i],d[i])))", lambda a, d: d - a, False),
    "shared": ("C07", "lambda ns,a,d: ns.array(lambda i: ns.std.fold_max(lambda k: a[k])-a[i])", lambda a, d: a.max() - a, False),
    "size": ("C08", "lambda ns,a,d: ns.array(lambda i: a[i]*a[i+1])", lambda a, d: a * clipped(a, numpy.arange(len(a)) + 1), False),
    "size-of": ("C08", "lambda ns,a,d: a.concat(a).size()+ns.array(lambda i: a[i]).size()", lambda a, d: numpy.array(3 * len(a)), False),
    "kinds": ("C09", "lambda ns,a,d: ns.array(lambda i: a[i]<d[i].float())", lambda a, d: a < d, False),
    "scalar": ("C11", "lambda ns,a,d: ns.array(lambda i: ns.where(a[i]>0.0, (a[i]**2)/2.0, -a[i]).min(d[i].float()))", lambda a, d: numpy.minimum(numpy.where(a > 0, a * a / 2, -a), d), False),
    "mod": ("C11", "lambda ns,a,d: ns.array(lambda i: (d[i]*i)%7-abs(d[i]))", lambda a, d: (d * numpy.arange(len(d))) % 7 - abs(d), False),
    "temporaries": ("C12", "lambda ns,a,d: ns.array(lambda i: (a[i+1]+1.0)*2.0-(a[i]*3.0+a[i]))", lambda a, d: (clipped(a, numpy.arange(len(a)) + 1) + 1) * 2 - 4 * a, False),
    "extrinsic": ("C14", "lambda ns,a,d: ns.array(lambda i: ns.ext(numpy.hypot, SCF)(a[i], a[i+1]))", lambda a, d: numpy.hypot(a, clipped(a, numpy.arange(len(a)) + 1)), False),
}
SIZES = [1000, 1023, 1024, 1025, 2049, 4097, 10007, 65537, 100003]


def loop(d):
    s = 0
    for x in d:
        s = (s * 3 + int(x)) % 1009
    return s


def loop2(d):
    u, v = 0, 1
    for x in d:
        u, v = (v + int(x)) % 101, (u + int(x)) % 101
    return numpy.array([u, v])


def compiled(src):
    from .. import prelude

    return eval(src, {"numpy": numpy, "SCF": prelude.SCF})


def sizes(ctx, only):
    ns = ref.EinNS()
    for name, (props, src, want, slow) in PROGRAMS.items():
        if only not in props.split() and only != "C10":
            continue
        body = compiled(src)
        backs = ("numpy",) if "ext" in src else ("numpy", "torch", "jax")
        for k, n in enumerate(SIZES):
            if slow and n > 5000:
                continue
            rng = numpy.random.default_rng([n, len(name)])
            a = numpy.round(rng.normal(size=n) * 8) / 8
            d = rng.integers(-3, 4, size=n) * (rng.random(n) < 0.02)
            before = a.copy(), d.copy()
            value = want(a, d)
            for b in backs if only == "C10" else backs[:2]:
                if only == "C10" and b == "jax" and k % 4 != 2 or slow and b == "jax":
                    continue
                mode = "const" if (k + len(b)) % 3 == 0 else "staged"
                label = f"{name} of {n} elements on {b} ({mode})"
                agree(ctx, label, value, ctx.no_raise(lambda: run(ns, body, (a, d), b, mode), label))
                ctx.expect(numpy.array_equal(a, before[0]) and numpy.array_equal(d, before[1]), f"{label}: arguments unchanged")


for _p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C14"):
    CASES.case(f"sizes-{_p}", _p, ("ein/backend/*",), bounded="9 sizes up to 100003",
               domain="vectors of nine lengths, random contents")(lambda ctx, p=_p: sizes(ctx, p))


VIEWS = {
    "reversed": lambda x: x[::-1], "every other": lambda x: numpy.repeat(x, 2)[::2], "backwards by two": lambda x: numpy.repeat(x, 2)[::-2],
    "broadcast": lambda x: numpy.broadcast_to(x[:1], x.shape), "column": lambda x: numpy.stack([x, x * 0], axis=1)[:, 0],
    "read-only": lambda x: readonly(x), "offset": lambda x: numpy.concatenate([x, x])[len(x):], "field": lambda x: numpy.array([(v, 1) for v in x], dtype=[("v", x.dtype), ("w", "i4")])["v"],
}
VIEWS2 = {
    "transposed": lambda x: x.T, "Fortran": numpy.asfortranarray, "reversed rows": lambda x: x[::-1], "reversed columns": lambda x: x[:, ::-1], "every other": lambda x: numpy.repeat(x, 2, axis=1)[:, ::2],
    "broadcast": lambda x: numpy.broadcast_to(x[0], x.shape), "broadcast rows": lambda x: numpy.broadcast_to(x[:, :1], x.shape), "slab": lambda x: numpy.stack([x, x * 0], axis=1)[:, 0],
}


def readonly(x):
    x = x.copy()
    x.flags.writeable = False
    return x


ONE = [
    ("lambda ns,a,d: ns.array(lambda i: a[i]*2.0-1.0)", lambda a, d: a * 2 - 1), ("lambda ns,a,d: ns.array(lambda i: a[d[i]])", lambda a, d: clipped(a, d)),
    ("lambda ns,a,d: ns.array(lambda i: a[i+1]+a[i-2], size=a.size())", lambda a, d: clipped(a, numpy.arange(len(a)) + 1) + clipped(a, numpy.arange(len(a)) - 2)),
    ("lambda ns,a,d: ns.std.fold_sum(lambda i: a[i]*a[i+1])", lambda a, d: (a * clipped(a, numpy.arange(len(a)) + 1)).sum()),
    ("lambda ns,a,d: a.reduce(0.0, lambda p,q: ns.where(q==0.0,p,q))", lambda a, d: numpy.asarray(ordered(a), dtype=float)),
    ("lambda ns,a,d: a.concat(ns.array(lambda i: (a[i]+1.0)*3.0))", lambda a, d: numpy.concatenate([a, (a + 1) * 3])),
    ("lambda ns,a,d: ns.fold(a, lambda k,v: ns.array(lambda i: v[i]+a[k], size=a.size()))", lambda a, d: a + a.sum()),
    ("lambda ns,a,d: ns.array(lambda i,j: a[j]-a[i], size=(2,a.size()))", lambda a, d: a[None, :] - clipped(a, numpy.arange(2))[:, None]),
]
TWO = [
    ("lambda ns,a,d: ns.array(lambda i,j: a[j,i]*2.0)", lambda a, d: a.T * 2), ("lambda ns,a,d: ns.array(lambda i,j: a[i,j]-1.0)", lambda a, d: a - 1),
    ("lambda ns,a,d: ns.array(lambda i: a[i,i], size=2)", lambda a, d: numpy.diagonal(a)[:2]),
    ("lambda ns,a,d: ns.array(lambda i,j: ns.std.fold_sum(lambda k: a[i,k]*a[j,k]))", lambda a, d: a @ a.T),
    ("lambda ns,a,d: ns.array(lambda i: a[i,d[i]], size=2)", lambda a, d: a[[0, 1], numpy.clip(d[:2], 0, a.shape[1] - 1)]),
    ("lambda ns,a,d: ns.array(lambda j: ns.array(lambda i: a[i,j]).reduce(0.0, lambda p,q: ns.where(q==0.0,p,q)))", lambda a, d: numpy.array([ordered(c) for c in a.T], dtype=float)),
    ("lambda ns,a,d: ns.array(lambda i,j: a[i+1,j-1]+a[i,j], size=(a.size(0),a.size(1)))",
     lambda a, d: a[numpy.clip(numpy.arange(a.shape[0]) + 1, 0, a.shape[0] - 1)][:, numpy.clip(numpy.arange(a.shape[1]) - 1, 0, a.shape[1] - 1)] + a),
]


def views(ctx, which, shapes, programs):
    ns = ref.EinNS()
    for nm, view in which.items():
        for k, (src, want) in enumerate(programs):
            body = compiled(src)
            for shape in shapes:
                rng = numpy.random.default_rng([k, *shape])
                a = view(rng.normal(size=shape))
                d = VIEWS[list(VIEWS)[k]](rng.integers(-2, 5, size=4)) if k < len(VIEWS) else rng.integers(-2, 5, size=4)
                base = a.copy(), d.copy()
                value = want(numpy.array(a), numpy.array(d))
                for b in ("numpy", "torch", "jax", "naive"):
                    for mode in ("const", "staged"):
                        if b in ("jax", "naive") and shape != shapes[k % len(shapes)]:
                            continue
                        if b in ("jax", "naive") and mode == ("staged", "const")[k % 2] or mode == "staged" and b == "torch" and any(s < 0 for s in a.strides + d.strides):
                            continue  # tensors have no negative strides
                        label = f"{src} on a {nm} array of shape {shape} on {b} ({mode})"
                        agree(ctx, label, value, ctx.no_raise(lambda: run(ns, body, (a, d), b, mode), label))
                        ctx.expect(numpy.array_equal(a, base[0]) and numpy.array_equal(d, base[1]), f"{label}: arguments unchanged")


CASES.case("views-1", "C10 C12", ("ein/value.py:Value", "ein/backend/*: constant, preprocess_bound"), bounded="8 kinds of view", domain="views of vectors")(
    lambda ctx: views(ctx, VIEWS, [(4,), (1,), (7,)], ONE))
CASES.case("views-2", "C10 C12", ("ein/value.py:Value", "ein/backend/*: constant, preprocess_bound"), bounded="8 kinds of view", domain="views of matrices")(
    lambda ctx: views(ctx, VIEWS2, [(3, 4), (4, 3), (2, 2)], TWO))


def narrow(ctx):
    """Elements of narrower types are the same numbers (as positions, sizes, counts and operands)."""
    ns = ref.EinNS()
    rng = numpy.random.default_rng(5)
    a, m = numpy.round(rng.normal(size=4) * 8) / 8, numpy.round(rng.normal(size=(3, 4)) * 8) / 8
    for dt in ("i8", "i4", "i2"):
        d = numpy.array([2, -1, 5], dtype=dt)
        progs = [
            ("lambda ns,a,m,d: ns.array(lambda i: a[d[i]])", clipped(a, d)), ("lambda ns,a,m,d: ns.array(lambda i: m[i,d[i]])", m[[0, 1, 2], numpy.clip(d, 0, 3)]),
            ("lambda ns,a,m,d: ns.array(lambda i: a[d[i]-1])", clipped(a, d - 1)), ("lambda ns,a,m,d: ns.array(lambda i: d[i].float()*2.0)", d * 2.0),
            ("lambda ns,a,m,d: ns.array(lambda i: ns.where(d[i]<2,d[i],i))", numpy.where(d < 2, d, numpy.arange(3))),
            ("lambda ns,a,m,d: ns.fold(0, lambda k,s: s+d[k])", numpy.array(6)), ("lambda ns,a,m,d: ns.array(lambda i: d[i]%3-d[0])", d % 3 - 2),
            ("lambda ns,a,m,d: ns.array(lambda i: ns.array(lambda j: m[i,j])[d[i]]+a[i], size=3)", m[[0, 1, 2], numpy.clip(d, 0, 3)] + a[:3]),
        ]
        for src, want in progs:
            for b in ("numpy", "torch", "jax", "naive"):
                for mode in ("const", "staged"):
                    label = f"{src} with {dt} elements on {b} ({mode})"
                    agree(ctx, label, want, ctx.no_raise(lambda: run(ns, compiled(src), (a, m, d), b, mode), label))
    for dt in ("f8", "f4"):
        x = a.astype(dt)
        for src, want in [("lambda ns,a: ns.array(lambda i: a[i]*2.0-a[0])", a * 2 - a[0]), ("lambda ns,a: ns.std.fold_sum(lambda i: a[i]*a[i])", (a * a).sum()),
                          ("lambda ns,a: a.reduce(0.0, lambda p,q: p+q)", a.sum()), ("lambda ns,a: ns.fold(0.0, lambda k,s: s*0.5+a[k])", half(a)),
                          ("lambda ns,a: ns.std.fold_min(lambda i: a[i])", a.min()), ("lambda ns,a: ns.array(lambda i: ns.where(a[i]>0.0,a[i],1.5))", numpy.where(a > 0, a, 1.5))]:
            for b in ("numpy", "torch", "naive"):
                label = f"{src} with {dt} elements on {b}"
                agree(ctx, label, want, ctx.no_raise(lambda: run(ns, compiled(src), (x,), b, "const"), label))


def half(a):
    s = 0.0
    for x in a:
        s = s * 0.5 + x
    return s


CASES.case("narrow", "C02 C10", ("ein/phi/type_system.py:Scalar.from_dtype", "ein/backend/*: gather, take"), bounded="5 dtypes", domain="int64, int32, int16; float64, float32")(narrow)


MIXED = [
    ("f4 f8", "lambda ns,a,b,c,d: ns.array(lambda i: (a[i]+b[i])+c[i])", lambda a, b, c, d: (a + b) + c), ("f4 f8", "lambda ns,a,b,c,d: ns.array(lambda i: c[i]*(a[i]-b[i]))", lambda a, b, c, d: c * (a - b)),
    ("f4 f8", "lambda ns,a,b,c,d: ns.array(lambda i: (a[i]*b[i]).max(c[i]))", lambda a, b, c, d: numpy.maximum(a * b, c)), ("f4 f8", "lambda ns,a,b,c,d: ns.array(lambda i,j: (a[i]+b[j])-c[j])", lambda a, b, c, d: (a[:, None] + b) - c),
    ("f4 f8", "lambda ns,a,b,c,d: ns.std.fold_sum(lambda k: a[k]*d[k])", lambda a, b, c, d: (a * d).sum()), ("f4 f8", "lambda ns,a,b,c,d: ns.array(lambda i: ns.std.fold_sum(lambda k: a[k]*d[k]*b[i]), size=2)", lambda a, b, c, d: (a * d).sum() * b[:2]),
    ("f4 f8", "lambda ns,a,b,c,d: a.concat(c)", lambda a, b, c, d: numpy.concatenate([a.astype("f8"), c])), ("f4 f8", "lambda ns,a,b,c,d: ns.array(lambda i: ns.where(a[i]>b[i], c[i], a[i]))", lambda a, b, c, d: numpy.where(a > b, c, a)),
    ("f4 f8", "lambda ns,a,b,c,d: ns.fold(a[0], lambda k,s: s*0.5+d[k])", lambda a, b, c, d: half_from(a[0], d)), ("f4 f8", "lambda ns,a,b,c,d: ns.fold(a, lambda k,v: ns.array(lambda i: (v[i]-b[i])+d[k], size=3))", lambda a, b, c, d: a - b * 3.0 + d.sum()),
    ("f4 f8", "lambda ns,a,b,c,d: a.reduce(0.0, lambda p,q: p+q)", lambda a, b, c, d: a.sum()),
    ("i4 i8", "lambda ns,a,b,c,d: ns.array(lambda i: (a[i]+b[i])+c[i])", lambda a, b, c, d: (a + b) + c), ("i4 i8", "lambda ns,a,b,c,d: ns.array(lambda i: c[i]-(a[i]*b[i]))", lambda a, b, c, d: c - a * b),
    ("i4 i8", "lambda ns,a,b,c,d: ns.array(lambda i: (a[i]-b[i]).min(c[i])+i)", lambda a, b, c, d: numpy.minimum(a - b, c) + numpy.arange(3)), ("i4 i8", "lambda ns,a,b,c,d: ns.array(lambda i: (a[i]*i)+c[i])", lambda a, b, c, d: a * numpy.arange(3) + c),
    ("i4 i8", "lambda ns,a,b,c,d: ns.fold(0, lambda k,s: s+a[k]*d[k])", lambda a, b, c, d: (a * d).sum()), ("i4 i8", "lambda ns,a,b,c,d: c.concat(a)", lambda a, b, c, d: numpy.concatenate([c, a])),
    ("i4 i8", "lambda ns,a,b,c,d: ns.array(lambda i: ns.where(a[i]>b[i], a[i], c[i]))", lambda a, b, c, d: numpy.where(a > b, a, c)), ("i4 i8", "lambda ns,a,b,c,d: ns.array(lambda i: (a[i]+b[i])%c[i])", lambda a, b, c, d: (a + b) % c),
    ("i4 i8", "lambda ns,a,b,c,d: c.reduce(0, lambda p,q: p+q)", lambda a, b, c, d: c.sum()),
]


def half_from(s, a):
    for x in a:
        s = s * 0.5 + x
    return numpy.asarray(s)


def mixed(ctx):
    """Narrow arrays used together with wider ones, which hold numbers that do not fit the narrow type."""
    ns = ref.EinNS()
    for kinds, src, want in MIXED:
        lo, hi = kinds.split()
        for lo in (lo,) if lo == "f4" else (lo, "i2"):
            a, b = numpy.array([1, 5, 3], dtype=lo), numpy.array([2, 4, 7], dtype=lo)
            c, d = (numpy.array([2**40, 5, -(2**41)], dtype=hi), numpy.array([3, 9, 1], dtype=hi)) if hi == "i8" else (numpy.array([1e300, 0.1, -1e-9]), numpy.array([0.125, 4.0, 0.25]))
            value = want(*(x.astype(hi) for x in (a, b)), c, d)
            for back in ("numpy", "torch", "naive"):
                for mode in ("const", "staged"):
                    label = f"{src} with {lo} and {hi} elements on {back} ({mode})"
                    agree(ctx, label, value, ctx.no_raise(lambda: run(ns, compiled(src), (a, b, c, d), back, mode), label))


CASES.case("mixed", "C10 C11 C12", ("ein/backend/numpy_backend.py:stage_in_array", "ein/backend/torch_backend.py:prepare_einsum", "ein/codegen/phi_to_yarr.py:apply_inplace_on_temporaries"),
           bounded="20 programs", domain="int16/int32 with int64, float32 with float64")(mixed)
