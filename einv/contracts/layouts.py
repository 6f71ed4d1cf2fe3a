"""C06: the containers of a record come back out: same containers (lists as tuples), field names, field order, nesting.

The functions under contract (build_layout, map_layout, fold_layout and their users) are parametric in the leaves, so the
obligations enumerate nestings with leaves that are told apart by kind and value."""
from __future__ import annotations

import dataclasses
import itertools
import random

import numpy

from .. import prelude, ref
from . import Registry

CASES = Registry()


def nestings():
    """Constructors (leaf count, build(leaves)) of every container over atoms, and of nested containers."""
    atom = (1, lambda xs: xs[0])

    def seq(kind, *subs):
        n = sum(s[0] for s in subs)

        def build(xs):
            out, at = [], 0
            for m, b in subs:
                out.append(b(xs[at:at + m]))
                at += m
            return kind(out)

        return n, build

    def keyed(*names):
        return lambda out: dict(zip(names, out))

    def dc(t):
        return lambda out: t(*out)

    def flat(subs):
        """Containers that take len(subs) components."""
        k = len(subs)
        yield seq(tuple, *subs)
        yield seq(list, *subs)
        for names in {1: [("v",)], 2: [("a", "b"), ("z", "a"), ("x", "y"), ("y", "x"), ("b", "B")],
                      3: [("a", "b", "c"), ("z", "m", "a"), ("b", "c", "a")], 4: [("d", "b", "c", "a")]}.get(k, []):
            yield seq(keyed(*names), *subs)
        if k == 2:
            for t in (prelude.Pt, prelude.Seg, prelude.Swap, prelude.Frozen):
                yield seq(dc(t), *subs)
            yield seq(lambda out: prelude.Named(a=out[1], b=out[0]), *subs)
        if k == 1:
            yield seq(dc(prelude.One), *subs)
        if k == 3:
            yield seq(dc(prelude.Pt3), *subs)
            yield seq(dc(prelude.Tagged), *subs)

    one = [c for k in (1, 2, 3, 4) for c in flat([atom] * k)]
    rnd = random.Random(3)
    two = []
    for k in (1, 2, 3):
        for pick in range(30):
            subs = [rnd.choice([atom] + one) for _ in range(k)]
            two.extend(rnd.sample(list(flat(subs)), 2))
    three = []
    for pick in range(60):
        subs = [rnd.choice([atom] + one + two) for _ in range(rnd.choice([1, 2, 2, 3]))]
        three.append(rnd.choice(list(flat(subs))))
    return [c for c in one + two + three if c[0] <= 8]


def shape(x):
    if isinstance(x, (tuple, list)):
        return ("seq", tuple(shape(e) for e in x))
    if isinstance(x, dict):
        return ("dict", tuple((n, shape(e)) for n, e in x.items()))
    if dataclasses.is_dataclass(x) and not hasattr(x, "expr"):
        return (type(x).__name__, tuple((f.name, shape(getattr(x, f.name))) for f in dataclasses.fields(x)))
    return "leaf"


def leaves(x):
    if isinstance(x, (tuple, list)):
        return [l for e in x for l in leaves(e)]
    if isinstance(x, dict):
        return [l for e in x.values() for l in leaves(e)]
    if dataclasses.is_dataclass(x) and not hasattr(x, "expr"):
        return [l for f in dataclasses.fields(x) for l in leaves(getattr(x, f.name))]
    return [x]


def agree(ctx, got, want, label, backend):
    """Same containers; and, unless backend is None, the same value at every leaf."""
    ctx.expect(shape(got) == shape(want), label + ": containers", lambda: f"{shape(got)} instead of {shape(want)}")
    if backend is None:
        return
    for k, (g, w) in enumerate(zip(leaves(got), leaves(want))):
        v = numpy.asarray(ctx.no_raise(lambda: g.eval(backend=backend), f"{label}: leaf {k}"))
        w = numpy.asarray(w)
        ctx.expect(v.shape == w.shape and v.dtype.kind == w.dtype.kind and numpy.array_equal(v, w), f"{label}: leaf {k}",
                   lambda: f"{v!r} instead of {w!r}")


FUNCS = ("ein/frontend/layout.py:build_layout", "ein/frontend/layout.py:map_layout", "ein/frontend/layout.py:fold_layout",
         "ein/frontend/layout.py:PositionalLayout.match", "ein/frontend/layout.py:LabelledLayout.match",
         "ein/frontend/ndarray.py:_to_array", "ein/frontend/ndarray.py:_layout_struct_to_expr",
         "ein/frontend/comprehension.py:array", "ein/frontend/comprehension.py:fold", "ein/frontend/std.py:where",
         "ein/frontend/ndarray.py:Vec.reduce", "ein/frontend/ndarray.py:Vec.concat", "ein/frontend/ndarray.py:Vec.__getitem__")

SHARDS = 8
for _n in range(SHARDS):
    @CASES.case(f"containers-{_n}", "C06", FUNCS)
    def _(ctx, shard=_n):
        ns = ref.EinNS()
        backends = ("numpy", "naive")
        for c, (n, build) in enumerate(nestings()):
            if c % SHARDS != shard:
                continue
            size_be = backends[c // SHARDS % 2]
            be = size_be if ctx.tier == "thorough" or c // SHARDS % 3 == 0 else None
            kinds = [(float, int, bool, float)[(k * 7 + c) % 4] for k in range(n)]

            def py(k, base):
                v = base * 10 + k
                return {float: v + 0.5, int: v, bool: bool((v * 5 // 3 + k + base) % 2)}[kinds[k]]

            def rec(base):
                return build([py(k, base) for k in range(n)])

            def ein(base):
                return build([ns.wrap(py(k, base)) for k in range(n)])

            arrs = [numpy.array([py(k, b) for b in (1, 2, 3)]) for k in range(n)]
            at = {b: build([arrs[k][b - 1] for k in range(n)]) for b in (1, 2, 3)}
            label = f"record {shape(rec(1))}"

            # selection
            for cond, w in ((True, 1), (False, 2)):
                agree(ctx, ctx.no_raise(lambda: ns.where(ns.wrap(cond), ein(1), ein(2)), f"where on a {label}"), rec(w), f"where({cond}) on a {label}", be)
            # folding: every field rotates through its own update
            def upd(i, acc):
                ls = leaves(acc)
                ctx.expect(shape(acc) == shape(rec(1)), f"accumulator of a fold on a {label}", lambda: str(shape(acc)))
                return build([l + l if kinds[k] is not bool else ~l for k, l in enumerate(ls)])

            def ref_upd(l, k, m):
                for _ in range(m):
                    l = l + l if kinds[k] is not bool else not l
                return l

            for m in (0, 1, 3):
                got = ctx.no_raise(lambda: ns.fold(ein(1), upd, m), f"fold on a {label}")
                agree(ctx, got, build([ref_upd(py(k, 1), k, m) for k in range(n)]), f"fold ({m} steps) on a {label}", be)
            # comprehension of records, and reading it
            wr = [ns.wrap(a) for a in arrs]
            v = ctx.no_raise(lambda: ns.array(lambda i: build([w[i] for w in wr])), f"array of a {label}")
            for b in (1, 3):
                agree(ctx, ctx.no_raise(lambda: v[b - 1], f"element of an array of a {label}"), at[b], f"element {b - 1} of an array of a {label}", be)
            ctx.expect(int(v.size().eval(backend=size_be)) == 3, f"size of an array of a {label}")
            v2 = ctx.no_raise(lambda: ns.array(lambda i, j: build([w[j] for w in wr]), size=(2, 3)), f"two-dimensional array of a {label}")
            agree(ctx, ctx.no_raise(lambda: v2[1, 2], "read"), at[3], f"element (1, 2) of a two-dimensional array of a {label}", be)
            agree(ctx, ctx.no_raise(lambda: v2[0][1], "read"), at[2], f"element (0)(1) of a two-dimensional array of a {label}", be)
            # concatenation
            cc = ctx.no_raise(lambda: v.concat(ns.array(lambda i: ein(4), size=2)), f"concat of a {label}")
            for k, w in ((0, at[1]), (2, at[3]), (3, rec(4)), (4, rec(4))):
                agree(ctx, ctx.no_raise(lambda: cc[k], "read"), w, f"element {k} of a concat of a {label}", be)
            # reduction with a non-commutative associative operation per field: keep the left one / the right one
            first = ctx.no_raise(lambda: v.reduce(ein(1), lambda x, y: build([
                p if k % 2 else q for k, (p, q) in enumerate(zip(leaves(x), leaves(y)))])), f"reduce on a {label}")
            ctx.expect(shape(first) == shape(rec(1)), f"reduce on a {label}: containers", lambda: str(shape(first)))
            # mapping over an array of records keeps the order of fields
            rot = ctx.no_raise(lambda: ns.array(lambda i: tuple(reversed(leaves(v[i])))), f"reversing the fields of a {label}")
            agree(ctx, ctx.no_raise(lambda: rot[1], "read"), tuple(reversed(leaves(at[2]))), f"reversing the fields of a {label}", be)


@CASES.case("mismatched", "C06 C09", FUNCS)
def _(ctx):
    """Two records are selected between (or folded into each other) only when they have the same containers and kinds."""
    ns = ref.EinNS()
    flat = [c for c in nestings() if c[0] <= 3][:40]
    for (n, f), (m, g) in itertools.product(flat, repeat=2):
        a = f([ns.wrap(1.5)] * n)
        b = g([ns.wrap(2.5)] * m)
        same = shape(a) == shape(b)
        if same:
            r = ctx.no_raise(lambda: ns.where(ns.wrap(True), a, b), f"where between {shape(a)} and {shape(b)}")
            ctx.expect(shape(r) == shape(a), "where", str(shape(r)))
            ctx.no_raise(lambda: ns.fold(a, lambda i, acc: b, 2), f"fold from {shape(a)} to {shape(b)}")
        else:
            ctx.raises(lambda: ns.fold(a, lambda i, acc: b, 2), f"fold from {shape(a)} to {shape(b)}")
            ctx.raises(lambda: ns.where(ns.wrap(True), a, b), f"where between {shape(a)} and {shape(b)}")
