"""Contracts of the array level: every primitive of ein.codegen.yarr on every backend, the alignment of
axes (ein.codegen.axial) and the indexing transformations (ein.codegen.array_indexing), each for all
arrays of all sizes at every enumerated rank, axis and axis order."""
from __future__ import annotations

import itertools

import numpy
import z3

from .. import core, libs, phisem, ref, sym, symarray as sa
from ..sym import is_sym, mk_int, t_add, t_and, t_eq, t_implies, t_le, t_lt, t_max, t_min, t_mul, t_not, t_or, t_sub, term
from . import Failed, Registry, need

CASES = Registry()
BACKENDS = ("numpy", "torch", "jax")
KIND = {"b": bool, "i": int, "f": float}


def t_clip(i, n):
    return t_max(0, t_min(i, t_sub(n, 1)))


def t_ite(c, a, b):
    if not is_sym(c):
        return a if c else b
    a, b = sym.unify(a, b)
    return z3.If(c, a, b)


class Arg:
    """kind, dims: sizes by name ('1': one, '=k': a fixed number); pre(dims, value) restricts scalars."""

    def __init__(self, text, pre=None):
        kind, _, rest = text.partition(":")
        self.kind, self.dims, self.pre = kind, tuple(rest.split()) if rest else (), pre


def size_of(d, env):
    return int(d) if d.isdigit() else env[d]


class Prim:
    """build(yarr, *vars) -> term; spec(*arrays) -> list of (shape, kind, fn(idx)) with fn in terms."""

    def __init__(self, name, args, build, spec, pre=None, backends=BACKENDS, lo=0):
        self.name, self.build, self.spec, self.pre, self.backends, self.lo = name, build, spec, pre, backends, lo
        self.args = [a if isinstance(a, Arg) else Arg(a) for a in args]

    def term(self):
        yarr, Variable, PrimitiveType = need("ein.codegen.yarr", "AbstractExpr"), need("ein.symbols", "Variable"), need("ein.phi.type_system", "PrimitiveType")
        import ein.codegen.yarr as y

        del yarr
        vs = [Variable() for _ in self.args]
        xs = [y.Var(v, PrimitiveType.of_array(len(a.dims), KIND[a.kind])) for v, a in zip(vs, self.args)]
        return vs, self.build(y, *xs)

    def names(self):
        return sorted({d for a in self.args for d in a.dims if not d.isdigit()})

    def symbolic(self):
        p = sym.P()
        env = {}
        for d in self.names():
            env[d] = z3.Int(f"dim_{d}")
            p.assume(env[d] >= self.lo)
        out = []
        for k, a in enumerate(self.args):
            shape = tuple(mk_int(size_of(d, env)) if not d.isdigit() else int(d) for d in a.dims)
            sort = sa.SORT[a.kind]()
            if shape:
                f = z3.Function(f"arg_{k}", *([z3.IntSort()] * len(shape)), sort)
                fn = lambda idx, f=f: f(*(i if is_sym(i) else z3.IntVal(i) for i in idx))  # noqa: E731
            else:
                c = z3.Const(f"arg_{k}", sort)
                fn = lambda idx, c=c: c  # noqa: E731
            out.append(sa.SymArray.make(shape, a.kind, fn, protected=True, name=f"x{k}"))
        if self.pre is not None:
            p.assume(self.pre(env, *out))
        return env, out

    def concrete(self, rng, model=None):
        env = {}
        for d in self.names():
            env[d] = int(rng.integers(self.lo, 5))
            if model is not None:
                env[d] = max(self.lo, min(6, model.eval(z3.Int(f"dim_{d}"), model_completion=True).as_long()))
        out = []
        for k, a in enumerate(self.args):
            shape = tuple(size_of(d, env) for d in a.dims)
            x = rng.normal(size=shape) if a.kind == "f" else rng.integers(0, 2, size=shape).astype(bool) if a.kind == "b" else rng.integers(-3, 6, size=shape)
            x = numpy.asarray(x)
            if model is not None and not shape:
                x = numpy.asarray(sym.model_num(model, z3.Const(f"arg_{k}", sa.SORT[a.kind]())), dtype=x.dtype)
            out.append(x)
        if self.pre is not None and not self.pre(env, *(sa.asarr(x) for x in out)):
            return None
        return out


def stager(backend):
    return need({"numpy": "ein.backend.numpy_backend", "torch": "ein.backend.torch_backend", "jax": "ein.backend.jax_backend"}[backend], "stage_in_array")


def compare(want, got, tag):
    p = sym.P()
    shape, kind, fn = want
    got = sa.asarr(got)
    if not p.prove(got.ndim == len(shape), f"{tag}: rank", f"{got.ndim} instead of {len(shape)}"):
        return
    if not p.prove(got.kind == kind, f"{tag}: kind", f"{got.kind} instead of {kind}"):
        return
    for k, (d, x) in enumerate(zip(got.shape, shape)):
        if not p.prove(t_eq(term(d), term(x)), f"{tag}: size of axis {k}"):
            return
    idx, bounds = sa.fresh_index(tuple(term(s) for s in shape), "out")
    e, g = fn(idx), got.at(idx)
    eq = core.iff(g, e) if kind == "b" else t_eq(g, e)
    p.prove(t_or(*(t_not(b) for b in bounds), eq), f"{tag}: every element")


def replay(prim, backend, model, seed):
    rng = numpy.random.default_rng([seed, 5])
    stage = stager(backend)
    for k in range(60):
        try:
            xs = prim.concrete(rng, model if k < 3 else None)
        except Exception:
            xs = None
        if xs is None:
            continue
        d = run_concrete(prim, backend, stage, xs)
        if d:
            return f"{prim.name} on {backend} with {[x.tolist() for x in xs]}: {d}"
    return None


def run_concrete(prim, backend, stage, xs):
    vs, t = prim.term()
    want = prim.spec(*(sa.asarr(x) for x in xs))
    try:
        if backend == "jax":
            import jax

            with jax.ensure_compile_time_eval():
                got = stage(t)({v: core.backend_array(x, backend) for v, x in zip(vs, xs)})
        else:
            given = {v: core.backend_array(x.copy(), backend) for v, x in zip(vs, xs)}
            f = stage(t)
            got = f(dict(given))
            if any(not numpy.array_equal(core.to_np(given[v]), x, equal_nan=x.dtype.kind == "f") for v, x in zip(vs, xs)):
                return "an operand was modified"
    except Exception as e:
        return f"raised {type(e).__name__}: {str(e)[:160]}"
    got = core.flatten([got])
    if len(got) != len(want):
        return f"{len(got)} results instead of {len(want)}"
    for (shape, kind, fn), g in zip(want, got):
        g = core.to_np(g)
        shape = tuple(int(s) for s in shape)
        if g.shape != shape:
            return f"shape {g.shape} instead of {shape}"
        if core.KIND_OF.get(g.dtype.kind) != kind:
            return f"dtype {g.dtype} instead of kind {kind}"
        for idx in numpy.ndindex(*shape):
            e = fn(idx)
            if not (abs(float(g[idx]) - float(e)) <= 1e-6 * max(1.0, abs(float(e)))) and not (numpy.isnan(g[idx]) and numpy.isnan(e)):
                return f"element {list(idx)} is {g[idx]} instead of {e}"
    return None


def discharge(ctx, prim, backend, stage=None, budget=6):
    stage = stage or stager(backend)

    def run():
        p = sym.P()
        env, xs = prim.symbolic()
        if not p.feasible():
            raise sym.Infeasible
        with libs.active():
            vs, t = prim.term()
        want = prim.spec(*xs)
        try:
            with libs.active():
                got = core.flatten([stage(t)(dict(zip(vs, xs)))])
                if p.prove(len(got) == len(want), "number of results"):
                    for w, g in zip(want, got):
                        compare(w, g, f"{prim.name} on {backend}")
        except (sym.Unsupported, sym.Infeasible, z3.Z3Exception):
            raise
        except Exception as e:
            p.prove(False, f"{prim.name} on {backend}: no exception", f"{type(e).__name__}: {str(e)[:200]}")

    # ground cross-check of the contract against the real library
    rng = numpy.random.default_rng([ctx.seed, 9])
    done = 0
    for _ in range(12):
        xs = prim.concrete(rng)
        if xs is None:
            continue
        done += 1
        d = run_concrete(prim, backend, stager(backend), xs)
        ctx.expect(d is None, f"{prim.name} on {backend}", lambda: f"with {[x.tolist() for x in xs]}: {d}")
        if done >= 3:
            break
    ctx.explore(run, f"{prim.name} on {backend}", replay=lambda m: replay(prim, backend, m, ctx.seed), budget=budget)


def inside(f):
    """A contract between functions of the implementation: its failure is no failing input by itself (the
    division of work between them may have changed); the checks of whole programs give those."""
    try:
        return f()
    except Failed as e:
        e.no_input = True
        raise


# ---------------------------------------------------------------- the primitives

D = "n m k p".split()


def dims_text(kind, dims):
    return f"{kind}:{' '.join(dims)}"


def sh(x):
    return [term(s) for s in x.shape]


def put(lst, i, v):
    return tuple(lst[:i]) + (v,) + tuple(lst[i + 1:])


def structural():
    """Transpose, Squeeze, Unsqueeze, Dim, Range, Repeat, Concat, Cast, Tuple, Untuple, Let."""
    out = []
    for r in range(0, 4):
        dims = D[:r]
        for pi in itertools.permutations(range(r)):
            out.append(Prim(f"Transpose{pi}", [dims_text("f", dims)], lambda y, x, pi=pi: y.Transpose(pi, x),
                            lambda x, pi=pi: [(tuple(x.shape[j] for j in pi), x.kind,
                                               lambda idx: x.at(tuple(idx[pi.index(j)] for j in range(len(pi)))))]))
        for k in range(0, 3):
            for axes in itertools.combinations(range(r + k), k):
                if r + k > 4:
                    continue

                def spec(x, axes=axes, n=r + k):
                    it = iter(x.shape)
                    shape = tuple(1 if j in axes else next(it) for j in range(n))
                    return [(shape, x.kind, lambda idx: x.at(tuple(i for j, i in enumerate(idx) if j not in axes)))]

                out.append(Prim(f"Unsqueeze{axes} of rank {r}", [dims_text("fib"[(r + k) % 3], dims)], lambda y, x, axes=axes: y.Unsqueeze(axes, x), spec))
        for a in range(r + 1):
            ds = dims[:a] + ["1"] + dims[a:]
            out.append(Prim(f"Squeeze({a},) of rank {r + 1}", [dims_text("f", ds)], lambda y, x, a=a: y.Squeeze((a,), x),
                            lambda x, a=a: [(tuple(s for j, s in enumerate(x.shape) if j != a), x.kind, lambda idx: x.at(tuple(idx[:a]) + (0,) + tuple(idx[a:])))]))
            out.append(Prim(f"Repeat axis {a} of rank {r + 1}", [dims_text("fi"[a % 2], ds), "i"], lambda y, x, c, a=a: y.Repeat(a, c, x),
                            lambda x, c, a=a: [(put(x.shape, a, mk_int(c.at(()))), x.kind, lambda idx: x.at(put(idx, a, 0)))],
                            pre=lambda e, x, c: t_le(0, c.at(())), backends=("numpy", "torch")))
        for axes in itertools.combinations(range(r + 2), 2):
            if r + 2 <= 4:
                it = iter(dims)
                ds = ["1" if j in axes else next(it) for j in range(r + 2)]

                def sqspec(x, axes=axes):
                    def at(idx):
                        it = iter(idx)
                        return x.at(tuple(0 if j in axes else next(it) for j in range(len(x.shape))))

                    return [(tuple(s for j, s in enumerate(x.shape) if j not in axes), x.kind, at)]

                out.append(Prim(f"Squeeze{axes} of rank {r + 2}", [dims_text("f", ds)], lambda y, x, axes=axes: y.Squeeze(axes, x), sqspec))
        for a in range(r):
            out.append(Prim(f"Dim {a} of rank {r}", [dims_text("f", dims)], lambda y, x, a=a: y.Dim(a, x),
                            lambda x, a=a: [((), "i", lambda idx: term(x.shape[a]))]))
            ds2 = put(dims, a, "q")
            out.append(Prim(f"Concat axis {a} of rank {r}", [dims_text("f", dims), dims_text("f", ds2)], lambda y, x, z, a=a: y.Concat((x, z), a), concat_spec(a)))
    out.append(Prim("Range", ["i"], lambda y, n: y.Range(n), lambda n: [((mk_int(n.at(())),), "i", lambda idx: idx[0])],
                    pre=lambda e, n: t_le(0, n.at(())), backends=("numpy", "torch")))
    for k in "bif":
        out.append(Prim(f"Cast {k} to float", [f"{k}:n"], lambda y, x: y.Cast(float, x), lambda x, k=k: [(x.shape, "f", lambda idx: to_f(x.at(idx)))]))
    out.append(Prim("Tuple", ["f:n", "i:n m"], lambda y, a, b: y.Tuple((a, b)), lambda a, b: [(a.shape, "f", a.at), (b.shape, "i", b.at)]))
    for at in range(3):
        out.append(Prim(f"Untuple {at}", ["f:n", "i:n m", "b"], lambda y, a, b, c, at=at: y.Untuple(at, 3, y.Tuple((a, b, c))),
                        lambda a, b, c, at=at: [((a, b, c)[at].shape, (a, b, c)[at].kind, (a, b, c)[at].at)]))
    return out


def to_f(t):
    return sym.t_real(t) if is_sym(t) else float(t)


def concat_spec(a):
    def spec(x, z):
        nx = term(x.shape[a])

        def fn(idx):
            i = idx[a]
            if not is_sym(i) and not is_sym(nx):
                return x.at(idx) if i < nx else z.at(put(idx, a, i - nx))
            return t_ite(t_lt(i, nx), x.at(idx), z.at(put(idx, a, t_sub(i, nx))))

        return [(put(x.shape, a, mk_int(t_add(nx, term(z.shape[a])))), x.kind, fn)]

    return spec


def reading():
    """Take, Gather, Slice, Pad."""
    out = []
    for r in range(1, 4):
        dims = D[:r]
        for a in range(r):
            for ir in range(0, 3):
                ids = ["u", "v"][:ir]

                def spec(x, it, a=a, ir=ir):
                    shape = tuple(x.shape[:a]) + tuple(it.shape) + tuple(x.shape[a + 1:])
                    return [(shape, x.kind, lambda idx: x.at(tuple(idx[:a]) + (t_clip(it.at(tuple(idx[a:a + ir])), term(x.shape[a])),) + tuple(idx[a + ir:])))]

                out.append(Prim(f"Take axis {a} of rank {r} with items of rank {ir}", [dims_text("fib"[(a + r) % 3], dims), dims_text("i", ids)],
                                lambda y, x, it, a=a, r=r: y.Take(x, put((None,) * r, a, it)), spec, lo=0,
                                pre=lambda e, x, it, a=a: t_le(1, term(x.shape[a]))))
            # Gather: target and item broadcast, except along the axis
            for mask in itertools.product((0, 1, 2), repeat=r - 1):
                td, idd = [], []
                for j, d in enumerate(dims):
                    if j == a:
                        td.append(d)
                        idd.append("q")
                    else:
                        m = mask[j if j < a else j - 1]
                        td.append("1" if m == 1 else d)
                        idd.append("1" if m == 2 else d)

                def spec(x, it, a=a):
                    shape = tuple(it.shape[j] if j == a or x.shape[j] == 1 and isinstance(x.shape[j], int) else x.shape[j] for j in range(x.ndim))

                    def fn(idx):
                        ii = it.at(tuple(0 if isinstance(s, int) and s == 1 else i for i, s in zip(idx, it.shape)))
                        xi = tuple(t_clip(ii, term(x.shape[a])) if j == a else 0 if isinstance(s, int) and s == 1 else i for j, (i, s) in enumerate(zip(idx, x.shape)))
                        return x.at(xi)

                    return [(shape, x.kind, fn)]

                out.append(Prim(f"Gather axis {a} of {td} at {idd}", [dims_text("f", td), dims_text("i", idd)], lambda y, x, it, a=a: y.Gather(a, x, it), spec,
                                pre=lambda e, x, it, a=a: t_le(1, term(x.shape[a]))))

            def sspec(x, s, t, a=a):
                s0, t0 = s.at(()), t.at(())
                return [(put(x.shape, a, mk_int(t_sub(t0, s0))), x.kind, lambda idx: x.at(put(idx, a, t_add(idx[a], s0))))]

            out.append(Prim(f"Slice axis {a} of rank {r}", [dims_text("f", dims), "i", "i"], lambda y, x, s, t, a=a, r=r: y.Slice(x, put((None,) * r, a, s), put((None,) * r, a, t)),
                            sspec, pre=lambda e, x, s, t, a=a: t_and(t_le(0, s.at(())), t_le(s.at(()), t.at(())), t_le(t.at(()), term(x.shape[a]))), backends=("numpy", "torch")))

            def pspec(x, lt, rt, a=a):
                l0, r0 = lt.at(()), rt.at(())
                n = term(x.shape[a])
                return [(put(x.shape, a, mk_int(t_add(t_add(n, l0), r0))), x.kind, lambda idx: x.at(put(idx, a, t_clip(t_sub(idx[a], l0), n))))]

            out.append(Prim(f"Pad axis {a} of rank {r}", [dims_text("fib"[a], dims), "i", "i"], lambda y, x, s, t, a=a, r=r: y.Pad(x, put((None,) * r, a, s), put((None,) * r, a, t)),
                            pspec, pre=lambda e, x, s, t, a=a: t_and(t_le(0, s.at(())), t_le(0, t.at(())), t_le(1, term(x.shape[a]))), backends=("numpy", "torch")))
    for r, (a, b) in ((2, (0, 1)), (3, (0, 2)), (3, (1, 2))):
        def qspec(x, l1, r1, l2, r2, a=a, b=b):
            la, ra, lb, rb = (v.at(()) for v in (l1, r1, l2, r2))
            n, m = term(x.shape[a]), term(x.shape[b])
            shape = put(put(x.shape, a, mk_int(t_add(t_add(n, la), ra))), b, mk_int(t_add(t_add(m, lb), rb)))
            return [(shape, x.kind, lambda idx: x.at(put(put(idx, a, t_clip(t_sub(idx[a], la), n)), b, t_clip(t_sub(idx[b], lb), m))))]

        out.append(Prim(f"Pad axes {a} and {b} of rank {r}", [dims_text("f", D[:r]), "i", "i", "i", "i"],
                        lambda y, x, l1, r1, l2, r2, a=a, b=b, r=r: y.Pad(x, put(put((None,) * r, a, l1), b, l2), put(put((None,) * r, a, r1), b, r2)), qspec,
                        pre=lambda e, x, *ps, a=a, b=b: t_and(*(t_le(0, p.at(())) for p in ps), t_le(1, term(x.shape[a])), t_le(1, term(x.shape[b]))), backends=("numpy", "torch")))
    return out


def elementwise():
    out = []
    un = {"negative": ("if", lambda a: -a), "logical_not": ("b", t_not), "reciprocal": ("f", None), "exp": ("f", None), "sin": ("f", None), "cos": ("f", None)}
    bi = {
        "add": ("if", t_add), "subtract": ("if", t_sub), "multiply": ("if", t_mul), "minimum": ("if", t_min), "maximum": ("if", t_max),
        "less": ("if", t_lt), "less_equal": ("if", t_le), "equal": ("if", t_eq), "not_equal": ("if", sym.t_ne),
        "logical_and": ("b", lambda a, b: t_and(a, b)), "logical_or": ("b", lambda a, b: t_or(a, b)), "mod": ("i", sym.t_mod), "power": ("f", None),
    }
    COMPARE = ("less", "less_equal", "equal", "not_equal")
    shapes = [((), ()), (("n",), ("n",)), (("n", "m"), ("m",)), (("m",), ("n", "m")), (("n", "1"), ("1", "m")), (("1", "m"), ("n", "m")), ((), ("n",))]
    for name, (kinds, f) in un.items():
        for k in kinds:
            g = f or (lambda a, name=name: ref.s_recip(a) if name == "reciprocal" else ref.s_un(name)(a))
            out.append(Prim(f"{name} of {k}", [f"{k}:n m"], lambda y, x, name=name: y.UnaryElementwise(y.UnaryElementwise.Kind[name], x),
                            lambda x, g=g: [(x.shape, x.kind, lambda idx: g(x.at(idx)))]))
    for name, (kinds, f) in bi.items():
        for k in kinds:
            for s1, s2 in shapes if name in ("add", "subtract", "less", "minimum") else shapes[1:3]:
                g = f or (lambda a, b: ref.s_pow(a, b))

                def spec(x, z, g=g, name=name):
                    shape = broadcast(x.shape, z.shape)
                    return [(shape, "b" if name in COMPARE else x.kind, lambda idx: g(x.at(pick(idx, x.shape)), z.at(pick(idx, z.shape))))]

                if name == "mod":
                    out.append(Prim(f"mod of {k}", [f"{k}:n m", f"{k}"], lambda y, x, z: y.BinaryElementwise(y.BinaryElementwise.Kind["mod"], x, z), spec,
                                    pre=lambda e, x, z: sym.t_ne(z.at(()), 0)))
                    break
                if name == "power":
                    out.append(Prim("power", ["f:n m", "f"], lambda y, x, z: y.BinaryElementwise(y.BinaryElementwise.Kind["power"], x, z), spec))
                    break
                out.append(Prim(f"{name} of {k} {s1} {s2}", [dims_text(k, s1), dims_text(k, s2)], lambda y, x, z, name=name: y.BinaryElementwise(y.BinaryElementwise.Kind[name], x, z), spec))
    for k in "bif":
        for cs, s1, s2 in ((("n",), ("n",), ("n",)), (("n", "1"), ("m",), ("n", "m")), ((), ("n",), ("n",)), (("n", "m"), (), ("n", "1"))):
            def spec(c, a, b):
                shape = broadcast(c.shape, a.shape, b.shape)
                return [(shape, a.kind, lambda idx: where(c.at(pick(idx, c.shape)), a.at(pick(idx, a.shape)), b.at(pick(idx, b.shape))))]

            out.append(Prim(f"where of {k} {cs} {s1} {s2}", [dims_text("b", cs), dims_text(k, s1), dims_text(k, s2)], lambda y, c, a, b: y.TernaryElementwise(y.TernaryElementwise.Kind["where"], c, a, b), spec))
    return out


def where(c, a, b):
    if not is_sym(c):
        return a if c else b
    if z3.is_bool(a) if is_sym(a) else isinstance(a, bool):
        return t_or(t_and(c, a), t_and(t_not(c), b))
    return t_ite(c, a, b)


def one(s):
    return isinstance(s, int) and s == 1


def broadcast(*shapes):
    n = max(len(s) for s in shapes)
    out = []
    for j in range(n):
        c = [s[j - n + len(s)] for s in shapes if j - n + len(s) >= 0]
        out.append(next((x for x in c if not one(x)), 1))
    return tuple(out)


def pick(idx, shape):
    idx = idx[len(idx) - len(shape):]
    return tuple(0 if one(s) else i for i, s in zip(idx, shape))


def register_prims():
    groups = {"structural": structural, "reading": reading, "elementwise": elementwise}
    for gname, make in groups.items():
        for b in BACKENDS:
            shards = 3 if gname == "reading" else 2

            for s in range(shards):
                props = {"reading": "C02 C10", "structural": "C01 C10", "elementwise": "C10 C11"}[gname]
                funcs = (f"ein/backend/{b}_backend.py:stage_in_array and the methods of its backend ({gname})", f"ein/backend/array_backend.py:AbstractArrayBackend.stage ({gname})", "ein/codegen/yarr.py: the term classes")

                @CASES.case(f"{gname}-{b}-{s}", props, funcs, internal=True)
                def _(ctx, make=make, b=b, s=s, shards=shards):
                    for k, prim in enumerate(make()):
                        if k % shards == s and b in prim.backends:
                            inside(lambda: discharge(ctx, prim, b))




def overwritten(prim):
    """The primitive's result as an operand of an operation that may reuse its memory, on either side."""
    def derived(side):
        def build(y, *xs):
            e = prim.build(y, *xs)
            t = e.type.single
            one_ = y.Const(need("ein.value", "Value")(numpy.array(True if t.kind is bool else t.kind(1))))
            one_ = y.Unsqueeze(tuple(range(t.rank)), one_) if t.rank else one_
            op = y.BinaryElementwise.Kind.logical_or if t.kind is bool else y.BinaryElementwise.Kind.add
            return y.BinaryElementwise(op, e, one_) if side == 0 else y.BinaryElementwise(op, one_, e)

        def spec(*xs):
            ((shape, kind, fn),) = prim.spec(*xs)
            return [(shape, kind, (lambda idx: True) if kind == "b" else lambda idx: sym.t_add(fn(idx), 1.0 if kind == "f" and not is_sym(fn(idx)) else 1))]

        return Prim(f"{prim.name} overwritten as operand {side}", prim.args, build, spec, pre=prim.pre, backends=("numpy",), lo=prim.lo)

    for side in (0, 1):
        yield derived(side)


def single(prim):
    import ein.codegen.yarr as y

    _, t = prim.term()
    try:
        return t.type.single is not None
    except Exception:
        return False


def register_overwritten():
    funcs = ("ein/backend/numpy_backend.py:stage_in_array", "ein/codegen/phi_to_yarr.py:apply_inplace_on_temporaries", "ein/backend/array_backend.py:AbstractArrayBackend.stage")
    shards = 6
    for s in range(shards):
        @CASES.case(f"overwritten-numpy-{s}", "C12", funcs, internal=True)
        def _(ctx, s=s):
            k = 0
            for prim in itertools.chain(structural(), reading(), elementwise()):
                if "numpy" not in prim.backends or not single(prim):
                    continue
                k += 1
                if k % shards == s:
                    for d in overwritten(prim):
                        inside(lambda: discharge(ctx, d, "numpy"))


# ---------------------------------------------------------------- alignment of axes


def ordered_subsets(xs, top):
    for k in range(top + 1):
        yield from itertools.permutations(xs, k)


def alignment(thorough=False):
    """_align, Axial.along, Axial.cons: the element at an assignment of the free axes (by axis, not by position)
    and positions is the element of the operand there."""
    out = []
    L = 3
    for n in range(1, L + 1):
        for pos in range(0, 2 if n == L else 3):
            for axes in ordered_subsets(range(n), n):
                for leftpad in (True, False):
                    for reps in ((), tuple(j for j in range(n) if j not in axes)):
                        if reps and not leftpad:
                            continue
                        out.append(align_prim(n, pos, axes, leftpad, reps))
    return out


def align_prim(n, pos, axes, leftpad, reps):
    dims = [f"a{j}" for j in axes] + [f"p{j}" for j in range(pos)]

    def build(y, x, *counts):
        f, Index = need("ein.codegen.axial", "_align"), need("ein.symbols", "Index")
        I = [Index() for _ in range(n)]
        return f(x, tuple(I[j] for j in axes), tuple(I), leftpad=leftpad, repeats={I[j]: c for j, c in zip(reps, counts)})

    def spec(x, *counts):
        into = list(range(n))
        if not leftpad:
            while into and into[0] not in axes:
                into.pop(0)
        size = {j: x.shape[k] for k, j in enumerate(axes)}
        size.update({j: mk_int(c.at(())) for j, c in zip(reps, counts)})
        shape = tuple(size.get(j, 1) for j in into) + tuple(x.shape[len(axes):])

        def fn(idx):
            at = dict(zip(into, idx))
            return x.at(tuple(at[j] for j in axes) + tuple(idx[len(into):]))

        return [(shape, x.kind, fn)]

    return Prim(f"_align of axes {axes} into {n}, {pos} positional, leftpad={leftpad}, repeats={reps}", [dims_text("f", dims)] + ["i"] * len(reps), build, spec,
                pre=lambda e, x, *cs: t_and(*(t_le(0, c.at(())) for c in cs)), backends=("numpy",))


def along():
    out = []
    for n in range(0, 4):
        for pos in range(0, 3):
            for j in range(n + 1):  # j == n: the index is not free in it
                out.append(along_prim(n, pos, j))
    return out


def along_prim(n, pos, j):
    dims = [f"a{k}" for k in range(n)] + [f"p{k}" for k in range(pos)]
    meta = {}

    def build(y, x, size):
        Axial, Index = need("ein.codegen.axial", "Axial"), need("ein.symbols", "Index")
        I = [Index() for _ in range(n + 1)]
        r = Axial(tuple(I[:n]), x).along(I[j], size)
        meta["order"] = sorted((k for k in range(n) if r.free_axis(I[k]) is not None), key=lambda k: r.free_axis(I[k]))
        return r.expr

    def spec(x, size):
        order = meta["order"]
        want = [k for k in range(n) if k != j]
        if sorted(order) != want:
            return [((), "f", lambda idx: 0)] * 2  # wrong free axes
        own = x.shape[j] if j < n else mk_int(size.at(()))
        shape = tuple(x.shape[k] for k in order) + (own,) + tuple(x.shape[n:])

        def fn(idx):
            at = dict(zip(order, idx))
            at[j] = idx[len(order)]
            return x.at(tuple(at[k] for k in range(n)) + tuple(idx[len(order) + 1:]))

        return [(shape, x.kind, fn)]

    return Prim(f"Axial.along axis {j} of {n} free and {pos} positional", [dims_text("f", dims), "i"], build, spec, pre=lambda e, x, s: t_le(0, s.at(())), backends=("numpy",))


def consing():
    out = []
    for n in (1, 2, 3):
        subs = list(ordered_subsets(range(n), n))
        for k, (a1, a2) in enumerate(itertools.product(subs, subs)):
            if n == 3 and k % 5:
                continue
            if set(a1) | set(a2) == set(range(n)):
                out.append(cons_prim(n, a1, a2, k % 2, (k // 2) % 2))
    return out


def cons_prim(n, a1, a2, p1, p2):
    d1 = [f"a{j}" for j in a1] + ["p"] * p1
    d2 = [f"a{j}" for j in a2] + ["q"] * p2
    meta = {}

    def build(y, x, z, *sizes):
        Axial, Index = need("ein.codegen.axial", "Axial"), need("ein.symbols", "Index")
        I = [Index() for _ in range(n)]
        r = Axial(tuple(I[j] for j in a1), x).cons(Axial(tuple(I[j] for j in a2), z), repeats=dict(zip(I, sizes)))
        meta["order"] = sorted((k for k in range(n) if r.free_axis(I[k]) is not None), key=lambda k: r.free_axis(I[k]))
        return y.Tuple((r.slice_tuple(1, 2).expr, r.slice_tuple(0, 1).expr))

    def spec(x, z, *sizes):
        order = meta["order"]
        if len(order) != n:
            return [((), "f", lambda idx: 0)] * 3
        res = []
        for v, axes in ((z, a2), (x, a1)):
            shape = tuple(v.shape[axes.index(k)] if k in axes else mk_int(sizes[k].at(())) for k in order) + tuple(v.shape[len(axes):])
            res.append((shape, v.kind, lambda idx, v=v, axes=axes: v.at(tuple(idx[order.index(k)] for k in axes) + tuple(idx[n:]))))
        return res

    def pre(env, x, z, *sizes):
        cs = []
        for v, axes in ((x, a1), (z, a2)):
            for k, j in enumerate(axes):
                cs.append(t_eq(sizes[j].at(()), term(v.shape[k])))
        return t_and(*(t_le(0, s.at(())) for s in sizes), *cs)

    return Prim(f"Axial.cons of axes {a1} and {a2}", [dims_text("f", d1), dims_text("i", d2)] + ["i"] * n, build, spec, pre=pre, backends=("numpy",))


def shifts():
    out = []
    for r in (1, 2, 3):
        for a in range(r):
            def build(y, x, *ss, a=a):
                return need("ein.codegen.array_indexing", "pad_slice_get")(x, a, *ss)

            def spec(x, shift, low, high, size, a=a):
                s, lo, hi = (v.at(()) for v in (shift, low, high))
                return [(put(x.shape, a, mk_int(size.at(()))), x.kind, lambda idx: x.at(put(idx, a, t_min(t_max(t_add(idx[a], s), lo), hi))))]

            def pre(e, x, shift, low, high, size, a=a):
                n = term(x.shape[a])
                lo, hi = low.at(()), high.at(())
                return t_and(t_le(0, size.at(())), t_le(0, lo), t_le(0, hi), t_lt(lo, n), t_lt(hi, n))

            out.append(Prim(f"pad_slice_get along {a} of rank {r}", [dims_text("f", D[:r]), "i", "i", "i", "i"], build, spec, pre=pre, backends=("numpy", "torch")))
    return out


def general():
    out = []
    for n in (1, 2):
        subs = list(ordered_subsets(range(n), n))
        for k, (a1, a2) in enumerate(itertools.product(subs, subs)):
            if set(a1) | set(a2) == set(range(n)):
                for pos in (1, 2):
                    out.append(general_prim(n, a1, a2, pos))
    return out


def general_prim(n, a1, a2, pos):
    d1 = [f"a{j}" for j in a1] + ["p", "q"][:pos]
    d2 = [f"a{j}" for j in a2]
    meta = {}

    def build(y, x, it):
        Axial, Index = need("ein.codegen.axial", "Axial"), need("ein.symbols", "Index")
        f = need("ein.codegen.array_indexing", "general_get")
        I = [Index() for _ in range(n)]
        r = f(Axial(tuple(I[j] for j in a1), x), Axial(tuple(I[j] for j in a2), it))
        meta["order"] = sorted((k for k in range(n) if r.free_axis(I[k]) is not None), key=lambda k: r.free_axis(I[k]))
        return need("ein.codegen.phi_to_yarr", "cancel_shape_ops")(r.expr)

    def spec(x, it):
        order = meta["order"]
        if len(order) != n:
            return [((), "f", lambda idx: 0)] * 2
        m = len(a1)
        shape = tuple(x.shape[a1.index(k)] if k in a1 else it.shape[a2.index(k)] for k in order) + tuple(x.shape[m + 1:])

        def fn(idx):
            i = t_clip(it.at(tuple(idx[order.index(k)] for k in a2)), term(x.shape[m]))
            return x.at(tuple(idx[order.index(k)] for k in a1) + (i,) + tuple(idx[n:]))

        return [(shape, x.kind, fn)]

    return Prim(f"general_get of axes {a1} at axes {a2}, rank {pos}", [dims_text("f", d1), dims_text("i", d2)], build, spec, pre=lambda e, x, it: t_le(1, term(x.shape[len(a1)])))


def matching(ctx, shard, shards):
    """match_clipped_shift(e, i) = (d, lo, hi): e = min(max(i + d, lo), hi) for every value of every symbol, and
    none of the three mentions i; None is always allowed."""
    import ein.phi.phi as phi

    f = need("ein.codegen.array_indexing", "match_clipped_shift")
    Index, Variable, Scalar = need("ein.symbols", "Index"), need("ein.symbols", "Variable"), need("ein.phi.type_system", "Scalar")
    i, vs = Index(), [Variable() for _ in range(3)]
    leaf = [phi.at(i)]
    other = [phi.Store(v, Scalar(int)) for v in vs] + [phi.Const(phi.Value(2)), phi.Const(phi.Value(-1))]
    ops = (phi.Add, phi.Subtract, phi.Min, phi.Max)
    level, all_ = leaf, list(leaf)
    for d in range(3):
        nxt = []
        for k, (e, op, flip) in enumerate(itertools.product(level, ops, (False, True))):
            o = other[(k + d) % len(other)] if d else None
            for o in [o] if o is not None else other[:1] + other[3:4]:
                nxt.append(op((o, e) if flip else (e, o)))
        level = nxt
        all_ += nxt
    all_ += [phi.Add((e, phi.at(i))) for e in leaf] + [phi.Min((phi.at(i), phi.at(i))), phi.Multiply((phi.at(i), other[0])), phi.Negate((phi.at(i),)), phi.Modulo((phi.at(i), other[3]))]
    n = 0
    for k, e in enumerate(all_):
        if k % shards != shard:
            continue
        t = f(e, i)
        if t is None:
            continue
        n += 1
        d, lo, hi = t
        for part in (d, lo, hi):
            if part is not None:
                ctx.expect(i not in phisem.free(part), f"bounds of {k} do not mention the index", internal=True)

        def run():
            p = sym.P()
            env = phisem.Env(None, {s: ref.RS("i", z3.Int(f"v{j}"), True) for j, s in enumerate([i] + vs)})
            sem = phisem.Sem(assume=False)
            want = sem(e, env).t
            got = z3.Int("v0")
            if d is not None:
                got = t_add(got, sem(d, env).t)
            if lo is not None:
                got = t_max(got, sem(lo, env).t)
            if hi is not None:
                got = t_min(got, sem(hi, env).t)
            p.prove(t_eq(want, got), f"clipped shift of term {k}", str(e)[:200])

        ctx.explore(run, f"clipped shift {k}", replay=lambda m: None, budget=4)
    if not n:
        ctx.undecided.append("no term of this shard is recognised as a clipped shift")


def einsum_labels(ctx):
    """to_einsum_subs: two axes share a letter exactly when they are the same index."""
    f, Index = need("ein.codegen.phi_to_yarr", "to_einsum_subs"), need("ein.symbols", "Index")
    I = [Index() for _ in range(6)]
    combos = list(itertools.chain.from_iterable(itertools.permutations(range(4), r) for r in range(4)))
    for k, (a, b) in enumerate(itertools.product(combos, combos)):
        res = sorted(set(a) ^ set(b)) if k % 2 else sorted(set(a) | set(b), reverse=True)
        s = f([tuple(I[j] for j in a), tuple(I[j] for j in b)], tuple(I[j] for j in res))
        ops, r = s.split("->")
        o1, o2 = ops.split(",")
        seq, letters = list(a) + list(b) + res, o1 + o2 + r
        ok = (len(o1), len(o2), len(r)) == (len(a), len(b), len(res)) and all(
            (seq[x] == seq[y]) == (letters[x] == letters[y]) for x in range(len(seq)) for y in range(x))
        ctx.expect(ok, "einsum labels", lambda: f"{a}, {b} -> {res}: {s}", internal=True)


def register_axial():
    AX = ("ein/codegen/axial.py:_align", "ein/codegen/axial.py:Axial.along", "ein/codegen/axial.py:Axial.cons", "ein/codegen/axial.py:Axial.slice_tuple", "ein/codegen/axial.py:Axial.aligned", "ein/codegen/axial.py:_alignment")
    for name, make, props, fs, backs, shards in (
        ("align", alignment, "C01", AX, ("numpy",), 3),
        ("along", along, "C01", AX, ("numpy",), 1),
        ("cons", consing, "C06", AX, ("numpy",), 2),
        ("pad-slice", shifts, "C02", ("ein/codegen/array_indexing.py:pad_slice_get", "ein/codegen/array_indexing.py:Builder"), ("numpy", "torch"), 1),
        ("general-get", general, "C02", ("ein/codegen/array_indexing.py:general_get",), BACKENDS, 1),
    ):
        for b in backs:
            for s in range(shards):
                @CASES.case(f"{name}-{b}-{s}", props, fs, internal=True)
                def _(ctx, make=make, b=b, s=s, shards=shards):
                    for k, prim in enumerate(make()):
                        if k % shards == s and b in prim.backends:
                            inside(lambda: discharge(ctx, prim, b))
    for s in range(2):
        CASES.case(f"clipped-shift-{s}", "C02", ("ein/codegen/array_indexing.py:match_clipped_shift", "ein/codegen/array_indexing.py:_clip_shift_add", "ein/codegen/array_indexing.py:_clip_shift_min",
                                                "ein/codegen/array_indexing.py:_clip_shift_max"), internal=True)(lambda ctx, s=s: matching(ctx, s, 2))
    CASES.case("einsum-labels", "C04", ("ein/codegen/phi_to_yarr.py:to_einsum_subs",), internal=True)(einsum_labels)


register_prims()
register_overwritten()
register_axial()
