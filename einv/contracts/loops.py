"""C03 / C05: the loops of the backends, by loop invariants generated from their current source (unbounded),
and the same guarantees through the public API on sampled lengths (which also replays failed obligations)."""
from __future__ import annotations

import ast
import glob
import os

import numpy
import z3

from .. import libs, loopcut, ref, sym
from ..boot import REPO
from ..sym import P, SInt, Unsupported, is_sym, mk_int, t_and, t_eq, t_implies, t_le, t_lt, t_not, t_or, term
from . import Failed, Registry, need

CASES = Registry()

U = z3.DeclareSort("Acc")


class Key:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


K_ACC, K_INDEX, K_OTHER, K_X, K_Y, TOKEN = (Key(n) for n in ("acc", "counter", "other", "x", "y", "token"))


class UVal:
    """An accumulator of unknown type and content."""

    def __init__(self, t):
        self.t = t


class Garbage:
    def __repr__(self):
        return "an arbitrary value"


class Rng:
    def __init__(self, *args):
        if len(args) == 1:
            args = (0, args[0])
        if len(args) != 2:
            raise Unsupported("range with a step")
        self.lo, self.hi = args

    def __iter__(self):
        if any(isinstance(a, SInt) for a in (self.lo, self.hi)):
            raise Unsupported("symbolic range outside of a cut loop")
        return iter(range(self.lo, self.hi))


def max_shim(*a, **k):
    if any(isinstance(x, SInt) for x in a):
        r = a[0]
        for x in a[1:]:
            r = mk_int(sym.t_max(term(r), term(x)))
        return r
    return max(*a, **k)


def min_shim(*a, **k):
    if any(isinstance(x, SInt) for x in a):
        r = a[0]
        for x in a[1:]:
            r = mk_int(sym.t_min(term(r), term(x)))
        return r
    return min(*a, **k)


def as_int(v):
    """The integer term of a counter value in whatever form the code passes it."""
    if isinstance(v, (int, SInt)):
        return term(v)
    a = getattr(v, "array", None)
    if a is not None:
        v = a
    if hasattr(v, "scalar_term"):
        return v.scalar_term()
    try:
        return int(v)
    except Exception:
        raise Unsupported(f"counter of type {type(v).__name__}")


def zi(t):
    return t if is_sym(t) else z3.IntVal(int(t))


class Loop:
    """Ghost iteration count k, havoc and the three obligations."""

    def __init__(self, spec, k, loc, it, names):
        p = P()
        self.spec, self.p, self.names, self.loc0 = spec, p, names, dict(loc)
        self.visits = 0
        self.rng = it
        if it is not None and not isinstance(it, Rng):
            raise Unsupported(f"loop over {type(it).__name__}")
        self.k = p.fresh("k", z3.IntSort())
        p.assume(self.k >= 0)
        if it is not None:
            self.n = sym.t_max(sym.t_sub(term(it.hi), term(it.lo)), 0)
            p.assume(t_le(self.k, self.n))
        self.label = f"loop {k}"
        self.state = {}
        spec.enter(self, loc)
        for n in names:
            if n in loc:
                self.state[n] = spec.arbitrary(self, n, loc[n])
        spec.assume(self)

    def has(self, n):
        return n in self.state

    def havoc(self, n):
        return self.state[n]

    def head(self, loc):
        self.visits += 1
        if self.visits == 1:
            return
        self.spec.preserve(self, loc)
        raise loopcut.Cut

    def more(self):
        return P().branch(t_lt(self.k, self.n))

    def item(self):
        return mk_int(sym.t_add(term(self.rng.lo), self.k))


class FoldSpec:
    """acc = Iter(k) at the head of the loop, where Iter(0) = init and Iter(i + 1) = step(i, Iter(i))."""

    def __init__(self, arity, mode, memory):
        self.arity, self.mode, self.memory = arity, mode, memory
        self.iter = [z3.Function(f"Iter{c}", z3.IntSort(), U) for c in range(arity)]
        self.step = [z3.Function(f"step{c}", z3.IntSort(), *[U] * arity, U) for c in range(arity)]
        self.base = None
        self.env = None

    def acc(self, k):
        xs = tuple(UVal(f(zi(k))) for f in self.iter)
        return xs if self.arity > 1 else xs[0]

    def terms(self, v):
        v = getattr(v, "payload", v)
        if self.arity == 1:
            return [v.t] if isinstance(v, UVal) else None
        if isinstance(v, tuple) and len(v) == self.arity and all(isinstance(x, UVal) for x in v):
            return [x.t for x in v]
        return None

    def is_acc(self, v, k):
        ts = self.terms(v)
        if ts is None:
            return False
        return t_and(*(t == f(zi(k)) for t, f in zip(ts, self.iter)))

    def unroll(self, k):
        """The defining equation of Iter at k."""
        args = [f(zi(k)) for f in self.iter]
        for f, s in zip(self.iter, self.step):
            P().assume(f(zi(k) + 1) == s(zi(k), *args))

    # -- loop obligations
    def enter(self, loop, loc):
        self.loop = loop
        loop.k0 = [f(z3.IntVal(0)) for f in self.iter]
        # what the environment holds when the loop is reached
        loop.env0 = dict(self.env)
        loop.entry_ints = {}

    def arbitrary(self, loop, name, v):
        if self.terms(v) is not None:
            P().prove(self.is_acc(v, 0), f"{loop.label}: {name} is the initial value on entry")
            return self.wrap_like(v, self.acc(loop.k))
        if isinstance(v, bool):
            raise Unsupported(f"boolean loop variable {name}")
        if isinstance(v, (int, SInt)):
            loop.entry_ints[name] = term(v)
            if loop.rng is not None:
                return mk_int(P().fresh(name, z3.IntSort()))
            return mk_int(sym.t_add(term(v), loop.k) if self.mode == "up" else sym.t_sub(term(v), loop.k))
        return Garbage()

    def wrap_like(self, old, new):
        if hasattr(old, "payload"):
            return type(old)(new)
        return new

    def assume(self, loop):
        loop.first = P().branch(loop.k == 0)
        loop.holders = {}
        for key, v in loop.env0.items():
            if self.terms(v) is not None and key not in self.frame:
                P().prove(self.is_acc(v, 0), f"{loop.label}: the environment's accumulator is the initial value on entry")
                self.env[key] = self.wrap_like(v, self.acc(loop.k))
                loop.holders[key] = v
        if loop.rng is None:
            P().assume(t_le(loop.k, sym.t_max(self.count, 0)))
        if not loop.first:
            after = self.memory.get(loop.label)
            if after is None:
                raise Unsupported("state after one iteration unknown")
            for key in after:
                if key not in loop.holders:
                    self.env[key] = Garbage()
        for key in list(self.env):
            if key not in loop.env0 and loop.first:
                raise Unsupported("environment")

    def preserve(self, loop, loc):
        self.unroll(loop.k)
        k1 = loop.k + 1
        for n, v in loop.state.items():
            if n in loop.entry_ints:
                if loop.rng is None:
                    want = sym.t_add(loop.entry_ints[n], k1) if self.mode == "up" else sym.t_sub(loop.entry_ints[n], k1)
                    if not isinstance(loc[n], (int, SInt)):
                        raise Unsupported("loop variable")
                    P().prove(t_eq(term(loc[n]), want), f"{loop.label}: guess {n}")
            elif self.terms(v) is not None:
                P().prove(self.is_acc(loc[n], k1), f"{loop.label}: {n} is Iter(k + 1) after the step")
        for key in loop.holders:
            P().prove(key in self.env and self.is_acc(self.env[key], k1),
                      f"{loop.label}: the environment's accumulator is Iter(k + 1) after the step")
        if loop.rng is None:
            P().prove(t_le(k1, sym.t_max(self.count, 0)), f"{loop.label}: guess bound")
        after = tuple(k for k in self.env if k not in self.frame)
        if loop.first:
            self.memory[loop.label] = after
        else:
            P().prove(set(after) == set(self.memory[loop.label]), f"{loop.label}: guess environment")


def run_fold(make, arity, mode, memory):
    """make(spec, count, init, body, index_var, acc_var) -> (callable on env)"""
    def run():
        spec = FoldSpec(arity, mode, memory)
        p = P()
        N = z3.Int("count")
        spec.count = N
        acc_var, index_var, other, token = K_ACC, K_INDEX, K_OTHER, TOKEN
        env = {other: token}
        spec.env, spec.frame = env, {other}
        calls = []

        def init(e):
            p.prove(e.get(other) is token, "init sees the environment")
            return spec.acc(0)

        def body(e):
            p.prove(acc_var in e and index_var in e and e.get(other) is token, "step sees counter, accumulator and environment")
            ts = spec.terms(e[acc_var])
            if ts is None:
                p.prove(False, "the accumulator passed to the step is not an accumulator value")
            i = as_int(e[index_var])
            xs = tuple(UVal(s(zi(i), *ts)) for s in spec.step)
            calls.append(1)
            return xs if arity > 1 else xs[0]

        try:
            fn = make(spec, lambda e: mk_int(N), init, body, index_var, acc_var)
            result = fn(env)
        except (Unsupported, sym.Infeasible, z3.Z3Exception):
            raise
        except (UnboundLocalError, NameError) as e:
            raise Unsupported(str(e))
        except Exception as e:
            p.prove(False, "no exception", f"{type(e).__name__}: {e}")
            return
        p.prove(spec.is_acc(result, sym.t_max(N, 0)), "the result is Iter(max(count, 0))")
        p.prove(set(env) == {other} and env[other] is token, "the environment is restored")

    return run


def guess_failed(out):
    return any(o.status != "proved" and "guess" in o.name for o in out.obligations)


def discharge(ctx, name, attempts, replay):
    """Tries the invariant candidates; a failure with all of them is a failed obligation."""
    last = None
    for a in attempts:
        for _ in range(2):
            memory = {}
            out = sym.explore(a(memory), max_paths=200, budget_s=ctx.budget)
        if last is None or set(last.unsupported) == {"candidate"}:
            last = out
        if out.complete and not out.failed and out.obligations:
            ctx.obligations += len(out.obligations)
            ctx.discharged += len(out.proved)
            return True
    out = last
    ctx.obligations += len(out.obligations)
    ctx.discharged += len(out.proved)
    if out.failed:
        o = out.failed[0]
        text = replay()
        if text is None and guess_failed(out):
            ctx.undecided.append(f"{name}: no invariant found ({o.name})")
            return False
        raise Failed(f"{name}: {o.name}", f"{text or o.detail} {str(o.model)[:300]}", no_input=text is None)
    ctx.undecided.append(f"{name}: " + "; ".join(sorted(set(out.unsupported)))[:300])
    return False


def shims():
    return dict(range=Rng, max=max_shim, min=min_shim, int=libs.IntShim, len=libs.len_shim)


class BoxValue:
    """Stand-in for ein.value.Value inside of the cut functions: holds one payload."""

    def __init__(self, payload, *_):
        self.payload = payload

    @property
    def array(self):
        return self.payload

    @property
    def value(self):
        return self.payload

    @property
    def pair(self):
        return self.payload


class ScalarShim:
    """numpy.array(i) of a counter."""

    def __getattr__(self, name):
        if name in ("array", "asarray", "int64"):
            return lambda x, *a, **k: x
        raise Unsupported(f"numpy.{name}")


class StubSelf:
    """The backend object, by the contracts of the methods that the loops call."""

    def constant(self, value):
        return getattr(value, "payload", value)

    def preprocess_bound(self, x):
        return x

    def unsqueeze(self, target, axes):
        return target.unsqueeze(tuple(axes))

    def squeeze(self, target, axes):
        return target.squeeze(tuple(axes))

    def __getattr__(self, name):
        raise Unsupported(f"backend method {name}")


def backend_method(backend, name):
    mod = {"numpy": "ein.backend.numpy_backend", "torch": "ein.backend.torch_backend", "jax": "ein.backend.jax_backend"}[backend]
    inst = need(mod, "INSTANCE")
    for c in type(inst).__mro__:
        if name in vars(c):
            return vars(c)[name]
    from . import Missing

    raise Missing(f"{backend}.{name}")


FOLD_FUNCS = ("ein/backend/array_backend.py:AbstractArrayBackend.fold", "ein/backend/array_backend.py:AbstractArrayBackend.fold.fold_impl")

for _b in ("numpy", "torch"):
    @CASES.case(f"fold-invariant-{_b}", "C03", FOLD_FUNCS, internal=True)
    def _(ctx, b=_b):
        method = backend_method(b, "fold")
        for arity in (1, 2):
            def attempt(mode):
                def with_memory(memory):
                    def make(spec, count, init, body, index_var, acc_var):
                        g = shims() | dict(Value=BoxValue, numpy=ScalarShim())
                        f, _ = loopcut.cut(method, lambda k, loc, it, names: Loop(spec, k, loc, it, names), g)
                        import inspect

                        params = list(inspect.signature(f).parameters)
                        if len(params) != 6:
                            raise Unsupported("signature of fold")
                        return f(StubSelf(), index_var, count, acc_var, init, body)

                    return run_fold(make, arity, mode, memory)

                return with_memory

            discharge(ctx, f"fold of {b}, {arity} accumulators", [attempt("up"), attempt("down")],
                      lambda: fold_public(b, thorough=True))


@CASES.case("fold-invariant-naive", "C03 C10", ("ein/backend/naive.py:_interpret",), internal=True)
def _(ctx):
    from ein.phi import phi

    f0 = need("ein.backend.naive", "_interpret")
    import inspect

    if list(inspect.signature(f0).parameters) != ["expr", "env"] and len(inspect.signature(f0).parameters) != 2:
        ctx.undecided.append("signature of _interpret")
        return

    from ein.symbols import Variable

    c, a, sz = Variable(), Variable(), Variable()

    def attempt(mode):
        def with_memory(memory):
            def make(spec, count, init, body, index_var, acc_var):

                g = shims() | dict(Value=BoxValue, numpy=ScalarShim())
                f, _ = loopcut.cut(f0, lambda k, loc, it, names: Loop(spec, k, loc, it, names), g)
                from ein.phi.type_system import scalar_type

                zero = phi.Const(phi.Value(numpy.array(0)))
                size, ini = phi.Store(sz, scalar_type(int)), zero
                bod = phi.Add((phi.Store(a, scalar_type(int)), phi.Store(c, scalar_type(int))))
                term_ = phi.Fold(c, size, a, ini, bod)

                def callee(e, env):
                    view = dict(env)
                    view[acc_var] = getattr(env.get(a), "payload", None)
                    view[index_var] = getattr(env.get(c), "payload", None)
                    if e is size:
                        return BoxValue(count(view))
                    if e is ini:
                        return BoxValue(init(view))
                    if e is bod:
                        return BoxValue(body(view))
                    raise Unsupported("recursive call on another term")

                f.__globals__[f0.__name__] = callee

                def call(env):
                    r = f(term_, env)
                    return getattr(r, "payload", r)

                return call

            return run_fold(make, 1, mode, memory)

        return with_memory

    discharge(ctx, "fold of the reference interpreter", [attempt("up")], lambda: fold_public("naive", thorough=True))


# ------------------------------------------------------------------ reduce


class Seg:
    """An array along the reduced axis whose element i is the combination of the vector's elements
    lo(i) .. hi(i) - 1 (component c of it); equal bounds mean the identity."""

    def __init__(self, n, lo, hi, comp, axis, dropped=False):
        self.n, self.lo, self.hi, self.comp, self.axis, self.dropped = n, lo, hi, comp, axis, dropped

    @property
    def ndim(self):
        return self.axis + (0 if self.dropped else 1)

    @property
    def shape(self):
        # the batch axes have some positive extents
        return tuple(7 + k for k in range(self.axis)) + (() if self.dropped else (self.n,))

    def __len__(self):
        raise Unsupported("len of an array with batch axes")

    def unsqueeze(self, axes):
        if not self.dropped or axes != (self.axis,):
            raise Unsupported("unsqueeze")
        return Seg(1, self.lo, self.hi, self.comp, self.axis)

    def squeeze(self, axes):
        if self.dropped or axes != (self.axis,):
            P().prove(False, "squeezes the reduced axis")
        P().prove(t_eq(term(self.n), 1), "the squeezed axis has one element")
        return Seg(1, self.lo, self.hi, self.comp, self.axis, True)

    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        if self.dropped:
            raise Unsupported("index")
        if len(key) != self.axis + 1:
            if len(key) <= self.axis:
                P().prove(False, "indexes the reduced axis", str(key))
            raise Unsupported("index")
        for k in key[:-1]:
            if not (isinstance(k, slice) and k == slice(None)):
                P().prove(False, "indexes only the reduced axis", str(key))
        s = key[-1]
        n = term(self.n)
        if isinstance(s, slice):
            step = 1 if s.step is None else s.step
            if not isinstance(step, int) or step <= 0:
                raise Unsupported("slice step")

            def norm(v, default):
                if v is None:
                    return default
                v = term(v)
                if isinstance(v, Garbage):
                    raise Unsupported("slice")
                v = sym.ite(t_lt(v, 0), sym.t_max(sym.t_add(v, n), 0), v)
                return sym.t_min(v, n)

            a, b = norm(s.start, 0), norm(s.stop, n)
            m = sym.t_floordiv(sym.t_max(sym.t_add(sym.t_sub(b, a), step - 1), 0), step)
            at = lambda i: sym.t_add(a, sym.t_mul(i, step))  # noqa: E731
            return Seg(mk_int(m), lambda i: self.lo(at(i)), lambda i: self.hi(at(i)), self.comp, self.axis)
        if isinstance(s, (list, tuple)) and len(s) == 1 or isinstance(s, (int, SInt)):
            one = s if isinstance(s, (int, SInt)) else s[0]
            v = term(one)
            P().prove(t_and(t_le(sym.t_neg(n) if is_sym(n) else -n, v), t_lt(v, n)), "the index is in range")
            v = sym.ite(t_lt(v, 0), sym.t_add(v, n), v)
            return Seg(1, lambda i: self.lo(v), lambda i: self.hi(v), self.comp, self.axis, isinstance(s, (int, SInt)))
        raise Unsupported(f"index {type(s).__name__}")


def combine(x, y):
    """Contract of the combiner: pointwise, on adjacent segments."""
    p = P()
    if not isinstance(x, Seg) or not isinstance(y, Seg):
        p.prove(False, "the combiner is called with parts of the vector", f"{x!r}, {y!r}")
    p.prove(x.comp == y.comp, "components of the record stay apart")
    nx, ny = term(x.n), term(y.n)
    p.prove(t_eq(nx, ny), "the combined parts have the same length")
    i = p.fresh("i", z3.IntSort())
    inr = t_and(t_le(0, i), t_lt(i, nx))
    p.prove(t_implies(inr, t_or(t_eq(x.lo(i), x.hi(i)), t_eq(y.lo(i), y.hi(i)), t_eq(x.hi(i), y.lo(i)))),
            "combines adjacent parts, in order")
    lo = lambda i: sym.ite(t_eq(x.lo(i), x.hi(i)), y.lo(i), x.lo(i))  # noqa: E731
    hi = lambda i: sym.ite(t_eq(y.lo(i), y.hi(i)), x.hi(i), y.hi(i))  # noqa: E731
    return Seg(x.n, lo, hi, x.comp, x.axis, x.dropped)


class ReduceSpec:
    """At the loop head the vector's parts and the accumulator are adjacent and cover [0, N)."""

    def __init__(self, mode, memory):
        self.nonempty = mode.endswith("+")
        self.mode, self.memory = mode.rstrip("+"), memory

    def split(self, v):
        if isinstance(v, Seg):
            return (v,)
        if isinstance(v, tuple) and v and all(isinstance(x, Seg) for x in v):
            return v
        return None

    def enter(self, loop, loc):
        self.groups, self.ints = {}, {}
        for n in loop.names:
            if n in loc and self.split(loc[n]) is not None:
                self.groups[n] = self.split(loc[n])
        N = self.N
        single = [n for n, g in self.groups.items() if isinstance(g[0].n, int) and g[0].n == 1]
        many = [n for n in self.groups if n not in single]
        if len(single) != 1 or len(many) > 1:
            raise Unsupported("loop state")
        self.acc_name, self.vec_name = single[0], many[0] if many else None
        p = P()
        # entry: the accumulator is the identity, the parts are the elements
        for s in self.groups[self.acc_name]:
            p.prove(t_eq(s.lo(0), s.hi(0)), f"{loop.label}: the accumulator is the identity on entry")
        if self.vec_name:
            for s in self.groups[self.vec_name]:
                i = p.fresh("i", z3.IntSort())
                p.prove(t_and(t_eq(term(s.n), N), t_implies(t_and(i >= 0, i < N), t_and(t_eq(s.lo(i), i), t_eq(s.hi(i), i + 1)))),
                        f"{loop.label}: the parts are the elements on entry")
            if self.mode not in ("vec-acc", "acc-vec"):
                raise Unsupported("candidate")
        elif self.mode not in ("left", "right") or loop.rng is None:
            raise Unsupported("candidate")
        f = p.fresh_fun("cut", z3.IntSort(), z3.IntSort())
        self.f = f
        if self.vec_name:
            loop.m = p.fresh("parts", z3.IntSort())
            p.assume(loop.m >= 0)
            p.assume(z3.Implies(N == 0, loop.m == 0))
            p.assume(loop.m + loop.k <= N)
            if self.nonempty:
                p.assume(z3.Implies(N > 0, loop.m > 0))
            if self.mode == "vec-acc":
                p.assume(f(0) == 0)
                self.a = (f(loop.m), N)
            else:
                p.assume(f(loop.m) == N)
                self.a = (z3.IntVal(0), f(0))
        else:
            self.a = (z3.IntVal(0), loop.k) if self.mode == "left" else (N - loop.k, N)

    def arbitrary(self, loop, name, v):
        g = self.groups.get(name)
        if g is not None:
            if name == self.acc_name:
                lo, hi = self.a
                new = tuple(Seg(1, lambda i: lo, lambda i: hi, s.comp, s.axis, s.dropped) for s in g)
            else:
                f = self.f
                new = tuple(Seg(mk_int(loop.m), lambda i: f(zi(i)), lambda i: f(zi(i) + 1), s.comp, s.axis) for s in g)
            return new if isinstance(v, tuple) else new[0]
        if isinstance(v, bool):
            raise Unsupported("loop variable")
        if isinstance(v, (int, SInt)):
            if self.vec_name is None:
                if loop.rng is not None:
                    return mk_int(P().fresh(name, z3.IntSort()))
                raise Unsupported("loop variable")
            P().prove(t_eq(term(v), self.N), f"{loop.label}: guess {name} is the number of parts")
            self.ints[name] = v
            return mk_int(loop.m)
        return Garbage()

    def assume(self, loop):
        for key in list(self.env):
            if key not in self.frame:
                raise Unsupported("environment")
        # the combiner's operands are bound as they are after an iteration
        loop.first = P().branch(loop.k == 0)
        if loop.first:
            if self.vec_name:
                P().assume(loop.m == self.N)
        else:
            after = self.memory.get(loop.label)
            if after is None:
                raise Unsupported("state after one iteration unknown")
            for key in after:
                self.env[key] = Garbage()

    def preserve(self, loop, loc):
        p, N = P(), self.N
        after = tuple(k for k in self.env if k not in self.frame)
        if loop.first:
            self.memory[loop.label] = after
        else:
            p.prove(set(after) == set(self.memory[loop.label]), f"{loop.label}: guess environment")
        acc = self.split(loc[self.acc_name])
        if acc is None or len(acc) != len(self.groups[self.acc_name]):
            p.prove(False, f"{loop.label}: the accumulator keeps its components")
            return
        for s, old in zip(acc, self.groups[self.acc_name]):
            p.prove(s.comp == old.comp and t_eq(term(s.n), 1), f"{loop.label}: accumulator component")
        vec = self.split(loc[self.vec_name]) if self.vec_name else None
        if self.vec_name and (vec is None or len(vec) != len(self.groups[self.vec_name])):
            p.prove(False, f"{loop.label}: the vector keeps its components")
            return
        for c, s in enumerate(acc):
            lo, hi = s.lo(0), s.hi(0)
            empty = t_eq(lo, hi)
            if not self.vec_name:
                k1 = loop.k + 1
                want = (0, k1) if self.mode == "left" else (N - k1, N)
                p.prove(t_or(t_and(t_eq(lo, want[0]), t_eq(hi, want[1])), t_and(empty, t_eq(want[0], want[1]))),
                        f"{loop.label}: the accumulator covers the first k + 1 elements")
                continue
            v = vec[c]
            p.prove(v.comp == c, f"{loop.label}: vector component")
            m = term(v.n)
            for name in self.ints:
                if not isinstance(loc[name], (int, SInt)):
                    raise Unsupported("loop variable")
                p.prove(t_eq(term(loc[name]), m), f"{loop.label}: guess {name} is the number of parts")
            i = p.fresh("i", z3.IntSort())
            p.prove(t_le(0, m), f"{loop.label}: number of parts")
            p.prove(t_implies(t_and(i >= 0, t_lt(i, sym.t_sub(m, 1))), t_eq(v.hi(i), v.lo(i + 1))),
                    f"{loop.label}: the parts are adjacent after the step")
            if self.mode == "vec-acc":
                edge = sym.ite(empty, N, lo)
                p.prove(t_or(empty, t_eq(hi, N)), f"{loop.label}: the accumulator ends at the last element")
                p.prove(t_implies(t_lt(0, m), t_and(t_eq(v.lo(0), 0), t_eq(v.hi(sym.t_sub(m, 1)), edge))),
                        f"{loop.label}: the parts reach from the first element to the accumulator")
                p.prove(t_implies(t_eq(m, 0), t_eq(edge, 0)), f"{loop.label}: no element is lost")
            else:
                edge = sym.ite(empty, 0, hi)
                p.prove(t_or(empty, t_eq(lo, 0)), f"{loop.label}: the accumulator begins at the first element")
                p.prove(t_implies(t_lt(0, m), t_and(t_eq(v.lo(0), edge), t_eq(v.hi(sym.t_sub(m, 1)), N))),
                        f"{loop.label}: the parts reach from the accumulator to the last element")
                p.prove(t_implies(t_eq(m, 0), t_eq(edge, N)), f"{loop.label}: no element is lost")
            if self.nonempty:
                p.prove(t_implies(N > 0, t_lt(0, m)), f"{loop.label}: guess some part is left")
            p.prove(t_lt(m, loop.m), f"{loop.label}: the number of parts decreases")


def covers(s, N):
    lo, hi = s.lo(0), s.hi(0)
    return t_or(t_and(t_eq(lo, 0), t_eq(hi, N)), t_and(t_eq(N, 0), t_eq(lo, hi)))


def run_reduce(make, arity, axis, mode, memory):
    def run():
        p = P()
        N = z3.Int("N")
        p.assume(N >= 0)
        spec = ReduceSpec(mode, memory)
        spec.N = N
        x, y, other, token = K_X, K_Y, K_OTHER, TOKEN
        env = {other: token}
        spec.env, spec.frame = env, {other}

        def tup(xs):
            xs = tuple(xs)
            return xs if arity > 1 else xs[0]

        def untup(v):
            if arity == 1:
                return (v,)
            if not (isinstance(v, tuple) and len(v) == arity):
                p.prove(False, "the combiner is called with a record of its components", f"{v!r}")
            return v

        def init(e):
            return tup(Seg(1, lambda i: N, lambda i: N, c, axis, True) for c in range(arity))

        def vecs(e):
            return tup(Seg(mk_int(N), lambda i: i, lambda i: i + 1 if is_sym(i) else i + 1, c, axis) for c in range(arity))

        def xy(e):
            p.prove(x in e and y in e and e.get(other) is token, "the combiner sees its operands")
            return tup(combine(a, b) for a, b in zip(untup(e[x]), untup(e[y])))

        try:
            result = make(spec, init, x, y, xy, vecs, axis)(env)
        except (Unsupported, sym.Infeasible, z3.Z3Exception):
            raise
        except (UnboundLocalError, NameError) as e:
            raise Unsupported(str(e))
        except Exception as e:
            p.prove(False, "no exception", f"{type(e).__name__}: {e}")
            return
        rs = untup(result)
        for c, r in enumerate(rs):
            p.prove(isinstance(r, Seg) and r.comp == c and r.dropped and covers(r, N),
                    "the result combines every element once, in order")
        p.prove(set(env) == {other} and env[other] is token, "the environment is restored")

    return run


REDUCE_FUNCS = ("ein/backend/array_backend.py:AbstractArrayBackend.reduce", "ein/backend/array_backend.py:AbstractArrayBackend.reduce.reduce_impl")

for _b in ("numpy", "torch", "jax"):
    @CASES.case(f"reduce-invariant-{_b}", "C05", REDUCE_FUNCS, internal=True)
    def _(ctx, b=_b):
        # JAX's own method only forwards to the shared one
        method = backend_method(b if b != "jax" else "numpy", "reduce")
        if b == "jax":
            own = backend_method("jax", "reduce")
            if own is method or "super" in own.__code__.co_names or "__class__" in own.__code__.co_freevars:
                ctx.expect(True, "JAX forwards to the shared loop")
            else:
                ctx.undecided.append("JAX has a loop of its own")
            return
        for arity in (1, 2, 3):
            for axis in (0, 1, 2):
                def attempt(mode):
                    def with_memory(memory):
                        def make(spec, init, x, y, xy, vecs, axis):
                            g = shims()
                            f, _ = loopcut.cut(method, lambda k, loc, it, names: Loop(spec, k, loc, it, names), g)
                            return f(StubSelf(), init, x, y, xy, vecs, axis)

                        return run_reduce(make, arity, axis, mode, memory)

                    return with_memory

                discharge(ctx, f"reduce of {b}, {arity} components, axis {axis}",
                          [attempt(m) for m in ("vec-acc+", "vec-acc", "acc-vec+", "acc-vec", "left", "right")],
                          lambda: reduce_public(b, thorough=True))


@CASES.case("reduce-invariant-naive", "C05 C10", ("ein/backend/naive.py:_interpret",), internal=True)
def _(ctx):
    from ein.phi import phi
    from ein.phi.type_system import scalar_type, Vector

    from ein.symbols import Variable

    f0 = need("ein.backend.naive", "_interpret")
    vx, vy = Variable(), Variable()
    for arity in (1, 2, 3):
        def attempt(mode):
            def with_memory(memory):
                def make(spec, init, x, y, xy, vecs, axis):
                    g = shims() | dict(Value=BoxValue, numpy=ScalarShim())
                    f, _ = loopcut.cut(f0, lambda k, loc, it, names: Loop(spec, k, loc, it, names), g)
                    ini = phi.Const(phi.Value(numpy.array(0)))
                    for _k in range(arity - 1):
                        ini = phi.Cons(ini, phi.Const(phi.Value(numpy.array(0))))
                    bod = phi.Store(vx, ini.type)
                    vs = tuple(phi.Store(Variable(), Vector(scalar_type(int))) for _ in range(arity))
                    t = phi.Reduce(ini, vx, vy, bod, vs)

                    def flat(v):
                        v = getattr(v, "payload", v)
                        if isinstance(v, tuple):
                            return tuple(w for u in v for w in flat(u))
                        return (v,)

                    def tupl(v):
                        v = flat(v)
                        return v if arity > 1 else v[0]

                    def callee(e, env):
                        view = {k: v for k, v in env.items()}
                        if vx in env:
                            view[x] = tupl(env[vx])
                        if vy in env:
                            view[y] = tupl(env[vy])
                        if e is ini:
                            return Wrapped(init(view))
                        if e is bod:
                            return Wrapped(xy(view))
                        for c, v in enumerate(vs):
                            if e is v:
                                r = vecs(view)
                                return BoxValue(r[c] if arity > 1 else r)
                        raise Unsupported("recursive call on another term")

                    class Wrapped(tuple):
                        """A flat record that the loop variable may hold."""

                        def __new__(cls, v):
                            return tuple.__new__(cls, v if isinstance(v, tuple) else (v,))

                    f.__globals__[f0.__name__] = callee

                    def call(env):
                        return tupl(f(t, env))

                    return call

                return run_reduce(make, arity, 0, mode, memory)

            return with_memory

        discharge(ctx, f"reduce of the reference interpreter, {arity} components", [attempt("left")],
                  lambda: reduce_public("naive", thorough=True))


# ------------------------------------------------------------------ the same through the public API


def source_ints():
    """Integer literals of the implementation: lengths next to them are sampled as well."""
    out = set()
    for f in glob.glob(os.path.join(REPO, "ein", "**", "*.py"), recursive=True):
        try:
            tree = ast.parse(open(f).read())
        except (SyntaxError, OSError):
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and type(n.value) is int and 4 < n.value <= 20000:
                out.add(n.value)
    return sorted(out)


def lengths(thorough):
    base = list(range(0, 41)) + [48, 63, 64, 65, 85, 100, 127, 128, 129, 170, 171, 255, 256, 257]
    if thorough:
        base += list(range(41, 130)) + [341, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097]
    for k in source_ints():
        base += [k - 1, k, k + 1, 2 * k, 2 * k + 1]
    return sorted(set(n for n in base if n >= 0))


def intervals(ns, n, batch=None):
    def comb(a, b):
        ea, eb = a[0] == a[1], b[0] == b[1]
        lo = ns.where(ea, b[0], a[0])
        hi = ns.where(eb, a[1], b[1])
        ok = a[2] * b[2] * ns.where(ea | eb | (a[1] == b[0]), 1, 0)
        return (lo, hi, ok)

    return comb


def evaluate(fn, backend, args):
    from ..core import backend_array, flatten, to_np
    from ein.backend import BACKENDS
    from ein.frontend.functions import with_varargs
    from ein.phi.type_system import type_from_ndarray

    ns = ref.EinNS()
    varargs, expr = with_varargs([type_from_ndarray(a) for a in args], lambda *xs: fn(ns, *xs))
    out = BACKENDS[backend](expr, {v: backend_array(a, backend) if backend != "naive" else a for v, a in zip(varargs, args)})
    return to_np(out)


def reduce_interval(field, batched):
    def fn(ns, v):
        comb = intervals(ns, None)
        if not batched:
            return ns.array(lambda i: (v[i], v[i] + 1, 1)).reduce((0, 0, 1), comb)[field]
        # combining function, vector and identity under an enclosing index (the offset is carried along)
        return ns.array(lambda b: ns.array(lambda i: (v[i] + b * 7, v[i] + 1 + b * 7, 1)).reduce((0, 0, 1), comb)[field], size=3)

    return fn


def reduce_public(backend, thorough=False):
    lens = lengths(thorough)
    if backend == "jax":
        lens = [n for n in lens if n < 8 or n in ((11, 13, 31, 64) if not thorough else (11, 13, 15, 16, 17, 31, 32, 33, 63, 64, 65))]
    if backend == "naive":
        lens = [n for n in lens if n <= 70]
    for batched in (False, True):
        for field in (0, 1, 2):
            f = reduce_interval(field, batched)
            for n in lens if (field == 2 or not batched) else lens[:12] if backend != "jax" else lens[:2]:
                v = numpy.arange(n)
                try:
                    out = evaluate(f, backend, [v])
                except Exception as e:
                    return f"reduce over {n} intervals raised {type(e).__name__}: {e} on {backend}"
                off = numpy.arange(3) * 7 if batched else numpy.array(0)
                want = {0: off if n else off * 0, 1: n + off if n else off * 0, 2: off * 0 + 1}[field]
                if out.shape != want.shape or not numpy.array_equal(out, want):
                    return f"reduce over the intervals of range({n}) gives field {field} = {out} instead of {want} on {backend}"
    rng = numpy.random.default_rng(3)
    for n in lens[:: 1 if thorough else 3]:
        if n > 300:
            continue
        # first nonzero element: not commutative
        v = rng.integers(0, 2, size=n) * rng.integers(1, 100, size=n)
        try:
            out = evaluate(lambda ns, v: v.reduce(0, lambda a, b: ns.where(a == 0, b, a)), backend, [v])
            last = evaluate(lambda ns, v: v.reduce(0, lambda a, b: ns.where(b == 0, a, b)), backend, [v])
        except Exception as e:
            return f"first/last nonzero of {n} elements raised {type(e).__name__}: {e} on {backend}"
        nz = v[v != 0]
        if int(out) != (nz[0] if len(nz) else 0) or int(last) != (nz[-1] if len(nz) else 0):
            return f"first/last nonzero of {v.tolist()} gives {int(out)}/{int(last)} on {backend}"
    for n in list(range(0, 12)) + [16, 17, 31, 33] if backend != "jax" or thorough else (0, 1, 2, 3, 5):
        # products of 2x2 matrices, batched over an enclosing index (integers: exact)
        m = rng.integers(-2, 3, size=(3, n, 2, 2)) + numpy.eye(2, dtype=int)[None, None] * 0
        f = lambda ns, m: ns.array(  # noqa: E731
            lambda b: ns.array(lambda i: m[b, i]).reduce(
                ns.array(lambda i, j: ns.where(i == j, 1, 0), size=(2, 2)),
                lambda a, c: ns.array(lambda i, j: a[i, 0] * c[0, j] + a[i, 1] * c[1, j], size=(2, 2))))
        if n > 14:
            m = numpy.where(rng.integers(0, 2, size=(3, n, 1, 1)) > 0, numpy.array([[0, 1], [1, 0]]), numpy.array([[1, 1], [0, 1]]))
            m = m * numpy.where(numpy.arange(n)[None, :, None, None] % 5 == 0, 1, 1)
        try:
            out = evaluate(f, backend, [m])
        except Exception as e:
            return f"products of {n} matrices raised {type(e).__name__}: {e} on {backend}"
        want = numpy.stack([numpy.linalg.multi_dot([numpy.eye(2, dtype=object)] + [x.astype(object) for x in row]) if len(row) > 1 else
                            (row[0] if len(row) else numpy.eye(2)) for row in m]).astype(int) if False else matprods(m)
        if out.shape != want.shape or not numpy.array_equal(out, want):
            return f"products of {n} matrices differ on {backend}: {out.tolist()} instead of {want.tolist()} for {m.tolist()}"
    return None


def matprods(m):
    out = []
    for row in m:
        r = numpy.eye(2, dtype=int)
        for x in row:
            r = r @ x
        out.append(r)
    return numpy.stack(out)


def fold_public(backend, thorough=False):
    """A chain of steps that is sensitive to order, counter values and number of iterations."""
    P_ = 1000003
    counts = [-3, -1] + lengths(thorough)
    counts = [c for c in counts if c <= (300 if backend in ("numpy", "torch", "jax") else 60)]

    def chain(n, x):
        for i in range(max(n, 0)):
            x = (x * 31 + i * 7 + 1) % P_
        return x

    fs = {
        "scalar": (lambda ns, n, x: ns.fold(x, lambda i, a: (a * 31 + i * 7 + 1) % P_, count=n), lambda n, x: numpy.array(chain(n, x))),
        "record": (lambda ns, n, x: ns.fold((x, 0, x), lambda i, a: (a[1] + a[2], a[0] - i, (a[2] * 31 + i * 7 + 1) % P_), count=n)[2],
                   lambda n, x: numpy.array(chain(n, x))),
        "batched": (lambda ns, n, x: ns.array(lambda b: ns.fold(x + b, lambda i, a: (a * 31 + i * 7 + 1) % P_, count=n), size=3),
                    lambda n, x: numpy.array([chain(n, x + b) for b in range(3)])),
        "nested": (lambda ns, n, x: ns.fold(x, lambda i, a: ns.fold(a + i, lambda j, c: (c * 31 + j * 7 + 1 + i) % P_, count=i), count=n), None),
        "vector": (lambda ns, n, x: ns.fold(ns.array(lambda k: x + k, size=4), lambda i, a: ns.array(lambda k: (a[3 - k] * 31 + i * 7 + k) % P_, size=4), count=n), None),
    }

    def nested(n, x):
        for i in range(max(n, 0)):
            x = x + i
            for j in range(i):
                x = (x * 31 + j * 7 + 1 + i) % P_
        return numpy.array(x)

    def vector(n, x):
        a = [x + k for k in range(4)]
        for i in range(max(n, 0)):
            a = [(a[3 - k] * 31 + i * 7 + k) % P_ for k in range(4)]
        return numpy.array(a)

    for name, (f, want) in fs.items():
        want = want or {"nested": nested, "vector": vector}[name]
        cs = counts if name in ("scalar", "batched") else [c for c in counts if c < 40]
        if name == "nested":
            cs = [c for c in cs if c < 14]
            if backend == "jax":
                cs = cs[:8]
        if backend == "jax":
            cs = [c for c in cs if c < 12 or c in (31, 32, 33, 64, 100, 256)]
        for n in cs:
            try:
                out = evaluate(f, backend, [numpy.array(n), numpy.array(5)])
            except Exception as e:
                return f"{name} fold with count {n} raised {type(e).__name__}: {e} on {backend}"
            w = want(n, 5)
            if out.shape != w.shape or not numpy.array_equal(out, w):
                return f"{name} fold with count {n} gives {out} instead of {w} on {backend}"
    return None


for _b in ("numpy", "torch", "jax", "naive"):
    @CASES.case(f"reduce-lengths-{_b}", "C05" + (" C10" if _b != "numpy" else ""), REDUCE_FUNCS, bounded="lengths up to 257 and those next to literals of the source")
    def _(ctx, b=_b):
        t = reduce_public(b, ctx.tier == "thorough")
        ctx.expect(t is None, f"reduce on {b}", t)

    @CASES.case(f"fold-counts-{_b}", "C03" + (" C10" if _b != "numpy" else ""), FOLD_FUNCS, bounded="counts up to 257")
    def _(ctx, b=_b):
        t = fold_public(b, ctx.tier == "thorough")
        ctx.expect(t is None, f"fold on {b}", t)
