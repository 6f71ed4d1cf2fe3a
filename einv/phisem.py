"""Denotation of the calculus (ein.phi terms) over specified values: the meaning that every pass has to
preserve.  Independent of the interpreters and of the metadata (free_symbols, subterms, map, type) of
the terms under test: only the fields of the term classes are read."""
from __future__ import annotations

import dataclasses
import functools

import z3

from . import ref, sym
from . import symarray as sa
from .ref import RS, RVec
from .sym import Unsupported, is_sym, t_and, t_eq, t_le, t_lt, t_not, t_or

SCALAR = {
    "Negate": lambda x: -x,
    "Reciprocal": lambda x: RS("f", ref.s_recip(x.t), x.ok),
    "Exp": lambda x: x.exp(),
    "Sin": lambda x: x.sin(),
    "Cos": lambda x: x.cos(),
    "LogicalNot": lambda x: ~x,
    "CastToFloat": lambda x: x.float() if x.kind == "i" else x,
    "Add": lambda x, y: x + y,
    "Subtract": lambda x, y: x - y,
    "Multiply": lambda x, y: x * y,
    "Modulo": lambda x, y: x % y,
    "Power": lambda x, y: x ** y,
    "Min": lambda x, y: x.min(y),
    "Max": lambda x, y: x.max(y),
    "Less": lambda x, y: x < y,
    "LessEqual": lambda x, y: x <= y,
    "Equal": lambda x, y: x == y,
    "NotEqual": lambda x, y: x != y,
    "LogicalAnd": lambda x, y: x & y,
    "LogicalOr": lambda x, y: x | y,
    "Where": lambda c, x, y: ref.sel(c, x, y),
}


FIELDS = {'Let': ['var', 'bind', 'body'],
          'AssertEq': ['target', 'operands'],
          'Dim': ['target', 'axis'],
          'Get': ['target', 'item'],
          'Cons': ['first', 'second'],
          'Concat': ['first', 'second'],
          'First': ['target'],
          'Second': ['target'],
          'Vec': ['index', 'size', 'body'],
          'Fold': ['counter', 'size', 'acc', 'init', 'body'],
          'Reduce': ['init', 'x', 'y', 'xy', 'vecs'],
          'Extrinsic': ['_type', 'fun', 'operands'],
          'Store': ['symbol', 'inner_type'],
          'Const': ['value']}


class View:
    """The fields of a term by position (not by the name they have in the source)."""

    __slots__ = ("__dict__",)

    def __init__(self, e):
        vals = [getattr(e, f.name) for f in dataclasses.fields(e)]
        names = FIELDS.get(type(e).__name__, ["operands"])
        if len(vals) != len(names):
            raise Unsupported(f"fields of phi.{type(e).__name__}")
        self.__dict__.update(zip(names, vals))


class Unbound(Exception):
    pass


class Env:
    def __init__(self, parent, binds):
        self.parent, self.binds, self.cache = parent, binds, {}
        self.names = frozenset(binds)

    def domain(self):
        out, e = set(), self
        while e is not None:
            out |= e.names
            e = e.parent
        return out

    def get(self, s):
        e = self
        while e is not None:
            if s in e.binds:
                v = e.binds[s]
                if callable(v):
                    v = e.binds[s] = v()
                return v
            e = e.parent
        raise Unbound(str(s))


_FREE: dict = {}


def parts(e):
    """(subterms outside any binder, [(bound symbols, subterms under them)])"""
    n = type(e).__name__
    if n not in FIELDS and n not in SCALAR:
        raise Unsupported(f"phi.{n}")
    e = View(e)
    if n in ("Const",):
        return (), []
    if n == "Store":
        return (), []
    if n == "Let":
        return (e.bind,), [((e.var,), (e.body,))]
    if n == "AssertEq":
        return (e.target, *e.operands), []
    if n == "Dim":
        return (e.target,), []
    if n == "Get":
        return (e.target, e.item), []
    if n in ("Cons", "Concat"):
        return (e.first, e.second), []
    if n in ("First", "Second"):
        return (e.target,), []
    if n == "Vec":
        return (e.size,), [((e.index,), (e.body,))]
    if n == "Fold":
        return (e.size, e.init), [((e.counter, e.acc), (e.body,))]
    if n == "Reduce":
        return (e.init, *e.vecs), [((e.x, e.y), (e.xy,))]
    if n == "Extrinsic":
        return tuple(e.operands), []
    if n in SCALAR:
        return tuple(e.operands), []
    raise Unsupported(f"phi.{n}")


def free(e):
    k = id(e)
    if k in _FREE and _FREE[k][0] is e:
        return _FREE[k][1]
    n = type(e).__name__
    if n == "Store":
        out = frozenset([View(e).symbol])
    else:
        plain, under = parts(e)
        out = frozenset().union(*(free(s) for s in plain))
        for names, subs in under:
            out |= frozenset().union(*(free(s) for s in subs)) - frozenset(names)
    if len(_FREE) > 200000:
        _FREE.clear()
    _FREE[k] = (e, out)
    return out


class Sem:
    def __init__(self, assume=True, on_env=None):
        self.assume, self.on_env = assume, on_env

    def extend(self, env, binds):
        r = Env(env, binds)
        if self.on_env is not None:
            self.on_env(r)
        return r

    def __call__(self, e, env):
        f = free(e)
        while env.parent is not None and not (f & env.names):
            env = env.parent
        got = env.cache.get(id(e))
        if got is not None and got[0] is e:
            return got[1]
        v = self.go(e, env)
        env.cache[id(e)] = (e, v)
        return v

    def go(self, e, env):
        n = type(e).__name__
        e = View(e)
        if n == "Const":
            return const(e.value)
        if n == "Store":
            return env.get(e.symbol)
        if n == "Let":
            return self(e.body, self.extend(env, {e.var: lambda: self(e.bind, env)}))
        if n == "AssertEq":
            v = self(e.target, env)
            if self.assume:
                for o in e.operands[1:]:
                    ref.assume(t_eq(self(e.operands[0], env).t, self(o, env).t), "assertion")
            return v
        if n == "Dim":
            v = self(e.target, env)
            for _ in range(e.axis):
                while isinstance(v, tuple):
                    v = v[0]
                if not isinstance(v, RVec):
                    raise Unsupported("no such axis")
                v = v.elem(0)
            while isinstance(v, tuple):
                v = v[0]
            if not isinstance(v, RVec):
                raise Unsupported("no such axis")
            return RS("i", v.n)
        if n == "Get":
            return self(e.target, env)[self(e.item, env)]
        if n == "Cons":
            return (self(e.first, env), self(e.second, env))
        if n in ("First", "Second"):
            v = self(e.target, env)
            if not isinstance(v, tuple):
                raise Unsupported("projection of a non-pair")
            return v[0 if n == "First" else 1]
        if n == "Concat":
            return self(e.first, env).concat(self(e.second, env))
        if n == "Vec":
            s = self(e.size, env)
            if self.assume:
                ref.assume(s.ok, "undefined size")
                ref.assume(t_le(0, s.t), "negative size")
            return RVec(s.t, lambda i: self(e.body, self.extend(env, {e.index: RS("i", i)})))
        if n == "Fold":
            c = self(e.size, env)
            if self.assume:
                ref.assume(c.ok, "undefined count")
            acc = self(e.init, env)
            k = 0
            while ref.decide(t_lt(k, c.t)):
                acc = self(e.body, self.extend(env, {e.counter: RS("i", k), e.acc: acc}))
                k += 1
                if k > 4 * ref.MAX_LOOP:
                    raise Unsupported("unbounded fold")
            return acc
        if n == "Reduce":
            acc = self(e.init, env)
            vecs = [self(v, env) for v in e.vecs]
            k = 0
            while ref.decide(t_lt(k, vecs[0].n)):
                el = functools.reduce(lambda a, b: (a, b), [v.elem(k) for v in vecs])
                acc = self(e.xy, self.extend(env, {e.x: acc, e.y: el}))
                k += 1
                if k > 4 * ref.MAX_LOOP:
                    raise Unsupported("unbounded reduction")
            return acc
        if n == "Extrinsic":
            return ref.ext(e.fun, e._type)(*(self(o, env) for o in e.operands))
        return SCALAR[n](*(self(o, env) for o in e.operands))


def const(value):
    v = value.value
    if isinstance(v, tuple):
        return tuple(const(x) for x in v)
    return ref.rwrap(v if not hasattr(v, "shape") or v.shape else v[()])


def prove_same(a, b, tag):
    """Obligations: the two specified values are equal (where the first is defined)."""
    p = sym.P()
    if isinstance(a, tuple) or isinstance(b, tuple):
        if not p.prove(isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b), f"{tag}: structure"):
            return
        for k, (x, y) in enumerate(zip(a, b)):
            prove_same(x, y, f"{tag}.{k}")
        return
    pa, pb = ref.split_records(a), ref.split_records(b)
    if not p.prove(len(pa) == len(pb), f"{tag}: fields"):
        return
    for k, (x, y) in enumerate(zip(pa, pb)):
        t = tag if len(pa) == 1 else f"{tag}.{k}"
        sx, ex = ref.shape_of(x)
        sy, ey = ref.shape_of(y)
        if not p.prove(len(sx) == len(sy) and ex.kind == ey.kind, f"{t}: type"):
            continue
        for m, n in zip(sx, sy):
            p.prove(t_eq(m, n), f"{t}: shape")
        idx, bounds = sa.fresh_index(sx, "at")
        u, v = ref.at_index(x, idx), ref.at_index(y, idx)
        if u.kind == "b":
            from .core import iff

            eq = iff(u.t, v.t)
        else:
            eq = t_eq(u.t, v.t)
        p.prove(t_or(*(t_not(c) for c in bounds), t_not(u.ok), eq), f"{t}: elements")
