"""Specification functions: the user-level meaning of the language, written from the property
statements (not from the compiler).

`RefNS` offers the same user-facing names as ein.  A program is a Python callable
`prog(ns, *args)`; with ns = EinNS (the real library) it builds the code under verification, with
ns = RefNS it evaluates the specification, on z3 terms or on plain numbers alike.

Every scalar carries `ok`, the condition under which it is specified at all (reads of empty vectors
are not specified).
"""
from __future__ import annotations

import dataclasses
import inspect
import math

import numpy
import z3

from . import sym
from .sym import (
    Path,
    fold_const,
    is_sym,
    ite,
    t_add,
    t_and,
    t_eq,
    t_le,
    t_lt,
    t_max,
    t_min,
    t_mod,
    t_mul,
    t_ne,
    t_not,
    t_or,
    t_real,
    t_sub,
    t_uf,
)


class Undefined(Exception):
    """The program has no specified meaning for this input."""


MAX_LOOP = 12


def decide(cond):
    cond = fold_const(cond) if is_sym(cond) else cond
    if not is_sym(cond):
        return bool(cond)
    return sym.P().branch(cond)


def assume(cond, why=""):
    cond = fold_const(cond) if is_sym(cond) else cond
    if not is_sym(cond):
        if not cond:
            if Path.current is not None:
                sym.P().assume(False)
            raise Undefined(why)
        return
    sym.P().assume(cond)


# ------------------------------------------------------------------ scalars

NUMBER = ("i", "f")


def _conc(f):
    def g(*xs):
        with numpy.errstate(all="ignore"):
            return float(f(*(numpy.float64(x) for x in xs)))

    return g


def s_recip(a):
    return t_uf("recip", t_real(a)) if is_sym(a) else _conc(lambda x: numpy.float64(1.0) / x)(a)


def s_un(name):
    npf = getattr(numpy, name)

    def f(a):
        return t_uf(name, t_real(a)) if is_sym(a) else _conc(npf)(a)

    return f


def s_pow(a, b):
    if is_sym(a) or is_sym(b):
        return t_uf("pow", t_real(a), t_real(b))
    return _conc(numpy.power)(a, b)


def s_min(a, b):
    if not is_sym(a) and not is_sym(b) and (a != a or b != b):
        return float("nan")
    return t_min(a, b)


def s_max(a, b):
    if not is_sym(a) and not is_sym(b) and (a != a or b != b):
        return float("nan")
    return t_max(a, b)


def s_mul(a, b):
    if not is_sym(a) and not is_sym(b):
        return a * b
    return t_mul(a, b)


class RS:
    """Specified scalar: kind 'b'/'i'/'f', value term, definedness."""

    __slots__ = ("kind", "t", "ok", "probe")

    def __init__(self, kind, t, ok=True, probe=None):
        self.kind, self.t, self.ok, self.probe = kind, t, ok, probe

    def __repr__(self):
        return f"RS({self.kind}, {self.t}, ok={self.ok})"

    def __bool__(self):
        raise TypeError("no truth value")

    def __iter__(self):
        raise TypeError("not iterable")

    __hash__ = None

    @property
    def shape(self):
        return ()

    def float(self):
        if self.kind != "i":
            raise TypeError("float() of a non-integer")
        return RS("f", t_real(self.t), self.ok)

    # operators
    def __add__(self, o):
        return num2(self, o, t_add)

    def __radd__(self, o):
        return num2(o, self, t_add)

    def __sub__(self, o):
        return num2(self, o, t_sub)

    def __rsub__(self, o):
        return num2(o, self, t_sub)

    def __mul__(self, o):
        return num2(self, o, s_mul)

    def __rmul__(self, o):
        return num2(o, self, s_mul)

    def __neg__(self):
        need(self, NUMBER)
        return RS(self.kind, -self.t, self.ok)

    def __truediv__(self, o):
        o = rwrap(o)
        need(self, "f")
        need(o, "f")
        return RS("f", s_mul(self.t, s_recip(o.t)) if is_sym(self.t) or is_sym(o.t) else _conc(lambda a, b: a / b)(self.t, o.t), t_and(self.ok, o.ok))

    def __rtruediv__(self, o):
        return rwrap(o).__truediv__(self)

    def __mod__(self, o):
        o = rwrap(o)
        need(self, "i")
        need(o, "i")
        return RS("i", t_mod(self.t, o.t), t_and(self.ok, o.ok, t_ne(o.t, 0)))

    def __pow__(self, p):
        if isinstance(p, int) and not isinstance(p, bool):
            need(self, NUMBER)
            if p < 0:
                need(self, "f")
                inv = rwrap(1.0) / self
                return inv ** (-p)
            r = RS(self.kind, 1 if self.kind == "i" else 1.0, True)
            for _ in range(p):
                r = r * self
            return r
        p = rwrap(p)
        need(self, "f")
        need(p, "f")
        return RS("f", s_pow(self.t, p.t), t_and(self.ok, p.ok))

    def __invert__(self):
        need(self, "b")
        return RS("b", t_not(self.t), self.ok)

    def __and__(self, o):
        return bool2(self, o, lambda a, b: t_and(a, b))

    def __or__(self, o):
        return bool2(self, o, lambda a, b: t_or(a, b))

    def __lt__(self, o):
        return cmp2(self, o, t_lt)

    def __le__(self, o):
        return cmp2(self, o, t_le)

    def __gt__(self, o):
        return cmp2(o, self, t_lt)

    def __ge__(self, o):
        return cmp2(o, self, t_le)

    def __eq__(self, o):
        return cmp2(self, o, t_eq)

    def __ne__(self, o):
        return cmp2(self, o, t_ne)

    def where(self, a, b):
        a, b = rwrap(a), rwrap(b)
        need(self, "b")
        if not (isinstance(a, RS) and isinstance(b, RS)) or a.kind != b.kind:
            raise TypeError("where on different types")
        return sel(self, a, b)

    def min(self, o):
        return num2(self, o, s_min)

    def max(self, o):
        return num2(self, o, s_max)

    def abs(self):
        need(self, NUMBER)
        if not is_sym(self.t):
            return RS(self.kind, abs(self.t), self.ok)
        return RS(self.kind, ite(t_lt(self.t, 0), -self.t, self.t), self.ok)

    __abs__ = abs

    def exp(self):
        need(self, "f")
        return RS("f", s_un("exp")(self.t), self.ok)

    def sin(self):
        need(self, "f")
        return RS("f", s_un("sin")(self.t), self.ok)

    def cos(self):
        need(self, "f")
        return RS("f", s_un("cos")(self.t), self.ok)

    def tanh(self):
        need(self, "f")
        if is_sym(self.t):
            return rwrap(1.0) - 2.0 / ((2.0 * self).exp() + 1.0)
        return RS("f", math.tanh(self.t), self.ok)

    def assume(self, other):
        return RS(self.kind, self.t, self.ok)

    @property
    def shape_(self):
        return ()


def need(x, kinds):
    if not isinstance(x, RS) or x.kind not in kinds:
        raise TypeError(f"operand of the wrong type: {x!r}")


def rwrap(x):
    if isinstance(x, (RS, RVec)):
        return x
    if isinstance(x, (bool, numpy.bool_)):
        return RS("b", bool(x))
    if isinstance(x, (int, numpy.integer)):
        return RS("i", int(x))
    if isinstance(x, (float, numpy.floating)):
        return RS("f", float(x))
    if isinstance(x, numpy.ndarray):
        return from_numpy(x)
    if type(x).__module__.split(".")[0] in ("torch", "jax", "jaxlib"):
        return from_numpy(numpy.asarray(x))
    raise TypeError(f"invalid operand {type(x).__name__}")


def two(a, b):
    a, b = rwrap(a), rwrap(b)
    if not isinstance(a, RS) or not isinstance(b, RS):
        raise TypeError("scalar operator on a vector")
    return a, b


def num2(a, b, f):
    a, b = two(a, b)
    if a.kind != b.kind or a.kind not in NUMBER:
        raise TypeError("mixed operand types")
    return RS(a.kind, f(a.t, b.t), t_and(a.ok, b.ok))


def cmp2(a, b, f):
    a, b = two(a, b)
    if a.kind != b.kind or a.kind not in NUMBER:
        raise TypeError("mixed operand types")
    return RS("b", f(a.t, b.t), t_and(a.ok, b.ok))


def bool2(a, b, f):
    a, b = two(a, b)
    if a.kind != "b" or b.kind != "b":
        raise TypeError("boolean connective on numbers")
    return RS("b", f(a.t, b.t), t_and(a.ok, b.ok))


def ok_if(c, a, b):
    if a is True and b is True:
        return True
    if not is_sym(c):
        return a if c else b
    return t_and(t_or(t_not(c), a), t_or(c, b))


def sel(c, a, b):
    if not is_sym(c.t):
        r = a if c.t else b
        return RS(r.kind, r.t, t_and(c.ok, r.ok))
    return RS(a.kind, ite(c.t, a.t, b.t), t_and(c.ok, ok_if(c.t, a.ok, b.ok)))


# ------------------------------------------------------------------ vectors

PROBES: list = []


_SEQ = 0


def next_seq():
    global _SEQ
    _SEQ += 1
    return _SEQ


class Probe:
    """Collects the sizes of what an index directly indexes.  Vectors carry in
    [dep] the sequence numbers of the binders (accumulators, reduced operands)
    their size depends on; a candidate may only depend on binders older than
    the index itself."""

    def __init__(self):
        self.found = []
        self.seq = next_seq()


class RVec:
    """Specified vector: size term and element function (total on integers)."""

    def __init__(self, size, fn, dep=frozenset()):
        self.n = fold_const(size) if is_sym(size) else size
        self.fn = fn
        self.dep = dep

    __hash__ = None

    def __bool__(self):
        raise TypeError("no truth value")

    def __iter__(self):
        raise TypeError("not iterable")

    def __getitem__(self, item):
        items = item if isinstance(item, tuple) else (item,)
        if not items:
            return self
        cur, *rest = items

        def more(x):
            return x[tuple(rest)] if rest else x

        if isinstance(cur, slice):
            if cur != slice(None):
                raise ValueError("only full slices")
            return array(lambda i: more(self[i]))
        i = rwrap(cur)
        if not isinstance(i, RS) or i.kind != "i":
            raise TypeError("index is not an integer")
        if i.probe is not None:
            i.probe.found.append((self.n, self.dep))
        pos = t_min(t_max(i.t, 0), t_sub(self.n, 1))
        pos = fold_const(pos) if is_sym(pos) else pos
        ok = t_and(i.ok, t_le(1, self.n))
        ok = fold_const(ok) if is_sym(ok) else ok
        return more(mark(self.elem(pos), ok, self.dep))

    def elem(self, pos):
        if not is_sym(pos) and not is_sym(self.n) and not 0 <= pos < max(self.n, 1):
            pos = 0
        return self.fn(pos)

    def size(self, axis=0):
        v = self
        for _ in range(axis):
            v = v.elem(0)
            if not isinstance(v, RVec):
                raise TypeError("no such axis")
        return RS("i", v.n, True)

    def concat(self, other):
        if not isinstance(other, RVec):
            raise TypeError("concat with a non-vector")
        if kinds_of(self) != kinds_of(other):
            raise TypeError("concat of different types")
        n, m = self.n, other.n

        def fn(i):
            first = t_lt(i, n)
            first = fold_const(first) if is_sym(first) else first
            a = self.elem(i if is_sym(i) else i)
            j = t_sub(i, n)
            j = fold_const(j) if is_sym(j) else j
            if not is_sym(first):
                return self.elem(i) if first else other.elem(j)
            b = other.elem(j)
            return zip_with(lambda x, y: sel(RS("b", first), x, y), a, b)

        if isinstance(self.elem(0), (RVec,)):
            same_shape(self.elem(0), other.elem(0))
        elif not isinstance(self.elem(0), RS):
            for x, y in zip(leaves(self.elem(0)), leaves(other.elem(0))):
                same_shape(x, y)
        return RVec(t_add(n, m), fn, self.dep | other.dep)

    def or_empty(self, item, empty):
        return where(self.size(0) > 0, self[item], empty)

    def reduce(self, init, f):
        e0 = self.elem(0)
        if structure(e0) != structure(init) or structure_kinds(e0) != structure_kinds(init):
            raise TypeError("reduction changes structure")
        tag = frozenset({next_seq()})
        chk = f(mark(e0, True, tag), mark(e0, True, tag))
        if structure(chk) != structure(e0) or structure_kinds(chk) != structure_kinds(e0):
            raise TypeError("reduction changes type")
        acc = normal(init)
        if PROBES:
            return unmark(normal(chk), tag)
        k = 0
        while decide(t_lt(k, self.n)):
            acc = normal(f(acc, self.elem(k)))
            k += 1
            if k > MAX_LOOP * 4:
                raise sym.Unsupported("unbounded reduction")
        return acc

    def assume(self, other):
        return self


def mark(v, ok, dep=frozenset()):
    if isinstance(v, RS):
        return RS(v.kind, v.t, t_and(v.ok, ok) if ok is not True else v.ok)
    if isinstance(v, RVec):
        if ok is True and dep <= v.dep:
            return v
        return RVec(v.n, lambda i: mark(v.fn(i), ok, dep), v.dep | dep)
    return map_struct(lambda x: mark(x, ok, dep), v)


# ------------------------------------------------------------------ records


def is_struct(x):
    return isinstance(x, (tuple, list, dict)) or (
        dataclasses.is_dataclass(x) and not isinstance(x, type) and not isinstance(x, (RS, RVec))
    )


def map_struct(f, x):
    if isinstance(x, (tuple, list)):
        return tuple(map_struct(f, e) for e in x)
    if isinstance(x, dict):
        return {k: map_struct(f, e) for k, e in x.items()}
    if is_struct(x):
        return type(x)(**{fl.name: map_struct(f, getattr(x, fl.name)) for fl in dataclasses.fields(x)})
    return f(rwrap(x))


def normal(x):
    """wrap leaves, lists become tuples"""
    if isinstance(x, (RS, RVec)):
        return x
    if is_struct(x):
        if isinstance(x, (tuple, list, dict)) and not x:
            raise ValueError("empty record")
        return map_struct(lambda e: e, x)
    return rwrap(x)


def leaves(x):
    if isinstance(x, (tuple, list)):
        return [l for e in x for l in leaves(e)]
    if isinstance(x, dict):
        return [l for e in x.values() for l in leaves(e)]
    if is_struct(x):
        return [l for fl in dataclasses.fields(x) for l in leaves(getattr(x, fl.name))]
    return [rwrap(x)]


def structure(x):
    if isinstance(x, (tuple, list)):
        return ("seq", tuple(structure(e) for e in x))
    if isinstance(x, dict):
        return ("dict", tuple((k, structure(e)) for k, e in x.items()))
    if is_struct(x):
        return (
            type(x),
            tuple((fl.name, structure(getattr(x, fl.name))) for fl in dataclasses.fields(x)),
        )
    x = rwrap(x)
    if isinstance(x, RVec):
        return ("vec", structure(x.elem(0)))
    return "scalar"


def structure_kinds(x):
    return tuple(kinds_of(l) for l in leaves(x))


def kinds_of(x):
    x = normal(x)
    if isinstance(x, RS):
        return x.kind
    if isinstance(x, RVec):
        return ("vec", kinds_of(x.elem(0)))
    return tuple(kinds_of(l) for l in leaves(x))


def zip_with(f, a, b):
    """combine leafwise; vectors elementwise"""
    a, b = normal(a), normal(b)
    if isinstance(a, RS):
        return f(a, b)
    if isinstance(a, RVec):
        return RVec(a.n, lambda i: zip_with(f, a.elem(i), b.elem(i)), a.dep | b.dep)
    if isinstance(a, tuple):
        return tuple(zip_with(f, x, y) for x, y in zip(a, b, strict=True))
    if isinstance(a, dict):
        return {k: zip_with(f, a[k], b[k]) for k in a}
    return type(a)(
        **{fl.name: zip_with(f, getattr(a, fl.name), getattr(b, fl.name)) for fl in dataclasses.fields(a)}
    )


def same_shape(a, b):
    if isinstance(a, RVec) and isinstance(b, RVec):
        assume(t_eq(a.n, b.n), "sizes differ")
        same_shape(a.elem(0), b.elem(0))
    elif isinstance(a, RVec) != isinstance(b, RVec):
        raise TypeError("shapes differ")


def from_numpy(a):
    a = numpy.asarray(a)
    kind = {"b": "b", "i": "i", "u": "i", "f": "f"}[a.dtype.kind]
    conv = {"b": bool, "i": int, "f": float}[kind]

    def build(shape, pre):
        if not shape:
            if not any(is_sym(p) for p in pre):
                ok = all(0 <= p < d for p, d in zip(pre, a.shape))
                return RS(kind, conv(a[pre]) if ok else conv(0), ok)
            res = None
            import itertools

            for pos in itertools.product(*(range(d) for d in a.shape)):
                c = t_and(*(t_eq(i, p) for i, p in zip(pre, pos)))
                v = conv(a[pos])
                res = v if res is None else ite(c, v, res)
            return RS(kind, res if res is not None else conv(0), res is not None)
        return RVec(shape[0], lambda i: build(shape[1:], pre + (i,)))

    return build(a.shape, ())


def from_symarray(s):
    rd = s.reader()
    dims = [sym.term(d) for d in s.shape]

    def build(k, pre):
        if k == len(dims):
            return RS(s.kind, rd(pre))
        return RVec(dims[k], lambda i: build(k + 1, pre + (i,)))

    return build(0, ())


# ------------------------------------------------------------------ the language


def _size_of(probe, what):
    cands = [(n, dep) for n, dep in probe.found if all(d < probe.seq for d in dep)]
    if not cands:
        raise ValueError(f"Cannot infer bounds for {what}")
    for c, _ in cands[1:]:
        assume(t_eq(cands[0][0], c), "disagreeing inferred sizes")
    return cands[0]


def check_size(s):
    s = rwrap(s)
    if not isinstance(s, RS) or s.kind != "i":
        raise TypeError("size is not an integer scalar")
    return s


_N_BIND = 0


def array(constructor, *, size=None):
    if size is not None and not isinstance(size, tuple):
        size = (size,)
    k = len(inspect.signature(constructor).parameters) if size is None else len(size)
    probes = [Probe() for _ in range(k)]
    PROBES.append(probes)
    try:
        body = normal(constructor(*(RS("i", 0, True, p) for p in probes)))
    finally:
        PROBES.pop()
    if size is not None:
        sizes = []
        for s in size:
            s = check_size(s)
            if not PROBES:
                assume(s.ok, "undefined size")
                assume(t_le(0, s.t), "negative size")
            sizes.append((s.t, frozenset()))
        if len(sizes) != k:
            raise ValueError("wrong number of sizes")
    else:
        sizes = [_size_of(p, "index") for p in probes]
    return _nest(sizes, constructor, ())


def _nest(sizes, constructor, pre):
    if not sizes:
        return normal(constructor(*pre))
    n, dep = sizes[0]
    return RVec(n, lambda i: _nest(sizes[1:], constructor, pre + (RS("i", i),)), dep)


def fold(init, step, count=None):
    acc = normal(init)
    probe = Probe()
    PROBES.append([probe])
    try:
        tag = frozenset({next_seq()})
        body = normal(step(RS("i", 0, True, probe), mark(acc, True, tag)))
    finally:
        PROBES.pop()
    if structure(body) != structure(acc) or structure_kinds(body) != structure_kinds(acc):
        raise TypeError("fold body changes type")
    if count is None:
        n, _ = _size_of(probe, "counter")
        nok = True
    else:
        c = check_size(count)
        n, nok = c.t, c.ok
    if PROBES:
        return unmark(body, tag)
    assume(nok, "undefined count")
    k = 0
    while decide(t_lt(k, n)):
        acc = normal(step(RS("i", k), acc))
        k += 1
        if k > MAX_LOOP * 4:
            raise sym.Unsupported("unbounded fold")
    return acc


def unmark(v, tag):
    if isinstance(v, RS):
        return v
    if isinstance(v, RVec):
        return RVec(v.n, lambda i: unmark(v.fn(i), tag), v.dep - tag)
    return map_struct(lambda x: unmark(x, tag), v)


def where(cond, true, false):
    a, b = normal(true), normal(false)
    if structure(a) != structure(b):
        raise TypeError("where on different structures")
    c = rwrap(cond)
    if not isinstance(c, RS) or c.kind != "b":
        raise TypeError("condition is not boolean")
    if structure_kinds(a) != structure_kinds(b):
        raise TypeError("where on different types")
    for x, y in zip(leaves(a), leaves(b)):
        if isinstance(x, RVec):
            same_shape(x, y)
    return zip_with(lambda x, y: sel(c, x, y), a, b)


def concat(arg, *args):
    r = arg
    for a in args:
        r = r.concat(a)
    return r


def ext(fun, signature):
    ins, out = (None, signature) if not isinstance(signature, tuple) else signature

    def call(*args):
        ops = [rwrap(a) for a in args]
        if ins is not None:
            if len(ops) != len(ins):
                raise ValueError("wrong number of arguments")
            for o, t in zip(ops, ins):
                if not type_matches(o, t):
                    raise TypeError("extrinsic operand of the wrong type")
        if all(isinstance(o, RS) for o in ops):
            ok = t_and(*(o.ok for o in ops))
            if fun.__name__ == "<lambda>":
                return rwrap(fun(*ops))
            if any(is_sym(o.t) for o in ops):
                return RS("f", t_uf("np_" + fun.__name__, *(t_real(o.t) for o in ops)), ok)
            return RS("f", _conc(fun)(*(o.t for o in ops)), ok)
        res = fun(*(to_numpy(o) for o in ops))
        return rwrap(res)

    return call


def type_matches(o, t):
    name = type(t).__name__
    if name == "Scalar":
        return isinstance(o, RS) and {bool: "b", int: "i", float: "f"}[t.kind] == o.kind
    if name == "Vector":
        return isinstance(o, RVec) and type_matches(o.elem(0), t.elem)
    return False


def shape_of(v):
    out = []
    while isinstance(v, RVec):
        out.append(v.n)
        v = v.elem(0)
    return tuple(out), v


def at_index(v, idx):
    for i in idx:
        v = v.elem(i)
    return v


def to_numpy(v):
    """concrete value; raises Undefined when some element is undefined"""
    val, ok = to_numpy_ok(v)
    if not ok.all():
        raise Undefined("element undefined")
    return val


DT = {"b": numpy.bool_, "i": numpy.int64, "f": numpy.float64}


def to_numpy_ok(v):
    shape, e = shape_of(v)
    if not isinstance(e, RS):
        raise TypeError("records do not convert")
    out = numpy.zeros(shape, DT[e.kind])
    ok = numpy.ones(shape, bool)
    for idx in numpy.ndindex(*shape):
        r = at_index(v, idx)
        out[idx] = r.t
        ok[idx] = bool(r.ok)
    return out, ok


def split_records(v):
    """A vector of records as its field vectors (record of vectors)."""
    v = normal(v)
    if isinstance(v, RVec):
        sub = split_records(v.elem(0))
        n = len(sub)
        return [
            RVec(v.n, (lambda j: lambda i: split_records(v.elem(i))[j])(j), v.dep) for j in range(n)
        ]
    if isinstance(v, RS):
        return [v]
    return [s for l in leaves_top(v) for s in split_records(l)]


def leaves_top(x):
    return leaves(x)


class _Std:
    @staticmethod
    def min(*args):
        r = rwrap(args[0])
        for a in args[1:]:
            r = r.min(a)
        return r

    @staticmethod
    def max(*args):
        r = rwrap(args[0])
        for a in args[1:]:
            r = r.max(a)
        return r

    @staticmethod
    def fold_sum(f, count=None):
        return fold(0.0, lambda i, acc: acc + f(i), count)

    @staticmethod
    def fold_min(f, count=None):
        return fold(float("inf"), lambda i, acc: acc.min(f(i)), count)

    @staticmethod
    def fold_max(f, count=None):
        return fold(float("-inf"), lambda i, acc: acc.max(f(i)), count)

    @staticmethod
    def fold_argmin(f, count=None):
        def step(i, acc):
            v = f(i)
            return where(acc[0] <= v, acc, (v, i))

        return fold((rwrap(float("inf")), rwrap(0)), step, count)[1]

    @staticmethod
    def reduce_sum(f, count=None):
        return array(f, size=count).reduce(rwrap(0.0), lambda a, b: a + b)

    @staticmethod
    def reduce_min(f, count=None):
        return array(f, size=count).reduce(rwrap(float("inf")), lambda a, b: a.min(b))

    @staticmethod
    def reduce_max(f, count=None):
        return array(f, size=count).reduce(rwrap(float("-inf")), lambda a, b: a.max(b))

    @staticmethod
    def reduce_argmin(f, count=None):
        return array(lambda i: (f(i), i), size=count).reduce(
            (rwrap(float("inf")), rwrap(0)), lambda a, b: where(a[0] <= b[0], a, b)
        )[1]

    where = staticmethod(where)
    concat = staticmethod(concat)


class RefNS:
    array = staticmethod(array)
    fold = staticmethod(fold)
    where = staticmethod(where)
    concat = staticmethod(concat)
    wrap = staticmethod(rwrap)
    ext = staticmethod(ext)
    std = _Std


class EinNS:
    """The real library under the same names."""

    def __init__(self):
        import ein
        from ein.frontend import std

        self.array, self.fold, self.where = ein.array, ein.fold, std.where
        self.concat, self.wrap, self.ext = std.concat, ein.wrap, ein.ext
        self.std = std
