"""C09: the typing rules of the term constructors, for all types.

A type is an unknown value of the recursive datatype  Ty = scalar(kind) | vec(Ty) | pair(Ty, Ty).  The constructors of /repo run
on operands of unknown types: `isinstance` and patterns on a type fork on its recogniser, comparisons fork on equality.  Each
obligation says that the constructor accepts its operands exactly where the rule below holds, and that the term has the rule's type."""
from __future__ import annotations

import itertools
import random

import z3

from .. import sym
from . import Failed, Registry, need

CASES = Registry()

_Kind, (K_B, K_I, K_F) = z3.EnumSort("Kind", ["b", "i", "f"])
_T = z3.Datatype("Ty")
_T.declare("scalar", ("kind", _Kind))
_T.declare("vec", ("elem", _T))
_T.declare("pair", ("fst", _T), ("snd", _T))
Ty = _T.create()
INT, FLOAT, BOOL = Ty.scalar(K_I), Ty.scalar(K_F), Ty.scalar(K_B)
KINDS = ((K_B, bool), (K_I, int), (K_F, float))


def classes():
    return need("ein.phi.type_system", "Scalar", "Vector", "Pair")


class SymType:
    """A type that is not known."""

    def __init__(self, t):
        self._t = t
        self._parts = {}

    def _is(self, what):
        return sym.P().branch(getattr(Ty, f"is_{what}")(self._t))

    @property
    def __class__(self):
        S, V, P = classes()
        return S if self._is("scalar") else V if self._is("vec") else P

    def _part(self, what, sel):
        if not self._is(what):
            raise AttributeError(sel)
        if sel not in self._parts:
            self._parts[sel] = SymType(getattr(Ty, sel)(self._t))
        return self._parts[sel]

    @property
    def kind(self):
        if not self._is("scalar"):
            raise AttributeError("kind")
        for k, py in KINDS[:-1]:
            if sym.P().branch(Ty.kind(self._t) == k):
                return py
        return KINDS[-1][1]

    elem = property(lambda self: self._part("vec", "elem"))
    first = property(lambda self: self._part("pair", "fst"))
    second = property(lambda self: self._part("pair", "snd"))

    def __eq__(self, other):
        o = to_term(other)
        return NotImplemented if o is None else sym.P().branch(self._t == o)

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else not r

    def __hash__(self):
        return id(self)

    def __str__(self):
        return "?"

    @property
    def primitive_type(self):
        raise sym.Unsupported("the primitive type of an unknown type")


def to_term(t):
    """The datatype value of a type of /repo (or of an unknown one)."""
    if type(t) is SymType:
        return t._t
    S, V, P = classes()
    if isinstance(t, S):
        return Ty.scalar({py: k for k, py in KINDS}[t.kind])
    if isinstance(t, V):
        e = to_term(t.elem)
        return None if e is None else Ty.vec(e)
    if isinstance(t, P):
        a, b = to_term(t.first), to_term(t.second)
        return None if a is None or b is None else Ty.pair(a, b)
    return None


def from_term(v):
    """The type of /repo of a datatype value (a model's)."""
    S, V, P = classes()
    name = v.decl().name()
    if name == "scalar":
        return S({str(k): py for k, py in KINDS}[str(v.arg(0))])
    if name == "vec":
        return V(from_term(v.arg(0)))
    return P(from_term(v.arg(0)), from_term(v.arg(1)))


def numeric(t):
    return z3.Or(t == INT, t == FLOAT)


def tuple_of(ts):
    out = ts[0]
    for t in ts[1:]:
        out = Ty.pair(out, t)
    return out


def rules():
    """name -> (number of operand types, build(phi, operands), rule(types) -> (accepted, type))"""
    from ein.symbols import Index, Variable

    R = {}
    R["Store"] = (1, lambda phi, a: a, lambda a: (z3.BoolVal(True), a))
    R["Let"] = (2, lambda phi, a, b: phi.Let(Variable(), a, b), lambda a, b: (z3.BoolVal(True), b))
    R["Dim"] = (1, lambda phi, a: phi.Dim(a, 0), lambda a: (z3.BoolVal(True), INT))
    R["Get"] = (2, lambda phi, a, b: phi.Get(a, b), lambda a, b: (z3.And(Ty.is_vec(a), b == INT), Ty.elem(a)))
    R["Cons"] = (2, lambda phi, a, b: phi.Cons(a, b), lambda a, b: (z3.BoolVal(True), Ty.pair(a, b)))
    R["First"] = (1, lambda phi, a: phi.First(a), lambda a: (Ty.is_pair(a), Ty.fst(a)))
    R["Second"] = (1, lambda phi, a: phi.Second(a), lambda a: (Ty.is_pair(a), Ty.snd(a)))
    R["Vec"] = (2, lambda phi, a, b: phi.Vec(Index(), a, b), lambda a, b: (a == INT, Ty.vec(b)))
    i = Index()
    R["Vec over an index-dependent size"] = (2, lambda phi, a, b: phi.Vec(Index(), phi.Get(a, phi.at(i)), b), lambda a, b: (z3.BoolVal(False), b))
    R["Vec inside of an index"] = (2, lambda phi, a, b: phi.Vec(Index(), a, phi.Get(b, phi.at(i))), lambda a, b: (z3.And(a == INT, Ty.is_vec(b)), b))
    R["Fold"] = (3, lambda phi, a, b, c: phi.Fold(Variable(), a, Variable(), b, c), lambda a, b, c: (z3.And(a == INT, b == c), b))
    R["Concat"] = (2, lambda phi, a, b: phi.Concat(a, b), lambda a, b: (z3.And(Ty.is_vec(a), a == b), a))
    for k in (1, 2, 3, 4):
        R[f"Reduce of {k}"] = (2 + k, lambda phi, a, b, *vs: phi.Reduce(a, Variable(), Variable(), b, vs),
                               lambda a, b, *vs: (z3.And(a == b, *(Ty.is_vec(v) for v in vs), tuple_of([Ty.elem(v) for v in vs]) == b), b))
    for n in (1, 2):
        R[f"Extrinsic of {n}"] = (1 + n, lambda phi, a, *xs: phi.Extrinsic(a.type, len, xs), lambda a, *xs: (z3.BoolVal(True), a))

    def op(name, rule):
        R[name] = (rule.__code__.co_argcount, lambda phi, *xs: getattr(phi, name)(xs), rule)

    for n in ("Reciprocal", "Exp", "Sin", "Cos"):
        op(n, lambda a: (a == FLOAT, FLOAT))
    op("Negate", lambda a: (numeric(a), a))
    op("LogicalNot", lambda a: (a == BOOL, BOOL))
    op("CastToFloat", lambda a: (a == INT, FLOAT))
    for n in ("Add", "Subtract", "Multiply", "Min", "Max"):
        op(n, lambda a, b: (z3.And(numeric(a), a == b), a))
    op("Modulo", lambda a, b: (z3.And(a == INT, b == INT), INT))
    op("Power", lambda a, b: (z3.And(a == FLOAT, b == FLOAT), FLOAT))
    for n in ("Less", "LessEqual", "Equal", "NotEqual"):
        op(n, lambda a, b: (z3.And(numeric(a), a == b), BOOL))
    for n in ("LogicalAnd", "LogicalOr"):
        op(n, lambda a, b: (z3.And(a == BOOL, b == BOOL), BOOL))
    op("Where", lambda a, b, c: (z3.And(a == BOOL, Ty.is_scalar(b), b == c), b))
    return R


REJECTED = (TypeError, ValueError, AssertionError)


def attempt(name, build, types):
    """The type of the constructed term, or the error of the rejection."""
    from ein.phi import phi
    from ein.symbols import Variable

    if not hasattr(phi, name.split()[0]):
        from . import Missing

        raise Missing(f"ein.phi.phi.{name.split()[0]}")
    ops = [phi.variable(Variable(), t) for t in types]
    try:
        return build(phi, *ops).type, None
    except REJECTED as e:
        return None, e


def check(ctx, name, n, build, rule):
    names = [f"T{k}" for k in range(n)]

    def run():
        ts = [z3.Const(x, Ty) for x in names]
        got, err = attempt(name, build, [SymType(t) for t in ts])
        ok, want = rule(*ts)
        p = sym.P()
        if got is None:
            p.prove(z3.Not(ok), "well-typed terms are accepted", str(err))
        elif p.prove(ok, "ill-typed terms are rejected"):
            t = to_term(got)
            p.prove(t == want if t is not None and t is not NotImplemented else z3.BoolVal(False), "type of the term")

    def replay(model):
        vs = [model.eval(z3.Const(x, Ty), model_completion=True) for x in names]
        types = [from_term(v) for v in vs]
        got, err = attempt(name, build, types)
        ok, want = rule(*vs)
        ok = z3.is_true(z3.simplify(ok))
        text = f"{name} of {', '.join(map(str, types))}: "
        if got is None:
            return text + f"rejected ({err})" if ok else None
        if not ok:
            return text + f"accepted, as {got}"
        want = from_term(z3.simplify(want))
        return None if got == want else text + f"has type {got} instead of {want}"

    ctx.explore(run, name, replay=replay, max_paths=4000)
    # code that asks for more than the shape of its operands' types leaves the above undecided: instances with known types
    pool = [INT, FLOAT, BOOL, Ty.vec(INT), Ty.vec(FLOAT), Ty.vec(Ty.vec(FLOAT)), Ty.pair(INT, FLOAT), Ty.pair(FLOAT, INT), Ty.vec(Ty.pair(INT, FLOAT)),
            Ty.pair(Ty.vec(INT), FLOAT), Ty.pair(Ty.pair(INT, FLOAT), INT), Ty.pair(INT, Ty.pair(FLOAT, INT))]
    todo = list(itertools.product(pool, repeat=n)) if n <= 3 else []
    rnd = random.Random(n)
    for _ in range(0 if n <= 3 else 800):  # operands that nearly fit each other
        vs = [rnd.choice(pool) for _ in range(n - 2)]
        t = tuple_of(vs)
        todo.append([rnd.choice([t, t, rnd.choice(pool)]), rnd.choice([t, t, rnd.choice(pool)])] + [Ty.vec(v) if rnd.random() < 0.93 else v for v in vs])
    for vs in todo:
        values = dict(zip(names, vs))
        ctx.evaluations += 1
        ctx.ground += 1
        text = replay(type("M", (), {"eval": staticmethod(lambda c, model_completion: values[str(c)])}))
        if text is not None:
            raise Failed(name, text)
        ctx.ground_ok += 1


def case(ctx, shard, shards):
    R = rules()
    for k, (name, (n, build, rule)) in enumerate(R.items()):
        if k % shards == shard:
            check(ctx, name, n, build, rule)


for _s in range(3):
    CASES.case(f"constructors-{_s}", "C09", ("ein/phi/phi.py:*.type", "ein/phi/type_system.py:resolve_scalar_signature"),
               domain="operands of every type")(lambda ctx, s=_s: case(ctx, s, 3))


# The type that a term has as a struct of arrays, by structural induction: S distributes vectors over pairs.
#   S(scalar k) = scalar k    S(pair(a,b)) = pair(S a, S b)    S(vec e) = push(S e)
#   push(pair(a,b)) = pair(push a, push b)    push(t) = vec(t) otherwise
# and flat(t) says that t has no vector of pairs.
S_ = z3.Function("S", Ty, Ty)
push = z3.Function("push", Ty, Ty)
flat = z3.Function("flat", Ty, z3.BoolSort())


def unfold(t):
    """The defining equations of S, push and flat at t."""
    return z3.And(
        z3.Implies(Ty.is_scalar(t), z3.And(S_(t) == t, flat(t), push(t) == Ty.vec(t))),
        z3.Implies(Ty.is_pair(t), z3.And(S_(t) == Ty.pair(S_(Ty.fst(t)), S_(Ty.snd(t))), flat(t) == z3.And(flat(Ty.fst(t)), flat(Ty.snd(t))),
                                         push(t) == Ty.pair(push(Ty.fst(t)), push(Ty.snd(t))))),
        z3.Implies(Ty.is_vec(t), z3.And(S_(t) == push(S_(Ty.elem(t))), flat(t) == z3.And(flat(Ty.elem(t)), z3.Not(Ty.is_pair(Ty.elem(t)))), push(t) == Ty.vec(t))))


def lemma(prop, t):
    """prop at t, from prop at the parts of t (structural induction)."""
    ih = z3.And(z3.Implies(Ty.is_vec(t), prop(Ty.elem(t))), z3.Implies(Ty.is_pair(t), z3.And(prop(Ty.fst(t)), prop(Ty.snd(t)))))
    return z3.Implies(ih, prop(t))


FLAT_PUSH = lambda t: z3.Implies(flat(t), flat(push(t)))  # noqa: E731
FLAT_S = lambda t: flat(S_(t))  # noqa: E731
FIXED = lambda t: z3.Implies(flat(t), S_(t) == t)  # noqa: E731


def soa_type(ctx):
    import ein.midend.structs as structs

    transform = need("ein.midend.structs", "_soa_transform_type")
    S, V, P = classes()

    def spec(t):
        if isinstance(t, P):
            return P(spec(t.first), spec(t.second))
        return pushed(spec(t.elem)) if isinstance(t, V) else t

    def pushed(t):
        return P(pushed(t.first), pushed(t.second)) if isinstance(t, P) else V(t)

    def lemmas():
        t = z3.Const("t", Ty)
        p = sym.P()
        for u in (t, push(t), S_(t), Ty.elem(t), Ty.fst(t), Ty.snd(t), Ty.vec(t)):
            p.assume(unfold(u))
        p.prove(lemma(FLAT_PUSH, t), "pushing a vector into a flat type leaves it flat")
        p.assume(z3.And(FLAT_PUSH(t), z3.Implies(Ty.is_vec(t), FLAT_PUSH(S_(Ty.elem(t))))))
        p.prove(lemma(FLAT_S, t), "transformed types are flat")
        p.prove(lemma(FIXED, t), "flat types are transformed to themselves")

    ctx.explore(lemmas, "lemmas on the specification", max_paths=10)

    def run():
        t = z3.Const("T0", Ty)
        p = sym.P()
        p.assume(unfold(t))

        def contract(u):  # the function's own contract, for its recursive calls
            x = to_term(u)
            if x is None:
                raise sym.Unsupported("a recursive call on something that isn't a type")
            r = S_(x)
            for v in (x, r, Ty.elem(x), Ty.fst(x), Ty.snd(x), Ty.fst(r), Ty.snd(r)):
                p.assume(z3.And(unfold(v), FIXED(v), FLAT_S(v)))
            return SymType(r)

        structs._soa_transform_type = contract
        try:
            got = to_term(transform(SymType(t)))
        finally:
            structs._soa_transform_type = transform
        p.assume(z3.And(unfold(S_(Ty.elem(t))), FLAT_S(Ty.elem(t))))
        p.prove(got == S_(t) if got is not None else z3.BoolVal(False), "the type of the transformed term")

    def replay(model):
        t = from_term(model.eval(z3.Const("T0", Ty), model_completion=True))
        got, want = transform(t), spec(t)
        return None if got == want else f"{t} becomes {got} instead of {want}"

    ctx.explore(run, "_soa_transform_type", max_paths=200, replay=replay)
    # instances, and termination on them
    rnd = random.Random(1)

    def some(d):
        k = rnd.randrange(3) if d else 0
        return S(rnd.choice([int, float, bool])) if k == 0 else V(some(d - 1)) if k == 1 else P(some(d - 1), some(d - 1))

    for _ in range(400):
        t = some(rnd.randrange(7))
        ctx.expect(transform(t) == spec(t), "the type of the transformed term", lambda: f"{t} becomes {transform(t)} instead of {spec(t)}")


CASES.case("soa-type", "C06 C09", ("ein/midend/structs.py:_soa_transform_type",), domain="every type, by structural induction")(soa_type)
