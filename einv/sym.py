"""Path-complete symbolic execution core.

The *real* functions of /repo are run by CPython on the proxy values defined here (SInt, SBool,
SymArray).  Whenever the code asks for the truth of a symbolic condition, the execution forks: the
explorer re-runs the function once per feasible decision sequence, so that the set of explored paths
covers every input that satisfies the stated precondition.  Obligations are discharged by z3 in the
context of the path condition.
"""
from __future__ import annotations

import time

import z3


class Unsupported(Exception):
    """The engine cannot follow the code (not a verdict about the code)."""


class Infeasible(BaseException):
    """The current path contradicts the precondition."""


class Obligation:
    __slots__ = ("name", "status", "time", "model", "detail", "path")

    def __init__(self, name, status, t, model=None, detail="", path=()):
        self.name, self.status, self.time = name, status, t
        self.model, self.detail, self.path = model, detail, path


CHECK_TIMEOUT_MS = 2500
PROVE_TIMEOUT_MS = 8000


class Stats:
    def __init__(self):
        self.obligations = 0
        self.discharged = 0
        self.failed = 0
        self.unknown = 0
        self.paths = 0
        self.reachable = 0
        self.simplified = 0
        self.solver_s = 0.0
        self.queries = 0


STATS = Stats()


class Path:
    current: "Path | None" = None

    def __init__(self, prefix, deadline=None):
        self.prefix = list(prefix)
        self.pos = 0
        self.decisions: list[bool] = []
        self.alternatives: list[list[bool]] = []
        self.solver = z3.Solver()
        self.solver.set("timeout", CHECK_TIMEOUT_MS)
        self.pc = []
        self.obligations: list[Obligation] = []
        self.fresh_n = 0
        self.deadline = deadline
        self.notes = []

    # -- symbols
    def fresh(self, hint, sort):
        self.fresh_n += 1
        return z3.Const(f"{hint}!{self.fresh_n}", sort)

    def fresh_fun(self, hint, *sorts):
        self.fresh_n += 1
        return z3.Function(f"{hint}!{self.fresh_n}", *sorts)

    # -- path condition
    def assume(self, cond):
        cond = as_bool_term(cond)
        if cond is True:
            return
        if cond is False:
            raise Infeasible
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise Infeasible
        self.pc.append(cond)
        self.solver.add(cond)

    def feasible(self, *extra):
        t0 = time.time()
        if self.deadline is not None and t0 > self.deadline:
            raise Unsupported("time budget exhausted")
        r = self.solver.check(*extra)
        STATS.solver_s += time.time() - t0
        STATS.queries += 1
        return r != z3.unsat

    def branch(self, cond) -> bool:
        cond = as_bool_term(cond)
        if cond is True or cond is False:
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append(d)
            self._take(cond, d)
            return d
        can_t = self.feasible(cond)
        can_f = self.feasible(z3.Not(cond))
        if not can_t and not can_f:
            raise Infeasible
        self.pos += 1
        d = can_t
        if can_t and can_f:
            self.alternatives.append(self.decisions + [False])
            if len(self.decisions) > 400:
                raise Unsupported("path too deep")
        self.decisions.append(d)
        self._take(cond, d)
        return d

    def choose(self) -> bool:
        """Nondeterministic choice (both alternatives explored)."""
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            d = True
            self.alternatives.append(self.decisions + [False])
        self.pos += 1
        self.decisions.append(d)
        return d

    def _take(self, cond, d):
        c = cond if d else z3.Not(cond)
        self.pc.append(c)
        self.solver.add(c)

    # -- obligations
    def prove(self, cond, name, detail="") -> bool:
        cond = as_bool_term(cond)
        STATS.obligations += 1
        t0 = time.time()
        if cond is True:
            STATS.discharged += 1
            STATS.simplified += 1
            self.obligations.append(Obligation(name, "proved", 0.0, detail=detail))
            return True
        neg = z3.BoolVal(True) if cond is False else z3.simplify(z3.Not(cond))
        model = None
        if z3.is_false(neg):
            STATS.simplified += 1
            r = z3.unsat
        else:
            if self.deadline is not None and t0 > self.deadline:
                raise Unsupported("time budget exhausted")
            self.solver.set("timeout", PROVE_TIMEOUT_MS)
            r = self.solver.check(neg)
            self.solver.set("timeout", CHECK_TIMEOUT_MS)
            STATS.queries += 1
            if r == z3.sat:
                model = self.solver.model()
            elif r == z3.unknown:
                s = z3.Tactic("qfnra-nlsat") if False else z3.Solver()
                s.set("timeout", PROVE_TIMEOUT_MS)
                s.add(*self.pc)
                s.add(neg)
                r = s.check()
                if r == z3.sat:
                    model = s.model()
        dt = time.time() - t0
        STATS.solver_s += dt
        status = "proved" if r == z3.unsat else "failed" if r == z3.sat else "unknown"
        if status == "proved":
            STATS.discharged += 1
        elif status == "failed":
            STATS.failed += 1
        else:
            STATS.unknown += 1
        self.obligations.append(
            Obligation(name, status, dt, model, detail, tuple(self.decisions))
        )
        return status == "proved"

    def model(self):
        if self.solver.check() == z3.sat:
            return self.solver.model()
        return None


def P() -> Path:
    assert Path.current is not None, "no symbolic path active"
    return Path.current


class Outcome:
    def __init__(self):
        self.paths = 0
        self.obligations: list[Obligation] = []
        self.unsupported: list[str] = []
        self.truncated = False
        self.reachable = self.vacuous = 0

    @property
    def failed(self):
        return [o for o in self.obligations if o.status == "failed"]

    @property
    def unknown(self):
        return [o for o in self.obligations if o.status == "unknown"]

    @property
    def proved(self):
        return [o for o in self.obligations if o.status == "proved"]

    @property
    def complete(self):
        return not self.truncated and not self.unsupported and not self.unknown


def explore(run, *, max_paths=400, budget_s=60.0, stop_on_fail=True) -> Outcome:
    """Run `run()` on every feasible path."""
    out = Outcome()
    work = [[]]
    deadline = time.time() + budget_s
    while work:
        prefix = work.pop()
        path = Path(prefix, deadline)
        prev, Path.current = Path.current, path
        try:
            run()
            out.paths += 1
            STATS.paths += 1
            # vacuity guard: the assumptions made along the path must be satisfiable
            r = path.solver.check() if path.pc else z3.sat
            if r == z3.sat:
                out.reachable += 1
                STATS.reachable += 1
            elif r == z3.unsat:
                out.vacuous += 1
                path.obligations.clear()
        except Infeasible:
            pass
        except Unsupported as e:
            out.unsupported.append(str(e))
        except z3.Z3Exception as e:
            out.unsupported.append(f"z3: {e}")
        finally:
            Path.current = prev
        out.obligations.extend(path.obligations)
        work.extend(path.alternatives)
        if stop_on_fail and any(o.status == "failed" for o in path.obligations):
            out.truncated = bool(work)
            return out
        if len(out.unsupported) > 3:
            out.truncated = True
            return out
        if out.paths >= max_paths or time.time() > deadline:
            out.truncated = bool(work)
            return out
    return out


# ---------------------------------------------------------------- terms
# A *term* is a Python bool/int/float or a z3 expression.


def is_sym(t):
    return isinstance(t, z3.ExprRef)


def as_bool_term(c):
    if isinstance(c, SBool):
        return c.t
    if isinstance(c, z3.BoolRef):
        return c
    if z3.is_expr(c):
        raise Unsupported(f"non-boolean condition {c}")
    return bool(c)


def term(x):
    if isinstance(x, (SInt, SBool)):
        return x.t
    return x


def fold_const(t):
    """Simplify to a Python number when closed."""
    if not is_sym(t):
        return t
    s = z3.simplify(t)
    if z3.is_int_value(s):
        return s.as_long()
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return s


def ite(c, a, b):
    c = as_bool_term(c)
    if c is True:
        return a
    if c is False:
        return b
    if not is_sym(a) and not is_sym(b) and type(a) is type(b) and a == b:
        return a
    if is_sym(a) and is_sym(b) and a.eq(b):
        return a
    a, b = unify(a, b)
    return z3.If(c, a, b)


INF = z3.Real("INF")


def lift_num(t, real):
    if is_sym(t):
        if z3.is_bool(t):
            raise Unsupported("bool used as number")
        if real and t.sort() == z3.IntSort():
            return z3.ToReal(t)
        return t
    if isinstance(t, bool):
        raise Unsupported("bool used as number")
    if real:
        if t != t:
            raise Unsupported("NaN")
        if t in (float("inf"), float("-inf")):
            return INF if t > 0 else -INF
        from fractions import Fraction

        f = Fraction(t)
        return z3.RealVal(f"{f.numerator}/{f.denominator}")
    return z3.IntVal(int(t))


def is_realish(t):
    return (is_sym(t) and t.sort() == z3.RealSort()) or isinstance(t, float)


def is_boolish(t):
    return isinstance(t, bool) or (is_sym(t) and z3.is_bool(t))


def unify(a, b):
    """Bring two terms to z3 terms of one sort."""
    if is_boolish(a) or is_boolish(b):
        if not (is_boolish(a) and is_boolish(b)):
            raise Unsupported("mixed bool/number")
        return (
            a if is_sym(a) else z3.BoolVal(a),
            b if is_sym(b) else z3.BoolVal(b),
        )
    real = is_realish(a) or is_realish(b)
    return lift_num(a, real), lift_num(b, real)


def t_add(a, b):
    if not is_sym(a) and not is_sym(b):
        return a + b
    if not is_sym(a) and a == 0 and not (isinstance(a, float) and not is_realish(b)):
        return b
    if not is_sym(b) and b == 0 and not (isinstance(b, float) and not is_realish(a)):
        return a
    for u in (a, b):
        if not is_sym(u) and isinstance(u, float) and u in (float("inf"), -float("inf")):
            return u
    a, b = unify(a, b)
    return a + b


def t_neg(a):
    return -a


def t_sub(a, b):
    if not is_sym(a) and not is_sym(b):
        return a - b
    if not is_sym(b) and b == 0 and not isinstance(b, float):
        return a
    a, b = unify(a, b)
    return a - b


def t_mul(a, b):
    if not is_sym(a) and not is_sym(b):
        return a * b
    a, b = unify(a, b)
    return a * b


def _isinf(u, s):
    return not is_sym(u) and isinstance(u, float) and u == s * float("inf")


def t_min(a, b):
    if not is_sym(a) and not is_sym(b):
        return b if b < a else a
    if is_sym(a) and is_sym(b) and a.eq(b):
        return a
    if _isinf(a, 1):
        return b
    if _isinf(b, 1):
        return a
    if _isinf(a, -1) or _isinf(b, -1):
        return -float("inf")
    a, b = unify(a, b)
    return z3.If(a <= b, a, b)


def t_max(a, b):
    if not is_sym(a) and not is_sym(b):
        return b if b > a else a
    if is_sym(a) and is_sym(b) and a.eq(b):
        return a
    if _isinf(a, -1):
        return b
    if _isinf(b, -1):
        return a
    if _isinf(a, 1) or _isinf(b, 1):
        return float("inf")
    a, b = unify(a, b)
    return z3.If(a >= b, a, b)


def t_clip(x, lo, hi):
    return t_min(t_max(x, lo), hi)


def t_mod(a, b):
    """Floor modulo (sign of the divisor), as in Python and NumPy."""
    if not is_sym(a) and not is_sym(b):
        return a % b if b != 0 else 0
    if is_realish(a) or is_realish(b):
        raise Unsupported("real modulo")
    a, b = unify(a, b)
    r = a % b
    return z3.If(b == 0, z3.IntVal(0), z3.If(z3.And(b < 0, r != 0), r + b, r))


def t_floordiv(a, b):
    if not is_sym(a) and not is_sym(b):
        return a // b
    if is_sym(b) or b <= 0:
        raise Unsupported("symbolic divisor")
    a, b = unify(a, b)
    return a / b


def _cmp(f):
    def g(a, b):
        if not is_sym(a) and not is_sym(b):
            return bool(f(a, b))
        for u, o, flip in ((a, b, False), (b, a, True)):
            if not is_sym(u) and isinstance(u, float) and abs(u) == float("inf"):
                return bool(f(u, 0.0)) if not flip else bool(f(0.0, u))
        a, b = unify(a, b)
        return f(a, b)

    return g


t_lt = _cmp(lambda a, b: a < b)
t_le = _cmp(lambda a, b: a <= b)
t_eq = _cmp(lambda a, b: a == b)
t_ne = _cmp(lambda a, b: a != b)


def t_not(a):
    return (not a) if not is_sym(a) else z3.Not(a)


def t_and(*xs):
    xs = [x for x in xs if x is not True]
    if any(x is False for x in xs):
        return False
    if not xs:
        return True
    return xs[0] if len(xs) == 1 else z3.And(*xs)


def t_or(*xs):
    xs = [x for x in xs if x is not False]
    if any(x is True for x in xs):
        return True
    if not xs:
        return False
    return xs[0] if len(xs) == 1 else z3.Or(*xs)


def t_implies(a, b):
    return t_or(t_not(a), b)


def t_real(a):
    if not is_sym(a):
        return float(a)
    if z3.is_bool(a):
        return z3.If(a, z3.RealVal(1), z3.RealVal(0))
    return z3.ToReal(a) if a.sort() == z3.IntSort() else a


_UFS: dict = {}


def uf(name, arity, sort_in=None, sort_out=None):
    key = (name, arity)
    if key not in _UFS:
        R = z3.RealSort()
        _UFS[key] = z3.Function("uf_" + name, *([R] * arity), R)
    return _UFS[key]


def t_uf(name, *args):
    return uf(name, len(args))(*(lift_num(a, True) for a in args))


# ---------------------------------------------------------------- proxies for Python ints and bools


class SBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return P().branch(self.t)

    def __and__(self, o):
        return SBool(t_and(self.t, term(o)))

    def __or__(self, o):
        return SBool(t_or(self.t, term(o)))

    def __invert__(self):
        return SBool(t_not(self.t))

    def __repr__(self):
        return f"SBool({self.t})"


def mk_int(t):
    t = fold_const(t)
    return SInt(t) if is_sym(t) else int(t)


def mk_bool(t):
    t = fold_const(t)
    return SBool(t) if is_sym(t) else bool(t)


def _int_term(o):
    if isinstance(o, SInt):
        return o.t
    if isinstance(o, bool):
        return int(o)
    if isinstance(o, int):
        return o
    try:
        import numpy

        if isinstance(o, numpy.integer):
            return int(o)
    except ImportError:
        pass
    return None


class SInt:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def _bin(self, o, f, mk, swap=False):
        b = _int_term(o)
        if b is None:
            return NotImplemented
        return mk(f(b, self.t) if swap else f(self.t, b))

    def __add__(self, o):
        return self._bin(o, t_add, mk_int)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, t_sub, mk_int)

    def __rsub__(self, o):
        return self._bin(o, t_sub, mk_int, True)

    def __mul__(self, o):
        return self._bin(o, t_mul, mk_int)

    __rmul__ = __mul__

    def __neg__(self):
        return mk_int(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return mk_int(t_max(self.t, -self.t))

    def __mod__(self, o):
        return self._bin(o, t_mod, mk_int)

    def __floordiv__(self, o):
        return self._bin(o, t_floordiv, mk_int)

    def __rshift__(self, o):
        k = _int_term(o)
        if k is None or is_sym(k):
            return NotImplemented
        return mk_int(t_floordiv(self.t, 2**k))

    def __and__(self, o):
        if o == 1 and isinstance(o, int):
            return mk_int(t_mod(self.t, 2))
        raise Unsupported("bitwise and")

    def __divmod__(self, o):
        return self // o, self % o

    def __lt__(self, o):
        return self._bin(o, t_lt, mk_bool)

    def __le__(self, o):
        return self._bin(o, t_le, mk_bool)

    def __gt__(self, o):
        return self._bin(o, t_lt, mk_bool, True)

    def __ge__(self, o):
        return self._bin(o, t_le, mk_bool, True)

    def __eq__(self, o):
        return self._bin(o, t_eq, mk_bool)

    def __ne__(self, o):
        return self._bin(o, t_ne, mk_bool)

    def __hash__(self):
        # equal to a concrete integer's hash whenever the path determines the value
        p = Path.current
        if p is not None:
            try:
                if p.solver.check() == z3.sat:
                    v = p.solver.model().eval(self.t, model_completion=True)
                    if z3.is_int_value(v) and p.solver.check(self.t != v) == z3.unsat:
                        return hash(v.as_long())
            except z3.Z3Exception:
                pass
        return 0x51

    def __bool__(self):
        return P().branch(t_ne(self.t, 0))

    def __index__(self):
        t = fold_const(self.t)
        if is_sym(t):
            # forced to a unique value by the path condition?
            p = P()
            if p.solver.check() == z3.sat:
                v = p.solver.model().eval(t, model_completion=True)
                if not p.feasible(t != v):
                    return v.as_long()
            raise Unsupported(f"concrete integer needed for {t}")
        return int(t)

    __int__ = __index__

    def item(self):
        return self

    def __repr__(self):
        return f"SInt({self.t})"


def model_int(model, t, default=0):
    t = term(t)
    if not is_sym(t):
        return int(t)
    v = model.eval(t, model_completion=True)
    try:
        return v.as_long()
    except Exception:
        return default


def model_num(model, t):
    """Concrete Python value of a term in a model."""
    t = term(t)
    if not is_sym(t):
        return t
    v = model.eval(t, model_completion=True)
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(v.numerator_as_long()) / float(v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(10)
        return float(a.numerator_as_long()) / float(a.denominator_as_long())
    return 0
