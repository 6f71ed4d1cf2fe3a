"""Contracts on functions of /repo.

Each module has CASES: {case name: Case}.  A case names the functions of /repo it puts under
contract, the properties it serves, and a function fn(ctx) that generates and discharges the
obligations from the current source (by executing the real functions on symbolic arguments, or on an
exhaustively enumerated finite domain).
"""
from __future__ import annotations

import importlib
import time
import traceback

MODULES = ["history", "types", "rules", "values", "loops", "passes", "codegen", "layouts", "special", "large", "surface"]


class Case:
    def __init__(self, name, props, functions, fn, *, bounded=None, note="", internal=False, domain=""):
        self.domain = domain  # for ground obligations: the enumerated domain, and whether it is the whole one
        self.name, self.props, self.functions, self.fn = name, tuple(props.split()), tuple(functions), fn
        self.bounded, self.note, self.internal = bounded, note, internal


class Registry(dict):
    def case(self, name, props, functions, **kw):
        def deco(fn):
            self[name] = Case(name, props, functions, fn, **kw)
            return fn

        return deco


class Missing(Exception):
    """A function under contract is not there (any more), or takes other arguments."""


class Failed(Exception):
    def __init__(self, name, detail, no_input=False, replay=None):
        super().__init__(f"{name}: {detail}")
        self.name, self.detail, self.no_input, self.replay = name, detail, no_input, replay


class Ctx:
    def __init__(self, budget, seed, tier="quick"):
        # obligations/discharged: for all values, by the solver.  ground: on enumerated instances, by evaluation.
        self.obligations = self.discharged = self.evaluations = self.ground = self.ground_ok = 0
        self.budget, self.seed, self.tier = budget, seed, tier
        self.start = time.time()
        self.undecided = []
        self.unbounded = True

    # ground obligations
    def expect(self, cond, name, detail="", internal=False):
        self.ground += 1
        self.evaluations += 1
        if not cond:
            raise Failed(name, detail() if callable(detail) else detail, no_input=internal)
        self.ground_ok += 1

    def raises(self, fn, name, excs=(TypeError, ValueError, AssertionError)):
        """The call is rejected (with one of the errors the library uses for rejection)."""
        self.ground += 1
        self.evaluations += 1
        try:
            r = fn()
        except excs:
            self.ground_ok += 1
            return
        except Exception as e:
            self.ground_ok += 1  # rejected all the same
            _ = e
            return
        raise Failed(name, f"accepted, giving {type(r).__name__}")

    def no_raise(self, fn, name):
        self.ground += 1
        self.evaluations += 1
        try:
            r = fn()
        except Exception as e:
            raise Failed(name, f"raised {type(e).__name__}: {str(e)[:200]}")
        self.ground_ok += 1
        return r

    # symbolic obligations
    def explore(self, run, name, *, max_paths=600, replay=None, budget=None):
        """Discharge the obligations that run() states on every path.  A refuted one fails the case."""
        from .. import sym

        out = sym.explore(run, max_paths=max_paths, budget_s=budget or self.budget)
        self.obligations += len(out.obligations)
        self.discharged += len(out.proved)
        if out.failed:
            o = out.failed[0]
            text, found = (None, False)
            if replay is not None:
                text = replay(o.model)
                found = text is not None
            raise Failed(f"{name} {o.name}", f"{text or o.detail} (model {str(o.model)[:600]})", no_input=not found)
        if not out.complete:
            self.undecided.append(f"{name}: " + ("; ".join(sorted(set(out.unsupported)))[:200] or "unknown/truncated"))
            return False
        if not out.obligations:
            self.undecided.append(f"{name}: vacuous")
            return False
        return True

    def time_left(self):
        return self.budget - (time.time() - self.start)


def need(module, *names):
    """Functions under contract, by name; Missing when the code was reorganised."""
    try:
        m = importlib.import_module(module)
    except ImportError as e:
        raise Missing(str(e))
    out = []
    for n in names:
        obj = m
        for part in n.split("."):
            if not hasattr(obj, part):
                raise Missing(f"{module}.{n}")
            obj = getattr(obj, part)
        out.append(obj)
    return out[0] if len(out) == 1 else out


def run_case(mod, name, budget, seed):
    m = importlib.import_module(f"einv.contracts.{mod}")
    case = m.CASES[name]
    ctx = Ctx(budget, seed, "thorough" if budget > 60 else "quick")
    out = dict(name=f"{mod}:{name}", bounded=case.bounded)
    try:
        from ..core import quiet

        with quiet():
            case.fn(ctx)
    except Failed as f:
        out.update(status="violated", detail=f"{f.name}: {f.detail}", no_input=f.no_input,
                   replay=dict(kind="contract", module=mod, case=name, obligation=f.name, failure=str(f.detail)[:4000],
                               functions=list(case.functions), **(f.replay or {})))
    except Missing as e:
        out.update(status="undecided", detail=f"not found: {e}")
    except Exception:
        if not case.internal:
            tb = traceback.format_exc()[-1500:]
            out.update(status="undecided", detail="checker: " + tb)
        else:
            out.update(status="undecided", detail="internal: " + traceback.format_exc()[-800:])
    else:
        out["status"] = "proved" if not ctx.undecided else "undecided"
        if ctx.undecided:
            out["detail"] = "; ".join(ctx.undecided)[:600]
    out.update(obligations=ctx.obligations, discharged=ctx.discharged, evaluations=ctx.evaluations,
               ground=ctx.ground, ground_ok=ctx.ground_ok)
    return out


def all_cases():
    for m in MODULES:
        mod = importlib.import_module(f"einv.contracts.{m}")
        for c in mod.CASES.values():
            yield m, c


def for_property(pid):
    return [(m, c) for m, c in all_cases() if pid in c.props]
