"""Contracts of the frontend's term construction and of the midend passes, over the denotation of terms
(einv.phisem): for every term skeleton, for all arrays of all sizes, the meaning before equals the
meaning after; no free symbol is introduced or dropped; the type is kept."""
from __future__ import annotations

import time

import numpy

from . import Registry, need
from .. import core, gen, phisem, programs, ref, sym
from ..ref import RefNS, Undefined

CASES = Registry()
SHARDS = 6


def corpus(prop, theme, stride=1, extra=0):
    ps = [p for p in programs.all_programs() if prop in p.props and p.sym][::stride]
    ps += [gen.program(theme, 5000 + k) for k in range(extra)]
    return ps


def bind(p):
    varargs, expr = core.build_phi(p)
    return list(varargs), expr


def observable(p, model, seed):
    """Does the program itself go wrong (on the counterexample, or on nearby inputs)?"""
    rng = numpy.random.default_rng([seed, 3])
    tries = []
    try:
        a = core.concrete_from_model(p, model, rng) if model is not None else None
        if a is not None:
            tries.append(a)
    except Exception:
        pass
    tries += [core.random_arrays(p, rng) for _ in range(8)]
    for arrays in tries:
        for b in ("numpy", "naive"):
            if b == "naive" and "ext" in p.src:
                continue
            d = core.concrete_check(p, arrays, b)
            if d:
                return f"{p.name} on {b} with arguments {[a.tolist() for a in arrays]}: {d}"
    return None


def same_meaning(ctx, p, before, after, varargs, name, budget=4):
    """before/after: phi terms (or None: the specification of the program)."""

    def run():
        q = sym.P()
        q.vars = core.symbolic_args(p)
        _, args = q.vars
        vals = [ref.from_symarray(a) for a in args]
        try:
            if before is None:
                u = p.fn(RefNS, *vals)
                u = ref.normal(u)
            else:
                u = phisem.Sem()(before, phisem.Env(None, dict(zip(varargs, vals))))
            force(u)
        except Undefined:
            raise sym.Infeasible
        if not q.feasible():
            raise sym.Infeasible
        try:
            v = phisem.Sem(assume=False)(after, phisem.Env(None, dict(zip(varargs, vals))))
            if before is None:
                phisem.prove_same(tuple_of(u), v, name)
            else:
                phisem.prove_same(u, v, name)
        except phisem.Unbound as e:
            q.prove(False, f"{name}: every symbol is bound", f"{e} is evaluated outside its binder")

    ctx.explore(run, f"{p.name}", replay=lambda m: observable(p, m, ctx.seed), budget=budget)


def tuple_of(u):
    """Records as the right-nested pairs the frontend lowers them to."""
    if isinstance(u, (ref.RS, ref.RVec)):
        return u
    import dataclasses

    subs = list(u) if isinstance(u, (tuple, list)) else list(u.values()) if isinstance(u, dict) else [getattr(u, f.name) for f in dataclasses.fields(u)]
    ls = [tuple_of(x) for x in subs]
    r = ls[-1]
    for x in reversed(ls[:-1]):
        r = (x, r)
    return r


def force(u):
    if isinstance(u, tuple):
        for x in u:
            force(x)
        return
    for part in ref.split_records(u):
        shape, e = ref.shape_of(part)
        from .. import symarray as sa

        ix, _ = sa.fresh_index(shape, "pre")
        ref.at_index(part, ix)


def over(ctx, ps, shard, body, shards=SHARDS, allow=28):
    n = 0
    t0 = time.time()
    for k, p in enumerate(ps):
        if k % shards != shard:
            continue
        if time.time() - t0 > allow:
            ctx.undecided.append(f"time: {p.name} and later ones")
            break
        try:
            varargs, expr = bind(p)
        except Exception:
            continue  # reported by the check of the program itself
        u0 = len(ctx.undecided)
        body(ctx, p, varargs, expr)
        n += 1
        # a skeleton beyond the budget is left to the checks of the program itself
        if len(ctx.undecided) > u0:
            ctx.skipped = getattr(ctx, "skipped", 0) + 1
            del ctx.undecided[u0:]
    if not n:
        ctx.undecided.append("no skeleton")


def inner(ctx, cond, name, detail=""):
    """An obligation on a term, not on a value: no failing input by itself."""
    ctx.expect(cond, name, detail, internal=True)


def lining(ctx, p, varargs, expr):
    outline, inline = need("ein.midend.lining", "outline", "inline")
    fv = phisem.free(expr)
    for nm, f in (("outline", outline), ("inline", inline), ("inline-of-outline", lambda e: inline(outline(e))), ("renames", lambda e: inline(e, only_renames=True))):
        after = f(expr)
        inner(ctx, phisem.free(after) == fv, f"{nm} keeps the free symbols of {p.name}", lambda: f"{fv} became {phisem.free(after)}")
        inner(ctx, after.type == expr.type, f"{nm} keeps the type of {p.name}")
        if nm in ("outline", "inline-of-outline"):
            same_meaning(ctx, p, expr, after, varargs, nm)


def metadata(ctx, p, varargs, expr):
    """free_symbols and map of every subterm agree with the binding structure."""
    seen = set()

    def go(e):
        if id(e) in seen:
            return
        seen.add(id(e))
        inner(ctx, frozenset(e.free_symbols) == phisem.free(e), f"free_symbols of {type(e).__name__} in {p.name}",
                   lambda: f"{e.free_symbols} instead of {set(phisem.free(e))}")
        plain, under = phisem.parts(e)
        subs = list(plain) + [s for _, ss in under for s in ss]
        inner(ctx, {id(s) for s in e.subterms} == {id(s) for s in subs}, f"subterms of {type(e).__name__} in {p.name}")
        same = e.map(lambda s: s)
        inner(ctx, same == e, f"map with the identity gives the same {type(e).__name__} in {p.name}")
        inner(ctx, {f.name: id(getattr(e, f.name)) for f in fields(e)}.keys() == {f.name for f in fields(same)}, f"fields of {type(e).__name__}")
        for s in subs:
            go(s)

    go(expr)


def fields(e):
    import dataclasses

    return dataclasses.fields(e)


def soa(ctx, p, varargs, expr):
    f = need("ein.midend.structs", "struct_of_arrays_transform")
    after = f(expr)
    inner(ctx, phisem.free(after) <= phisem.free(expr), f"struct-of-arrays keeps the free symbols of {p.name}")
    inner(ctx, after.type == expr.type, f"struct-of-arrays keeps the type of {p.name}")
    same_meaning(ctx, p, expr, after, varargs, "struct-of-arrays")


def frontend(ctx, p, varargs, expr):
    inner(ctx, phisem.free(expr) <= set(varargs), f"the term of {p.name} is closed", lambda: f"free: {phisem.free(expr)}")
    same_meaning(ctx, p, None, expr, varargs, "frontend")


def sizes(ctx, p, varargs, expr):
    """Whatever is in one size class has one size, in every environment reached."""
    find = need("ein.midend.size_classes", "find_size_classes")
    outline = need("ein.midend.lining", "outline")
    soa_ = need("ein.midend.structs", "struct_of_arrays_transform")
    prog = outline(soa_(expr))
    classes = find(prog)
    Dim = need("ein.phi.phi", "Dim")
    index_size, cands = {}, []

    def collect(e, seen):
        if id(e) in seen:
            return
        seen.add(id(e))
        if type(e).__name__ == "Vec":
            v = phisem.View(e)
            index_size[v.index] = v.size
            cands.append(v.index)
        if type(e).__name__ in ("Dim", "Const") and rank_of(e) == 0:
            cands.append(e)
        for axis in range(rank_of(e) or 0):
            cands.append(Dim(e, axis))
        plain, under = phisem.parts(e)
        for s in list(plain) + [s for _, ss in under for s in ss]:
            collect(s, seen)

    collect(prog, set())
    groups = []
    for u in dict.fromkeys(cands[:90]):
        g = next((g for g in groups if classes.equiv(g[0], u)), None)
        g.append(u) if g else groups.append([u])
    groups = [g for g in groups if len(g) > 1]

    def run():
        q = sym.P()
        q.vars = core.symbolic_args(p)
        _, args = q.vars
        vals = [ref.from_symarray(a) for a in args]
        envs = []
        sem = phisem.Sem(on_env=envs.append)
        top = phisem.Env(None, dict(zip(varargs, vals)))
        try:
            v = sem(prog, top)
            force(v)
        except Undefined:
            raise sym.Infeasible
        if not q.feasible():
            raise sym.Infeasible
        quiet = phisem.Sem(assume=False)
        for env in [top] + envs[:40]:
            dom = env.domain()
            for g in groups:
                have = []
                for u in g:
                    t = index_size.get(u) if not hasattr(u, "type") else u
                    if t is None or not phisem.free(t) <= dom:
                        continue
                    try:
                        x = quiet(t, env)
                    except (phisem.Unbound, sym.Unsupported):
                        continue
                    if isinstance(x, ref.RS) and x.kind == "i":
                        have.append((u, x))
                for (a, x), (b, y) in zip(have, have[1:]):
                    q.prove(sym.t_eq(x.t, y.t), f"equal sizes: {str(a)[:80]} and {str(b)[:80]}")
        q.prove(True, "classes")

    def claimed(model):
        """The claim of equality, evaluated on concrete arrays by the repository's reference interpreter."""
        interpret, Let = need("ein.backend.naive", "interpret"), need("ein.phi.phi", "Let")
        lets, seen = [], set()

        def walk(e):
            if id(e) in seen:
                return
            seen.add(id(e))
            if type(e).__name__ == "Let":
                v = phisem.View(e)
                lets.append((v.var, v.bind))
            plain, under = phisem.parts(e)
            for s in list(plain) + [s for _, ss in under for s in ss]:
                walk(s)

        walk(prog)

        def closed(t):
            for var, bind_ in reversed(lets):
                if var in phisem.free(t):
                    t = Let(var, bind_, t)
            return t if phisem.free(t) <= set(varargs) else None

        rng = numpy.random.default_rng([ctx.seed, 4])
        tries = [core.random_arrays(p, rng) for _ in range(8)]
        try:
            tries.insert(0, core.concrete_from_model(p, model, rng))
        except Exception:
            pass
        for arrays in tries:
            if arrays is None:
                continue
            try:
                with core.quiet():
                    core.spec_value(p, arrays)
            except Exception:
                continue
            env = dict(zip(varargs, arrays))
            for g in groups:
                first = None
                for u in g:
                    t = index_size.get(u) if not hasattr(u, "type") else u
                    t = closed(t) if t is not None else None
                    if t is None:
                        continue
                    try:
                        x = int(interpret(t, dict(env)))
                    except Exception:
                        continue
                    if first is None:
                        first = (u, x)
                    elif x != first[1]:
                        return (f"{p.name}: {str(first[0])[:120]} and {str(u)[:120]} are in one size class, but with arguments "
                                f"{[a.tolist() for a in arrays]} they are {first[1]} and {x}")
        return None

    ctx.explore(run, p.name, replay=lambda m: observable(p, m, ctx.seed) or claimed(m), budget=4)


def rank_of(e):
    """The rank of a single array of numbers, else None."""
    t, r = e.type, 0
    while type(t).__name__ == "Vector":
        t, r = t.elem, r + 1
    return r if type(t).__name__ == "Scalar" else None


LIN = ["midend/lining.py: outline, inline, _bind_common_subexpressions, _loop_invariant_code_motion, _apply_insertions, _let",
       "term.py: Term.free_symbols, __eq__, hash", "phi/phi.py: map, subterms, captured_symbols, wrap_let, wrap_var, unwrap_let, unwrap_symbol, is_atom, is_loop of every term"]
SOA = ["midend/structs.py: struct_of_arrays_transform, _soa_transform_type", "midend/substitution.py: substitute"]
FRONT = ["frontend/comprehension.py: array, fold, _infer_sizes", "frontend/ndarray.py: operators, indexing, _to_array, _project_tuple", "frontend/layout.py: build_layout, fold_layout, map_layout", "frontend/std.py"]
SIZE = ["midend/size_classes.py: find_size_classes, update_size_classes, _update_size_classes, SizeEquivalence", "midend/equiv.py: Equivalence"]


def register():
    for s in range(SHARDS):
        CASES.case(f"lining-{s}", "C07", LIN)(lambda ctx, s=s: over(ctx, corpus("C07", "share", 1, 120), s, lining))
        CASES.case(f"lining-loops-{s}", "C07 C03", LIN)(lambda ctx, s=s: over(ctx, corpus("C03", "fold", 2, 60), s, lining))
        CASES.case(f"terms-{s}", "C07 C13", LIN)(lambda ctx, s=s: over(ctx, corpus("C07", "all", 1, 120), s, metadata))
        CASES.case(f"soa-{s}", "C06", SOA)(lambda ctx, s=s: over(ctx, corpus("C06", "record", 1, 90), s, soa))
        CASES.case(f"sizes-{s}", "C08", SIZE)(lambda ctx, s=s: over(ctx, corpus("C08", "size", 1, 120), s, sizes))
    for prop, theme, stride in (("C01", "comp", 20), ("C02", "index", 12), ("C03", "fold", 6), ("C04", "sum", 6), ("C05", "reduce", 3), ("C06", "record", 12), ("C08", "size", 3), ("C11", "scalar", 6)):
        for s in range(2):
            CASES.case(f"frontend-{theme}-{s}", prop, FRONT)(
                lambda ctx, s=s, prop=prop, theme=theme, stride=stride: over(ctx, corpus(prop, theme, max(1, stride // 4), 40), s, frontend, shards=2))


@CASES.case("equivalence", "C08", SIZE, bounded="5 elements (every state reachable by unite)")
def _(ctx):
    """The classes are exactly those of the reflexive, symmetric, transitive closure of what was united."""
    import copy
    import itertools

    E = need("ein.midend.equiv", "Equivalence")
    xs = [("e", k) for k in range(5)]

    def view(e):
        return frozenset(frozenset(e.find(x)) for x in xs)

    def merged(part, u, v):
        a, b = next(c for c in part if u in c), next(c for c in part if v in c)
        return part if a == b else (part - {a, b}) | {a | b}

    start = E()
    seen, todo = set(), [(start, frozenset(frozenset([x]) for x in xs))]
    while todo:
        e, part = todo.pop()
        key = repr(sorted((k, repr(v)) for k, v in vars(e).items()))
        if key in seen or len(seen) > 4000:
            continue
        seen.add(key)
        inner(ctx, view(e) == part, "find gives the class", lambda: f"{view(e)} instead of {part}")
        for u, v in itertools.product(xs, xs):
            same = any(u in c and v in c for c in part)
            inner(ctx, e.equiv(u, v) == same, "equiv", lambda: f"{u} {v} in {part}")
        for n in (0, 1, 3, 4):
            for us in itertools.islice(itertools.permutations(xs, n), 20):
                inner(ctx, e.equiv(*us) == any(set(us) <= c for c in part) or n == 0, "equiv of several", lambda: f"{us} in {part}")
        for u, v in itertools.product(xs, xs):
            f = copy.deepcopy(e)
            r = f.unite(u, v)
            inner(ctx, bool(r) == (not any(u in c and v in c for c in part)), "unite tells whether anything changed")
            todo.append((f, merged(part, u, v)))
    inner(ctx, len(seen) > 50, "states explored", str(len(seen)))


register()
