"""Behaviour-preserving edits the checks have to stay quiet on (development tool).

  refactors.py GROUP...     applies the group's edits to a scratch copy, runs the repository's tests, then every obligation
"""
import json
import os
import shutil
import subprocess
import sys

PY = "/opt/venv/bin/python"
G = {}


def R(group, file, *edits):
    G.setdefault(group, []).append((file, edits))


# --- group a: code generation
R("a", "ein/codegen/phi_to_yarr.py",
  ("""    alphabet: dict[Index, str] = {}
    for index in itertools.chain(*operand_axes, result_axes):
        if index not in alphabet:
            alphabet[index] = ascii_lowercase[len(alphabet)]
    return (
        ",".join("".join(alphabet[index] for index in op) for op in operand_axes)
        + "->"
        + "".join(alphabet[index] for index in result_axes)
    )
""", """    operand_axes = list(operand_axes)
    names = iter(ascii_lowercase)
    alphabet: dict[Index, str] = {}
    for index in [*itertools.chain(*operand_axes), *result_axes]:
        alphabet.setdefault(index, "") or alphabet.update({index: next(names)})

    def label(axes) -> str:
        return "".join(map(alphabet.__getitem__, axes))

    return f"{','.join(map(label, operand_axes))}->{label(result_axes)}"
"""),
  ("""            case yarr.Transpose(permutation, target):
                if permutation == tuple(range(len(permutation))):
                    return go(target)
            case yarr.Unsqueeze(axes, target):
                if not axes:
                    return go(target)
            case yarr.Squeeze(axes, target):
                if not axes:
                    return go(target)
""", """            case yarr.Transpose(permutation, target) if all(
                i == j for i, j in enumerate(permutation)
            ):
                return go(target)
            case yarr.Unsqueeze((), target) | yarr.Squeeze((), target):
                return go(target)
"""),
  ("""            case phi.Concat(first_, second_):
                first = go(first_, index_sizes, var_axes)
                second = go(second_, index_sizes, var_axes)
                used_axes = axial._alignment(first._axes, second._axes)
                return Axial(
                    used_axes,
                    yarr.Concat(
                        tuple(
                            op.aligned(used_axes, repeats=index_sizes)
                            for op in (first, second)
                        ),
                        len(used_axes),
                    ),
                )
""", """            case phi.Concat(first_, second_):
                return concat_axial(
                    go(first_, index_sizes, var_axes),
                    go(second_, index_sizes, var_axes),
                    index_sizes,
                )
"""),
  ("""def cancel_shape_ops(program""", """def concat_axial(
    first: Axial, second: Axial, index_sizes: dict[Index, yarr.Expr]
) -> Axial:
    used_axes = axial._alignment(first._axes, second._axes)
    operands = []
    for op in (first, second):
        operands.append(op.aligned(used_axes, repeats=index_sizes))
    return Axial(used_axes, yarr.Concat(tuple(operands), len(used_axes)))


def cancel_shape_ops(program"""),
  ("""    for typ, kind in red.items():
        if isinstance(body, typ):
            first, second = body.operands
            # The reduced element has to be independent of the accumulator.
            if isinstance(first, phi.Store) and first.symbol == acc:
                return (second, kind) if acc not in second.free_symbols else None
            elif isinstance(second, phi.Store) and second.symbol == acc:
                return (first, kind) if acc not in first.free_symbols else None
    return None
""", """    kind = red.get(type(body))
    if kind is None:
        return None
    first, second = body.operands  # type: ignore
    for store, elem in ((first, second), (second, first)):
        if isinstance(store, phi.Store) and store.symbol == acc:
            # The reduced element has to be independent of the accumulator.
            return None if acc in elem.free_symbols else (elem, kind)
    return None
"""),
  ("""        return Dot(
            self.contract,
            tuple(
                tuple(e if i else phi.Negate((e,)) for i, e in enumerate(p))
                for p in self.products
            ),
        )
""", """        negated = []
        for head, *rest in self.products:
            negated.append((phi.Negate((head,)), *rest))
        return Dot(self.contract, tuple(negated))
"""))
R("a", "ein/codegen/axial.py",
  ("""    seen = []
    for axes in args:
        for axis in axes:
            if axis not in seen:
                seen.append(axis)
    return tuple(seen)
""", """    return tuple(dict.fromkeys(axis for axes in args for axis in axes))
"""),
  ("""    free_pi = [axes.index(axis) for axis in sorted(axes, key=into_axes.index)]
    pos_id = list(range(len(axes), expr.type.single.rank))
    expr = yarr.Transpose(tuple(free_pi + pos_id), expr)
    expands = [(i, axis) for i, axis in enumerate(into_axes) if axis not in axes]
    if not leftpad:
        while expands and not expands[0][0]:
            expands = [(x - 1, axis) for x, axis in expands[1:]]
    expanded_axes = tuple(i for i, _ in expands)
    expr = yarr.Unsqueeze(expanded_axes, expr)
    for i, axis in expands:
        if axis in repeats:
            expr = yarr.Repeat(i, repeats[axis], expr)
    return expr
""", """    rank = expr.type.single.rank
    if not leftpad:
        while into_axes and into_axes[0] not in axes:
            into_axes = into_axes[1:]
    order = [axes.index(axis) for axis in into_axes if axis in axes]
    expr = yarr.Transpose((*order, *range(len(axes), rank)), expr)
    missing = {i: axis for i, axis in enumerate(into_axes) if axis not in axes}
    expr = yarr.Unsqueeze(tuple(missing), expr)
    for i, axis in missing.items():
        size = repeats.get(axis)
        if size is not None:
            expr = yarr.Repeat(i, size, expr)
    return expr
"""),
  ("""            pi: list[int] = list(range(self.expr.type.single.rank))
            j -= 1
            pi[i], pi[j] = pi[j], pi[i]
            return Axial(
                tuple(self._axes[pi[i]] for i in range(len(self._axes) - 1)),
                yarr.Transpose(tuple(pi), self.expr),
            )
""", """            # move the axis behind the other free ones
            rest = [k for k in range(j) if k != i]
            positional = list(range(j, self.expr.type.single.rank))
            return Axial(
                tuple(self._axes[k] for k in rest),
                yarr.Transpose((*rest, i, *positional), self.expr),
            )
"""))
R("a", "ein/codegen/array_indexing.py",
  ("""    start = shift.max(low).min(high).max(zero)
    stop = ((shift + size - one).max(low).min(high) + one).min(start + size)
    left = (low - shift).min(size - one).max(zero)
    right = size - (stop - start) - left
""", """    def clipped(pos: Builder) -> Builder:
        return pos.max(low).min(high)

    start = zero.max(clipped(shift))
    last = clipped(shift + (size - one))
    stop = (start + size).min(last + one)
    left = zero.max((size - one).min(low - shift))
    right = size - left - (stop - start)
"""),
  ("""            return _first_opt(
                _clip_shift_min(first, second, symbol),
                _clip_shift_min(second, first, symbol),
            )
""", """            res = _clip_shift_min(first, second, symbol)
            if res is None:
                res = _clip_shift_min(second, first, symbol)
            return res
"""),
  ("""def general_get(target: Axial, item: Axial) -> Axial:
    axes = axial._alignment(item._axes, target._axes)
    k = len(axes)
    expr = yarr.Squeeze(
        (k,),
        yarr.Gather(
            k,
            target.aligned(axes),
            yarr.Unsqueeze(
                tuple(
                    range(
                        len(axes),
                        len(axes) + target.type.type.single.rank,
                    )
                ),
                item.aligned(axes),
            ),
        ),
    )
    return Axial(axes, expr)
""", """def general_get(target: Axial, item: Axial) -> Axial:
    axes = axial._alignment(target._axes, item._axes)
    k = len(axes)
    new_axes = tuple(k + d for d in range(target.type.type.single.rank))
    position = yarr.Unsqueeze(new_axes, item.aligned(axes))
    gathered = yarr.Gather(k, target.aligned(axes), position)
    return Axial(axes, yarr.Squeeze((k,), gathered))
"""))

# --- group b: midend
R("b", "ein/midend/lining.py",
  ("""    bindings = tuple(bindings)
    if not bindings:
        return body
    (var, bind), *bindings = bindings
    return _let(bindings, body).wrap_let(var, bind)
""", """    for var, bind in reversed(tuple(bindings)):
        body = body.wrap_let(var, bind)
    return body
"""),
  ("""    def build(expr: Term) -> None:
        if expr in graph:
            return
        graph.add_node(expr)
        for sub in expr.subterms:
            build(sub)
            graph.add_edge(expr, sub)
        order.append(expr)

    build(program)
""", """    stack = [(program, iter(program.subterms))]
    graph.add_node(program)
    while stack:
        expr, subs = stack[-1]
        sub = next(subs, None)
        if sub is None:
            order.append(expr)
            stack.pop()
            continue
        if sub not in graph:
            graph.add_node(sub)
            stack.append((sub, iter(sub.subterms)))
        graph.add_edge(expr, sub)

"""),
  ("""        let_tuple = expr.unwrap_let()
        if let_tuple is not None:
            var, bind, body = let_tuple
            if predicate(bind):
                return go(body, bound | {var: go(bind, bound)})
        symbol = expr.unwrap_symbol()
        if isinstance(symbol, Variable) and symbol is not None and symbol in bound:
            return bound[symbol]
        return expr.map(lambda e: go(e, bound))
""", """        symbol = expr.unwrap_symbol()
        if isinstance(symbol, Variable):
            return bound.get(symbol, expr)
        unwrapped = expr.unwrap_let()
        if unwrapped is None or not predicate(unwrapped[1]):
            return expr.map(lambda e: go(e, bound))
        var, bind, body = unwrapped
        inner = dict(bound)
        inner[var] = go(bind, bound)
        return go(body, inner)
"""))
R("b", "ein/midend/size_classes.py",
  ("""    while True:
        got = set()
        for i, (required, obtained) in enumerate(trigger):
            if sizes.equiv(*required):
                sizes.unite(next(iter(required)), obtained)
                got.add(i)
        if not got:
            break
        trigger = [x for i, x in enumerate(trigger) if i not in got]
""", """    changed = True
    while changed:
        changed, pending = False, []
        for required, obtained in trigger:
            if not sizes.equiv(*required):
                pending.append((required, obtained))
                continue
            sizes.unite(next(iter(required)), obtained)
            changed = True
        trigger = pending
"""),
  ("""                    triangle = [
                        phi.Dim(phi.Store(acc, init.type), axis),
                        phi.Dim(body, axis),
                        phi.Dim(init, axis),
                    ]
                    for i in range(3):
                        trigger.append(
                            (
                                {triangle[i], triangle[(i + 1) % 3]},
                                triangle[(i + 2) % 3],
                            )
                        )
""", """                    triangle = [
                        phi.Dim(init, axis),
                        phi.Dim(phi.Store(acc, init.type), axis),
                        phi.Dim(body, axis),
                    ]
                    for missing in triangle:
                        others = {d for d in triangle if d is not missing}
                        trigger.append((others, missing))
"""))
R("b", "ein/midend/equiv.py",
  ("""        if len(args) <= 1:
            return True
        u = self._get_parent(args[0])
        for v in args[1:]:
            if u != self._get_parent(v):
                return False
        return True
""", """        return len({self._get_parent(arg) for arg in args}) <= 1
"""),
  ("""        if len(self.find(u)) > len(self.find(v)):
            u, v = v, u
        self._classes.setdefault(v, {v})
        for w in self._classes.pop(u, {u}):
            self._parent[w] = v
            self._classes[v].add(w)
        return True""", """        if len(self.find(v)) < len(self.find(u)):
            u, v = v, u
        smaller = self._classes.pop(u, {u})
        larger = self._classes.setdefault(v, {v})
        self._parent.update(dict.fromkeys(smaller, v))
        larger |= smaller
        return True"""))
R("b", "ein/midend/structs.py",
  ("""            case First(Cons(first, _second)):
                return elim(first)
            case Second(Cons(_first, second)):
                return elim(second)
            case Cons(First(p), Second(p_)) if p == p_:
                return elim(p)
        return expr
""", """            case Cons(First(p), Second(p_)):
                return elim(p) if p == p_ else expr
            case First(Cons(part, _)) | Second(Cons(_, part)):
                return elim(part)
        return expr
"""),
  ("""                    i, j = Index(), Index()
                    body1 = cast(Expr, substitute(First(body), {index: at(i)}))
                    body2 = cast(Expr, substitute(Second(body), {index: at(j)}))
                    return Cons(go(Vec(i, size, body1)), go(Vec(j, size, body2)))
""", """                    parts = []
                    for project in (First, Second):
                        k = Index()
                        part = cast(Expr, substitute(project(body), {index: at(k)}))
                        parts.append(go(Vec(k, size, part)))
                    return Cons(*parts)
"""))
R("b", "ein/midend/substitution.py",
  ("""        if not t.free_symbols & relevant_symbols:
            return t
        symbol = t.unwrap_symbol()
        if symbol is not None and symbol in subs:
            return subs[symbol]
        return t.map(go)
""", """        if t.free_symbols.isdisjoint(relevant_symbols):
            return t
        symbol = t.unwrap_symbol()
        return t.map(go) if symbol is None else subs.get(symbol, t)
"""))

# --- group c: backends
R("c", "ein/backend/array_backend.py",
  ("""            acc, n = init(env), max(int(count(env)), 0)
            for i in range(n):
                env[acc_var] = acc
                env[index_var] = self.constant(Value(numpy.array(i)))
                acc = body(env)
            if n:
                del env[acc_var], env[index_var]
            return acc
""", """            acc = init(env)
            n = int(count(env))
            i = 0
            while i < n:
                env[index_var] = self.constant(Value(numpy.array(i)))
                env[acc_var] = acc
                acc = body(env)
                i += 1
            env.pop(acc_var, None)
            env.pop(index_var, None)
            return acc
"""),
  ("""            while n > 1:
                if n % 2:
                    acc = get(idx([-1]), acc)
                vals = get(idx(slice(None, -1, 2)), idx(slice(1, None, 2)))
                n //= 2
            if n:
                acc = get(idx([0]), acc)
                del env[x], env[y]
""", """            remaining = n
            while remaining > 1:
                half, odd = divmod(remaining, 2)
                if odd:
                    acc = get(idx(slice(-1, None)), acc)
                evens, odds = idx(slice(0, 2 * half, 2)), idx(slice(1, 2 * half, 2))
                vals = get(evens, odds)
                remaining = half
            if remaining == 1:
                acc = get(vals, acc)
            for var in (x, y):
                env.pop(var, None)
"""),
  ("""                def with_let(env):
                    bound = bind(env)
                    env[var] = (
                        tuple(map(self.preprocess_bound, bound))
                        if isinstance(bound, tuple)
                        else self.preprocess_bound(bound)
                    )
                    del bound
                    ret = body(env)
                    del env[var]
                    return ret
""", """                def with_let(env):
                    env[var] = self._preprocess(bind(env))
                    try:
                        return body(env)
                    finally:
                        del env[var]
"""),
  ("""    def stage(
        self,
        expr: yarr.Expr,""", """    def _preprocess(self, bound):
        if isinstance(bound, tuple):
            return tuple(self.preprocess_bound(b) for b in bound)
        return self.preprocess_bound(bound)

    def stage(
        self,
        expr: yarr.Expr,"""))
R("c", "ein/backend/numpy_backend.py",
  ("""        SLICE_NONE = slice(None)
        it: Any = (
            numpy.clip(item, 0, dim - 1) if item is not None else SLICE_NONE
            for dim, item in zip(target.shape, items)
        )
        return target[*it]
""", """        indexer: list[Any] = [slice(None)] * target.ndim
        for axis, item in enumerate(items):
            if item is not None:
                indexer[axis] = numpy.minimum(
                    numpy.maximum(item, 0), target.shape[axis] - 1
                )
        return target[tuple(indexer)]
"""),
  ("""        return numpy.transpose(target, permutation)""", """        return target.transpose(permutation)"""),
  ("""        return numpy.squeeze(target, axes)""", """        return target.squeeze(axis=axes)"""),
  ("""        return numpy.array(target.shape[axis])""", """        return numpy.asarray(target.shape[axis], dtype=numpy.int64)"""),
  ("""                if inplace == 0:

                    def call_to_first(env: Env) -> numpy.ndarray:
                        out = first(env)
                        return call(out, second(env), out=out)

                    return call_to_first
                elif inplace == 1:

                    def call_to_second(env: Env) -> numpy.ndarray:
                        out = second(env)
                        return call(first(env), out, out=out)

                    return call_to_second
                return lambda env: call(first(env), second(env))
""", """
                def call_binary(env: Env) -> numpy.ndarray:
                    args = first(env), second(env)
                    if inplace is None:
                        return call(*args)
                    return call(*args, out=args[inplace])

                return call_binary
"""),
  ("""    if sum(lt + rt for lt, rt in pads) == 0:
        return target.copy()
""", """    if not any(lt or rt for lt, rt in pads):
        return numpy.array(target)
"""))
R("c", "ein/backend/torch_backend.py",
  ("""        SLICE_NONE = slice(None)
        it = (
            torch.clip(item, 0, dim - 1) if item is not None else SLICE_NONE
            for dim, item in zip(target.shape, items)
        )
        return target[*it]
""", """        it: list[Any] = []
        for axis, item in enumerate(items):
            if item is None:
                it.append(slice(None))
            else:
                it.append(torch.clamp(item, min=0, max=target.shape[axis] - 1))
        return target[tuple(it)]
"""),
  ("""        return target.permute(permutation)""", """        return torch.permute(target, permutation)"""),
  ("""        return torch.concat(args, dim=axis)""", """        return torch.cat(args, dim=axis)"""),
  ("""        return torch.repeat_interleave(target, int(count), axis)""", """        return target.repeat_interleave(int(count), dim=axis)"""))
R("c", "ein/backend/jax_backend.py",
  ("""            def jax_body(i, acc):
                env[acc_var] = acc
                env[index_var] = i
                # Sizes have to stay known when tracing the loop, as outside of it
                with jax.ensure_compile_time_eval():
                    ret = body(env)
                del env[acc_var], env[index_var]
                return ret

            return jax.lax.fori_loop(0, jnp.maximum(count(env), 0), jax_body, init(env))
""", """            def jax_body(i, acc):
                inner = {**env, acc_var: acc, index_var: i}
                # Sizes have to stay known when tracing the loop, as outside of it
                with jax.ensure_compile_time_eval():
                    return body(inner)

            start = init(env)
            n = jnp.maximum(count(env), 0)
            return jax.lax.fori_loop(0, n, jax_body, start)
"""),
  ("""            jnp.clip(item, 0, dim - 1) if item is not None else SLICE_NONE""", """            SLICE_NONE if item is None else jnp.clip(item, 0, dim - 1)"""))
R("c", "ein/backend/naive.py",
  ("""            n = max(int(_interpret(size, env).array), 0)
            env[acc_v] = _interpret(init, env)
            for i in range(n):
                env[counter] = Value(numpy.array(i))
                env[acc_v] = _interpret(body, env)
            if n:
                del env[counter]
            return env.pop(acc_v)
""", """            acc = _interpret(init, env)
            for i in range(int(_interpret(size, env).array)):
                inner = env | {counter: Value(numpy.array(i)), acc_v: acc}
                acc = _interpret(body, inner)
            return acc
"""),
  ("""            return Value(numpy.take(tt, it, axis=0, mode="clip"))""", """            return Value(tt[numpy.clip(it, 0, tt.shape[0] - 1)])"""))

# --- group d: frontend, terms, values, types
R("d", "ein/frontend/functions.py",
  ("""        types = self._types_from_args(*args)
        key = (types, backend)
        if key not in self._staged:
            varargs, expr = self.phi(*types)
            self._staged[key] = (varargs, STAGE_BACKENDS[backend](expr))
        varargs, call = self._staged[key]
        return call({var: arg for var, arg in zip(varargs, args)})
""", """        varargs, call = self._stage(self._types_from_args(*args), backend)
        return call(dict(zip(varargs, args)))

    def _stage(self, types: tuple[Type, ...], backend: Backend):
        staged = self._staged.get((types, backend))
        if staged is None:
            varargs, expr = self.phi(*types)
            staged = varargs, STAGE_BACKENDS[backend](expr)
            self._staged[(types, backend)] = staged
        return staged
"""))
R("d", "ein/frontend/comprehension.py",
  ("""            shape_expr: Expr
            shape_expr, *_ = candidates
            re_candidates = []
            for candy in candidates:
                if candy not in re_candidates:
                    re_candidates.append(candy)
            candidates = re_candidates
            size_of[index] = (
                phi.AssertEq(shape_expr, tuple(candidates))
                if len(candidates) > 1
                else shape_expr
            )
""", """            candidates = list(dict.fromkeys(candidates))
            shape_expr: Expr = candidates[0]
            if len(candidates) > 1:
                shape_expr = phi.AssertEq(shape_expr, tuple(candidates))
            size_of[index] = shape_expr
"""),
  ("""    for index in reversed(indices):
        body = phi.Vec(index, size_of[index], body)
        layout = VecLayout(layout)
    return _to_array(body, layout)
""", """    remaining = list(indices)
    while remaining:
        index = remaining.pop()
        layout, body = VecLayout(layout), phi.Vec(index, size_of[index], body)
    return _to_array(body, layout)
"""))
R("d", "ein/frontend/layout.py",
  ("""    def reduce(xs):
        return xs[0] if len(xs) == 1 else merge(xs[0], reduce(xs[1:]))
""", """    def reduce(xs):
        *init, result = xs
        for x in reversed(init):
            result = merge(x, result)
        return result
"""),
  ("""            tuple(
                (field.name, build_layout(getattr(obj, field.name), f))
                for field in fields(obj)
            ),
            type(obj),
""", """            tuple(
                (name, build_layout(getattr(obj, name), f))
                for name in (field.name for field in fields(obj))
            ),
            tag=type(obj),
"""))
R("d", "ein/frontend/ndarray.py",
  ("""            def go(k: int) -> Scalar:
                if k == 1:
                    return self
                elif k % 2:
                    return go(k - 1) * self
                sub = go(k // 2)
                return sub * sub

            return go(power)
""", """            result, square = None, self
            while True:
                if power & 1:
                    result = square if result is None else result * square
                power >>= 1
                if not power:
                    return result
                square = square * square
"""),
  ("""        return (-self) + other
""", """        return cast(Scalar, wrap(other)) - self
"""),
  ("""        zero = 0 if self.expr.type == ScalarType(int) else 0.0
        return (self > zero).where(self, -self)
""", """        if self.expr.type == ScalarType(int):
            zero: ScalarLike = 0
        else:
            zero = 0.0
        return (self <= zero).where(-self, self)
"""),
  ("""    for _ in range(i):
        expr = phi.Second(expr)
    return phi.First(expr) if i + 1 < n else expr
""", """    last = i + 1 == n
    while i:
        expr, i = phi.Second(expr), i - 1
    return expr if last else phi.First(expr)
"""))
R("d", "ein/frontend/std.py",
  ("""    return arg.concat(concat(*args)) if args else arg
""", """    result = arg
    for other in args:
        result = result.concat(other)
    return result
"""))
R("d", "ein/value.py",
  ("""            if (self.value.size, self.value.dtype) != (
                other.value.size,
                other.value.dtype,
            ):
                return False
            if _data_is_small(self.value):
                return numpy.array_equal(self.value, other.value, equal_nan=True)
            return self is other
""", """            if self.value.shape != other.value.shape:
                return False
            if self.value.dtype != other.value.dtype:
                return False
            if not _data_is_small(self.value):
                return self is other
            return self.value.tobytes() == other.value.tobytes()
"""),
  ("""            return hash((self.value.dtype, self.value.data.tobytes()))""", """            array = self.value
            return hash((array.shape, str(array.dtype), array.tobytes()))"""))
R("d", "ein/term.py",
  ("""        if type(self) != type(other):
            return False
        if self.hash != other.hash:
            return False
        if self is other:
            return True
        return self._fields == other._fields
""", """        if self is other:
            return True
        if type(self) is not type(other) or self.hash != other.hash:
            return False
        return all(a == b for (_, a), (_, b) in zip(self._fields, other._fields))
"""),
  ("""        free = set().union(*(sub.free_symbols for sub in self.subterms))
        return (_maybe_set(self.unwrap_symbol()) | free) - self.captured_symbols
""", """        free = _maybe_set(self.unwrap_symbol())
        for sub in self.subterms:
            free |= sub.free_symbols
        return free - self.captured_symbols
"""))
R("d", "ein/phi/type_system.py",
  ("""    return Vector(ndarray_type(rank - 1, type_)) if rank else scalar_type(type_)
""", """    result: Type = scalar_type(type_)
    for _ in range(rank):
        result = Vector(result)
    return result
"""))

if __name__ == "__main__":
    for g in sys.argv[1:] or sorted(G):
        copy = f"/tmp/refactor/{g}"
        shutil.rmtree(copy, ignore_errors=True)
        os.makedirs("/tmp/refactor", exist_ok=True)
        subprocess.run(["cp", "-a", "/repo", copy], check=True)
        for file, edits in G[g]:
            text = open(f"{copy}/{file}").read()
            for old, new in edits:
                if text.count(old) != 1:
                    sys.exit(f"{g} {file}: matches {text.count(old)} times: {old[:60]!r}")
                text = text.replace(old, new)
            open(f"{copy}/{file}", "w").write(text)
        env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", JAX_PLATFORMS="cpu", OMP_NUM_THREADS="2")
        r = subprocess.run([PY, "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "-x"], cwd=copy, env=env, capture_output=True, text=True)
        print(g, "tests:", r.stdout.strip().splitlines()[-1], flush=True)
        if r.returncode:
            print(r.stdout[-1500:])
            continue
        r = subprocess.run([PY, "/verif/dev/allcheck.py"], env=dict(env, EINV_REPO=copy, EINV_ALL_S="1500", EINV_ALL_KEEP="1"), capture_output=True, text=True)
        print(g, r.stdout[-3000:], r.stderr[-500:] if r.returncode else "", flush=True)
