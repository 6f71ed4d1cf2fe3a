"""Loop cutting: verification conditions of loops, mechanically from the current source.

`cut(function, policy)` re-parses the source of a function of /repo on every run and replaces each
`for`/`while` statement by the usual three obligations of a loop invariant:

    entry          the invariant holds when the loop is reached
    preservation   from an arbitrary state that satisfies the invariant (every variable the loop
                   assigns is havocked) and the loop condition, one execution of the body
                   re-establishes the invariant
    exit           the code after the loop runs from an arbitrary state satisfying the invariant
                   and the negated condition

Nothing else of the function is changed: the statements, the nested functions and the calls are the
code that runs.  The policy object supplies the invariant (enter/havoc/check).  `break`, `continue`
and several loops are supported; a loop over a
Python sequence of known length (the components of a record, say) is executed as it is; `else` clauses on loops are not (Unsupported).
"""
from __future__ import annotations

import ast
import inspect
import textwrap

from .sym import Infeasible, Unsupported


class Cut(Infeasible):
    """End of the preservation path."""


def assigned(nodes):
    """Names a piece of code may rebind, not descending into nested scopes (but through nonlocal)."""
    out = set()

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_FunctionDef(self, n):
            out.add(n.name)

        visit_AsyncFunctionDef = visit_FunctionDef

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass

        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    for n in nodes:
        V().visit(n)
    return out


def nonlocals(fn):
    """Names that nested functions of fn rebind through nonlocal declarations."""
    out = set()
    for sub in ast.walk(fn):
        if isinstance(sub, (ast.FunctionDef, ast.Lambda)) and sub is not fn and isinstance(sub, ast.FunctionDef):
            declared = set()
            for s in ast.walk(sub):
                if isinstance(s, ast.Nonlocal):
                    declared |= set(s.names)
            out |= declared & assigned(sub.body)
    return out


class Cutter(ast.NodeTransformer):
    def __init__(self):
        self.count = 0
        self.extra = [set()]
        self.loops = []

    def visit_FunctionDef(self, node):
        self.extra.append(nonlocals(node))
        self.generic_visit(node)
        self.extra.pop()
        return node

    def _emit(self, node, names, pre, stop, bind, body):
        k = self.count
        self.count += 1
        lp = f"__lp{k}"
        names = sorted(names)
        self.loops.append((k, type(node).__name__, node.lineno, names))
        src = pre.format(lp=lp, k=k, names=names)
        head = ast.parse(textwrap.dedent(src)).body
        for n in names:
            head += ast.parse(f"if {lp}.has({n!r}):\n    {n} = {lp}.havoc({n!r})").body
        loop = ast.parse(f"while True:\n    {lp}.head(locals())\n    pass").body[0]
        loop.body = loop.body[:1] + stop(lp) + bind(lp) + body
        return head + [loop]

    def visit_While(self, node):
        if node.orelse:
            raise Unsupported("loop with an else clause")
        names = assigned(node.body) | assigned([ast.Expr(node.test)]) | self.extra[-1]
        self.generic_visit(node)

        def stop(lp):
            s = ast.parse("if not 0:\n    break").body[0]
            s.test = ast.UnaryOp(ast.Not(), node.test)
            return [s]

        return self._emit(node, names, "{lp} = __enter({k}, locals(), None, {names})", stop, lambda lp: [], node.body)

    def visit_For(self, node):
        if node.orelse:
            raise Unsupported("loop with an else clause")
        names = assigned(node.body) | assigned([node.target]) | self.extra[-1]
        self.generic_visit(node)
        it = f"__it{self.count}"
        pre_assign = ast.Assign([ast.Name(it, ast.Store())], node.iter)

        def stop(lp):
            return ast.parse(f"if not {lp}.more():\n    break").body

        def bind(lp):
            a = ast.parse(f"_ = {lp}.item()").body[0]
            a.targets = [node.target]
            return [a]

        out = self._emit(node, names, "{lp} = __enter({k}, locals(), " + it + ", {names})", stop, bind, node.body)
        # a sequence of known length is walked as it is
        known = ast.parse(f"if __concrete({it}):\n    pass").body[0]
        known.body = [ast.For(node.target, ast.Name(it, ast.Load()), node.body, [])]
        known.orelse = out
        return [pre_assign, known]


def cut(fn, enter, globals_=None):
    """The function with its loops cut; enter(loop number, locals, iterable, names) -> loop object."""
    fn = inspect.unwrap(fn)
    src = textwrap.dedent(inspect.getsource(fn))
    tree = ast.parse(src)
    if len(tree.body) != 1 or not isinstance(tree.body[0], ast.FunctionDef):
        raise Unsupported("not a plain function")
    tree.body[0].decorator_list = []
    c = Cutter()
    tree = ast.fix_missing_locations(c.visit(tree))
    env = dict(fn.__globals__)
    env.update(globals_ or {})
    env["__enter"] = enter
    env["__concrete"] = lambda it: isinstance(it, (tuple, list, set, frozenset, dict, range))
    if fn.__closure__:
        for name, cell in zip(fn.__code__.co_freevars, fn.__closure__):
            if name != "__class__":
                env[name] = cell.cell_contents
    exec(compile(tree, fn.__code__.co_filename, "exec"), env)
    return env[tree.body[0].name], c.loops
