"""Development tool: shrinks the source of a generated program while `crit` (the text of the failure) stays.

usage: shrink.py THEME NUMBER CRIT [BACKEND]   Not used by any check."""
import ast, copy, os, sys
sys.path.insert(0, "/verif")
import einv.boot  # noqa
import numpy
from einv import runner
from einv.core import concrete_check

theme, number, crit = sys.argv[1], int(sys.argv[2]), sys.argv[3]
back = sys.argv[4] if len(sys.argv) > 4 else "numpy"
p = runner.gen_program(theme, number)


ARRAYS = list(runner.samples_for(p, numpy.random.default_rng([1, number]), 3))


def fails(src):
    q = copy.copy(p)
    q.src, q._fn = src, None
    for arrays in ARRAYS:
        try:
            r = concrete_check(q, arrays, back, "staged")
        except Exception as e:
            r = f"spec {type(e).__name__}: {e}"
        if r and crit in str(r):
            return True
    return False


def variants(tree):
    nodes = [n for n in ast.walk(tree) if isinstance(n, ast.expr)]
    for i, n in enumerate(nodes):
        if i == 0:
            continue
        subs = [c for c in ast.walk(n) if isinstance(c, ast.expr) and c is not n][:12]
        for s in subs + [ast.Constant(1), ast.Constant(0.5)]:
            if isinstance(n, ast.Constant) or (isinstance(s, ast.Constant) and isinstance(n, ast.Name)):
                continue
            yield i, s


def replace(tree, i, s):
    t = copy.deepcopy(tree)
    nodes = [n for n in ast.walk(t) if isinstance(n, ast.expr)]
    target = nodes[i]

    class R(ast.NodeTransformer):
        def generic_visit(self, n):
            if n is target:
                return copy.deepcopy(s)
            return super().generic_visit(n)

        def visit(self, n):
            if n is target:
                return copy.deepcopy(s)
            return super().visit(n)
    return ast.fix_missing_locations(R().visit(t))


src = p.src
print(p.args if hasattr(p, "args") else "", fails(src), flush=True)
tree = ast.parse(src, mode="eval")
progress = True
while progress:
    progress = False
    for i, s in variants(tree):
        try:
            t = replace(tree, i, s)
            u = ast.unparse(t)
        except Exception:
            continue
        if len(u) < len(ast.unparse(tree)) and fails(u):
            tree = ast.parse(u, mode="eval")
            print(len(u), flush=True)
            progress = True
            break
print(ast.unparse(tree))
