"""Mutation testing of the checks (development tool).

  mutate.py gen N SEED OUT.json            sample mutants of /repo/ein, keep those that pass the repo's tests
  mutate.py eval IN.json OUT.json          run all the obligations against each survivor
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

REPO = "/repo"
SKIP = ("debug/", "__init__.py", "typed.py")
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.FloorDiv: "*", ast.Mod: "//", ast.BitOr: "&", ast.BitAnd: "|", ast.Div: "*", ast.Pow: "*"}
SWAP = {"first": "second", "second": "first", "min": "max", "max": "min", "Minimum": "Maximum", "minimum": "maximum", "maximum": "minimum", "any": "all", "all": "any",
        "left": "right", "union": "intersection", "free_indices": "free_symbols", "zeros": "ones", "First": "Second", "Second": "First", "sorted": "list", "sum": "max",
        "fst": "snd", "snd": "fst", "i": "j", "j": "i", "x": "y", "y": "x", "low": "high", "high": "low", "body1": "body2", "init": "body", "l": "r"}


def offsets(src):
    o = [0]
    for line in src.splitlines(keepends=True):
        o.append(o[-1] + len(line.encode()))
    return o


def mutants(path):
    src = open(path).read()
    raw = src.encode()
    off = offsets(src)
    tree = ast.parse(src)

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()

    out = []

    def rep(n, new, kind):
        a, b = span(n)
        out.append((a, b, new, kind, n.lineno))

    ann = set()
    for n in ast.walk(tree):
        for f in ("annotation", "returns"):
            x = getattr(n, f, None)
            if isinstance(x, ast.AST):
                ann |= {id(y) for y in ast.walk(x)}
        if isinstance(n, (ast.Assert,)):
            ann |= {id(y) for y in ast.walk(n)}
        if isinstance(n, ast.Raise):
            ann |= {id(y) for y in ast.walk(n)}
        if isinstance(n, (ast.FunctionDef,)) and n.name in ("__str__", "__repr__", "debug", "_ipython_display_", "_field_info", "with_default_info"):
            ann |= {id(y) for y in ast.walk(n)}
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            ann |= {id(y) for y in ast.walk(n)}
    for n in ast.walk(tree):
        if id(n) in ann:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            rep(n, f"({text(n.left)} {CMP[type(n.ops[0])]} {text(n.comparators[0])})", "cmp")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            rep(n, f"({text(n.left)} {BIN[type(n.op)]} {text(n.right)})", "bin")
            if isinstance(n.op, (ast.Sub, ast.FloorDiv, ast.Mod)):
                rep(n, f"({text(n.right)} {text(n)[len(text(n.left)):len(text(n)) - len(text(n.right))].strip()} {text(n.left)})", "swapbin")
            rep(n, text(n.left), "dropright")
        elif isinstance(n, ast.BoolOp):
            rep(n, "(" + (" or " if isinstance(n.op, ast.And) else " and ").join(text(v) for v in n.values) + ")", "bool")
            for v in n.values:
                rep(n, "(" + text(v) + ")", "dropcond")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            rep(n, f"({text(n.operand)})", "unary")
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            rep(n, str(n.value + 1), "const")
            if n.value > 0:
                rep(n, str(n.value - 1), "const")
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            rep(n, str(not n.value), "const")
        elif isinstance(n, (ast.If, ast.While)):
            rep(n.test, "True" if isinstance(n, ast.If) else "False", "iftrue")
            rep(n.test, "False", "iffalse")
        elif isinstance(n, ast.IfExp):
            rep(n, f"({text(n.body)})", "ifexp")
            rep(n, f"({text(n.orelse)})", "ifexp")
        elif isinstance(n, ast.match_case):
            if n.guard is not None and id(n.guard) not in ann:
                rep(n.guard, "True", "guard")
                rep(n.guard, "False", "guard")
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                for k in range(len(n.args) - 1):
                    a, b = n.args[k], n.args[k + 1]
                    s, e = span(a)[0], span(b)[1]
                    mid = raw[span(a)[1]:span(b)[0]].decode()
                    out.append((s, e, text(b) + mid + text(a), "swapargs", n.lineno))
            for kw in n.keywords:
                if isinstance(kw.value, ast.Constant) and type(kw.value.value) is bool:
                    pass
        elif isinstance(n, (ast.Tuple, ast.List)) and len(n.elts) >= 2 and isinstance(n.ctx, ast.Load):
            if not any(isinstance(a, ast.Starred) for a in n.elts):
                a, b = n.elts[0], n.elts[1]
                s, e = span(a)[0], span(b)[1]
                out.append((s, e, text(b) + raw[span(a)[1]:span(b)[0]].decode() + text(a), "swapelts", n.lineno))
        elif isinstance(n, ast.Attribute) and n.attr in SWAP and isinstance(n.ctx, ast.Load):
            rep(n, text(n.value) + "." + SWAP[n.attr], "attr")
        elif isinstance(n, ast.Name) and n.id in SWAP and isinstance(n.ctx, ast.Load):
            rep(n, SWAP[n.id], "name")
        elif isinstance(n, ast.Slice):
            if n.lower is not None and n.upper is None:
                rep(n, ":", "slice")
            if n.upper is not None and n.lower is None:
                rep(n, ":", "slice")
        elif isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for g in n.generators:
                for c in g.ifs:
                    rep(c, "True", "compif")
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and not (isinstance(n.value.func, ast.Name) and n.value.func.id == "assert_never"):
            rep(n, "pass", "dropstmt")
        elif isinstance(n, ast.AugAssign):
            rep(n, "pass", "dropstmt")
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Call) and n.value.args:
            rep(n.value, text(n.value.args[0]), "dropcall")
        elif isinstance(n, ast.Return) and isinstance(n.value, ast.Call) and n.value.args and not isinstance(n.value.args[0], ast.Starred):
            rep(n.value, text(n.value.args[0]), "dropcall")
        elif isinstance(n, ast.Delete):
            rep(n, "pass", "dropstmt")
    res = []
    for a, b, new, kind, line in out:
        new_src = (raw[:a] + new.encode() + raw[b:]).decode()
        if new_src == src:
            continue
        try:
            if ast.dump(ast.parse(new_src)) == ast.dump(tree):
                continue
        except SyntaxError:
            continue
        res.append(dict(kind=kind, line=line, old=raw[a:b].decode()[:120], new=new[:120], src=new_src))
    return res


ENV = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", JAX_PLATFORMS="cpu", OMP_NUM_THREADS="1", XLA_FLAGS="--xla_cpu_multi_thread_eigen=false")


def copies(n):
    out = []
    for k in range(n):
        d = f"/tmp/mut/w{k}"
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(REPO, d, ignore=shutil.ignore_patterns(".git", "__pycache__"))
        out.append(d)
    return out


def cmd_gen(n, seed, outp):
    files = []
    for r, _, fs in os.walk(REPO + "/ein"):
        for f in fs:
            p = os.path.join(r, f)
            rel = os.path.relpath(p, REPO + "/ein")
            if f.endswith(".py") and not any(s in rel for s in SKIP):
                files.append(p)
    pool = []
    for f in sorted(files):
        for m in mutants(f):
            m["file"] = os.path.relpath(f, REPO)
            pool.append(m)
    print(len(pool), "mutants in total")
    random.Random(seed).shuffle(pool)
    pool = pool[:n]
    ws = copies(8)
    import queue
    q = queue.Queue()
    for w in ws:
        q.put(w)
    kept = []

    def one(m):
        w = q.get()
        p = os.path.join(w, m["file"])
        orig = open(p).read()
        try:
            open(p, "w").write(m["src"])
            r = subprocess.run([sys.executable, "-m", "pytest", "tests", "-q", "-x", "-p", "no:cacheprovider", "--timeout=120"], cwd=w,
                               env=dict(ENV, PYTHONPATH=w), capture_output=True, text=True, timeout=400)
            ok = r.returncode == 0
        except subprocess.TimeoutExpired:
            ok = False
        finally:
            open(p, "w").write(orig)
            q.put(w)
        if ok:
            kept.append(m)
            print("survives", m["file"], m["line"], m["kind"], repr(m["old"][:60]), "->", repr(m["new"][:60]), flush=True)

    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, pool))
    json.dump(kept, open(outp, "w"))
    print(len(kept), "of", len(pool), "survive")


def cmd_eval(inp, outp):
    ms = json.load(open(inp))
    (w,) = copies(1)
    res = []
    for k, m in enumerate(ms):
        p = os.path.join(w, m["file"])
        orig = open(p).read()
        try:
            open(p, "w").write(m["src"])
            r = subprocess.run([sys.executable, "/verif/dev/allcheck.py"], env=dict(ENV, EINV_REPO=w), capture_output=True, text=True, timeout=900)
            last = [ln for ln in r.stdout.splitlines() if ln.startswith("ALL")]
            m["result"] = last[-1] if last else "ALL crash " + r.stderr[-300:]
        except subprocess.TimeoutExpired:
            m["result"] = "ALL timeout"
        finally:
            open(p, "w").write(orig)
        print(k, m["file"], m["line"], m["kind"], repr(m["old"][:60]), "->", repr(m["new"][:60]), "::", m["result"][:200], flush=True)
        res.append(m)
        json.dump([{k: v for k, v in x.items() if k != "src"} for x in res], open(outp, "w"), indent=0)


if __name__ == "__main__":
    if sys.argv[1] == "gen":
        cmd_gen(int(sys.argv[2]), int(sys.argv[3]), sys.argv[4])
    else:
        cmd_eval(sys.argv[2], sys.argv[3])
