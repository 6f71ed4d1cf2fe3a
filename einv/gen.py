"""Term skeletons from a grammar: the typed surface language, enumerated pseudo-randomly (deterministic
in (theme, number)).  Each is used like the hand-written skeletons of einv.programs."""
from __future__ import annotations

import random

from .core import Program

ARGS = [("a", "f[n]"), ("b", "f[m]"), ("c", "f[n,m]"), ("d", "i[n]"), ("e", "b[n]"), ("s", "f"), ("k", "i"), ("h", "f[m,n,l]"), ("g", "i[m]")]
SIZES = {"a": ["a.size()"], "b": ["b.size()"], "c": ["c.size(0)", "c.size(1)"], "d": ["d.size()"], "e": ["e.size()"],
         "h": ["h.size(0)", "h.size(1)", "h.size(2)"], "g": ["g.size()"]}
KIND = {"a": ("f", 1), "b": ("f", 1), "c": ("f", 2), "d": ("i", 1), "e": ("b", 1), "s": ("f", 0), "k": ("i", 0), "h": ("f", 3), "g": ("i", 1)}

THEMES = {
    "comp": dict(array=4, get=3, share=1, concat=2),
    "index": dict(array=4, get=6, idx=4, concat=1),
    "fold": dict(fold=6, array=2, get=2, sum=1, share=1),
    "sum": dict(sum=8, array=3, get=3, arith=3),
    "reduce": dict(reduce=8, array=3, get=2),
    "record": dict(record=8, array=3, fold=2, reduce=2, share=1, get=2),
    "share": dict(share=8, array=3, fold=3, get=2, sum=2, reduce=1),
    "size": dict(array=5, get=5, infer=6, idx=3, concat=2, sum=2),
    "scalar": dict(arith=6, unary=4, where=4, array=1, get=1, cast=2),
    "temp": dict(arith=6, array=4, get=3, unary=3, fold=2, share=3, cast=1),
    "const": dict(const=6, array=3, get=3, share=2, fold=1),
    "ext": dict(ext=7, array=4, get=3, fold=1),
    "dots": dict(dots=1),
    "steps": dict(steps=1),
    "combs": dict(combs=1),
    "all": dict(array=3, get=3, fold=2, reduce=2, sum=3, record=2, share=2, where=1, concat=1, infer=1, idx=1, const=1),
}


class Gen:
    def __init__(self, theme, number, *, dynamic=True, jaxable=True):
        self.rnd = random.Random(f"{theme}/{number}")
        self.theme = THEMES[theme]
        self.w = lambda k: self.theme.get(k, 0.4)
        self.scope = []  # (source, kind, rank, is_index)
        self.count = 0
        self.jax = True
        self.loops = False
        self.nodes = 0
        self.ext_used = False
        r = self.rnd
        pool = ARGS[:]
        r.shuffle(pool)
        self.args = [x for x in ARGS if x in pool[: r.randint(2, 4)]]
        if not any("[" in t for _, t in self.args):
            self.args = [ARGS[0]] + self.args
        for n, t in self.args:
            self.scope.append((n, *KIND[n], False))
        self.sizes = [s for n, _ in self.args for s in SIZES.get(n, [])]
        self.axes = {}

    def fresh(self, p):
        self.count += 1
        return f"{p}{self.count}"

    def pick(self, options):
        """options: [(weight, thunk)]"""
        options = [o for o in options if o[0] > 0]
        total = sum(o[0] for o in options)
        x = self.rnd.random() * total
        for w, f in options:
            x -= w
            if x <= 0:
                return f()
        return options[-1][1]()

    # ---------------------------------------------------------------- sizes and counts
    def size(self):
        r = self.rnd
        c = r.random()
        if c < 0.62 and self.sizes:
            return r.choice(self.sizes)
        if c < 0.9 or ("k", "i") not in self.args:
            return str(r.choice([0, 1, 2, 2, 3, 3, 4]))
        self.jax = False
        return r.choice(["ns.std.max(k, 0)", "ns.std.min(ns.std.max(k, 1), 3)"])

    def loop_count(self):
        r = self.rnd
        self.loops = True
        c = r.random()
        if c < 0.5 and self.sizes:
            return r.choice(self.sizes)
        if c < 0.92 or ("k", "i") not in self.args:
            return str(r.choice([0, 1, 2, 3, 3]))
        return "ns.std.min(k, 3)"

    def with_scope(self, entries, f):
        n = len(self.scope)
        self.scope += entries
        try:
            return f()
        finally:
            del self.scope[n:]

    def leaf_vars(self, kind, rank):
        return [s for s, k, q, _ in self.scope if k == kind and q == rank]

    # ---------------------------------------------------------------- expressions
    def expr(self, kind, rank, d):
        self.nodes += 1
        if self.nodes > 60:
            d = 0
        if rank:
            return self.vec(kind, rank, d)
        return {"f": self.flt, "i": self.int, "b": self.boo}[kind](d)

    def idx(self, d):
        """An index expression: mostly small variations on the indices in scope."""
        r = self.rnd
        ix = [s for s, k, q, i in self.scope if i]
        c = r.random()
        vs = [s for s, k, q, i in self.scope if k == "i" and not q and not i and s not in [n for n, _ in self.args]]
        if ix and vs and r.random() < 0.3:  # bounds and shifts that might depend on other indices
            i, v, w = r.choice(ix), r.choice(vs), r.choice(vs + ["1"])
            return r.choice([f"{i} + {v}", f"{i} - {v}", f"{i}.min({v})", f"{i}.max({v})", f"({i} + {v}).max({w})", f"({i} + 1).min({v}).max({w})", f"{v} - {i}", f"{v} % 3", v])
        if ix and c < 0.55:
            return r.choice(ix)
        if ix and c < 0.55 + 0.12 * self.w("idx"):
            i = r.choice(ix)
            o = r.choice(ix)
            n = r.choice(self.sizes) if self.sizes else "3"
            return r.choice([f"{i} + 1", f"{i} - 1", f"{i} + 2", f"{i} - {o}", f"{i} + {o}", f"{n} - 1 - {i}", f"{n} - {i}", f"2 * {i}", f"-{i}",
                             f"({i} - 1).max(0)", f"({i} + 1).min({n} - 1)", f"ns.std.min({i}, 1)", f"ns.std.max({i}, 2)", f"({i} + 5).min(2)",
                             f"({i} - 3).max(-2)", f"({i} + 1).max(1).min({n})", f"{i} % 2", f"({i} * {o}) % 3", f"({i} + {o} - 1).max({o})",
                             f"{i} + {n}", f"{i} - {n}", f"({i} - 1).min({i})"])
        if c < 0.9 or d <= 0:
            return r.choice(["0", "1", "-1", "2", "7", "-3"] + self.leaf_vars("i", 0))
        return self.int(d - 1)

    def get(self, kind, rank, d):
        """Index something of a higher rank."""
        r = self.rnd
        extra = r.choice([1, 1, 2])
        cands = [(s, q) for s, k, q, _ in self.scope if k == kind and q > rank]
        if cands and r.random() < 0.8:
            s, q = r.choice(cands)
            items = [self.idx(d - 1) for _ in range(q - rank)]
            if r.random() < 0.3:
                return s + "".join(f"[{i}]" for i in items)
            return f"{s}[{', '.join(items)}]"
        v = self.vec(kind, rank + extra, d - 1)
        return f"{v}[{', '.join(self.idx(d - 1) for _ in range(extra))}]"

    def literal(self, kind):
        r = self.rnd
        if kind == "f":
            return r.choice(["0.5", "2.0", "-1.5", "0.0", "1.0", "3.0"])
        if kind == "i":
            return r.choice(["0", "1", "2", "-1", "3"])
        return f"ns.wrap({r.choice(['True', 'False'])})"

    def leaf(self, kind, rank=0):
        vs = self.leaf_vars(kind, rank)
        if vs and self.rnd.random() < 0.85:
            return self.rnd.choice(vs)
        cands = [(s, q) for s, k, q, _ in self.scope if k == kind and q > rank]
        if cands:
            s, q = self.rnd.choice(cands)
            return f"{s}[{', '.join(self.idx(0) for _ in range(q - rank))}]"
        if rank:
            names = [self.fresh("i") for _ in range(rank)]
            return self.with_scope([(i, "i", 0, True) for i in names], lambda: (
                f"ns.array(lambda {', '.join(names)}: {self.leaf(kind)}, size=({', '.join(self.size() for _ in names)}{',' if rank == 1 else ''}))"))
        x = self.literal(kind)
        return f"ns.wrap({x})" if not x.startswith("ns") else x

    def common(self, kind, rank, d):
        return [
            (self.w("get") * 1.5, lambda: self.get(kind, rank, d)),
            (self.w("share"), lambda: self.share(kind, rank, d)),
            (self.w("fold"), lambda: self.fold(kind, rank, d)),
            (self.w("record"), lambda: self.record(kind, rank, d)),
            (0.5, lambda: self.leaf(kind, rank)),
        ]

    def flt(self, d):
        if d <= 0:
            return self.leaf("f")
        r = self.rnd
        return self.pick(self.common("f", 0, d) + [
            (2 + self.w("arith"), lambda: f"({self.expr('f', 0, d - 1)} {r.choice('+-*')} {self.expr('f', 0, d - 1)})"),
            (self.w("arith") * 0.6, lambda: f"({self.expr('f', 0, d - 1)} {r.choice('+-*')} {self.literal('f')})"),
            (self.w("arith") * 0.3, lambda: f"({self.literal('f')} {r.choice('+-*')} {self.expr('f', 0, d - 1)})"),
            (self.w("arith") * 0.3, lambda: f"({self.expr('f', 0, d - 1)} / ({self.simple()} * {self.simple()} + 1.0))"),
            (self.w("arith") * 0.3, lambda: f"({self.expr('f', 0, d - 1)} ** {r.choice([1, 2, 3])})"),
            (self.w("unary") * 0.6, lambda: f"({self.expr('f', 0, d - 1)}).{r.choice(['sin()', 'cos()', 'abs()', 'tanh()', 'sin().exp()'])}"),
            (self.w("unary") * 0.4, lambda: f"(-{self.expr('f', 0, d - 1)})"),
            (self.w("where"), lambda: f"ns.where({self.boo(d - 1)}, {self.expr('f', 0, d - 1)}, {self.expr('f', 0, d - 1)})"),
            (self.w("where") * 0.5, lambda: f"({self.simple()}).{r.choice(['min', 'max'])}({self.simple()})"),
            (self.w("cast") * 0.6, lambda: f"({self.int(d - 1)}).float()"),
            (self.w("sum"), lambda: self.sum(d)),
            (self.w("reduce"), lambda: self.reduce("f", d)),
            (self.w("ext") if "ext" in self.theme else 0, lambda: self.ext(d)),
            (self.w("const") * 0.5, lambda: f"ns.wrap(numpy.array({[r.choice([0.5, 1.0, -2.0, 1.0]) for _ in range(r.choice([1, 2, 3]))]}))[{self.idx(0)}]"),
        ])

    def simple(self):
        """A float expression whose value is the same however sums are associated."""
        cands = [(s, q) for s, k, q, _ in self.scope if k == "f" and s in ("a", "b", "c", "s", "h")]
        if not cands:
            return self.literal("f") if self.rnd.random() < 0 else f"ns.wrap({self.literal('f')})"
        s, q = self.rnd.choice(cands)
        return s if not q else f"{s}[{', '.join(self.idx(0) for _ in range(q))}]"

    def int(self, d):
        if d <= 0:
            return self.leaf("i")
        r = self.rnd
        return self.pick(self.common("i", 0, d) + [
            (2 + self.w("arith"), lambda: f"({self.expr('i', 0, d - 1)} {r.choice('+-*')} {self.expr('i', 0, d - 1)})"),
            (self.w("arith") * 0.5, lambda: f"({self.expr('i', 0, d - 1)} {r.choice('+-*')} {self.literal('i')})"),
            (self.w("arith") * 0.3, lambda: f"({self.expr('i', 0, d - 1)} % {r.choice(['2', '3', '5', '-3'])})"),
            (self.w("unary") * 0.4, lambda: f"(-{self.expr('i', 0, d - 1)})"),
            (self.w("where"), lambda: f"ns.where({self.boo(d - 1)}, {self.expr('i', 0, d - 1)}, {self.expr('i', 0, d - 1)})"),
            (self.w("where"), lambda: f"({self.expr('i', 0, d - 1)}).{r.choice(['min', 'max'])}({self.expr('i', 0, d - 1)})"),
            (0.4 if self.sizes else 0, lambda: r.choice(self.sizes)),
            (self.w("sum") * 0.4, lambda: self.isum(d)),
            (self.w("reduce") * 0.6, lambda: self.reduce("i", d)),
            (self.w("const") * 0.5, lambda: f"ns.wrap(numpy.array({[r.choice([0, 1, -2, 1]) for _ in range(r.choice([1, 2, 3]))]}))[{self.idx(0)}]"),
        ])

    def boo(self, d):
        r = self.rnd
        if d <= 0:
            return r.choice([lambda: self.leaf("b"), lambda: f"({self.leaf('i')} {r.choice(['<', '<=', '>', '==', '!='])} {self.literal('i')})"])()
        return self.pick(self.common("b", 0, d) + [
            (2, lambda: f"({self.expr('i', 0, d - 1)} {r.choice(['<', '<=', '>', '>=', '==', '!='])} {self.expr('i', 0, d - 1)})"),
            (2, lambda: f"({self.simple()} {r.choice(['<', '<=', '>', '>='])} {self.simple()})"),
            (1, lambda: f"({self.boo(d - 1)} {r.choice('&|')} {self.boo(d - 1)})"),
            (0.6, lambda: f"(~{self.boo(d - 1)})"),
        ])

    # ---------------------------------------------------------------- vectors
    def vec(self, kind, rank, d):
        if d <= 0:
            return self.leaf(kind, rank)
        return self.pick(self.common(kind, rank, d) + [
            (2 + self.w("array"), lambda: self.array(kind, rank, d)),
            (self.w("infer"), lambda: self.inferred(kind, rank, d)),
            (self.w("concat") if rank == 1 else 0, lambda: f"{self.vec(kind, 1, d - 1)}.concat({self.vec(kind, 1, d - 1)})"),
            (self.w("concat") * 0.4, lambda: self.double(kind, rank, d)),
        ])

    def double(self, kind, rank, d):
        t = self.fresh("t")
        return f"(lambda {t}: {t}.concat({t}))({self.vec(kind, rank, d - 1)})"

    def array(self, kind, rank, d):
        n = self.rnd.randint(1, min(rank, 3))
        names = [self.fresh("i") for _ in range(n)]
        sizes = [self.size() for _ in names]
        body = self.with_scope([(i, "i", 0, True) for i in names], lambda: self.expr(kind, rank - n, d - 1))
        size = sizes[0] if n == 1 else f"({', '.join(sizes)})"
        return f"ns.array(lambda {', '.join(names)}: {body}, size={size})"

    def inferred(self, kind, rank, d):
        """A comprehension whose size comes from a vector it indexes directly."""
        cands = [(s, k, q) for s, k, q, _ in self.scope if q >= 1]
        if not cands or rank != 1 or kind == "b":
            return self.array(kind, rank, d)
        i = self.fresh("i")
        s, k, q = self.rnd.choice(cands)
        rest = ", ".join([i] + [self.idx(0) for _ in range(q - 1)]) if self.rnd.random() < 0.7 or q == 1 else ", ".join(
            [self.idx(0)] + [i] + [self.idx(0) for _ in range(q - 2)])
        probe = f"{s}[{rest}]"
        probe = {"ff": "{0}", "ii": "{0}", "if": "{0}.float()", "bf": "ns.where({0}, 1.0, 0.5)", "bi": "ns.where({0}, 1, 2)", "fi": "ns.where({0} > 0.25, 1, 3)"}[k + kind].format(probe)
        body = self.with_scope([(i, "i", 0, True)], lambda: self.expr(kind, 0, d - 1))
        return f"ns.array(lambda {i}: {probe} {self.rnd.choice('+-*')} {body})"

    # ---------------------------------------------------------------- sharing
    def share(self, kind, rank, d):
        r = self.rnd
        t = self.fresh("t")
        k2, q2 = r.choice([("f", 0), ("f", 1), ("i", 0), ("i", 1), ("f", 2), ("b", 0)])
        bound = self.expr(k2, q2, d - 1)
        body = self.with_scope([(t, k2, q2, False)] * 1, lambda: self.expr(kind, rank, d - 1))
        return f"(lambda {t}: {body})({bound})" if t in body else body

    # ---------------------------------------------------------------- loops
    def fold(self, kind, rank, d):
        r = self.rnd
        if rank > 1:
            return self.array(kind, rank, d)
        i, acc = self.fresh("i"), self.fresh("acc")
        cnt = self.loop_count()
        init = self.expr(kind, rank, d - 1)
        ent = [(i, "i", 0, True), (acc, kind, rank, False)]
        if rank == 0:
            step = self.with_scope(ent, lambda: self.expr(kind, 0, d - 1))
            if acc not in step:
                join = {"f": f"({acc} * 0.5 + {step})", "i": f"({acc} - {step})", "b": f"({acc} & {step})"}[kind]
                step = join
            if kind == "i":
                step = f"({step}) % 101"
            if kind == "f":
                step = f"({step}) * 0.5"
        else:
            j = self.fresh("j")
            size = f"{acc}.size()" if r.random() < 0.8 else self.size()
            if not size.startswith(acc):
                self.jax = False
            step = self.with_scope(ent + [(j, "i", 0, True)], lambda: self.expr(kind, 0, d - 1))
            a = f"{acc}[{r.choice([j, j, j, '0', f'{j} + 1', f'{acc}.size() - 1 - {j}'])}]"
            step = {"f": f"({a} + {step}) * 0.5", "i": f"({a} - {step}) % 101", "b": f"({a} | {step})"}[kind]
            step = f"ns.array(lambda {j}: {step}, size={size})"
        return f"ns.fold({init}, lambda {i}, {acc}: {step}, count={cnt})"

    def sum(self, d):
        r = self.rnd
        i = self.fresh("i")
        cnt = self.loop_count()

        def product():
            n = r.choice([1, 2, 2, 3])
            fs = [self.with_scope([(i, "i", 0, True)], lambda: self.simple() if r.random() < 0.6 else self.expr("f", 0, d - 2)) for _ in range(n)]
            t = " * ".join(fs)
            if r.random() < 0.2:
                t = f"-({t})"
            if r.random() < 0.15:
                t = f"{t} * {self.literal('f')}"
            return t

        terms = [product() for _ in range(r.choice([1, 1, 2, 3]))]
        body = terms[0]
        for t in terms[1:]:
            body = f"({body}) {r.choice('+-')} ({t})"
        c = r.random()
        if c < 0.55:
            return f"ns.std.fold_sum(lambda {i}: {body}, count={cnt})"
        if c < 0.68:
            return f"ns.std.{r.choice(['fold_min', 'fold_max'])}(lambda {i}: {body}, count=ns.std.max({cnt}, 1))" if not cnt[0].isdigit() or cnt != "0" else self.literal("f")
        acc = self.fresh("acc")
        init = self.expr("f", 0, d - 2)
        return f"ns.fold({init}, lambda {i}, {acc}: " + r.choice([f"{acc} + ({body})", f"({body}) + {acc}", f"{acc} - ({body})",
                                                               f"{acc}.max({body})", f"({body}).min({acc})"]) + f", count={cnt})"

    def isum(self, d):
        i = self.fresh("i")
        cnt = self.loop_count()
        body = self.with_scope([(i, "i", 0, True)], lambda: self.expr("i", 0, d - 1))
        acc = self.fresh("acc")
        return f"ns.fold({self.leaf('i')}, lambda {i}, {acc}: {acc} {self.rnd.choice('+-')} {body}, count={cnt})"

    def dots(self):
        """Sums of products, over counters of their own or of a shared subterm, nested and with every kind of initial value."""
        r = self.rnd
        self.args = [("a", "f[n]"), ("b", "f[n]"), ("p", "f[m]"), ("q", "f[m]"), ("c", "f[n,m]"), ("s", "f")]
        self.loops = True
        out, dim = self.fresh("i"), {}
        array = r.random() < 0.5
        vectors = {"n": ["a", "b"], "m": ["p", "q"]}

        def counter():
            i = self.fresh("i")
            dim[i] = r.choice("nm")
            return i, r.choice([f"{vectors[dim[i]][0]}.size()"] * 5 + ["2", "0" if r.random() < 0.3 else "1"])

        def elem(ix):
            """An element of an argument, mostly at indices that range over its axes."""
            i = ix[-1] if r.random() < 0.6 else r.choice(ix)
            other = [j for j in ix if dim[j] != dim[i]]
            if other and r.random() < 0.3:
                j = r.choice(other)
                return f"c[{i}, {j}]" if dim[i] == "n" else f"c[{j}, {i}]"
            if r.random() < 0.04:
                return f"c[{r.choice(ix)}, {i}]"
            return f"{r.choice(vectors[dim[i]] if r.random() < 0.95 else 'abpq')}[{i}]"

        def bracket(fs, ops):
            while len(fs) > 1:
                k = r.randrange(len(fs) - 1)
                fs[k:k + 2] = [f"({fs[k]} {r.choice(ops)} {fs[k + 1]})"]
            return fs[0]

        def atom(ix, shared, d):
            opts = [(6, lambda: elem(ix)), (0.3, lambda: f"({r.choice(ix)}).float()")] if ix else []
            opts += [(0.8, lambda: "s"), (0.4, lambda: f"ns.wrap({self.literal('f')})")]
            opts += [(3, lambda: r.choice(shared))] if shared else []
            if d > 0:
                opts += [(2.5, lambda: total(ix, shared, d - 1)), (0.6, lambda: f"(-{atom(ix, shared, d - 1)})"),
                         (0.6, lambda: f"({atom(ix, shared, d - 1)} {r.choice('+-')} {atom(ix, shared, d - 1)})")]
            return self.pick(opts)

        def body(ix, shared, d):
            ts = [bracket([atom(ix, shared, d) for _ in range(r.choice([1, 2, 2, 3]))], "*") for _ in range(r.choice([1, 1, 1, 2, 3]))]
            return bracket(ts, "+-")

        def total(ix, shared, d):
            if len(dim) > 5:
                return elem(ix) if ix else "s"
            i, count = counter()
            e = body(ix + [i], shared, d)
            if r.random() < 0.65:
                return f"ns.std.fold_sum(lambda {i}: {e}, count={count})"
            acc = self.fresh("acc")
            init = r.choice(["0.0", "0.0", "1.5", "-2.0", "100.0", "-100.0", "s", r.choice(shared) if shared else "0.25"])
            step = r.choice([f"{acc} + {e}", f"{e} + {acc}", f"{acc} - {e}"]) if "100.0" not in init and r.random() < 0.6 else \
                r.choice([f"{acc}.min({e})", f"ns.wrap({e}).min({acc})", f"{acc}.max({e})"])
            return f"ns.fold({init}, lambda {i}, {acc}: {step}, count={count})"

        def chain_sum(ix, shared, d):
            """Products only, in every bracketing; the shared sums at every level."""
            if len(dim) > 5:
                return elem(ix)
            i, count = counter()
            ix = ix + [i]
            fs = [self.pick([(3, lambda: elem(ix)), (3 if shared else 0, lambda: r.choice(shared)), (4 if d > 0 else 0, lambda: chain_sum(ix, shared, d - 1))])
                  for _ in range(r.choice([1, 1, 2, 2]))]
            return f"ns.std.fold_sum(lambda {i}: {bracket([elem([i])] + fs, '********+-')}, count={count})"

        dim[out] = "n"
        ix = [out] if array else []
        second = self.fresh("i") if array and r.random() < 0.45 else None
        if second:
            dim[second] = "m"
            ix.append(second)
        if r.random() < 0.5:
            t, u = self.fresh("t"), self.fresh("t")
            e = f"(lambda {t}: {chain_sum(ix, [t], 1)})({chain_sum(ix, [], 0)})" if r.random() < 0.6 else \
                f"(lambda {t}: (lambda {u}: {chain_sum(ix, [t, u], 1)})({chain_sum(ix, [t], 0)}))({chain_sum(ix, [], 0)})"
        elif r.random() < 0.75:
            t = self.fresh("t")
            e = f"(lambda {t}: {total(ix, [t], 1) if r.random() < 0.8 else body(ix, [t], 1)})({total(ix, [], 0)})"
        else:
            e = total(ix, [], 1)
        if second:
            return f"ns.array(lambda {out}, {second}: {e}, size=({r.choice(['a.size()', 'a.size()', '2'])}, {r.choice(['p.size()', 'p.size()', '3'])}))"
        return f"ns.array(lambda {out}: {e}, size={r.choice(['a.size()', 'a.size()', '2'])})" if array else e

    def combs(self):
        """Reductions whose vector, initial value and combiner mention different enclosing indices (0 is the identity of every
        combiner on the non-negative numbers)."""
        r = self.rnd
        self.args = [x for x in ARGS if x[0] in ("a", "b", "s", "d")]
        self.loops = True
        outs = [self.fresh("i") for _ in range(r.choice([0, 1, 1, 2, 2]))]
        ranges = {o: r.choice(["a.size()", "b.size()", "2"]) for o in outs}

        def some(p):
            return [o for o in outs if r.random() < p]

        def cond(ix):
            opts = [f"{r.choice('ab')}[{i}] > 0.0" for i in ix] + [f"{i} > 0" for i in ix] + ["s > 0.0"]
            return f"({r.choice(opts)})"

        def number(kind, ix):
            if kind == "f":
                return r.choice([f"{r.choice('ab')}[{i}].abs()" for i in ix] + ["s.abs()"] * (not ix) + [f"({i}).float()" for i in ix])
            return r.choice([f"d[{i}].max(0)" for i in ix] + [f"{i}" for i in ix] * 2 + ["ns.wrap(2)"] * (not ix))

        def zero(kind, ix):
            z = "0.0" if kind == "f" else "0"
            if not ix or r.random() < 0.3:
                return z
            return f"ns.where({cond(ix)}, {z}, {z})" if r.random() < 0.5 else f"({number(kind, ix)} * {z})"

        def comb(kind, x, y, ix, d=1):
            ops = [f"({x} + {y})", f"({x}).max({y})", f"ns.where({x} > 0, {x}, {y})" if kind == "i" else f"ns.where({x} > 0.0, {x}, {y})",
                   f"ns.where({y} > 0, {y}, {x})" if kind == "i" else f"ns.where({y} > 0.0, {y}, {x})"]
            if d and ix:
                return f"ns.where({cond(ix)}, {comb(kind, x, y, ix, 0)}, {comb(kind, x, y, ix, 0)})" if r.random() < 0.75 else \
                    f"({comb(kind, x, y, ix, 0)} + {zero(kind, ix)})"
            e = r.choice(ops)
            z, t = zero(kind, ix), self.fresh("i")
            return r.choices([e, f"ns.fold({z}, lambda {t},_: _.max({e}), 2)", f"ns.fold(({z}, {e}), lambda {t},_: (_[1], _[1]), 2)[0]",
                              f"ns.array(lambda {t}: {z}, size=1).concat(ns.array(lambda {t}: {e}, size=2))[1]", f"ns.array(lambda {t}: {e}, size=2)[1]",
                              f"ns.array(lambda {t}: {e}, size=1).reduce({z}, lambda u, v: u + v)"], [8, 1, 1, 1, 1, 1])[0]

        def one():
            k = self.fresh("i")
            size = r.choice(["a.size()", "b.size()", "2", "3"])
            n = r.choice([1, 1, 1, 2, 3])
            kinds = [r.choice("fi") for _ in range(n)]
            elems = [f"{number(q, [k])}" + (f" + {number(q, some(0.5))}" if r.random() < 0.6 else "") for q in kinds]
            inits = [zero(q, some(0.4)) for q in kinds]
            if n == 1:
                steps = [comb(kinds[0], "p", "q", some(0.6))]
                return f"ns.array(lambda {k}: {elems[0]}, size={size}).reduce({inits[0]}, lambda p, q: {steps[0]})", kinds[0]
            steps = [comb(q, f"p[{j}]", f"q[{j}]", some(0.5)) for j, q in enumerate(kinds)]
            if r.random() < 0.4:  # a part that is the same throughout
                c, ix = r.randrange(n), some(0.3)
                elems[c] = inits[c] = steps[c] = number(kinds[c], ix)
                for j, q in enumerate(kinds):
                    if q == kinds[c] and j != c and r.random() < 0.7:
                        steps[j] = f"({steps[j]} + {r.choice('pq')}[{c}] * {'0.0' if q == 'f' else '0'})"
            at = r.randrange(n)
            return (f"ns.array(lambda {k}: ({', '.join(elems)}), size={size}).reduce(({', '.join(inits)}), lambda p, q: ({', '.join(steps)}))[{at}]"), kinds[at]

        e, _ = one()
        for o in reversed(outs):
            e = f"ns.array(lambda {o}: {e}, size={ranges[o]})"
        return e

    def steps(self):
        """Folds whose step ignores the accumulator, the counter or the index of the enclosing array (or all of them)."""
        r = self.rnd
        self.args = [x for x in ARGS if x[0] in ("a", "b", "s", "k")]
        self.sizes = ["a.size()", "a.size()", "b.size()"]
        self.loops = True
        outs = [self.fresh("i") for _ in range(r.choice([0, 1, 1, 2]))]

        def val(kind, names):
            pool = {"f": ["s", "0.5"], "i": ["k", "2"]}[kind]
            for v, k2, is_ix in names:
                if k2 == kind:
                    pool += [v, v]
                if is_ix and kind == "f":
                    pool += [f"a[{v}]", f"b[{v}]"]
            e = r.choice(pool)
            if r.random() < 0.4:
                e = f"({e} {r.choice('+-*')} {r.choice(pool)})"
            return e

        def fold(kind, names, d):
            i, acc = self.fresh("i"), self.fresh("acc")
            some = [n for n in names if r.random() < 0.6]
            inner = [n for n in names if r.random() < 0.5]
            if r.random() < 0.5:
                inner.append((i, "i", True))
            if r.random() < 0.5:
                inner.append((acc, kind, False))
            c = r.random()
            count = r.choice(["a.size()", "b.size()", "0", "1", "2", "ns.std.min(k, 2)"])
            if c < 0.35:
                j = self.fresh("i")
                if r.random() < 0.5:
                    size = r.choice(["a.size()", "b.size()", "2"])
                    init = f"ns.array(lambda {j}: {val(kind, some + [(j, 'i', True)] * r.choice([0, 1]))}, size={size})"
                else:
                    size, init = ("a.size()", "a") if kind == "f" else ("2", f"ns.array(lambda {j}: {val(kind, some)}, size=2)")
                inner = [(v if v != acc else f"{acc}[{j}]", q, x) for v, q, x in inner] + [(j, "i", True)] * r.choice([0, 1])
                e = f"ns.fold({init}, lambda {i}, {acc}: ns.array(lambda {j}: {wrap(val(kind, inner))}, size={size}), count={count})"
                return f"{e}[{names[0][0] if names and names[0][2] else 0}]"
            if c < 0.6:
                k2 = r.choice("fi")
                pair = [(v, q, x) for v, q, x in inner if v != acc]
                if len(pair) != len(inner):
                    pair += [(f"{acc}[0]", kind, False), (f"{acc}[1]", k2, False)]
                return (f"ns.fold(({wrap(val(kind, some))}, {wrap(val(k2, some[:1]))}), lambda {i}, {acc}: ({wrap(val(kind, pair))}, {wrap(val(k2, pair[-1:]))}), "
                        f"count={count})[0]")
            step = fold(kind, inner, d - 1) if d > 0 and r.random() < 0.5 else wrap(val(kind, inner))
            return f"ns.fold({wrap(val(kind, some))}, lambda {i}, {acc}: {step}, count={count})"

        def wrap(e):
            return f"ns.wrap({e})"

        kind = r.choice("ffi")
        e = fold(kind, [(o, "i", True) for o in outs], 1)
        if kind == "f" and r.random() < 0.3:
            e = f"({e} * 0.5 + {fold('f', [(o, 'i', True) for o in outs], 0)})"
        for o in reversed(outs):
            e = f"ns.array(lambda {o}: {e}, size={r.choice(self.sizes + ['2'])})"
        return e

    def reduce(self, kind, d):
        r = self.rnd
        self.loops = True
        v = self.vec(kind, 1, d - 1)
        c = r.random()
        if kind == "i":
            z, f = r.choice([("0", "{0} + {1}"), ("1000000000", "{0}.min({1})"), ("0", "ns.where({0} == 0, {1}, {0})"), ("0", "ns.where({1} == 0, {0}, {1})")])
            return f"{v}.reduce({z}, lambda p, q: {f.format('p', 'q')})"
        if c < 0.4:
            z, f = r.choice([("0.0", "{0} + {1}"), ("1.0", "{0} * {1}"), ("-1000.0", "{0}.max({1})")])
            if f.endswith(")"):
                i = self.fresh("i")
                v = self.with_scope([(i, "i", 0, True)], lambda: f"ns.array(lambda {i}: {self.simple()}, size={self.size()})")
            return f"{v}.reduce({z}, lambda p, q: {f.format('p', 'q')})"
        i = self.fresh("i")
        size = self.size()
        e1 = self.with_scope([(i, "i", 0, True)], lambda: self.expr("f", 0, d - 1))
        e2 = self.with_scope([(i, "i", 0, True)], lambda: self.expr("f", 0, d - 1))
        fld = r.choice([0, 1])
        return r.choice([
            f"ns.array(lambda {i}: ({e1}, {e2}), size={size}).reduce((1.0, 0.0), lambda p, q: (p[0] * q[0], p[1] * q[0] + q[1]))[{fld}]",
            f"ns.array(lambda {i}: ({e1}, {e2}), size={size}).reduce((0.0, 0.0), lambda p, q: (p[0] + q[0], p[1] + q[1]))[{fld}]",
            f"ns.array(lambda {i}: ({e1}, {i}), size={size}).reduce((0.0, -1), lambda p, q: (ns.where(q[1] < 0, p[0], q[0]), ns.where(q[1] < 0, p[1], q[1])))[0]",
        ])

    # ---------------------------------------------------------------- records
    def record(self, kind, rank, d):
        r = self.rnd
        k2, q2 = r.choice([("f", 0), ("i", 0), ("f", 0), (kind, rank), (kind, 0)])
        c = r.random()
        first = r.random() < 0.5
        mk = (lambda x, y: f"({x}, {y})") if first else (lambda x, y: f"({y}, {x})")
        pos = "0" if first else "1"
        oth = "1" if first else "0"
        if r.random() < 0.35:
            mk = (lambda x, y: "{'u': " + x + ", 'v': " + y + "}") if first else (lambda x, y: "{'v': " + y + ", 'u': " + x + "}")
            pos, oth = "'u'", "'v'"
        if c < 0.35 and rank == 0:
            i = self.fresh("i")
            size = self.size()
            e1, e2 = (self.with_scope([(i, "i", 0, True)], lambda: self.expr(k, 0, d - 1)) for k in (kind, k2 if q2 == 0 else kind))
            return f"ns.array(lambda {i}: {mk(e1, e2)}, size={size})[{self.idx(d - 1)}][{pos}]"
        if c < 0.6 and rank == 0:
            self.loops = True
            i, acc = self.fresh("i"), self.fresh("acc")
            k2 = k2 if q2 == 0 else kind
            ent = [(i, "i", 0, True), (f"{acc}[{pos}]", kind, 0, False), (f"{acc}[{oth}]", k2, 0, False)]
            init = mk(self.expr(kind, 0, d - 1), self.expr(k2, 0, d - 1))
            damp = {"f": "({}) * 0.5", "i": "({}) % 101", "b": "({})"}
            step = self.with_scope(ent, lambda: mk(damp[kind].format(self.expr(kind, 0, d - 1)), damp[k2].format(self.expr(k2, 0, d - 1))))
            return f"ns.fold({init}, lambda {i}, {acc}: {step}, count={self.loop_count()})[{pos}]"
        if c < 0.8:
            if rank == 0:
                k3 = k2 if q2 == 0 else kind
                return f"ns.where({self.boo(d - 1)}, {mk(self.expr(kind, 0, d - 1), self.expr(k3, 0, d - 1))}, {mk(self.expr(kind, 0, d - 1), self.expr(k3, 0, d - 1))})[{pos}]"
        t, u = self.fresh("t"), self.fresh("u")
        e1, e2 = self.expr(kind, rank, d - 1), self.expr(k2, q2, d - 1)
        body = self.with_scope([(f"{t}[{pos}]", kind, rank, False), (f"{t}[{oth}]", k2, q2, False)], lambda: self.expr(kind, rank, d - 1))
        return f"(lambda {t}: {body})({mk(e1, e2)})"

    def ext(self, d):
        r = self.rnd
        self.ext_used = True
        f, n = r.choice([("hypot", 2), ("arctan2", 2), ("log1p", 1), ("logaddexp", 2)])
        ops = [self.expr("f", 0, d - 1) for _ in range(n)]
        if f == "log1p":
            ops = [f"({ops[0]}).abs()"]
        return f"ns.ext(numpy.{f}, ((SCF,) * {n}, SCF))({', '.join(ops)})"


PROP_THEMES = {
    "C01": ["comp"], "C02": ["index"], "C03": ["fold", "steps"], "C04": ["sum", "dots"], "C05": ["reduce", "combs"], "C06": ["record"], "C07": ["share"],
    "C08": ["size"], "C09": ["all", "scalar"], "C10": ["all"], "C11": ["scalar"], "C12": ["temp"], "C13": ["const"], "C14": ["ext"],
}


def program(theme, number):
    g = Gen(theme, number)
    r = g.rnd
    kind = r.choices(["f", "i", "b"], [6, 3, 0.7])[0]
    rank = r.choices([0, 1, 2, 3], [1.2, 3, 2, 0.5])[0]
    depth = r.choice([2, 3, 3, 4])
    if theme in ("dots", "steps", "combs"):
        e = getattr(g, theme)()
        while theme == "dots" and e.count("[") + e.count("* t") + e.count("(t") > 9:  # NumPy's search for a contraction path is exponential
            e = g.dots()
    elif rank and r.random() < 0.8:
        e = g.array(kind, rank, depth)
    else:
        e = g.expr(kind, rank, depth)
    names = [n for n, _ in g.args]
    src = f"lambda ns, {', '.join(names)}: {e}"
    backends = ("numpy",) if g.ext_used else ("numpy", "torch", "jax") if g.jax else ("numpy", "torch")
    dims = None
    if g.loops:
        dims = {d: (0, 3) for _, t in g.args if "[" in t for d in t[2:-1].split(",")}
    return Program(f"gen/{theme}/{number}", src, [t for _, t in g.args], dims=dims, backends=backends, tol=1e-6)
