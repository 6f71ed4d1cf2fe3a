"""Term skeletons per property.

A skeleton is a program in ein's own surface language.  Its sizes, contents and integer parameters
are symbolic: one proof covers every shape and every value.  `dims`/`vals` with an upper bound mark
the extents over which a loop is unrolled (the proof is then complete only up to that bound and is
reported as bounded).
"""
from __future__ import annotations

import itertools
import random

from .core import Program

NP, TO, JX = "numpy", "torch", "jax"
ALL3 = (NP, TO, JX)
NT = (NP, TO)

_REG: list = []
_NAMES: set = set()


def prog(props, name, src, args=(), *, jax=True, backends=None, dims=None, vals=None, **kw):
    b = backends or (ALL3 if jax else NT)
    n, k = name, 1
    while n in _NAMES:
        k += 1
        n = f"{name}#{k}"
    _NAMES.add(n)
    p = Program(n, src, args, dims=dims, vals=vals, props=props.split(), backends=b, **kw)
    _REG.append(p)
    return p


def ordered_subsets(xs, lo=0):
    for r in range(lo, len(xs) + 1):
        for c in itertools.combinations(xs, r):
            yield from itertools.permutations(c)


DIM = {"i": "n", "j": "m", "k": "l", "h": "q"}


def ref_of(v, ix):
    return v + ("[" + ",".join(ix) + "]" if ix else "")


def typ(ix, kind="f", extra=()):
    d = [DIM[x] for x in ix] + list(extra)
    return kind + ("[" + ",".join(d) + "]" if d else "")


# =============================================================== C01 comprehensions


def c01():
    # two operands with every arrangement of three indices
    idx = "ijk"
    n = 0
    for A in ordered_subsets(idx):
        for B in ordered_subsets(idx):
            if set(A) | set(B) != set(idx):
                continue
            n += 1
            prog("C01 C10", f"bin3/{''.join(A)}-{''.join(B)}",
                 f"lambda ns,a,b: ns.array(lambda i,j,k: {ref_of('a', A)}-{ref_of('b', B)})",
                 [typ(A), typ(B)], backends=(NP, (TO, JX)[n % 2]))
    for A in ordered_subsets("ij"):
        for B in ordered_subsets("ij"):
            if set(A) | set(B) != set("ij"):
                continue
            prog("C01 C10", f"bin2/{''.join(A)}-{''.join(B)}",
                 f"lambda ns,a,b: ns.array(lambda i,j: {ref_of('a', A)}-{ref_of('b', B)})", [typ(A), typ(B)])
    # three operands
    rnd = random.Random(7)
    subs = list(ordered_subsets("ijk"))
    for t in range(40):
        A, B, C = (rnd.choice(subs) for _ in range(3))
        if set(A) | set(B) | set(C) != set("ijk"):
            continue
        prog("C01 C10", f"tern/{''.join(A)}-{''.join(B)}-{''.join(C)}",
             f"lambda ns,a,b,c: ns.array(lambda i,j,k: ({ref_of('a', A)} < {ref_of('b', B)}).where({ref_of('c', C)}, {ref_of('a', A)}))",
             [typ(A), typ(B), typ(C)], backends=(ALL3[t % 3],))
    # permutations of four indices, and a few of five
    for n, p in enumerate(itertools.permutations("ijkh")):
        prog("C01 C10", f"perm4/{''.join(p)}", f"lambda ns,a: ns.array(lambda i,j,k,h: a[{','.join(p)}])",
             [typ(p)], backends=(ALL3[n % 3],))
        q = p[::-1][1:]
        prog("C01", f"perm4b/{''.join(p)}",
             f"lambda ns,a,b: ns.array(lambda i,j,k,h: b[{','.join(q)}]+a[{','.join(p)}])", [typ(p), typ(q)],
             backends=(ALL3[(n + 1) % 3],))
    # ranges and broadcast bodies
    prog("C01 C10", "range", "lambda ns,n: ns.array(lambda i: i, size=n)", ["i"], vals={"x0": (0, None)}, jax=False)
    prog("C01", "range2", "lambda ns,z: ns.array(lambda i,j: i*10-j, size=(z.size(0),z.size(1)))", ["f[n,m]"])
    prog("C01", "range3", "lambda ns,z: ns.array(lambda i,j,k: i*100+j*10-k, size=(z.size(2),z.size(0),z.size(1)))", ["f[n,m,l]"])
    prog("C01", "bcast0", "lambda ns,x,z: ns.array(lambda i,j: x, size=(z.size(1),z.size(0)))", ["f", "f[n,m]"])
    prog("C01", "bcast1", "lambda ns,a,z: ns.array(lambda i,j: a, size=(z.size(1),z.size(0)))", ["f[l]", "f[n,m]"])
    prog("C01", "bcast2", "lambda ns,a,z: ns.array(lambda i,j: a[j], size=(z.size(1),z.size(0)))", ["f[n,l]", "f[n,m]"])
    prog("C01", "bcast3", "lambda ns,a,z: ns.array(lambda i: ns.array(lambda j: a[i], size=z.size(1)), size=z.size(0))", ["f[n]", "f[n,m]"])
    prog("C01", "const-body", "lambda ns,z: ns.array(lambda i,j: 2.5, size=(z.size(0),3))", ["f[n]"])
    prog("C01", "kinds", "lambda ns,a,b: ns.array(lambda i,j: a[i] < b[j])", ["i[n]", "i[m]"])
    prog("C01", "kinds2", "lambda ns,a,b: ns.array(lambda i,j: a[i] & ~b[j,i])", ["b[n]", "b[m,n]"])
    prog("C01", "reuse", "lambda ns,a: ns.array(lambda i,j: a[i]-a[j])", ["f[n]"])
    prog("C01", "reuse2", "lambda ns,a: ns.array(lambda i,j: a[i,j]-a[j,i])", ["f[n,n]"])
    prog("C01", "outer3", "lambda ns,a,b,c: ns.array(lambda i,j,k: a[k]*b[i]+c[j])", ["f[n]", "f[m]", "f[l]"])
    # nested comprehensions
    nest = [
        ("nest-t", "ns.array(lambda i: ns.array(lambda j: a[j,i]))", ["f[n,m]"]),
        ("nest-3", "ns.array(lambda i: ns.array(lambda j: ns.array(lambda k: a[k,i]-b[j])))", ["f[n,m]", "f[l]"]),
        ("nest-3b", "ns.array(lambda i: ns.array(lambda j: ns.array(lambda k: a[k,j,i])))", ["f[n,m,l]"]),
        ("nest-3c", "ns.array(lambda i: ns.array(lambda j,k: a[k,i,j]-b[i]))", ["f[n,m,l]", "f[m]"]),
        ("nest-get", "ns.array(lambda i,j: ns.array(lambda k: a[k,i]+b[j])[j])", ["f[n,m]", "f[l]"]),
        ("nest-get2", "ns.array(lambda i,j: ns.array(lambda k: a[k]*b[i])[j], size=(b.size(),a.size()))", ["f[n]", "f[m]"]),
        ("nest-out", "(lambda v: ns.array(lambda i,j: v[j]-v[i]))(ns.array(lambda k: a[k]*2.0+b[k]))", ["f[n]", "f[n]"]),
        ("nest-out2", "(lambda v: ns.array(lambda i,j: v[j,i]))(ns.array(lambda p,q: a[p]*b[q]))", ["f[n]", "f[m]"]),
        ("nest-out3", "(lambda v: ns.array(lambda i,j,k: v[j,k,i]))(ns.array(lambda p,q,r: a[q]*b[r]-c[p]))", ["f[n]", "f[m]", "f[l]"]),
        ("row", "ns.array(lambda i: a[i])", ["f[n,m]"]),
        ("row-col", "ns.array(lambda j: ns.array(lambda i: a[i])[j])", ["f[n,m]"]),
        ("slice", "a[:,0]", ["f[n,m]"]),
        ("slice2", "ns.array(lambda i: a[:,i])", ["f[n,m]"]),
        ("slice3", "ns.array(lambda i: a[:,i,:])", ["f[n,m,l]"]),
        ("diag", "ns.array(lambda i: a[i,i])", ["f[n,n]"]),
        ("diag3", "ns.array(lambda i,j: a[i,j,i])", ["f[n,m,n]"]),
        ("outer-let", "(lambda v: ns.array(lambda i: v(i)+v(i)*2.0))(lambda i: a[i]*b[i])", ["f[n]", "f[n]"]),
    ]
    for nm, e, a in nest:
        ps = ",".join("abc"[: len(a)])
        prog("C01 C10" if nm.startswith("nest") else "C01", nm, f"lambda ns,{ps}: {e}", a)
    # concatenation: operands depending on any indices
    for A in ordered_subsets("ij"):
        for B in ordered_subsets("ij"):
            ps = "i,j" if set(A) | set(B) == set("ij") else None
            if ps is None:
                u = sorted(set(A) | set(B))
                ps = ",".join(u)
            a, b = ref_of("a", A), ref_of("b", B)
            e = f"ns.array(lambda {ps}: {a}.concat({b}))" if ps else f"{a}.concat({b})"
            prog("C01 C10", f"concat/{''.join(A)}-{''.join(B)}", f"lambda ns,a,b: {e}",
                 [typ(A, extra=["u"]), typ(B, extra=["v"])])
    prog("C01", "concat-rank2", "lambda ns,a,b: ns.array(lambda i: a[i].concat(b))", ["f[n,u,w]", "f[v,w]"])
    prog("C01", "concat-rank2b", "lambda ns,a,b: ns.array(lambda i: b.concat(a[i]))", ["f[n,u,w]", "f[v,w]"])
    prog("C01", "concat-inner", "lambda ns,a,b: ns.array(lambda i,j: a[i].concat(b[j])[1])", ["f[n,u]", "f[m,v]"])
    prog("C01", "concat3", "lambda ns,a,b,c: ns.concat(a,b,c)", ["f[n]", "f[m]", "f[l]"])
    prog("C01", "concat-comp", "lambda ns,a,b: ns.array(lambda i: a[i]*2.0).concat(ns.array(lambda j: b[j]+1.0))", ["f[n]", "f[m]"])
    prog("C01", "concat-t", "lambda ns,a,b: ns.array(lambda i,j: a.concat(b)[j,i])", ["f[n,w]", "f[m,w]"])
    prog("C01", "concat-int", "lambda ns,a,b: a.concat(b)", ["i[n]", "i[m]"])
    prog("C01", "concat-bool", "lambda ns,a,b: ns.array(lambda i: a.concat(b[i]))", ["b[n]", "b[m,l]"])
    # sizes
    prog("C01 C08", "dim-of-row", "lambda ns,a: ns.array(lambda i: a[i].size(), size=a.size())", ["f[n,m]"])
    prog("C01", "size-sum", "lambda ns,a,b: ns.array(lambda i: i*2, size=a.size()+b.size())", ["f[n]", "f[m]"])
    prog("C01", "size-prod", "lambda ns,a,b: ns.array(lambda i: i, size=a.size()*2+1)", ["f[n]", "f[m]"])
    prog("C01", "size-read", "lambda ns,a,b: ns.array(lambda i: i-b[0], size=b[0])", ["f[n]", "i[m]"],
         dims={"m": (1, None)}, vals={"x1": (0, None)}, jax=False)
    prog("C01", "size-scalar", "lambda ns,n,m: ns.array(lambda i,j: i-j, size=(n,m))", ["i", "i"], vals={"x0": (0, None), "x1": (0, None)}, jax=False)
    prog("C01", "size-minmax", "lambda ns,a,b: ns.array(lambda i: a[i]*b[i], size=a.size().min(b.size()))", ["f[n]", "f[m]"])
    prog("C01", "size-nested", "lambda ns,a: ns.array(lambda i: ns.array(lambda j: i-j, size=a.size(1)), size=a.size(0))", ["f[n,m]"])
    prog("C01", "size-const0", "lambda ns,a: ns.array(lambda i,j: a[j], size=(0,a.size()))", ["f[n]"])
    prog("C01", "size-const1", "lambda ns,a: ns.array(lambda i,j: a[j]+i.float(), size=(1,a.size()))", ["f[n]"])
    prog("C01", "empty-inner", "lambda ns,a: ns.array(lambda i: ns.array(lambda j: a[i], size=0))", ["f[n]"])


# =============================================================== C02 indexing

SHIFTS = ["i", "i+1", "i-1", "1+i", "i+3", "i-4", "2-(1-i)", "i-1+2", "i+1-1"]
SHIFTV = ["i+k", "k+i", "i-k", "i+k-1", "i-(k-1)"]
BOUNDS = [
    "i.min(k)", "i.max(k)", "(i+1).min(k)", "(i-1).max(k)", "(i+1).min(k).max(g)", "(i-1).max(g).min(k)",
    "i.min(k).min(g)", "i.max(k).max(g)", "(i-2).max(0).min(a.size()-1)", "(i+1).max(0).min(1)",
    "ns.wrap(k).max(i)", "ns.std.min(k, i-1)", "i.max(k).min(g).max(k-1)", "i.min(k).max(g).min(k)",
    "(i+k).min(g)", "(i+k).max(g)", "(i-1).min(2)", "(i+2).max(1)",
]
OTHER = ["k", "0", "-3", "7", "k-i", "-i", "i*2", "i%2", "a.size()-1-i", "i.min(k)+1", "i+i", "(i*i)-2",
         "(i<k).where(i,k)"]


def c02():
    n = 0
    for e in SHIFTS + SHIFTV + BOUNDS + OTHER:
        dyn = "k" in e or "g" in e
        n += 1
        prog("C02 C10", f"get1/{e}/own", f"lambda ns,a,k,g: ns.array(lambda i: a[{e}], size=a.size())",
             ["f[n]", "i", "i"], jax=not dyn)
        prog("C02 C08", f"get1/{e}/free", f"lambda ns,a,k,g,p: ns.array(lambda i: a[{e}], size=p)",
             ["f[n]", "i", "i", "i"], vals={"x3": (0, None)}, dims={"n": (0, None)}, backends=(NT[n % 2],))
        prog("C02 C08", f"get1/{e}/other", f"lambda ns,a,k,g,c: ns.array(lambda i: a[{e}]-c[i])",
             ["f[n]", "i", "i", "f[m]"], backends=(NT[n % 2],) if dyn else (ALL3[n % 3],))
        prog("C02", f"get1/{e}/int", f"lambda ns,a,k,g: ns.array(lambda i: a[{e}], size=a.size())",
             ["i[n]", "i", "i"], backends=(NT[n % 2],) if dyn else (ALL3[n % 3],))
    # every composition of two clips and shifts, and a sample of those of three
    ops = ["({}).min(k)", "({}).max(k)", "({}).min(2)", "({}).max(g)", "({})+2", "({})-1", "g+({})", "2-({})"]
    seqs = list(itertools.product(ops, repeat=2)) + random.Random(5).sample(list(itertools.product(ops, repeat=3)), 96)
    for n, seq in enumerate(seqs):
        e = "i"
        for o in seq:
            e = o.format(e)
        prog("C02", f"clipseq/{e}", f"lambda ns,a,k,g: ns.array(lambda i: a[{e}], size={'a.size()' if n % 3 else 'a.size()+1'})",
             ["f[n]", "i", "i"], backends=(NT[n % 2],))
    prog("C02", "get1/bool", "lambda ns,a: ns.array(lambda i: a[i+1] | a[i-1], size=a.size())", ["b[n]"])
    # two axes
    E = ["i", "i+1", "j-1", "j", "k", "b[i]", "b[j]", "(i-1).max(1)"]
    n = 0
    for x, y in itertools.product(E, E):
        if "i" not in x + y and "j" not in x + y:
            continue
        n += 1
        dyn = "k" in x + y
        ps = "i,j"
        prog("C02 C10", f"get2/{x}/{y}",
             f"lambda ns,a,b,k,z: ns.array(lambda i,j: a[{x},{y}], size=(z.size(0),z.size(1)))",
             ["f[n,m]", "i[u]", "i", "f[p,q]"], backends=(NT[n % 2],) if dyn else (ALL3[n % 3],),
             dims={"u": (1, None)})
        if n % 3 == 0:
            prog("C02 C08", f"get2s/{x}/{y}",
                 f"lambda ns,a,b,k: ns.array(lambda i,j: a[{x},{y}], size=(a.size(0),a.size(1)))",
                 ["i[n,m]", "i[u]", "i"], backends=(NT[n % 2],) if dyn else (ALL3[(n // 3) % 3],),
                 dims={"u": (1, None)})
    # three axes
    E3 = ["i", "j", "i+1", "j-2", "b[i]", "c[i,j]", "c[j,i]", "h"]
    rnd = random.Random(3)
    combos = list(itertools.product(E3, E3, E3))
    rnd.shuffle(combos)
    # always: gathers whose target and index share axes in the three positions
    must = [("i", "j", "c[i,j]"), ("i", "c[i,j]", "j"), ("c[i,j]", "i", "j"), ("c[j,i]", "j", "i"), ("j", "c[i,j]", "i"),
            ("b[i]", "i", "j"), ("i", "b[i]", "j"), ("h", "b[i]", "c[i,j]"), ("i", "j", "h"), ("h", "j", "i"),
            ("h", "i+1", "j-2"), ("b[i]", "h", "i")]
    for n, (x, y, z) in enumerate(must + combos[:60]):
        ps = "i,j,h"
        prog("C02 C10", f"get3/{x}/{y}/{z}",
             f"lambda ns,a,b,c,s: ns.array(lambda i,j,h: a[{x},{y},{z}], size=(s.size(0),s.size(1),s.size(2)))",
             ["f[n,m,l]", "i[p]", "i[p,q]", "f[p,q,r]"] if (x + y + z).count("c[") >= 1 else ["f[n,m,l]", "i[u]", "i[u,v]", "f[p,q,r]"],
             dims=dict.fromkeys("nmlpqr", (1, None)) if (x + y + z).count("c[") >= 1 else {"u": (1, None), "v": (1, None)},
             backends=(ALL3[n % 3],))
    # index arrays, all directions
    G = [
        ("a[b[i]]", ["f[n]", "i[m]"], "i"),
        ("a[b[i,j]]", ["f[n]", "i[m,l]"], "i,j"),
        ("a[b[j,i]]", ["f[n]", "i[m,l]"], "i,j"),
        ("a[b[i,j],b[j,i]]", ["f[n,l]", "i[m,m]"], "i,j"),
        ("a[i,b[i]]", ["f[n,m]", "i[n]"], "i"),
        ("a[b[i],i]", ["f[m,n]", "i[n]"], "i"),
        ("a[i,b[j]]", ["f[n,m]", "i[l]"], "i,j"),
        ("a[b[j],i]", ["f[n,m]", "i[l]"], "i,j"),
        ("a[i,b[i,j]]", ["f[n,m]", "i[n,l]"], "i,j"),
        ("a[i,b[j,i]]", ["f[n,m]", "i[l,n]"], "i,j"),
        ("a[b[i,j],j]", ["f[n,m]", "i[l,m]"], "i,j"),
        ("a[b[i,j],i]", ["f[n,m]", "i[m,l]"], "i,j"),
        ("a[b[i]]", ["f[n,m]", "i[l]"], "i"),
        ("a[i][b[i]]", ["f[n,m,l]", "i[n]"], "i"),
        ("a[b[b[i]]]", ["f[n]", "i[m]"], "i"),
        ("a[b[i]+b[j]]", ["f[n]", "i[m]"], "i,j"),
        ("a[b[i]-i]", ["f[n]", "i[m]"], "i"),
        ("a[b[i]*j]", ["f[n]", "i[m]"], "i,j!2"),
        ("a[b[i+1]]", ["f[n]", "i[m]"], "i!2"),
        ("a[i,j,b[i,j]]", ["f[n,m,l]", "i[n,m]"], "i,j"),
        ("a[j,i,b[i,j]]", ["f[n,m,l]", "i[m,n]"], "i,j"),
        ("a[j,b[i,j],i]", ["f[n,l,m]", "i[m,n]"], "i,j"),
        ("a[b[i],j] - a[j,b[i]]", ["f[n,n]", "i[n]"], "i,j"),
        ("ns.array(lambda q: a[q,j])[b[i]]", ["f[n,m]", "i[l]"], "i,j"),
        ("ns.array(lambda q: a[q,i])[b[i]]", ["f[n,m]", "i[m]"], "i"),
        ("ns.array(lambda q: a[q,i])[i+1]", ["f[n,n]", "i[m]"], "i"),
        ("ns.array(lambda q: a[q,i]*a[i,q])[b[i,j]]", ["f[n,n]", "i[n,m]"], "i,j"),
        ("a[(b[i]>0).where(i, b[i])]", ["f[n]", "i[m]"], "i"),
        ("a[b[i].min(i)]", ["f[n]", "i[m]"], "i"),
        ("a[i.min(b[i])]", ["f[n]", "i[m]"], "i"),
        ("a[i.max(b[j])]", ["f[n]", "i[m]"], "i,j!1"),
        ("a[i+j]", ["f[n]", "i[m]"], "i,j!2"),
        ("a[i-j]", ["f[n]", "i[m]"], "i,j!2"),
        ("a[i+b[0]]", ["f[n]", "i[m]"], "i!2"),
        ("a[(i-b[0]).max(b[1])]", ["f[n]", "i[m]"], "i!2"),
    ]
    for n, (e, types, ps) in enumerate(G):
        ps, _, sz = ps.partition("!")
        size = ""
        jax = True
        if sz:
            size = ", size=(" + ",".join(["a.size()"] * len(ps.split(","))) + ("," if "," not in ps else "") + ")"
            jax = "b[0]" not in e
        dims = {}
        for t in types[1:]:
            for d in t[2:-1].split(","):
                dims[d] = (1 if d in "ml" else 0, None)
        prog("C02 C10", f"gather/{e}", f"lambda ns,a,b: ns.array(lambda {ps}: {e}{size})", types, jax=jax, dims=dims)
        if "i[" in types[1] and n % 2 == 0:
            prog("C02", f"gatheri/{e}", f"lambda ns,a,b: ns.array(lambda {ps}: {e}{size})",
                 ["i" + types[0][1:]] + types[1:], backends=(NT[n % 4 // 2],), dims=dims)
    prog("C02", "get-scalar", "lambda ns,a,k: a[k]", ["f[n]", "i"])
    prog("C02", "get-scalar2", "lambda ns,a,k,g: a[k,g]", ["f[n,m]", "i", "i"])
    prog("C02", "get-row", "lambda ns,a,k: a[k]", ["f[n,m]", "i"])
    prog("C02", "get-col", "lambda ns,a,k: ns.array(lambda i: a[i,k])", ["f[n,m]", "i"])
    prog("C02", "get-rowx", "lambda ns,a,k: ns.array(lambda i: a[i][k])", ["f[n,m,l]", "i"])
    prog("C02", "or-empty", "lambda ns,a,k: a.or_empty(k, 7.0)", ["f[n]", "i"])
    prog("C02", "or-empty-i", "lambda ns,a,k: ns.array(lambda i: a.or_empty(i-1, 7.0), size=k)", ["f[n]", "i"], vals={"x1": (0, None)}, jax=False)
    prog("C02", "of-concat", "lambda ns,a,b: ns.array(lambda i: a.concat(b)[i+1], size=a.size())", ["f[n]", "f[m]"])
    prog("C02", "of-concat2", "lambda ns,a,b: ns.array(lambda i,j: a[j].concat(b)[i-1], size=(b.size(),a.size()))", ["f[n,l]", "f[m]"])
    prog("C02", "stencil", "lambda ns,a: ns.array(lambda i,j: a[i-1,j]+a[i+1,j]-a[i,j-1]-a[i,j+1], size=(a.size(0),a.size(1)))", ["f[n,m]"])
    prog("C02", "stencil-chain", "lambda ns,a: (lambda b: ns.array(lambda i: b[i+1]-b[i-1], size=b.size()))(ns.array(lambda i: a[i+1]+a[i-1], size=a.size()))", ["f[n]"])
    prog("C02", "stencil3", "lambda ns,a: ns.array(lambda i,j,h: a[i-1,j+1,h]-a[h,i,j+2], size=(a.size(0),a.size(1),a.size(2)))", ["f[n,m,l]"])
    prog("C02", "window", "lambda ns,a: ns.array(lambda i,j: a[i+j], size=(a.size(),3))", ["f[n]"])
    prog("C02", "rev", "lambda ns,a: ns.array(lambda i: a[a.size()-1-i], size=a.size())", ["f[n]"])
    prog("C02", "conv-index", "lambda ns,a,b: ns.array(lambda i,j: a[i+1,j]*b[j-1,i], size=(a.size(0),a.size(1)))", ["f[n,m]", "f[l,q]"])


# =============================================================== C03 folds

CNT = {"x0": (-2, 3)}


def c03():
    inits = {"c": ("1.5", None), "i": ("a[i]", "f[n]"), "j": ("a[j]", "f[m]"), "ij": ("a[i,j]", "f[n,m]"), "ji": ("a[j,i]", "f[m,n]")}
    bodies = {"c": ("0.5", None), "i": ("b[i]", "f[n]"), "j": ("b[j]", "f[m]"), "ij": ("b[i,j]", "f[n,m]"), "ji": ("b[j,i]", "f[m,n]"),
              "k": ("b[k]", "f[r]"), "ki": ("b[k,i]", "f[r,n]"), "jk": ("b[j,k]", "f[m,r]")}
    n = 0
    for (x, (ie, it)), (y, (be, bt)) in itertools.product(inits.items(), bodies.items()):
        n += 1
        used = set(x + y) & set("ij")
        args = ["i", it or "f[n]", bt or "f[m]", "f[n,m]"]
        prog("C03 C10", f"fold/{x}/{y}",
             f"lambda ns,c,a,b,z: ns.array(lambda i,j: ns.fold({ie}, lambda k,acc: acc*2.0+{be}*k.float(), c), size=(z.size(0),z.size(1)))",
             args, vals=CNT, dims={"r": (1, None)}, backends=(NP, (TO, JX)[n % 2]))
    S = [
        ("plain", "ns.fold(x, lambda k,acc: acc*3.0-k.float(), c)", ["i", "f"]),
        ("int", "ns.fold(1, lambda k,acc: acc*3-k, c)", ["i"]),
        ("ignore-acc", "ns.fold(0.0, lambda k,acc: k.float()*2.0, c)", ["i"]),
        ("ignore-k", "ns.fold(x, lambda k,acc: acc*acc-1.0, c)", ["i", "f"]),
        ("id", "ns.fold(x, lambda k,acc: acc, c)", ["i", "f"]),
        ("bool", "ns.fold(True, lambda k,acc: acc & (a[k] < 1.0), c)", ["i", "f[n]"]),
        ("vec", "ns.fold(a, lambda k,acc: ns.array(lambda i: acc[i]*2.0+k.float()), c)", ["i", "f[n]"]),
        ("vec-shift", "ns.fold(a, lambda k,acc: ns.array(lambda i: acc[i]-acc[i-1], size=acc.size()), c)", ["i", "f[n]"]),
        ("vec-shift2", "ns.fold(a, lambda k,acc: ns.array(lambda i: acc[i+1]+acc[i-k], size=a.size()), c)", ["i", "f[n]"]),
        ("vec-rev", "ns.fold(a, lambda k,acc: ns.array(lambda i: acc[acc.size()-1-i]+k.float(), size=acc.size()), c)", ["i", "f[n]"]),
        ("vec-batch", "ns.array(lambda j: ns.fold(a, lambda k,acc: ns.array(lambda i: acc[i]*b[j]+k.float()), c))", ["i", "f[n]", "f[m]"]),
        ("vec-batch2", "ns.array(lambda j: ns.fold(a[j], lambda k,acc: ns.array(lambda i: acc[i]*b[k]+a[j,i]), c))", ["i", "f[m,n]", "f[r]"]),
        ("mat", "ns.fold(a, lambda k,acc: ns.array(lambda i,j: acc[j,i]*2.0-k.float()), c)", ["i", "f[n,n]"]),
        ("mat-wave", "ns.fold(a, lambda k,acc: ns.array(lambda i,j: acc[i-1,j]+acc[i,j+1], size=(acc.size(0),acc.size(1))), c)", ["i", "f[n,m]"]),
        ("swap", "ns.fold((x,y), lambda k,acc: (acc[1],acc[0]+acc[1]*2.0), c)[0]", ["i", "f", "f"]),
        ("swap1", "ns.fold((x,y), lambda k,acc: (acc[1],acc[0]+acc[1]*2.0), c)[1]", ["i", "f", "f"]),
        ("rec-mixed", "(lambda r: r[0]+r[1].float())(ns.fold((x,1), lambda k,acc: (acc[0]*2.0+acc[1].float(), acc[1]+k), c))", ["i", "f"]),
        ("rec-vec", "(lambda r: ns.array(lambda i: r['v'][i]*r['s']))(ns.fold({'v':a,'s':x}, lambda k,acc: {'v':ns.array(lambda i: acc['v'][i]+acc['s']), 's':acc['s']*2.0+k.float()}, c))", ["i", "f[n]", "f"]),
        ("rec-batch", "ns.array(lambda i: ns.fold((a[i],x), lambda k,acc: (acc[1]+a[i],acc[0]*2.0), c)[1])", ["i", "f[n]", "f"]),
        ("rec-batch2", "ns.array(lambda i,j: ns.fold((a[i],b[j]), lambda k,acc: (acc[1]-k.float(),acc[0]*2.0), c)[0])", ["i", "f[n]", "f[m]"]),
        ("rec-batch3", "ns.array(lambda i,j: ns.fold((b[j],1.0), lambda k,acc: (acc[1]-a[i],acc[0]*2.0), c)[1])", ["i", "f[n]", "f[m]"]),
        ("nested", "ns.fold(x, lambda k,acc: ns.fold(acc, lambda l,acc2: acc2*2.0+k.float()-l.float(), c), c)", ["i", "f"]),
        ("nested-cap", "ns.fold(x, lambda k,acc: acc + ns.fold(1.0, lambda l,acc2: acc2*acc-k.float(), c), c)", ["i", "f"]),
        ("nested-count", "ns.fold(x, lambda k,acc: ns.fold(acc, lambda l,acc2: acc2*2.0+l.float(), k), c)", ["i", "f"]),
        ("nested-batch", "ns.array(lambda i,j: ns.fold(a[i], lambda k,acc: ns.fold(acc, lambda l,acc2: acc2*b[j]+k.float(), c), c))", ["i", "f[n]", "f[m]"]),
        ("nested-init", "ns.fold(ns.fold(x, lambda k,acc: acc*2.0+1.0, c), lambda k,acc: acc*3.0-k.float(), c)", ["i", "f"]),
        ("in-size", "ns.array(lambda i: i*2, size=ns.fold(0, lambda k,acc: acc+k, c))", ["i"]),
        ("in-count", "ns.fold(x, lambda k,acc: acc*2.0-k.float(), ns.fold(0, lambda k,acc: acc+k, c))", ["i", "f"]),
        ("in-index", "ns.array(lambda i: a[ns.fold(i, lambda k,acc: acc+k, c)], size=a.size())", ["i", "f[n]"]),
        ("in-index2", "a[ns.fold(0, lambda k,acc: acc+b[k], c)]", ["i", "f[n]", "i[m]"]),
        ("counter-index", "ns.fold(0.0, lambda k,acc: acc*2.0+a[k], c)", ["i", "f[n]"]),
        ("counter-index2", "ns.array(lambda i: ns.fold(0.0, lambda k,acc: acc*2.0+a[k,i]-a[i,k], c))", ["i", "f[n,n]"]),
        ("counter-shift", "ns.array(lambda i: ns.fold(0.0, lambda k,acc: acc*2.0+a[i-k], c), size=a.size())", ["i", "f[n]"]),
        ("counter-shift2", "ns.array(lambda i: ns.fold(0.0, lambda k,acc: acc*2.0+a[(i+k).min(3)], c), size=a.size())", ["i", "f[n]"]),
        ("where-k", "ns.fold(x, lambda k,acc: (k < 1).where(acc*2.0, acc-1.0), c)", ["i", "f"]),
        ("two", "ns.fold(x, lambda k,acc: acc*2.0+k.float(), c) - ns.fold(x, lambda k,acc: acc*2.0-k.float(), c)", ["i", "f"]),
        ("two-same", "(lambda f: f*f)(ns.fold(x, lambda k,acc: acc*2.0+k.float(), c))", ["i", "f"]),
        ("comp-in", "ns.fold(x, lambda k,acc: ns.array(lambda i: a[i]*acc+k.float())[k], c)", ["i", "f", "f[n]"]),
        ("comp-in2", "ns.fold(a, lambda k,acc: ns.array(lambda i: ns.fold(acc[i], lambda l,acc2: acc2+acc[l], c)), c)", ["i", "f[n]"]),
        ("invariant", "ns.fold(x, lambda k,acc: acc*(y*2.0+1.0)+(y*2.0+1.0)*k.float(), c)", ["i", "f", "f"]),
        ("invariant-vec", "ns.fold(x, lambda k,acc: acc+ns.array(lambda i: a[i]*2.0)[k], c)", ["i", "f", "f[n]"]),
        ("concat-acc", "ns.fold(a, lambda k,acc: ns.array(lambda i: acc.concat(b)[i+1], size=acc.size()), c)", ["i", "f[n]", "f[m]"]),
        ("max-acc", "ns.fold(x, lambda k,acc: acc.max(a[k])*2.0, c)", ["i", "f", "f[n]"]),
        ("dep-init-idx", "ns.array(lambda i: ns.fold(i, lambda k,acc: acc*2+k, c), size=4)", ["i"]),
        ("dep-init-idx2", "ns.array(lambda i,j: ns.fold(i*j, lambda k,acc: acc+i-k, c), size=(3,4))", ["i"]),
    ]
    for n, (nm, e, types) in enumerate(S):
        ps = {1: "c", 2: "c,a" if "a" in "".join(t for t in [e]) else "c,x", 3: "c,a,b"}[len(types)]
        names = ["c"]
        pool_arr, pool_sc = iter("ab"), iter("xy")
        for t in types[1:]:
            names.append(next(pool_arr) if "[" in t else next(pool_sc))
        dynsize = nm in ("in-size",)
        dims = {"r": (1, None)}
        if "shift" not in nm and "vec" not in nm:
            pass
        vals = dict(CNT)
        if nm in ("nested-count", "in-count", "nested", "nested-cap", "nested-batch", "comp-in2", "ignore-k", "in-size"):
            vals = {"x0": (-1, 2)}
        if nm == "in-size":
            vals = {"x0": (0, 3)}
        if nm == "in-index2":
            vals["x2"] = (-9, 9)
        jax = not dynsize and "acc.size()-1-i" not in e and nm not in ("vec-shift2", "counter-shift", "counter-shift2", "nested-count")
        prog("C03 C10" if n % 2 else "C03", f"foldx/{nm}", f"lambda ns,{','.join(names)}: {e}", types, vals=vals, dims=dims, jax=jax)
    # inferred counts
    prog("C03 C08", "fold-inferred", "lambda ns,a,x: ns.fold(x, lambda k,acc: acc*2.0+a[k])", ["f[n]", "f"], dims={"n": (0, 3)})
    prog("C03 C08", "fold-inferred2", "lambda ns,a,b: ns.array(lambda i: ns.fold(1.0, lambda k,acc: acc*b[i,k]-a[k]))", ["f[n]", "f[m,n]"], dims={"n": (0, 3)})
    prog("C03", "fold-size-dim", "lambda ns,a: ns.array(lambda i: ns.fold(0.0, lambda k,acc: acc*2.0+a[i,k], a.size(1)-1))", ["f[n,m]"], dims={"m": (0, 4)})
    prog("C03", "fold-min-count", "lambda ns,a,c: ns.fold(0.0, lambda k,acc: acc*2.0+a[k], a.size().min(c))", ["f[n]", "i"], vals={"x1": (-1, 3)})


# =============================================================== C04 recognised reductions

M3 = {"r": (0, 3)}


def c04():
    facs = {"c": ("2.0", None), "k": ("{v}[k]", "f[r]"), "i": ("{v}[i]", "f[n]"), "ik": ("{v}[i,k]", "f[n,r]"), "ki": ("{v}[k,i]", "f[r,n]"),
            "kj": ("{v}[k,j]", "f[r,m]"), "jk": ("{v}[j,k]", "f[m,r]"), "ikj": ("{v}[i,k,j]", "f[n,r,m]"), "jik": ("{v}[j,i,k]", "f[m,n,r]")}
    n = 0
    for x, y in itertools.product(facs, facs):
        if "k" not in x + y:
            continue
        n += 1
        (xe, xt), (ye, yt) = facs[x], facs[y]
        xe, ye = xe.format(v="a"), ye.format(v="b")
        prog("C04 C10", f"dot/{x}/{y}",
             f"lambda ns,a,b,z,w: ns.array(lambda i,j: ns.std.fold_sum(lambda k: {xe}*{ye}, w.size()), size=(z.size(0),z.size(1)))",
             [xt or "f[n]", yt or "f[n]", "f[n,m]", "f[r]"], dims={"r": (0, 2)} if len(x + y) > 4 else M3, backends=(NP, (TO, JX)[n % 2]))
    S = [
        # (name, expression, types, dims)
        ("sum", "ns.std.fold_sum(lambda k: a[k])", ["f[r]"]),
        ("sum-row", "ns.array(lambda i: ns.std.fold_sum(lambda k: a[i,k]))", ["f[n,r]"]),
        ("sum-col", "ns.array(lambda i: ns.std.fold_sum(lambda k: a[k,i]))", ["f[r,n]"]),
        ("sum-mid", "ns.array(lambda i,j: ns.std.fold_sum(lambda k: a[j,k,i]))", ["f[m,r,n]"]),
        ("sum-init", "ns.fold(x, lambda k,acc: acc+a[k])", ["f", "f[r]"]),
        ("sum-init2", "ns.fold(3.5, lambda k,acc: a[k]+acc)", ["f[r]"]),
        ("sum-init-i", "ns.array(lambda i: ns.fold(b[i], lambda k,acc: acc+a[k]))", ["f[r]", "f[n]"]),
        ("dot-init", "ns.fold(3.5, lambda k,acc: acc+a[k]*b[k])", ["f[r]", "f[r]"]),
        ("dot-init-x", "ns.fold(x, lambda k,acc: acc+a[k]*b[k])", ["f", "f[r]", "f[r]"]),
        ("dot-neg", "ns.std.fold_sum(lambda k: -(a[k]*b[k]))", ["f[r]", "f[r]"]),
        ("dot-sub", "ns.array(lambda i: ns.std.fold_sum(lambda k: a[k]*b[k,i]-b[k,i]*b[k,i]))", ["f[r]", "f[r,n]"]),
        ("dot-sub2", "ns.array(lambda i: ns.std.fold_sum(lambda k: a[k]*b[k,i]-(b[k,i]-a[k])*b[k,i]))", ["f[r]", "f[r,n]"]),
        ("dot-add", "ns.array(lambda i: ns.std.fold_sum(lambda k: (a[k]+b[k,i])*(a[k]-b[k,i])))", ["f[r]", "f[r,n]"]),
        ("dot-same", "ns.std.fold_sum(lambda k: a[k]*a[k])", ["f[r]"]),
        ("dot-cube", "ns.std.fold_sum(lambda k: a[k]*a[k]*a[k])", ["f[r]"]),
        ("dot-3", "ns.array(lambda i,j: ns.std.fold_sum(lambda k: a[i,k]*b[k]*c[k,j]))", ["f[n,r]", "f[r]", "f[r,m]"]),
        ("dot-scale", "ns.array(lambda i: ns.std.fold_sum(lambda k: a[i,k]*b[k]*x))", ["f[n,r]", "f[r]", "f"]),
        ("dot-const-term", "ns.std.fold_sum(lambda k: a[k]*b[k]+x)", ["f[r]", "f[r]", "f"]),
        ("dot-const-term2", "ns.array(lambda i: ns.std.fold_sum(lambda k: a[k]*b[i]+b[i]*b[i], a.size()))", ["f[r]", "f[n]"]),
        ("const-sum", "ns.std.fold_sum(lambda k: x*y, w.size())", ["f", "f", "f[r]"]),
        ("const-sum1", "ns.std.fold_sum(lambda k: x, w.size())", ["f", "f[r]"]),
        ("k-sum", "ns.std.fold_sum(lambda k: k.float(), w.size())", ["f[r]"]),
        ("k-dot", "ns.std.fold_sum(lambda k: k.float()*a[k])", ["f[r]"]),
        ("k-dot2", "ns.array(lambda i: ns.std.fold_sum(lambda k: (k+i).float()*a[k]), size=3)", ["f[r]"]),
        ("nest", "ns.array(lambda i,j: ns.std.fold_sum(lambda k: a[i,k]*ns.std.fold_sum(lambda l: b[k,l]*c[l,j])))", ["f[n,r]", "f[r,s]", "f[s,m]"]),
        ("nest2", "ns.array(lambda i: ns.std.fold_sum(lambda k: ns.std.fold_sum(lambda l: a[i,k]*b[k,l])))", ["f[n,r]", "f[r,s]"]),
        ("nest3", "ns.std.fold_sum(lambda k: a[k]*ns.std.fold_sum(lambda l: b[l]))", ["f[r]", "f[s]"]),
        ("nest4", "ns.std.fold_sum(lambda k: a[k]*b[k] + ns.std.fold_sum(lambda l: b[l]*b[l]))", ["f[r]", "f[r]"]),
        ("nest5", "ns.std.fold_sum(lambda k: a[k]*b[k] - ns.std.fold_sum(lambda l: a[l]*b[k]))", ["f[r]", "f[r]"]),
        ("prod-of-sums", "ns.std.fold_sum(lambda k: a[k])*ns.std.fold_sum(lambda k: b[k]*b[k])", ["f[r]", "f[s]"]),
        ("sum-of-prod-sums", "ns.std.fold_sum(lambda k: ns.std.fold_sum(lambda l: a[l]*b[k])*ns.std.fold_sum(lambda l: b[l]*a[k]))", ["f[r]", "f[r]"]),
        ("shared-sum", "(lambda s: s*s)(ns.std.fold_sum(lambda k: a[k]*b[k]))", ["f[r]", "f[r]"]),
        ("shared-sum2", "(lambda s: ns.std.fold_sum(lambda l: s*a[l]*s))(ns.std.fold_sum(lambda k: a[k]*b[k]))", ["f[r]", "f[r]"]),
        ("shared-sum3", "(lambda s: ns.std.fold_sum(lambda l: s*a[l] + s*b[l]))(ns.std.fold_sum(lambda k: a[k]*b[k]))", ["f[r]", "f[r]"]),
        ("min", "ns.std.fold_min(lambda k: a[k])", ["f[r]"]),
        ("max", "ns.std.fold_max(lambda k: a[k])", ["f[r]"]),
        ("min-row", "ns.array(lambda i: ns.std.fold_min(lambda k: a[k,i]))", ["f[r,n]"]),
        ("max-row", "ns.array(lambda i: ns.std.fold_max(lambda k: a[i,k]-b[k]))", ["f[n,r]", "f[r]"]),
        ("max-init", "ns.fold(x, lambda k,acc: acc.max(a[k]))", ["f", "f[r]"]),
        ("min-init", "ns.fold(x, lambda k,acc: a[k].min(acc))", ["f", "f[r]"]),
        ("min-init-i", "ns.array(lambda i: ns.fold(b[i], lambda k,acc: acc.min(a[k,i])))", ["f[r,n]", "f[n]"]),
        ("max-int", "ns.fold(0, lambda k,acc: acc.max(a[k]))", ["i[r]"]),
        ("sum-int", "ns.fold(0, lambda k,acc: acc+a[k])", ["i[r]"]),
        ("dot-int", "ns.fold(0, lambda k,acc: acc+a[k]*b[k])", ["i[r]", "i[r]"]),
        ("min-max", "ns.std.fold_min(lambda k: ns.std.fold_max(lambda l: a[k,l]))", ["f[r,s]"]),
        ("sum-max", "ns.std.fold_sum(lambda k: ns.std.fold_max(lambda l: a[k,l]*b[l]))", ["f[r,s]", "f[s]"]),
        ("max-sum", "ns.std.fold_max(lambda k: ns.std.fold_sum(lambda l: a[k,l]*b[l]))", ["f[r,s]", "f[s]"]),
        ("sub-acc", "ns.fold(0.0, lambda k,acc: acc-a[k])", ["f[r]"]),
        ("acc-twice", "ns.fold(1.0, lambda k,acc: acc+acc*a[k])", ["f[r]"]),
        ("acc-twice2", "ns.fold(1.0, lambda k,acc: acc+acc)", ["f[r]"], "w"),
        ("acc-mul", "ns.fold(1.0, lambda k,acc: acc*a[k])", ["f[r]"]),
        ("acc-max-acc", "ns.fold(1.0, lambda k,acc: acc.max(acc*a[k]))", ["f[r]"]),
        ("short", "ns.std.fold_sum(lambda k: a[k]*b[k], a.size()-1)", ["f[r]", "f[r]"]),
        ("long", "ns.std.fold_sum(lambda k: a[k]*b[k], a.size()+1)", ["f[r]", "f[r]"]),
        ("const-count", "ns.std.fold_sum(lambda k: a[k]*b[k], 2)", ["f[r]", "f[r]"]),
        ("const-count-sum", "ns.array(lambda i: ns.std.fold_sum(lambda k: a[i,k], 2))", ["f[n,r]"]),
        ("const-count-max", "ns.array(lambda i: ns.std.fold_max(lambda k: a[i,k], 4))", ["f[n,r]"]),
        ("diff-sizes", "ns.std.fold_sum(lambda k: a[k]*b[k], a.size())", ["f[r]", "f[s]"]),
        ("diff-sizes-max", "ns.std.fold_max(lambda k: a[k]-b[k], a.size())", ["f[r]", "f[s]"]),
        ("shifted", "ns.std.fold_sum(lambda k: a[k]*a[k+1], a.size())", ["f[r]"]),
        ("shifted-i", "ns.array(lambda i: ns.std.fold_sum(lambda k: a[i+k]*b[k]), size=a.size())", ["f[n]", "f[r]"]),
        ("shifted-i2", "ns.array(lambda i: ns.std.fold_sum(lambda k: a[i-k]*b[k]), size=a.size())", ["f[n]", "f[r]"]),
        ("gathered", "ns.array(lambda i: ns.std.fold_sum(lambda k: a[g[k]]*b[k,i]))", ["f[n]", "i[r]", "f[r,m]"]),
        ("gathered2", "ns.array(lambda i: ns.std.fold_sum(lambda k: a[k,g[i]]*b[k]))", ["f[r,m]", "i[n]", "f[r]"]),
        ("where-sum", "ns.std.fold_sum(lambda k: (a[k] > 0.0).where(a[k]*b[k], 0.0))", ["f[r]", "f[r]"]),
        ("where-prod", "ns.std.fold_sum(lambda k: (a[k] > 0.0).where(a[k], 0.0)*b[k])", ["f[r]", "f[r]"]),
        ("exp-sum", "ns.std.fold_sum(lambda k: a[k].exp()*b[k])", ["f[r]", "f[r]"]),
        ("div-sum", "ns.array(lambda i: ns.std.fold_sum(lambda k: a[k]/b[i]))", ["f[r]", "f[n]"]),
        ("vec-acc", "ns.fold(a, lambda k,acc: ns.array(lambda i: acc[i]+b[k,i]), b.size(0))", ["f[n]", "f[r,n]"]),
        ("two-contractions", "ns.array(lambda i,j: ns.std.fold_sum(lambda k: ns.std.fold_sum(lambda l: a[i,k,l]*b[l,k,j])))", ["f[n,r,s]", "f[s,r,m]"]),
        ("trace", "ns.std.fold_sum(lambda k: a[k,k])", ["f[r,r]"]),
        ("trace-dot", "ns.std.fold_sum(lambda k: a[k,k]*b[k])", ["f[r,r]", "f[r]"]),
        ("bilinear", "ns.std.fold_sum(lambda k: ns.std.fold_sum(lambda l: b[k]*a[k,l]*b[l]))", ["f[r,r]", "f[r]"]),
        ("neg-nest", "ns.std.fold_sum(lambda k: a[k]*(-ns.std.fold_sum(lambda l: b[k]*b[l])))", ["f[r]", "f[r]"]),
        ("sub-nest", "ns.std.fold_sum(lambda k: (a[k]-b[k])*(a[k]-ns.std.fold_sum(lambda l: b[k]*b[l])))", ["f[r]", "f[r]"]),
        ("mean", "ns.std.fold_sum(lambda k: a[k])/a.size().float()", ["f[r]"]),
        ("argmin", "ns.std.fold_argmin(lambda k: a[k])", ["f[r]"]),
        ("argmin-row", "ns.array(lambda i: ns.std.fold_argmin(lambda k: a[k,i]))", ["f[r,n]"]),
        ("in-fold", "ns.fold(x, lambda t,acc: acc*0.5+ns.std.fold_sum(lambda k: a[k]*acc), 2)", ["f", "f[r]"]),
        ("in-fold-dot", "ns.fold(x, lambda t,acc: acc*0.5+ns.std.fold_sum(lambda k: a[k]*b[k]*acc), 2)", ["f", "f[r]", "f[r]"]),
        ("min-const", "ns.fold(1.5, lambda k,acc: acc.min(a[k]))", ["f[r]"]),
        ("max-const", "ns.fold(-0.5, lambda k,acc: a[k].max(acc))", ["f[r]"]),
        ("min-const-i", "ns.array(lambda i: ns.fold(0.0, lambda k,acc: acc.min(a[i,k])))", ["f[n,r]"]),
        ("max-const-i", "ns.array(lambda i: ns.fold(0.0, lambda k,acc: acc.max(a[k,i]*b[k])))", ["f[r,n]", "f[r]"]),
        ("sum-const", "ns.fold(2.5, lambda k,acc: acc+a[k]*b[k])", ["f[r]", "f[r]"]),
        ("sum-const-i", "ns.array(lambda i: ns.fold(-1.0, lambda k,acc: a[i,k]*b[k]+acc))", ["f[n,r]", "f[r]"]),
        ("sum-const1", "ns.array(lambda i: ns.fold(1.0, lambda k,acc: acc+a[i,k]))", ["f[n,r]"]),
        ("shared-sum4", "(lambda s: ns.std.fold_sum(lambda j: b[j]*(s*ns.std.fold_sum(lambda k: s*b[k]))))(ns.std.fold_sum(lambda i: a[i]*a[i]))", ["f[r]", "f[s]"]),
        ("shared-sum5", "(lambda s: ns.std.fold_sum(lambda j: (b[j]*s)*ns.std.fold_sum(lambda k: b[k]*s)))(ns.std.fold_sum(lambda i: a[i]))", ["f[r]", "f[s]"]),
        ("shared-sum6", "ns.array(lambda i: (lambda s: ns.std.fold_sum(lambda j: c[j]*ns.std.fold_sum(lambda k: c[k]*s)*s))(ns.std.fold_sum(lambda k: a[k]*b[k,i])))", ["f[r]", "f[r,n]", "f[s]"]),
        ("shared-sum7", "(lambda s: ns.std.fold_sum(lambda j: s*b[j] + ns.std.fold_sum(lambda k: s*b[k]*b[j])))(ns.std.fold_sum(lambda i: a[i]*a[i]))", ["f[r]", "f[s]"]),
        ("shared-sum8", "(lambda s: ns.std.fold_sum(lambda j: b[j]*(s+ns.std.fold_sum(lambda k: b[k]*s)))-s)(ns.std.fold_sum(lambda i: a[i]*a[i]))", ["f[r]", "f[s]"]),
        ("abandoned", "ns.std.fold_sum(lambda i: ns.fold(x, lambda j,acc: acc-a[i]*b[j], 1)*x+b[i], a.size())", ["f[r]", "f[r]", "f"]),
        ("abandoned2", "ns.array(lambda l: ns.std.fold_sum(lambda i: ns.fold(a[l], lambda j,acc: acc*a[i], 1)*b[i]+c[i], a.size()))", ["f[r]", "f[r]", "f[s]"]),
        ("in-fold-vec", "ns.fold(a, lambda t,acc: ns.array(lambda i: ns.std.fold_sum(lambda k: b[i,k]*acc[k])), 2)", ["f[r]", "f[r,r]"]),
    ]
    for n, row in enumerate(S):
        nm, e, types = row[:3]
        names, arrs, scs = [], iter("abc"), iter("xy")
        for t in types:
            if t == "f[r]" and "w.size()" in e and "w" not in names and (f"{'abc'[sum('[' in u for u in types[:len(names)])]}[" not in e):
                names.append("w")
            elif t.startswith("i[") and "g[" in e:
                names.append("g")
            else:
                names.append(next(arrs) if "[" in t else next(scs))
        if len(row) > 3:
            e = e[:-1] + ", a.size())" if "a.size" not in e else e
        if nm in ("acc-twice2",):
            e = "ns.fold(1.0, lambda k,acc: acc+acc, a.size())"
        dims = {"r": (0, 3), "s": (0, 2)}
        if nm in ("nest", "nest2", "nest5", "two-contractions", "bilinear", "sub-nest", "sum-of-prod-sums", "min-max", "sum-max", "max-sum", "in-fold-vec", "shared-sum2", "acc-twice", "shared-sum4", "shared-sum5", "shared-sum6", "shared-sum7", "shared-sum8", "abandoned2"):
            dims = {"r": (0, 2), "s": (0, 2)}
        prog("C04 C10" if n % 3 == 0 else "C04", f"red/{nm}", f"lambda ns,{','.join(names)}: {e}", types, dims=dims, jax=nm not in ("shifted-i", "shifted-i2"))


# =============================================================== C05 reduce


def c05():
    aff = "lambda x,y: (x[0]*y[0], x[0]*y[1]+x[1])"
    mat = "lambda x,y: (x[0]*y[0]+x[1]*y[2], x[0]*y[1]+x[1]*y[3], x[2]*y[0]+x[3]*y[2], x[2]*y[1]+x[3]*y[3])"
    first = "lambda x,y: ns.where(x[0], x, y)"
    S = [
        ("sum", "a.reduce(0.0, lambda x,y: x+y)", ["f[r]"], 7),
        ("max", "a.reduce(float('-inf'), lambda x,y: x.max(y))", ["f[r]"], 5),
        ("min-row", "ns.array(lambda i: a[i].reduce(float('inf'), lambda x,y: x.min(y)))", ["f[n,r]"], 5),
        ("sum-row", "ns.array(lambda i: a[i].reduce(0.0, lambda x,y: x+y))", ["f[n,r]"], 7),
        ("sum-col", "ns.array(lambda i: ns.array(lambda k: a[k,i]).reduce(0.0, lambda x,y: x+y))", ["f[r,n]"], 6),
        ("prod", "a.reduce(1.0, lambda x,y: x*y)", ["f[r]"], 4),
        ("int", "a.reduce(0, lambda x,y: x+y)", ["i[r]"], 6),
        ("and", "a.reduce(True, lambda x,y: x & y)", ["b[r]"], 7),
        ("first", "ns.array(lambda i: (a[i]>0.0, ns.where(a[i]>0.0, b[i], 0.0))).reduce((False, 0.0), %s)[1]" % first, ["f[r]", "f[r]"], 6),
        ("affine0", "ns.array(lambda i: (a[i], b[i])).reduce((1.0, 0.0), %s)[0]" % aff, ["f[r]", "f[r]"], 4),
        ("affine1", "ns.array(lambda i: (a[i], b[i])).reduce((1.0, 0.0), %s)[1]" % aff, ["f[r]", "f[r]"], 4),
        ("affine-row", "ns.array(lambda j: ns.array(lambda i: (a[j,i], b[i])).reduce((1.0, 0.0), %s)[1])" % aff, ["f[n,r]", "f[r]"], 4),
        ("mat", "ns.array(lambda i: (a[i], b[i], 1.0, 0.0)).reduce((1.0,0.0,0.0,1.0), %s)[1]" % mat, ["f[r]", "f[r]"], 4),
        ("dict", "ns.array(lambda i: {'m':a[i],'s':b[i]}).reduce({'m':1.0,'s':0.0}, lambda x,y: {'m':x['m']*y['m'],'s':x['m']*y['s']+x['s']})['s']", ["f[r]", "f[r]"], 4),
        ("pt", "ns.array(lambda i: Pt(a[i],b[i])).reduce(Pt(1.0,0.0), lambda p,q: Pt(p.x*q.x, p.x*q.y+p.y)).y", ["f[r]", "f[r]"], 4),
        ("nested-rec", "ns.array(lambda i: ((a[i],b[i]),a[i])).reduce(((1.0,0.0),0.0), lambda x,y: ((x[0][0]*y[0][0], x[0][0]*y[0][1]+x[0][1]), x[1]+y[1]))[0][1]", ["f[r]", "f[r]"], 3),
        ("nested-rec2", "ns.array(lambda i: (a[i],(b[i],a[i]))).reduce((0.0,(1.0,0.0)), lambda x,y: (x[0]+y[0],(x[1][0]*y[1][0], x[1][0]*y[1][1]+x[1][1])))[1][1]", ["f[r]", "f[r]"], 3),
        ("vec", "a.reduce(ns.array(lambda i: 0.0, size=a.size(1)), lambda x,y: ns.array(lambda i: x[i]+y[i]))", ["f[r,n]"], 5),
        ("vec-b", "ns.array(lambda j: a[j].reduce(ns.array(lambda i: 0.0, size=a.size(2)), lambda x,y: ns.array(lambda i: x[i]+y[i])))", ["f[m,r,n]"], 4),
        ("matmul", "a.reduce(ns.array(lambda i,j: ns.where(i==j, 1.0, 0.0), size=(2,2)), lambda x,y: ns.array(lambda i,j: x[i,0]*y[0,j]+x[i,1]*y[1,j], size=(2,2)))", ["f[r,2,2]"], 2),
        ("captured", "ns.array(lambda i: a.reduce(0.0, lambda x,y: x+y)*b[i])", ["f[r]", "f[n]"], 5),
        ("dep-comb", "ns.array(lambda i: a.reduce(b[i], lambda x,y: x.max(y).max(b[i])))", ["f[r]", "f[n]"], 5),
        ("dep-comb2", "ns.array(lambda i,j: a[j].reduce(b[i], lambda x,y: x.max(y).max(b[i])))", ["f[m,r]", "f[n]"], 4),
        ("dep-all", "ns.array(lambda i,j: ns.array(lambda k: a[k,i]*b[j,k]).reduce(0.0, lambda x,y: x+y))", ["f[r,n]", "f[m,r]"], 4),
        ("argmin", "ns.std.reduce_argmin(lambda k: a[k])", ["f[r]"], 4),
        ("argmin-row", "ns.array(lambda i: ns.std.reduce_argmin(lambda k: a[k,i]))", ["f[r,n]"], 4),
        ("rsum", "ns.array(lambda i: ns.std.reduce_sum(lambda k: a[i,k]*b[k]))", ["f[n,r]", "f[r]"], 5),
        ("rmin", "ns.array(lambda i: ns.std.reduce_min(lambda k: a[i,k]-b[k]))", ["f[n,r]", "f[r]"], 4),
        ("rmax-count", "ns.std.reduce_max(lambda k: a[k], 4)", ["f[r]"], 5),
        ("fold-in", "ns.fold(x, lambda t,acc: acc*2.0+a.reduce(0.0, lambda p,q: p+q), 2)", ["f", "f[r]"], 4),
        ("in-reduce", "a.reduce(0.0, lambda x,y: x+y)+a.reduce(1.0, lambda x,y: x*y)", ["f[r]"], 4),
        ("of-concat", "a.concat(b).reduce(0.0, lambda x,y: x+y)", ["f[r]", "f[s]"], 3),
        ("mixed-kinds", "ns.array(lambda i: (a[i], 1)).reduce((0.0, 0), lambda x,y: (x[0]+y[0], x[1]+y[1]))[1]", ["f[r]"], 5),
        ("comb-only", "ns.array(lambda i: a.reduce(0.0, lambda x,y: x+y+0.0*b[i]))", ["f[r]", "f[n]"], 4),
        ("comb-where", "ns.array(lambda i: ns.array(lambda k: k, size=a.size()).reduce(0, lambda x,y: ns.where(b[i]>0.0, x+y, x.max(y))))", ["f[r]", "f[n]"], 4),
        ("comb-where2", "ns.array(lambda i,j: ns.array(lambda k: k+j, size=a.size()).reduce(0, lambda x,y: ns.where(b[i]>0.0, x+y, x.max(y))), size=(b.size(),2))", ["f[r]", "f[n]"], 3),
        ("comb-where3", "ns.array(lambda i,j: ns.array(lambda k: k, size=a.size()).reduce(i*0, lambda x,y: ns.where(b[j]>0.0, x+y, x.max(y))), size=(2,b.size()))", ["f[r]", "f[n]"], 3),
        ("comb-rec", "ns.array(lambda i: ns.array(lambda k: (a[k], k), size=a.size()).reduce((0.0, 0), lambda x,y: (x[0]+y[0], ns.where(b[i]>0.0, x[1]+y[1], x[1].max(y[1]))))[0])", ["f[r]", "f[n]"], 3),
        ("comb-rec2", "ns.array(lambda i: ns.array(lambda k: (a[k], k), size=a.size()).reduce((0.0, 0), lambda x,y: (x[0]+y[0], ns.where(b[i]>0.0, x[1]+y[1], x[1].max(y[1]))))[1])", ["f[r]", "f[n]"], 3),
        ("reduce-reduce", "ns.array(lambda i: a[i].reduce(0.0, lambda x,y: x+y)).reduce(float('-inf'), lambda x,y: x.max(y))", ["f[s,r]"], 3),
    ]
    for n, (nm, e, types, hi) in enumerate(S):
        names, arrs, scs = [], iter("ab"), iter("xy")
        for t in types:
            names.append(next(arrs) if "[" in t else next(scs))
        prog("C05 C10" if n % 3 == 0 else "C05", f"reduce/{nm}", f"lambda ns,{','.join(names)}: {e}", types, dims={"r": (0, hi), "s": (0, 3)})


# =============================================================== C06 records


def c06():
    S = [
        ("pair0", "ns.array(lambda i: (a[i], b[i]))[c][0]", ["f[n]", "f[n]", "i"]),
        ("pair1", "ns.array(lambda i: (a[i], b[i]))[c][1]", ["f[n]", "f[n]", "i"]),
        ("tri", "(lambda v: ns.array(lambda i: v[i][2]-v[i][0]*v[i][1]))(ns.array(lambda i: (a[i], b[i], a[i]*2.0)))", ["f[n]", "f[n]"]),
        ("tri-t", "(lambda v: ns.array(lambda i,j: v[j,i][2]-v[j,i][0]*v[j,i][1]))(ns.array(lambda i,j: (a[i], b[j], a[i]*b[j])))", ["f[n]", "f[m]"]),
        ("quad", "(lambda v: ns.array(lambda i: v[i]['d']-v[i]['a']*v[i]['c']+v[i]['b']))(ns.array(lambda i: {'a':a[i],'b':b[i],'c':a[i]*2.0,'d':b[i]-1.0}))", ["f[n]", "f[n]"]),
        ("dict-order", "(lambda v: ns.array(lambda i: v[i]['z']-v[i]['a']*2.0))(ns.array(lambda i: {'z':a[i],'a':b[i]}))", ["f[n]", "f[n]"]),
        ("dc", "(lambda v: ns.array(lambda i: v[i].x-v[i].y*2.0))(ns.array(lambda i: Pt(a[i],b[i])))", ["f[n]", "f[n]"]),
        ("dc-swap", "(lambda v: ns.array(lambda i: v[i].x-v[i].y*2.0))(ns.array(lambda i: Swap(a[i],b[i])))", ["f[n]", "f[n]"]),
        ("dc-nest", "(lambda v: ns.array(lambda i: v[i].start.x-v[i].end.y*2.0+v[i].end.x*v[i].start.y))(ns.array(lambda i: Seg(Pt(a[i],b[i]),Pt(b[i]*3.0,a[i]*5.0))))", ["f[n]", "f[n]"]),
        ("mixed-nest", "(lambda v: ns.array(lambda i: v[i]['p'][1].x-v[i]['q']*v[i]['p'][0]))(ns.array(lambda i: {'p':(a[i],Pt(b[i],a[i])),'q':a[i]*2.0}))", ["f[n]", "f[n]"]),
        ("list", "(lambda v: ns.array(lambda i: v[i][1]-v[i][0]*2.0))(ns.array(lambda i: [a[i],b[i]]))", ["f[n]", "f[n]"]),
        ("vec-field", "(lambda v: ns.array(lambda i,j: v[i][0][j]-v[i][1], size=(b.size(),a.size(1))))(ns.array(lambda i: (a[i],b[i])))", ["f[n,m]", "f[n]"]),
        ("vec-field2", "(lambda v: ns.array(lambda i,j: v[i][1][j]-v[j][0]))(ns.array(lambda i: (b[i],a[i])))", ["f[n,n]", "f[n]"]),
        ("vec-field3", "(lambda v: ns.array(lambda i,j: v[i]['m'][j,i]-v[i]['s'], size=(b.size(),b.size())))(ns.array(lambda i: {'m':ns.array(lambda p,q: b[i]*a[p,q]),'s':b[i]}))", ["f[n,n]", "f[n]"]),
        ("concat", "(lambda v: ns.array(lambda i: v[i][0]-v[i][1]*2.0))(ns.array(lambda i: (a[i],b[i])).concat(ns.array(lambda i: (b[i],a[i]))))", ["f[n]", "f[n]"]),
        ("concat-in", "ns.array(lambda j: (lambda v: v[1][1]-v[2][0]*b[j])(ns.array(lambda i: (a[i],b[j])).concat(ns.array(lambda i: (b[j],a[i])))))", ["f[n]", "f[m]"]),
        ("concat-nest", "(lambda v: ns.array(lambda i: v[i][0][1]-v[i][1]*v[i][0][0]))(ns.array(lambda i: ((a[i],b[i]),a[i]*2.0)).concat(ns.array(lambda i: ((b[i],a[i]),b[i]*3.0))))", ["f[n]", "f[n]"]),
        ("concat-dc", "(lambda v: ns.array(lambda i: v[i].x-v[i].y*2.0))(ns.array(lambda i: Pt(a[i],b[i])).concat(ns.array(lambda i: Pt(b[i],a[i]))))", ["f[n]", "f[m]"]),
        ("where", "(lambda r: r[0]-r[1]*2.0)(ns.where(x < y, (x,y), (y*3.0,x*5.0)))", ["f", "f"]),
        ("where-nest", "ns.array(lambda i: (lambda r: r['p'][0]-r['q']*r['p'][1])(ns.where(a[i] < b[i], {'p':(a[i],1.5),'q':b[i]}, {'p':(b[i],2.5),'q':a[i]})))", ["f[n]", "f[n]"]),
        ("where-vec", "ns.where(x < y, a, b)", ["f[n]", "f[n]", "f", "f"]),
        ("where-vec-rec", "(lambda r: ns.array(lambda i: r[0][i]-r[1]))(ns.where(x < y, (a,x), (b,y)))", ["f[n]", "f[n]", "f", "f"]),
        ("where-dc", "ns.array(lambda i: (lambda r: r.x-r.y*2.0)(ns.where(a[i] < b[i], Swap(a[i],b[i]), Swap(b[i]*2.0,a[i]))))", ["f[n]", "f[n]"]),
        ("where-mat", "ns.where(x < y, a, b)", ["f[n,m]", "f[n,m]", "f", "f"]),
        ("fold", "(lambda r: r[0]-r[1]*r[2])(ns.fold((x,y,1.5), lambda k,s: (s[1],s[2]+s[0],s[0]*2.0), 3))", ["f", "f"]),
        ("fold-dict", "(lambda r: r['a']-r['z']*2.0)(ns.fold({'z':x,'a':y}, lambda k,s: {'z':s['a']*2.0,'a':s['z']-k.float()}, 3))", ["f", "f"]),
        ("fold-dc", "(lambda r: r.start.x-r.end.y*2.0+r.end.x*r.start.y)(ns.fold(Seg(Pt(x,y),Pt(y,1.0)), lambda k,s: Seg(Pt(s.end.y,s.start.x),Pt(s.start.y,s.end.x*2.0)), 3))", ["f", "f"]),
        ("fold-batch", "ns.array(lambda i: (lambda r: r['v']-r['w'][1]*r['w'][0])(ns.fold({'v':a[i],'w':(b[i],1.0)}, lambda k,s: {'v':s['w'][0]+a[i],'w':(s['v'],s['w'][1]*b[i])}, 2)))", ["f[n]", "f[n]"]),
        ("fold-vecfield", "(lambda r: ns.array(lambda i: r[0][i]-r[1]))(ns.fold((a,x), lambda k,s: (ns.array(lambda i: s[0][i]*s[1]),s[1]+1.0), 2))", ["f[n]", "f"]),
        ("fold-of-vecs", "(lambda r: ns.array(lambda i: r[0][i]-r[1][i]*2.0))(ns.fold((a,b), lambda k,s: (s[1],ns.array(lambda i: s[0][i]+1.0)), 3))", ["f[n]", "f[n]"]),
        ("kinds", "(lambda v: ns.array(lambda i: v[i][1].where(v[i][0], v[i][2].float())))(ns.array(lambda i: (a[i], a[i] < b[i], i)))", ["f[n]", "f[n]"]),
        ("size-of-rec", "ns.array(lambda i: (a[i],b[i])).size().float()", ["f[n]", "f[n]"]),
        ("size1-of-rec", "(lambda v: ns.array(lambda i: (v[i][0],v[i][1]*2.0), size=v.size()))(ns.array(lambda i: (a[i],b[i])))[0][1]", ["f[n]", "f[n]"]),
        ("rec-of-rec-arr", "(lambda v: ns.array(lambda i,j: v[i][0][j][1]-v[i][1], size=(b.size(),a.size())))(ns.array(lambda i: (ns.array(lambda j: (a[j],b[i])),b[i]*2.0)))", ["f[n]", "f[m]"]),
        ("get-shift", "(lambda v: ns.array(lambda i: v[i+1][0]-v[i-1][1], size=v.size()))(ns.array(lambda i: (a[i],b[i])))", ["f[n]", "f[n]"]),
        ("get-gather", "(lambda v: ns.array(lambda i: v[g[i]][0]-v[g[i]][1]*2.0))(ns.array(lambda i: (a[i],b[i])))", ["f[n]", "f[n]", "i[m]"]),
        ("single", "(lambda v: ns.array(lambda i: v[i][0]*2.0))(ns.array(lambda i: (a[i],)))", ["f[n]"]),
        ("single-dict", "(lambda v: ns.array(lambda i: v[i]['only']*2.0))(ns.array(lambda i: {'only':a[i]}))", ["f[n]"]),
        ("method-names", "(lambda v: ns.array(lambda i: v[i]['items']-v[i]['keys']*v[i]['get']))(ns.array(lambda i: {'items':a[i],'keys':b[i],'get':a[i]*b[i]}))", ["f[n]", "f[n]"]),
        ("slice-rec", "(lambda v: ns.array(lambda i: v[:,0][i][1]))(ns.array(lambda i,j: (a[i],b[j])))", ["f[n]", "f[m]"]),
        ("reduce-rec", "(lambda r: r[0]-r[1]*2.0)(ns.array(lambda i: (a[i],b[i])).reduce((0.0,1.0), lambda p,q: (p[0]+q[0],p[1]*q[1])))", ["f[r]", "f[r]"]),
        ("reduce-rec3", "(lambda r: r['u']-r['v'][0]*2.0+r['v'][1])(ns.array(lambda i: {'u':a[i],'v':(b[i],a[i]*2.0)}).reduce({'u':0.0,'v':(0.0,float('-inf'))}, lambda p,q: {'u':p['u']+q['u'],'v':(p['v'][0]+q['v'][0],p['v'][1].max(q['v'][1]))}))", ["f[r]", "f[r]"]),
    ]
    for n, (nm, e, types) in enumerate(S):
        names, arrs, scs = [], iter("ab"), iter("xy")
        for t in types:
            if t == "i":
                names.append("c")
            elif t.startswith("i[") and "g[" in e:
                names.append("g")
            else:
                names.append(next(arrs) if "[" in t else next(scs))
        out = nm.startswith("out")
        prog("C06" + (" C10" if n % 3 == 0 else ""), f"rec/{nm}", f"lambda ns,{','.join(names)}: {e}", types,
             dims={"r": (0, 4 if nm == "reduce-rec" else 3)})


# =============================================================== C06 every nesting up to a bound


class _Lay:
    """A record nesting: expression text from leaf texts, and the access paths of its leaves."""

    def __init__(self, text, paths):
        self.text, self.paths = text, paths


def _atom():
    return _Lay("{}", [""])


def _tuple(*subs):
    return _Lay("(" + ",".join(x.text for x in subs) + ",)", [f"[{k}]{p}" for k, x in enumerate(subs) for p in x.paths])


def _list(*subs):
    return _Lay("[" + ",".join(x.text for x in subs) + "]", [f"[{k}]{p}" for k, x in enumerate(subs) for p in x.paths])


def _dict(*subs, names="zaq"):
    return _Lay("dict(" + ",".join(f"{n}={x.text}" for n, x in zip(names, subs)) + ")", [f"[{n!r}]{p}" for n, x in zip(names, subs) for p in x.paths])


def _pt(x, y):
    return _Lay(f"Pt({x.text},{y.text})", [".x" + p for p in x.paths] + [".y" + p for p in y.paths])


def _swap(x, y):
    return _Lay(f"Swap({x.text},{y.text})", [".y" + p for p in x.paths] + [".x" + p for p in y.paths])


def layouts():
    A = _atom()
    two = [_tuple(A, A), _dict(A, A), _pt(A, A), _swap(A, A), _list(A, A)]
    three = [_tuple(A, A, A), _dict(A, A, A), _list(A, A, A)]
    out = two + three + [_tuple(A), _dict(A), _tuple(_tuple(A)), _tuple(A, A, A, A), _dict(A, A, A, A, names=["b", "c", "a", "keys"])]
    for k, t in enumerate(two + three):
        out += [_tuple(t, A), _dict(A, t), _tuple(A, t, A), _pt(t, two[k % 5]), _tuple(A, A, t)]
    out += [_tuple(_tuple(A, A), _tuple(A, A)), _tuple(_tuple(_tuple(A, A), A), A), _tuple(A, _tuple(A, _tuple(A, A))), _dict(_pt(A, _tuple(A, A)), A, _swap(A, A)),
            _tuple(_tuple(A, A, A), _tuple(A, A), A), _tuple(_tuple(A), _tuple(A, _tuple(A))), _swap(_pt(A, A), _dict(A, A))]
    return out


def c06b():
    for n, lay in enumerate(layouts()):
        q = len(lay.paths)
        w = [2.0, -3.0, 5.0, 7.0, -11.0, 13.0, 17.0][:q]

        def pack(r):
            return "+".join(f"{r}{p}*{c}" for p, c in zip(lay.paths, w))

        def mk(leaves):
            return lay.text.format(*leaves)

        rot = [f"s{lay.paths[(k + 1) % q]}*{k + 1}.0+k.float()" for k in range(q)]
        A = [f"a[{k}]" for k in range(q)]
        I = [f"a[{k}]*b[i]" for k in range(q)]
        J = [f"a[{k}]-b[i+1]" for k in range(q)]
        put = lambda nm, e, ty=("f[7]", "f[n]"), **kw: prog("C06" + (" C10 C03" if n % 6 == 0 else ""), f"lay/{n}/{nm}", f"lambda ns,a,b: {e}", list(ty), jax=n % 5 == 0, **kw)  # noqa
        put("fold", f"(lambda r: {pack('r')})(ns.fold({mk(A)}, lambda k,s: {mk(rot)}, 2))")
        put("array", f"(lambda v: ns.array(lambda i: {pack('v[i-1]')}, size=b.size()))(ns.array(lambda i: {mk(I)}))")
        if n % 2:
            put("where", f"ns.array(lambda i: (lambda r: {pack('r')})(ns.where(b[i] > 0.0, {mk(I)}, {mk(J)})), size=b.size())")
        else:
            put("concat", f"(lambda v: ns.array(lambda i: {pack('v[i]')}, size=v.size()))(ns.array(lambda i: {mk(I)}).concat(ns.array(lambda i: {mk(J)}, size=2)))")
        add = mk([f"p{x}+q{x}" if k % 2 else f"p{x}*q{x}" for k, x in enumerate(lay.paths)])
        one = mk(["0.0" if k % 2 else "1.0" for k in range(q)])
        if n % 3 == 0:
            put("reduce", f"(lambda r: {pack('r')})(ns.array(lambda i: {mk(I)}).reduce({one}, lambda p,q: {add}))", ("f[7]", "f[r]"), dims={"r": (0, 2 if n % 2 else 3) if q < 4 else (0, 2)})
        if n % 3 == 1:
            put("batch-fold", f"ns.array(lambda i: (lambda r: {pack('r')})(ns.fold({mk(I)}, lambda k,s: {mk(rot)}, 2)))")
        if n % 3 == 2:
            put("nest", f"(lambda v: ns.array(lambda i,j: {pack('v[i][0][j]')}-v[i][1], size=(b.size(),2)))(ns.array(lambda i: (ns.array(lambda j: {mk([x + '*j.float()' for x in I])}, size=2), b[i])))")
        # fields of two records of the same type, put together again
        if 2 <= q <= 4:
            mix = mk([f"{'u' if k % 2 else 'v'}{x}" for k, x in enumerate(lay.paths)])
            put("mix", f"(lambda u,v: (lambda r: {pack('r')})(ns.fold({mix}, lambda k,s: s, 0)))(ns.fold({mk(A)}, lambda k,s: {mk(rot)}, 2), ns.fold({mk(A[::-1])}, lambda k,s: {mk(rot)}, 1))")
            put("mix-arr", f"(lambda u,v: (lambda m: ns.array(lambda i: {pack('m[i]')}))(ns.array(lambda i: (lambda u,v: {mix})(u[i],v[i]))))(ns.array(lambda i: {mk(I)}), ns.array(lambda i: {mk(J)}, size=b.size()))")
            put("mix-where", f"ns.array(lambda i: (lambda u,v: (lambda r: {pack('r')})(ns.where(b[i] > 0.0, {mix}, u)))(ns.fold({mk(I)}, lambda k,s: {mk(rot)}, 1), ns.fold({mk(J)}, lambda k,s: {mk(rot)}, 1)))")
    S = [
        ("eta-first", "(lambda u,v: (lambda r: r[0]*100.0+r[1])(ns.fold((u[0],v[1]), lambda k,s: s, 1)))(ns.fold((x,y), lambda k,s: (s[1],s[0]+1.0), 3), ns.fold((y,x), lambda k,s: (s[1]*2.0,s[0]), 3))"),
        ("eta-loop", "(lambda r: r[0]*100.0+r[1])(ns.fold((x,y), lambda k,s: (lambda t: (s[0],t[1]))(ns.fold((s[1],s[0]), lambda l,z: (z[1],z[0]*2.0), 2)), 2))"),
        ("eta-loop2", "(lambda r: r[0]*100.0+r[1])(ns.fold((x,y), lambda k,s: (lambda t: (t[0],s[1]))(ns.fold((s[1],s[0]), lambda l,z: (z[1],z[0]*2.0), 2)), 2))"),
        ("eta-swap", "(lambda r: r[0]*100.0+r[1])(ns.fold((x,y), lambda k,s: (s[1],s[0]), 3))"),
        ("eta-dup", "(lambda r: r[0]*100.0+r[1])(ns.fold((x,y), lambda k,s: (s[0],s[0]), 3))"),
        ("eta-dup2", "(lambda r: r[0]*100.0+r[1])(ns.fold((x,y), lambda k,s: (s[1],s[1]), 3))"),
        ("eta-keep", "(lambda r: r[0]*100.0+r[1])(ns.fold((x,y), lambda k,s: (s[0],s[1]), 3))"),
        ("eta-nested", "(lambda r: r[0][0]*100.0+r[0][1]*10.0+r[1])(ns.fold(((x,y),1.0), lambda k,s: ((s[0][1],s[0][0]),s[1]*2.0), 3))"),
        ("eta-nested2", "(lambda r: r[0][0]*100.0+r[0][1]*10.0+r[1])(ns.fold(((x,y),1.0), lambda k,s: ((s[0][0],s[1]),s[0][1]), 2))"),
        ("arr-cross", "ns.array(lambda i: (lambda u,v: (u[0],v[1]))((x,i.float()),(i.float()*2.0,y)), size=3)[1][0]"),
        ("reduce-cross", "(lambda r: r[0]*100.0+r[1])(ns.array(lambda i: (x+i.float(),y-i.float()), size=3).reduce((0.0,0.0), lambda p,q: (p[0]+q[0],p[1]+q[1])))"),
        ("reduce-left-right", "(lambda r: r[0]*100.0+r[1]*10.0+r[2])(ns.array(lambda i: (x+i.float(),y-i.float(),True), size=5).reduce((0.0,0.0,False), lambda p,q: ((p[2]).where(p[0],q[0]),(q[2]).where(q[1],p[1]),p[2]|q[2]))[:2]+(1.0,))"),
    ]
    for nm, e in S:
        prog("C06 C07", f"rec/{nm}", f"lambda ns,x,y: {e}", ["f", "f"])


# =============================================================== C08 accumulators that change size


def c08b():
    S = [
        ("grow", "(lambda r: ns.array(lambda i: r[i], size=r.size()))(ns.fold(a, lambda k,v: v.concat(a), 2))"),
        ("grow-view", "(lambda r: ns.array(lambda i: r[i], size=a.size()))(ns.fold(a, lambda k,v: v.concat(a), 2))"),
        ("grow-b", "(lambda r: ns.array(lambda i: r[i]-b[i], size=r.size()))(ns.fold(a, lambda k,v: v.concat(b), 2))"),
        ("grow-b2", "(lambda r: ns.array(lambda i: r[i]-b[i], size=b.size()))(ns.fold(a, lambda k,v: v.concat(b), 2))"),
        ("replace", "(lambda r: ns.array(lambda i: r[i]-a[i], size=r.size()))(ns.fold(a, lambda k,v: b, 1))"),
        ("replace-a", "(lambda r: ns.array(lambda i: r[i]-a[i], size=a.size()))(ns.fold(a, lambda k,v: b, 1))"),
        ("replace-b", "(lambda r: ns.array(lambda i: r[i]-b[i], size=b.size()))(ns.fold(a, lambda k,v: b, 1))"),
        ("replace-0", "(lambda r: ns.array(lambda i: r[i]-b[i], size=r.size()))(ns.fold(a, lambda k,v: b, 0))"),
        ("replace-0b", "(lambda r: ns.array(lambda i: r[i]-b[i], size=b.size()))(ns.fold(a, lambda k,v: b, 0))"),
        ("body-size", "(lambda r: ns.array(lambda i: r[i]-b[i], size=r.size()))(ns.fold(a, lambda k,v: ns.array(lambda i: v[i]*2.0, size=b.size()), 2))"),
        ("body-size0", "(lambda r: ns.array(lambda i: r[i]-b[i], size=r.size()))(ns.fold(a, lambda k,v: ns.array(lambda i: v[i]*2.0, size=b.size()), 0))"),
        ("body-size-b", "(lambda r: ns.array(lambda i: r[i]-b[i], size=b.size()))(ns.fold(a, lambda k,v: ns.array(lambda i: v[i]*2.0, size=b.size()), 2))"),
        ("body-size-a", "(lambda r: ns.array(lambda i: r[i]-a[i], size=a.size()))(ns.fold(a, lambda k,v: ns.array(lambda i: v[i]*2.0, size=b.size()), 2))"),
        ("in-body-a", "ns.fold(a, lambda k,v: ns.array(lambda i: v[i]-a[i], size=b.size()), 2)"),
        ("in-body-v", "ns.fold(a, lambda k,v: ns.array(lambda i: v[i]-a[i], size=v.size()).concat(b), 2)"),
        ("in-body-b", "ns.fold(b, lambda k,v: ns.array(lambda i: v[i]-a[i], size=a.size()), 2)"),
        ("in-body-acc", "ns.fold(b, lambda k,v: ns.array(lambda i: a[i]-v[i], size=v.size()), 2)"),
        ("same", "(lambda r: ns.array(lambda i: r[i]-b[i], size=r.size()))(ns.fold(a, lambda k,v: ns.array(lambda i: v[i]*2.0), 2))"),
        ("same-b", "(lambda r: ns.array(lambda i: r[i]-b[i], size=b.size()))(ns.fold(a, lambda k,v: ns.array(lambda i: v[i]*2.0), 2))"),
        ("shrink", "(lambda r: ns.array(lambda i: r[i], size=r.size()))(ns.fold(a.concat(b), lambda k,v: ns.array(lambda i: v[i+1], size=(v.size()-1).max(0)), 2))"),
        ("halves", "ns.fold(a, lambda k,v: ns.array(lambda i: v[2*i]+v[2*i+1], size=v.size()-v.size()+2), 2)"),
        ("counter-size", "ns.fold(a, lambda k,v: ns.array(lambda i: v[i]+b[i], size=k+1), 3)"),
        ("inner-fold", "ns.fold(a, lambda k,v: ns.fold(v, lambda l,w: ns.array(lambda i: w[i]+b[i], size=w.size()), 2), 2)"),
        ("inner-fold2", "ns.fold(a, lambda k,v: ns.fold(b, lambda l,w: ns.array(lambda i: w[i]+v[i], size=w.size()), 2), 2)"),
        ("two-acc", "(lambda r: ns.array(lambda i: r[0][i]-r[1][i], size=r[0].size()))(ns.fold((a,b), lambda k,s: (s[1],s[0]), 1))"),
        ("two-acc2", "(lambda r: ns.array(lambda i: r[0][i]-r[1][i], size=a.size()))(ns.fold((a,b), lambda k,s: (s[1],s[0]), 1))"),
        ("reduce-cat-size", "(lambda r: ns.array(lambda i: r-b[i], size=b.size()))(a.reduce(0.0, lambda p,q: p+q))"),
        ("grow-2d", "(lambda r: ns.array(lambda i,j: r[i,j]-b[j], size=(r.size(0), r.size(1))))(ns.fold(ns.array(lambda i,j: a[i]*b[j]), lambda k,v: v.concat(v), 1))"),
        ("rows-change", "(lambda r: ns.array(lambda i,j: r[i,j]-b[i], size=(r.size(0), r.size(1))))(ns.fold(ns.array(lambda i,j: a[i]*b[j]), lambda k,v: ns.array(lambda i,j: v[j,i], size=(v.size(1),v.size(0))), 1))"),
        ("rows-change0", "(lambda r: ns.array(lambda i,j: r[i,j]-a[i], size=(r.size(0), r.size(1))))(ns.fold(ns.array(lambda i,j: a[i]*b[j]), lambda k,v: ns.array(lambda i,j: v[j,i], size=(v.size(1),v.size(0))), 2))"),
        ("where-size", "(lambda r: ns.array(lambda i: r[i]-a[i], size=r.size()))(a.concat(b))"),
        ("dim-arith", "ns.array(lambda i: a[i]-b[i], size=a.size()+b.size()-a.size())"),
        ("dim-arith2", "ns.array(lambda i: a[i], size=a.size()*1)"),
        ("dim-cross", "ns.array(lambda i,j: a[i]-b[j], size=(b.size(),a.size()))"),
        ("third", "(lambda v: ns.array(lambda i: v[i]-a[i]+b[i], size=v.size()))(ns.array(lambda i: b[i], size=a.size()))"),
        ("third2", "(lambda v: ns.array(lambda i: v[i]-a[i]+b[i], size=b.size()))(ns.array(lambda i: b[i], size=a.size()))"),
        ("chain", "(lambda v: (lambda w: ns.array(lambda i: w[i]-v[i], size=v.size()))(ns.array(lambda i: v[i]*2.0, size=b.size())))(ns.array(lambda i: a[i], size=a.size()))"),
        ("chain2", "(lambda v: (lambda w: ns.array(lambda i: w[i]-v[i]))(ns.array(lambda i: v[i]*2.0)))(ns.array(lambda i: a[i], size=b.size()))"),
    ]
    for n, (nm, e) in enumerate(S):
        prog("C08 C03" if "fold" in e else "C08", f"sizes/{nm}", f"lambda ns,a,b: {e}", ["f[n]", "f[m]"], jax="fold" not in e, dims={"n": (0, 4)} if "reduce" in e else None)


# =============================================================== C07 sharing and code motion


def c07():
    S = [
        ("dag", "(lambda u: (lambda v: v*v-u)(u*u+1.0))(x+y)", ["f", "f"]),
        ("dag-deep", "(lambda u: (lambda v: (lambda w: w*v-w*u)(v*v+u))(u*u+y))(x+y)", ["f", "f"]),
        ("share-idx", "ns.array(lambda i: (lambda u: u*u-u)(a[i]*2.0+b[i]))", ["f[n]", "f[n]"]),
        ("share-two-loops", "(lambda u: ns.array(lambda i: a[i]*u).concat(ns.array(lambda j: b[j]-u)))(x*2.0+1.0)", ["f[n]", "f[m]", "f"]),
        ("same-body", "(lambda f: ns.array(lambda i: f(i)).concat(ns.array(lambda j: f(j))))(lambda t: a[t]*2.0-b[t])", ["f[n]", "f[n]"]),
        ("vec-twice", "(lambda v: ns.array(lambda i,j: v[i]*v[j]-v[i]))(ns.array(lambda k: a[k]*a[k]+1.0))", ["f[n]"]),
        ("vec-self", "(lambda v: ns.array(lambda i: v[i]+v[v.size()-1-i], size=v.size()))(ns.array(lambda k: a[k]*2.0))", ["f[n]"]),
        ("hoist", "ns.array(lambda i: ns.fold(0.0, lambda k,acc: acc*2.0+(a[i]*a[i]+x)*k.float(), 3))", ["f[n]", "f"]),
        ("hoist-acc", "ns.fold(x, lambda k,acc: ns.fold(acc, lambda l,c2: c2*2.0+(acc*acc+1.0)*(l+k).float(), 2), 2)", ["f"]),
        ("hoist-counter", "ns.fold(x, lambda k,acc: ns.fold(acc, lambda l,c2: c2*2.0+(k*k+1).float(), 2), 2)", ["f"]),
        ("hoist-vec", "ns.fold(x, lambda k,acc: acc+ns.array(lambda i: a[i]*2.0+k.float())[k]*ns.array(lambda i: a[i]*3.0)[k], 2)", ["f", "f[n]"]),
        ("hoist-div", "ns.fold(x, lambda k,acc: acc+y/(y+2.0), 3)", ["f", "f"]),
        ("same-fold-twice", "(lambda f: f(x)-f(y))(lambda s: ns.fold(s, lambda k,acc: acc*2.0+k.float(), 3))", ["f", "f"]),
        ("fold-shared-step", "(lambda st: ns.fold(x, st, 2)-ns.fold(y, st, 3))(lambda k,acc: acc*acc-k.float())", ["f", "f"]),
        ("fold-obj-twice", "(lambda f: ns.array(lambda i: f*a[i]).concat(ns.array(lambda j: f-b[j])))(ns.fold(x, lambda k,acc: acc*2.0+k.float(), 3))", ["f[n]", "f[m]", "f"]),
        ("fold-obj-in-loop", "(lambda f: ns.fold(f, lambda k,acc: acc*2.0-f*k.float(), 2))(ns.fold(x, lambda k,acc: acc*3.0+1.0, 2))", ["f"]),
        ("inner-outer-share", "ns.array(lambda i: (lambda u: u*ns.fold(u, lambda k,acc: acc*u+k.float(), 2))(a[i]*2.0+1.0))", ["f[n]"]),
        ("index-expr-shared", "ns.array(lambda i,j: (lambda t: a[t]*t.float())(i+j), size=(a.size(),3))", ["f[n]"]),
        ("index-expr-shared2", "ns.array(lambda i: (lambda t: a[t]*b[t]-t.float())(i-1), size=a.size())", ["f[n]", "f[m]"]),
        ("size-shared", "(lambda s: ns.array(lambda i: i*s, size=s).concat(ns.array(lambda i: s-i, size=s)))(a.size()+1)", ["f[n]"]),
        ("nested-same-index", "ns.array(lambda i: ns.std.fold_sum(lambda k: a[k]*b[i])*ns.std.fold_sum(lambda k: a[k]*b[i]))", ["f[r]", "f[n]"]),
        ("contract-shared", "(lambda s: ns.array(lambda i: s(i)*a[i]-s(i)))(lambda i: ns.std.fold_sum(lambda k: b[i,k]*a[k]))", ["f[r]", "f[r,r]"]),
        ("min-shared", "(lambda m: ns.array(lambda i: (a[i]-m)*(a[i]-m)))(ns.std.fold_min(lambda k: a[k]))", ["f[r]"]),
        ("softmaxish", "ns.array(lambda i: a[i]*2.0-ns.std.fold_sum(lambda k: a[k]*2.0-ns.std.fold_max(lambda l: a[l])))", ["f[r]"]),
        ("shadow-counter", "ns.fold(x, lambda k,acc: acc+ns.fold(1.0, lambda k2,acc2: acc2*2.0+k.float()*k2.float(), 2)*k.float(), 3)", ["f"]),
        ("three-loops", "ns.fold(x, lambda k,p: ns.fold(p, lambda l,q: ns.fold(q, lambda m,r: r+(k*4+l*2+m).float()*x, 2), 2), 2)", ["f"]),
        ("loop-in-two-loops", "ns.array(lambda i: ns.fold(a[i], lambda k,acc: acc*2.0+ns.fold(0.0, lambda l,c2: c2+a[i]*x*l.float(), 3), 2))", ["f[n]", "f"]),
        ("where-shared", "(lambda u: (u > 0.0).where(u, -u)*u)(x*y-1.0)", ["f", "f"]),
        ("reduce-shared", "(lambda s: ns.array(lambda i: a[i]*s-s))(a.reduce(0.0, lambda p,q: p+q))", ["f[r]"]),
        ("reduce-captures", "ns.array(lambda i: a.reduce(b[i]*2.0, lambda p,q: p.max(q).max(b[i]*2.0)))", ["f[r]", "f[n]"]),
        ("reduce-in-fold", "ns.fold(x, lambda k,acc: acc+a.reduce(acc, lambda p,q: p.max(q).max(acc)), 2)", ["f", "f[r]"]),
        ("comp-in-fold-acc", "ns.fold(x, lambda k,acc: ns.array(lambda i: a[i]*acc)[0]+ns.array(lambda i: a[i]*acc)[1], 2)", ["f", "f[n]"]),
        ("alias-args", "ns.array(lambda i: a[i]+b[i]-a[i])", ["f[n]", "f[n]"]),
        ("rec-shared", "(lambda p: ns.array(lambda i: p[0]*a[i]-p[1]))(ns.fold((x,1.0), lambda k,s: (s[1],s[0]+s[1]), 3))", ["f[n]", "f"]),
        ("rec-proj-loop", "ns.fold((x,y), lambda k,s: (s[0]*s[1]+s[0]*s[1], s[0]*s[1]-1.0), 2)[1]", ["f", "f"]),
        ("concat-shared", "(lambda v: v.concat(v).concat(v))(ns.array(lambda i: a[i]*2.0))", ["f[n]"]),
        ("gather-shared", "(lambda v: ns.array(lambda i: v[g[i]]-v[g[i]+1]))(ns.array(lambda k: a[k]*a[k]))", ["f[n]", "i[m]"]),
        ("assume", "x.assume(y)*2.0", ["f", "f"]),
        ("assume-v", "ns.array(lambda i: a.assume(b)[i]*2.0)", ["f[n]", "f[m]"]),
    ]
    for n, (nm, e, types) in enumerate(S):
        names, arrs, scs = [], iter("ab"), iter("xy")
        for t in types:
            if t.startswith("i[") and "g[" in e:
                names.append("g")
            else:
                names.append(next(arrs) if "[" in t else next(scs))
        prog("C07" + (" C10" if n % 4 == 0 else ""), f"share/{nm}", f"lambda ns,{','.join(names)}: {e}", types,
             dims={"r": (0, 2)})


# =============================================================== C08 sizes


def c08():
    S = [
        ("inf-1", "ns.array(lambda i: a[i]*2.0)", ["f[n]"]),
        ("inf-2", "ns.array(lambda i,j: a[j,i]*b[i])", ["f[n,m]", "f[m]"]),
        ("inf-of-vec", "ns.array(lambda i: ns.array(lambda k: a[k+1], size=b.size())[i])", ["f[n]", "f[m]"]),
        ("inf-of-concat", "ns.array(lambda i: a.concat(b)[i]*2.0)", ["f[n]", "f[m]"]),
        ("inf-nested", "ns.array(lambda i: ns.array(lambda j: a[i,j]))", ["f[n,m]"]),
        ("inf-mixed", "ns.array(lambda i: a[i+1]*b[i])", ["f[n]", "f[m]"]),
        ("inf-mixed2", "ns.array(lambda i,j: a[i+1,j]*b[i])", ["f[n,l]", "f[m]"]),
        ("inf-inner", "ns.array(lambda i: ns.std.fold_sum(lambda k: a[i,k]))", ["f[n,r]"]),
        ("inf-where", "ns.array(lambda i: (a[i] > 0.0).where(a[i], b[i-1]))", ["f[n]", "f[m]"]),
        ("inf-fold-acc", "ns.fold(a, lambda k,acc: ns.array(lambda i: acc[i]+b[k]), b.size())", ["f[n]", "f[r]"]),
        ("inf-row-dim", "ns.array(lambda i: ns.array(lambda j: a[0,j]+b[i]))", ["f[n,m]", "f[l]"]),
        ("inf-gathered", "ns.array(lambda i: a[g[i]]*2.0)", ["f[n]", "i[m]"]),
        ("eq-two", "ns.array(lambda i: a[i]*b[i])", ["f[n]", "f[n]"]),
        # explicit sizes different from the vectors'
        ("more", "ns.array(lambda i: a[i], size=a.size()+2)", ["f[n]"]),
        ("less", "ns.array(lambda i: a[i], size=b.size())", ["f[n]", "f[m]"]),
        ("less2", "ns.array(lambda i,j: a[i,j], size=(b.size(0),b.size(1)))", ["f[n,m]", "f[p,q]"]),
        ("swapped", "ns.array(lambda i,j: a[i,j], size=(a.size(1),a.size(0)))", ["f[n,m]"]),
        ("swapped3", "ns.array(lambda i,j,k: a[i,j,k], size=(a.size(1),a.size(2),a.size(0)))", ["f[n,m,l]"]),
        ("const", "ns.array(lambda i: a[i], size=3)", ["f[n]"]),
        ("const2", "ns.array(lambda i,j: a[i]+b[j], size=(2,4))", ["f[n]", "f[m]"]),
        ("first-inf", "ns.array(lambda i: ns.array(lambda k: a[k]*b[i])[i])", ["f[n]", "f[m]"]),
        ("vec-of-vec", "(lambda v: ns.array(lambda i: v[i]-a[i], size=v.size()))(ns.array(lambda k: a[k]*2.0, size=b.size()))", ["f[n]", "f[m]"]),
        ("vec-of-vec2", "(lambda v: ns.array(lambda i: v[i]-a[i], size=a.size()))(ns.array(lambda k: a[k]*2.0, size=b.size()))", ["f[n]", "f[m]"]),
        ("rows", "ns.array(lambda i,j: a[i,j]-b[j,i], size=(a.size(0),a.size(1)))", ["f[n,m]", "f[p,q]"]),
        ("row-of-other", "ns.array(lambda j: a[j,j], size=a.size(0))", ["f[n,m]"]),
        ("row-of-other2", "ns.array(lambda j: a[j,j], size=a.size(1))", ["f[n,m]"]),
        ("fold-shrinks", "ns.fold(a, lambda k,acc: ns.array(lambda i: acc[i+1], size=acc.size()), 2)", ["f[n]"]),
        ("fold-mixed", "ns.fold(a, lambda k,acc: ns.array(lambda i: acc[i]+b[i], size=acc.size()), 2)", ["f[n]", "f[m]"]),
        ("fold-dims", "ns.array(lambda j: ns.fold(a, lambda k,acc: ns.array(lambda i: acc[i]+b[i], size=a.size()), 2)[j], size=b.size())", ["f[n]", "f[m]"]),
        ("sum-short", "ns.std.fold_sum(lambda k: a[k]*b[k], b.size())", ["f[r]", "f[s]"]),
        ("sum-dim1", "ns.array(lambda i: ns.std.fold_sum(lambda k: a[k,i]*b[k], a.size(1)))", ["f[r,s]", "f[r]"]),
        ("max-dim", "ns.array(lambda i: ns.std.fold_max(lambda k: a[i,k], a.size(0)))", ["f[r,s]"]),
        ("max-dim2", "ns.array(lambda i: ns.std.fold_max(lambda k: a[k,i], a.size(1)))", ["f[r,s]"]),
        ("sum-vec-size", "(lambda v: ns.std.fold_sum(lambda k: v[k]*a[k], v.size()))(ns.array(lambda i: a[i], size=b.size()))", ["f[r]", "f[s]"]),
        ("concat-size", "(lambda v: ns.array(lambda i: v[i]-a[i], size=v.size()))(a.concat(b))", ["f[n]", "f[m]"]),
        ("concat-size2", "(lambda v: ns.array(lambda i: v[i]-a[i], size=a.size()))(b.concat(a))", ["f[n]", "f[m]"]),
        ("const-arr", "ns.array(lambda i: ns.wrap(CONST3)[i]*a[i], size=a.size())", ["f[n]"]),
        ("const-arr2", "ns.array(lambda i: ns.wrap(CONST3)[i]*a[i], size=3)", ["f[n]"]),
        ("const-arr3", "ns.array(lambda i,j: ns.wrap(CONST23)[j,i]*a[i,j], size=(3,2))", ["f[n,m]"]),
        ("const-arr4", "ns.array(lambda i,j: ns.wrap(CONST23)[i,j]*a[i,j], size=(3,2))", ["f[n,m]"]),
        ("const-inf", "ns.array(lambda i,j: ns.wrap(CONST23)[i,j]*a[i])", ["f[2]"]),
        ("dim-get", "ns.array(lambda i,j: a[i,j], size=(a.size(0), a[0].size()))", ["f[n,m]"]),
        ("dim-get2", "ns.array(lambda i,j: a[1,i,j], size=(a[1].size(), a[0,1].size()))", ["f[n,m,l]"]),
        ("dim-vec2", "(lambda v: ns.array(lambda i,j: v[i,j]-a[i], size=(v.size(0),v.size(1))))(ns.array(lambda i,j: a[i]*b[j]))", ["f[n]", "f[m]"]),
        ("dim-vec2s", "(lambda v: ns.array(lambda i,j: v[i,j]-a[j], size=(v.size(1),v.size(0))))(ns.array(lambda i,j: a[i]*b[j]))", ["f[n]", "f[m]"]),
        ("let-dims", "(lambda v: ns.array(lambda i,j: v[j,i]*v[j,i]))(ns.array(lambda p,q: a[p]*b[q]))", ["f[n]", "f[m]"]),
        ("min-size", "ns.array(lambda i: a[i]-b[i], size=a.size().min(b.size()))", ["f[n]", "f[m]"]),
        ("max-size", "ns.array(lambda i: a[i]-b[i], size=a.size().max(b.size()))", ["f[n]", "f[m]"]),
        ("minus-size", "ns.array(lambda i: a[i], size=(a.size()-1).max(0))", ["f[n]"]),
        ("same-index-2", "ns.array(lambda i: a[i,i])", ["f[n,n]"]),
    ]
    for n, (nm, e, types) in enumerate(S):
        names, arrs, scs = [], iter("ab"), iter("xy")
        for t in types:
            if t.startswith("i[") and "g[" in e:
                names.append("g")
            else:
                names.append(next(arrs) if "[" in t else next(scs))
        prog("C08" + (" C10" if n % 4 == 0 else ""), f"size/{nm}", f"lambda ns,{','.join(names)}: {e}", types,
             dims={"r": (0, 3), "s": (0, 3)})


# =============================================================== C09 kinds of results, C11 operators

BIN = ["x+y", "x-y", "x*y", "x.min(y)", "x.max(y)", "x<y", "x<=y", "x>y", "x>=y", "x==y", "x!=y"]
UN = ["-x", "abs(x)", "x.abs()", "x**0+x", "x**1", "x**2", "x**3", "x**5", "x**6"]
LITF = ["x+2.5", "2.5+x", "x-2.5", "2.5-x", "x*2.5", "2.5*x", "x/2.5", "2.5/x", "x.min(2.5)", "x.max(2.5)", "x<2.5",
        "2.5<x", "x<=2.5", "2.5<=x", "x>2.5", "2.5>x", "x>=2.5", "2.5>=x", "x==2.5", "2.5==x", "x!=2.5", "2.5!=x"]
LITI = ["x+2", "2+x", "x-2", "2-x", "x*2", "2*x", "x%3", "x.min(2)", "x.max(2)", "x<2", "2<x", "x<=2", "2<=x", "x>2",
        "2>x", "x>=2", "2>=x", "x==2", "2==x", "x!=2", "2!=x", "x%y", "x%-3", "(x+y)%7"]
FLT = ["x/y", "x**-1", "x**-2", "x**y", "x**0.5", "x.exp()", "x.sin()", "x.cos()", "(x*y).exp()", "x/y/x", "x/(y/x)", "1.0/x", "x.tanh()",
       "ns.std.min(x,y,1.5)", "ns.std.max(x,y,1.5)", "ns.std.min(x)", "ns.std.max(2.0,x,y)", "(x<y).where(x,y)", "(x<y).where(1.0,y)", "(x<y).where(x,2.0)",
       "ns.where(x<y, x, y)", "ns.where(True, x, y)", "(x>=y).where(-x, y*2.0)", "(-x)-(-y)", "x-(y-x)", "(x-y)*(x+y)", "-(x*y)", "(x.max(y))-(x.min(y))"]
INT = ["x.float()", "x.float()/y.float()", "(x%3).float()", "-x%3", "(x-y).abs()", "(x<y).where(x,y)", "ns.std.min(x,y,1)", "ns.std.max(x,3,y)"]
BOOL = ["x&y", "x|y", "~x", "x & ~y", "~(x|y)", "x&True", "x|False", "(x&y)|(~x&~y)", "x.where(y, ~y)", "x.where(True,False)", "ns.where(x, 1.0, 2.0)", "ns.where(x, 1, 2)", "x.where(False, y)"]


def c11():
    def both(name, e, kind, two):
        ts = [kind, kind] if two else [kind]
        ps = "x,y" if two else "x"
        prog("C11 C09", f"op/{kind}/{name}/scalar", f"lambda ns,{ps}: {e}", ts)
        body = e
        ix = ",".join
        if two:
            src = f"lambda ns,a,b: ns.array(lambda i,j: (lambda x,y: {e})(a[i],b[j]))"
            prog("C11 C09", f"op/{kind}/{name}/array", src, [f"{kind}[n]", f"{kind}[m]"])
        else:
            src = f"lambda ns,a: ns.array(lambda i: (lambda x: {e})(a[i]))"
            prog("C11 C09", f"op/{kind}/{name}/array", src, [f"{kind}[n]"])

    def uses_y(e):
        import re

        return re.search(r"\by\b", e) is not None

    for e in BIN:
        both(e, e, "f", True)
        both(e, e, "i", True)
    for e in UN:
        both(e, e, "f", False)
        both(e, e, "i", False)
    for e in LITF + FLT:
        both(e, e, "f", uses_y(e))
    for e in LITI + INT:
        both(e, e, "i", uses_y(e))
    for e in BOOL:
        both(e, e, "b", uses_y(e))
    # Python literals on either side, special values included
    for kind, lits in (("f", ["0.0", "1.0", "-1.0", "0.5", "-2.0", "4.0"]), ("i", ["0", "1", "-1", "2", "-2", "3"])):
        tmpl = ["x+{}", "{}+x", "x-{}", "{}-x", "x*{}", "{}*x", "x.min({})", "x.max({})", "x<{}", "{}<x", "x<={}", "{}<=x",
                "x>{}", "{}>x", "x>={}", "{}>=x", "x=={}", "x!={}", "{}==x", "{}!=x", "x/{}" if kind == "f" else "x%{}"]
        tmpl += ["{}/x"] if kind == "f" else []
        for t in tmpl:
            for lit in lits:
                if t[1:] in ("/{}", "%{}") and float(lit) == 0:
                    continue
                e = t.format(lit if lit[0] != "-" else f"({lit})")
                prog("C11", f"lit/{kind}/{e}", f"lambda ns,x: {e}", [kind], backends=(ALL3[len(_REG) % 3],))
                prog("C11", f"litc/{kind}/{e}", f"lambda ns: (lambda x: {e})(ns.wrap({'2.5' if kind == 'f' else '5'}))", [], backends=(ALL3[len(_REG) % 3],))
    for e in ["x&True", "x&False", "x|True", "x|False", "x.where(True,False)", "x.where(False,True)", "x.where(True,True)", "x.where(0,1)", "x.where(1,0)", "x.where(0.0,1.0)", "x.where(1.0,0.0)"]:
        prog("C11", f"lit/b/{e}", f"lambda ns,x: {e}", ["b"])
    # temporaries reused in place: results of operators as operands
    S = [
        ("f", "(x+y)*(x-y)-(x*y)"), ("f", "(x*2.0).min(y*3.0)-(x+1.0)"), ("f", "(x+y < x*y).where(x-y, y-x)"),
        ("f", "((x+y)*x)+((x+y)*y)"), ("f", "-((x+y)*(x+y))"), ("i", "(x+y)*(x-y)%5"), ("i", "(x*2).max(y*3)-(x+1)"),
        ("f", "(x+y).exp()*(x+y)"), ("f", "((x<y)|(x==y)).where((x+1.0)*(y+1.0), x)"), ("i", "((x+1)<(y*2)) & ((x*2)!=(y+3))"),
        ("f", "((x+1.0)<(y*2.0)) | ((x*2.0)>=(y+3.0))"), ("i", "(x+1)==(y+1)"), ("f", "(x+1.0)!=(y*1.0)"),
    ]
    for n, (k, e) in enumerate(S):
        prog("C11 C09 C12", f"opx/{n}", f"lambda ns,a,b: ns.array(lambda i,j: (lambda x,y: {e})(a[i],b[j]))", [f"{k}[n]", f"{k}[m]"])
        prog("C11 C12", f"opy/{n}", f"lambda ns,a,b: ns.array(lambda i,j: (lambda x,y: {e})(a[i,j],b[j,i]))", [f"{k}[n,m]", f"{k}[m,n]"])
    # standard functions
    std = [(f"{how}_{op}", f"ns.std.{how}_{op}(lambda k: a[k])", ["f[r]"]) for how in ("fold", "reduce") for op in ("sum", "min", "max", "argmin")]
    std += [(f"{how}_{op}-rows", f"ns.array(lambda i: ns.std.{how}_{op}(lambda k: a[i,k]*b[k]))", ["f[n,r]", "f[r]"]) for how in ("fold", "reduce") for op in ("sum", "min", "max", "argmin")]
    std += [(f"{how}_{op}-count", f"ns.std.{how}_{op}(lambda k: a[k+1]-x, 3)", ["f[r]", "f"]) for how in ("fold", "reduce") for op in ("sum", "min", "max", "argmin")]
    std += [
        ("concat1", "ns.std.concat(a)", ["f[n]"]), ("concat2", "ns.std.concat(a,b)", ["f[n]", "f[m]"]), ("concat3", "ns.std.concat(a,b,a)", ["f[n]", "f[m]"]),
        ("concat4", "ns.std.concat(b,a,b,c)", ["f[n]", "f[m]", "f[l]"]), ("concat-rows", "ns.std.concat(a,b)", ["f[n,m]", "f[l,m]"]),
        ("concat-in", "ns.array(lambda i: ns.std.concat(a[i],b,c[i]))", ["f[n,m]", "f[l]", "f[n,q]"]),
        ("where-vec", "ns.where(x < 1.0, a, b)", ["f[n]", "f[n]", "f"]), ("where-mat", "ns.where(x < y, a, b)", ["f[n,m]", "f[n,m]", "f", "f"]),
        ("where-rec", "ns.where(x < y, (x, (y, x*y)), (y, (x+y, x-y)))[1][1]", ["f", "f"]), ("where-rec-vec", "ns.where(x < y, (a, x), (b, y))[0]", ["f[n]", "f[n]", "f", "f"]),
        ("where-lit", "ns.where(False, x, y)", ["f", "f"]), ("where-elem", "ns.array(lambda i: ns.where(a[i] <= b[i], b[i], a[i]))", ["f[n]", "f[n]"]),
        ("min4", "ns.std.min(x, y, a[0], 0.5)", ["f", "f", "f[n]"]), ("max4", "ns.std.max(0.5, a[0], y, x)", ["f", "f", "f[n]"]), ("min-int", "ns.std.min(x, 3, y)", ["i", "i"]),
        ("or-empty", "a.or_empty(0, x)", ["f[n]", "f"]), ("or-empty-last", "a.or_empty(a.size()-1, x)", ["f[n]", "f"]), ("or-empty-rows", "ns.array(lambda i: a[i].or_empty(i, b[i]))", ["f[n,m]", "f[n]"]),
        ("size", "a.size(0)*100+a.size(1)*10+b.size()", ["f[n,m]", "f[l]"]), ("slice", "a[:,1]", ["f[n,m]"]), ("slice2", "a[:,0,:]", ["f[n,m,l]"]), ("slice3", "a[1][:]", ["f[n,m]"]),
    ]
    for nm, e, types in std:
        fs, ss = iter("abc"), iter("xy")
        names = [next(fs) if "[" in t else next(ss) for t in types]
        lo = 1 if "slice" in nm or "4" in nm and "m" in nm[:2] else 0
        prog("C11", f"std/{nm}", f"lambda ns,{','.join(names)}: {e}", types, dims={"r": (0, 4 if "argmin" not in nm else 3), **({d: (1, None) for d in "nml"} if lo else {})})
    # index arithmetic as values
    for n, e in enumerate(["i*2+j", "(i-j).abs()", "i%3-j", "i.min(j)*2", "(i<j).where(i,j)", "(i+1).float()*0.5-j.float()"]):
        prog("C11 C09", f"opi/{n}", f"lambda ns,z: ns.array(lambda i,j: {e}, size=(z.size(0),z.size(1)))", ["f[n,m]"])


# =============================================================== C12 no side effects (inputs protected, repeat evaluation)


def c12():
    S = [
        ("id", "a", ["f[n]"]),
        ("id-row", "ns.array(lambda i: a[i])", ["f[n,m]"]),
        ("t", "ns.array(lambda i,j: a[j,i])", ["f[n,m]"]),
        ("add", "ns.array(lambda i: a[i]+b[i])", ["f[n]", "f[n]"]),
        ("self", "ns.array(lambda i: a[i]+a[i])", ["f[n]"]),
        ("chain", "ns.array(lambda i: a[i]*2.0+b[i]*3.0-a[i])", ["f[n]", "f[n]"]),
        ("slice-arith", "ns.array(lambda i: a[i-1]+a[i+1]-a[i], size=a.size())", ["f[n]"]),
        ("slice-arith2", "ns.array(lambda i,j: a[i-1,j]*2.0+a[i,j+1], size=(a.size(0),a.size(1)))", ["f[n,m]"]),
        ("repeat-arith", "ns.array(lambda i,j: a[i]*2.0+b[j], size=(a.size(),b.size()))", ["f[n]", "f[m]"]),
        ("repeat-only", "ns.array(lambda i,j: a[j], size=(b.size(),a.size()))", ["f[n]", "f[m]"]),
        ("cast-arith", "ns.array(lambda i: a[i].float()*2.0+b[i])", ["i[n]", "f[n]"]),
        ("range-arith", "ns.array(lambda i: i*2+a[i])", ["i[n]"]),
        ("sum-arith", "ns.array(lambda i: ns.std.fold_sum(lambda k: a[i,k])+b[i])", ["f[n,r]", "f[n]"]),
        ("fold-arith", "ns.fold(a, lambda k,acc: ns.array(lambda i: acc[i]*2.0+a[i]), 2)", ["f[n]"]),
        ("fold-init", "ns.array(lambda i: ns.fold(a[i], lambda k,acc: acc+1.0, 2))+0.0 if False else ns.fold(a, lambda k,acc: acc, 2)", ["f[n]"]),
        ("fold-inplace", "ns.array(lambda i: ns.fold(a[i], lambda k,acc: acc+b[i], 3))", ["f[n]", "f[n]"]),
        ("fold-inplace2", "ns.array(lambda i: ns.fold(0.0, lambda k,acc: (acc*2.0+b[i])+(acc-1.0), 3)*a[i])", ["f[n]", "f[n]"]),
        ("where-arith", "ns.array(lambda i: (a[i] > b[i]).where(a[i], b[i])*2.0+a[i])", ["f[n]", "f[n]"]),
        ("shared-temp", "ns.array(lambda i: (lambda u: (u+1.0)*(u-1.0)+u)(a[i]*b[i]))", ["f[n]", "f[n]"]),
        ("shared-temp2", "ns.array(lambda i,j: (lambda u: (u+b[j])*(u-b[j])+u)(a[i]*2.0))", ["f[n]", "f[m]"]),
        ("shared-vec", "(lambda v: ns.array(lambda i: (v[i]+1.0)*(v[i]-1.0)))(ns.array(lambda k: a[k]*2.0))", ["f[n]"]),
        ("hoisted-temp", "ns.fold(0.0, lambda k,acc: acc+(x*2.0+k.float()), 3)", ["f"]),
        ("hoisted-arr", "ns.array(lambda i: ns.fold(0.0, lambda k,acc: acc*0.5+((a[i]*2.0)+k.float()), 3))", ["f[n]"]),
        ("hoisted-arr2", "ns.array(lambda i,j: ns.fold(0.0, lambda k,acc: acc*0.5+((a[i]*b[j])-k.float()), 3))", ["f[n]", "f[m]"]),
        ("pad-arith", "ns.array(lambda i: a[i+1]*2.0, size=a.size())", ["f[n]"]),
        ("pad-arith2", "ns.array(lambda i,j: a[i+1]+b[j], size=(a.size(),b.size()))", ["f[n]", "f[m]"]),
        ("pad-shared", "ns.array(lambda i: (lambda u: u*2.0+u)(a[i+1]+b[i]), size=a.size())", ["f[n]", "f[n]"]),
        ("einsum-arith", "ns.array(lambda i,j: ns.std.fold_sum(lambda k: a[i,k]*b[k,j])*2.0+a[i,j])", ["f[r,r]", "f[r,r]"]),
        ("reduce", "a.reduce(0.0, lambda x,y: x+y)", ["f[r]"]),
        ("reduce-in", "ns.array(lambda i: a[i].reduce(0.0, lambda x,y: (x+1.0)+(y-1.0)))", ["f[n,r]"]),
        ("neg-arith", "ns.array(lambda i: -a[i]+b[i])", ["f[n]", "f[n]"]),
        ("const-arith", "ns.array(lambda i: ns.wrap(CONST3)[i]+a[i])", ["f[3]"]),
        ("const-arith2", "ns.array(lambda i: ns.wrap(CONST3)[i]*2.0+a[i])", ["f[3]"]),
        ("const-only", "ns.array(lambda i: ns.wrap(CONST3)[i+1], size=3)", []),
        ("repeat-scalar", "ns.array(lambda i: ns.array(lambda j: x, size=a.size())[i]+1.0, size=a.size())", ["f", "f[n]"]),
        ("repeat-scalar2", "ns.array(lambda i: a[i]*ns.array(lambda j: x, size=a.size())[i], size=a.size())", ["f", "f[n]"]),
        ("repeat-row", "(lambda t: ns.array(lambda i,j: t[i,j]+1.0, size=(b.size(),a.size())))(ns.array(lambda i,j: a[j], size=(b.size(),a.size())))", ["f[n]", "f[m]"]),
        ("repeat-row2", "(lambda t: ns.array(lambda i,j: 2.0-t[i,j], size=(a.size(),b.size())))(ns.array(lambda i,j: a[i], size=(a.size(),b.size())))", ["f[n]", "f[m]"]),
        ("repeat-fold", "ns.array(lambda i: ns.fold(x, lambda k,acc: acc+a[i], 2)*a[i], size=a.size())", ["f", "f[n]"]),
        ("repeat-fold2", "ns.array(lambda i,j: ns.fold(a[i], lambda k,acc: acc*b[j]+1.0, 1)-a[i], size=(a.size(),b.size()))", ["f[n]", "f[m]"]),
        ("repeat-pair", "ns.array(lambda i,j: (a[i], b[j]), size=(a.size(),b.size()))[0][0][0]+ns.array(lambda i: (x, a[i]), size=a.size())[0][0]*2.0", ["f[n]", "f[m]", "f"]),
        ("repeat-concat", "ns.array(lambda i: ns.array(lambda j: x, size=1).concat(a)[i]+1.0, size=a.size()+1)", ["f", "f[n]"]),
        ("slice-whole", "ns.array(lambda i: a[i]+1.0, size=a.size()).concat(ns.array(lambda i: a[i+0]*2.0, size=a.size()))", ["f[n]"]),
        ("slice-short", "ns.array(lambda i: a[i]+1.0, size=1).concat(ns.array(lambda i: a[i+1]*a[0], size=1))", ["f[n]"]),
        ("int-cast", "ns.array(lambda i: k[i].float()+1.0).concat(ns.array(lambda i: k[i].float()*2.0))", ["i[n]"]),
    ]
    for n, (nm, e, types) in enumerate(S):
        names, arrs, scs = [], iter("ab"), iter("xy")
        for t in types:
            names.append("k" if nm == "int-cast" else next(arrs) if "[" in t else next(scs))
        prog("C12" + (" C10" if n % 4 == 0 else ""), f"pure/{nm}", f"lambda {','.join(['ns'] + names)}: {e}", types, dims={"r": (0, 3)})


# =============================================================== C13 constants


def c13():
    S = [
        ("shape", "ns.array(lambda i,j: ns.wrap(K23)[i,j]*ns.wrap(K32)[j,i]*a[i,j])", ["f[2,3]"]),
        ("flat", "ns.array(lambda i: ns.wrap(K6)[i])", []),
        ("kind", "ns.array(lambda i: ns.wrap(KI3)[i].float()-ns.wrap(KF3)[i]*a[i])", ["f[3]"]),
        ("bool-int", "ns.array(lambda i: ns.wrap(KB3)[i].where(ns.wrap(KI01)[i], 5))", []),
        ("zeros", "ns.array(lambda i: ns.wrap(KZ)[i]+1.0/ns.wrap(KNZ)[i]*a[i])", ["f[2]"]),
        ("near", "ns.array(lambda i: ns.wrap(KN1)[i]*a[i]-ns.wrap(KN2)[i]*a[i])", ["f[3]"]),
        ("int-float-scalar", "(x*1.0)+(ns.wrap(1)*3).float()", ["f"]),
        ("true-one", "ns.where(ns.wrap(True), ns.wrap(1), ns.wrap(0))+ns.wrap(1)", []),
        ("same-twice", "ns.array(lambda i: ns.wrap(KN1)[i]*ns.wrap(KN1c)[i])", []),
        ("empty", "ns.wrap(KE0).size()-ns.wrap(KE03).size(1)", []),
        ("rank0", "ns.wrap(KR0)*ns.wrap(2.0)+x", ["f"]),
        ("rank1-1", "ns.wrap(KR1)[0]*3.0-ns.wrap(KR0)", []),
        ("int32", "ns.array(lambda i: ns.wrap(KI3)[i]+ns.wrap(KI32)[i])", []),
        ("two-const-folds", "ns.fold(1.0, lambda k,acc: acc*2.0+ns.wrap(KN1)[k], 3)-ns.fold(1.0, lambda k,acc: acc*2.0+ns.wrap(KN2)[k], 3)", []),
    ]
    for nm, e, types in S:
        names = list("ab")[: len(types)] if not types or "[" in types[0] else list("xy")[: len(types)]
        prog("C13 C10", f"const/{nm}", f"lambda {','.join(['ns'] + names)}: {e}", types)


# =============================================================== C14 extrinsics


def c14():
    sc = "(ns.ext(FUN, ([SCF]*{n}, SCF)))"
    n = 0
    for A in ordered_subsets("ij"):
        for B in ordered_subsets("ij"):
            if set(A) | set(B) != set("ij"):
                continue
            n += 1
            prog("C14", f"ext2/{''.join(A)}-{''.join(B)}",
                 f"lambda ns,a,b: ns.array(lambda i,j: ns.ext(numpy.hypot, ((SCF,SCF),SCF))({ref_of('a', A)},{ref_of('b', B)}))",
                 [typ(A), typ(B)], backends=(NP,))
    # three and four operands
    F3 = "ns.ext(lambda p,q,r: p+2.0*q-3.0*r, ((SCF,)*3,SCF))"
    F4 = "ns.ext(lambda p,q,r,s: p+2.0*q-3.0*r+5.0*s, ((SCF,)*4,SCF))"
    two = list(ordered_subsets("ij"))
    rnd = random.Random(12)
    for A, B, C in itertools.product(two, repeat=3):
        if set(A) | set(B) | set(C) != set("ij"):
            continue
        prog("C14", f"ext2x3/{''.join(A)}-{''.join(B)}-{''.join(C)}",
             f"lambda ns,a,b,c: ns.array(lambda i,j: {F3}({ref_of('a', A)},{ref_of('b', B)},{ref_of('c', C)}))",
             [typ(A), typ(B), typ(C)], backends=(ALL3[len(_REG) % 3],))
    subs = list(ordered_subsets("ijk"))
    for t in range(60):
        A, B, C, D = (rnd.choice(subs) for _ in range(4))
        if set(A) | set(B) | set(C) != set("ijk"):
            continue
        prog("C14", f"ext3x3/{''.join(A)}-{''.join(B)}-{''.join(C)}",
             f"lambda ns,a,b,c: ns.array(lambda i,j,k: {F3}({ref_of('a', A)},{ref_of('b', B)},{ref_of('c', C)}))",
             [typ(A), typ(B), typ(C)], backends=(ALL3[len(_REG) % 3],))
        prog("C14", f"ext3x4/{''.join(A)}-{''.join(B)}-{''.join(C)}-{''.join(D)}",
             f"lambda ns,a,b,c,d: ns.array(lambda i,j,k: {F4}({ref_of('a', A)},{ref_of('b', B)},{ref_of('c', C)},{ref_of('d', D)}))",
             [typ(A), typ(B), typ(C), typ(D)], backends=(ALL3[len(_REG) % 3],))
    rnd = random.Random(11)
    for t in range(40):
        A, B = rnd.choice(subs), rnd.choice(subs)
        if set(A) | set(B) != set("ijk"):
            continue
        prog("C14", f"ext3/{''.join(A)}-{''.join(B)}",
             f"lambda ns,a,b: ns.array(lambda i,j,k: ns.ext(numpy.arctan2, ((SCF,SCF),SCF))({ref_of('a', A)},{ref_of('b', B)}))",
             [typ(A), typ(B)], backends=(NP,))
    S = [
        ("unary", "ns.array(lambda i,j: ns.ext(numpy.log1p, ((SCF,),SCF))(a[j,i]))", ["f[n,m]"]),
        ("unary-s", "ns.ext(numpy.sqrt, ((SCF,),SCF))(x)", ["f"]),
        ("no-sig", "ns.array(lambda i: ns.ext(numpy.hypot, SCF)(a[i],b[i]))", ["f[n]", "f[n]"]),
        ("const-op", "ns.array(lambda i: ns.ext(numpy.hypot, ((SCF,SCF),SCF))(2.0,b[i]*a[i]))", ["f[n]", "f[n]"]),
        ("const-op2", "ns.array(lambda i: ns.ext(numpy.arctan2, ((SCF,SCF),SCF))(b[i]*a[i],2.0))", ["f[n]", "f[n]"]),
        ("nested", "ns.array(lambda i,j: ns.ext(numpy.arctan2, SCF)(ns.ext(numpy.hypot, SCF)(a[i],b[j]),a[i]))", ["f[n]", "f[m]"]),
        ("in-fold", "ns.array(lambda i: ns.fold(a[i], lambda k,acc: ns.ext(numpy.hypot, SCF)(acc*2.0,b[k]), 2))", ["f[n]", "f[m]"]),
        ("shifted", "ns.array(lambda i: ns.ext(numpy.arctan2, SCF)(a[i+1],b[i-1]), size=a.size())", ["f[n]", "f[m]"]),
        ("three", "ns.array(lambda i,j: ns.ext(numpy.hypot, SCF)(a[i],b[j])-ns.ext(numpy.arctan2, SCF)(b[j],a[i]))", ["f[n]", "f[m]"]),
        ("repeat", "ns.array(lambda i,j: ns.ext(numpy.hypot, SCF)(a[j],x), size=(b.size(),a.size()))", ["f[n]", "f[m]", "f"]),
        ("scalar-pair", "ns.ext(numpy.arctan2, ((SCF,SCF),SCF))(y,x)", ["f", "f"]),
    ]
    for nm, e, types in S:
        names, arrs, scs = [], iter("ab"), iter("xy")
        for t in types:
            names.append(next(arrs) if "[" in t else next(scs))
        prog("C14", f"extx/{nm}", f"lambda ns,{','.join(names)}: {e}", types, backends=(NP,))


# =============================================================== variables that depend on indices without mentioning them


def summands():
    """Sums of products, each product with its own choice of axes, in each order: partial sums are narrower than the result."""
    P = {"": "u[k]*v[k]", "i": "x[i]*u[k]", "j": "v[k]*y[j]", "ij": "u[k]*m[i,j]", "ji": "n[j,i]*v[k]*u[k]"}
    for t in itertools.product(P, repeat=3):
        if len(set(t)) == 1 or (t[0] == "ji" and t[2] == "ji"):
            continue
        a, b, c = (P[q] for q in t)
        e = (f"{a}+{b}-{c}", f"{a}-({b}-{c})", f"-({a})+({b}+{c})")[sum(map(len, t)) % 3]
        prog("C04 C10" if "ij" in t else "C04", f"summands/{'.'.join(q or '-' for q in t)}",
             f"lambda ns,u,v,x,y,m,n: ns.array(lambda i,j: ns.std.fold_sum(lambda k: {e}, u.size()), size=(x.size(),y.size()))",
             ["f[r]", "f[r]", "f[n]", "f[m]", "f[n,m]", "f[m,n]"], dims={"r": (0, 2)}, backends=(NP, (TO, JX)[sum(map(len, t)) % 2]))


def hidden():
    S = [
        ("shift", "ns.array(lambda j: ns.fold(d[j], lambda k,s: ns.array(lambda i: d[i+s], size=d.size())[1]-s, 2))", "C02 C03"),
        ("shift-neg", "ns.array(lambda j: ns.fold(d[j], lambda k,s: ns.array(lambda i: d[i-s], size=2)[k]+s, 2))", "C02 C03"),
        ("low", "ns.array(lambda j: ns.fold(d[j], lambda k,s: ns.array(lambda i: d[i.max(s)], size=3)[2]+s, 2))", "C02 C03"),
        ("high", "ns.array(lambda j: ns.fold(d[j], lambda k,s: ns.array(lambda i: d[i.min(s)], size=3)[2]+s, 2))", "C02 C03"),
        ("both", "ns.array(lambda j: ns.fold(d[j], lambda k,s: ns.array(lambda i: d[(i+s).max(1).min(s)], size=3)[k]+1, 2))", "C02 C03"),
        ("other", "ns.array(lambda j: ns.fold(a[j], lambda k,s: ns.array(lambda i: a[i+k]*s, size=a.size())[1]-s, 2))", "C02 C03"),
        ("vec-acc", "ns.array(lambda j: ns.fold(a, lambda k,v: ns.array(lambda i: v[i+d[j]]-v[j], size=a.size()), 2)[1], size=d.size())", "C02 C03 C01"),
        ("vec-acc2", "ns.array(lambda j: ns.fold(a, lambda k,v: ns.array(lambda i: v[i-k]*a[j], size=a.size()), 2)[0], size=d.size())", "C02 C03 C01"),
        ("acc-index", "ns.array(lambda j: ns.fold(d[j], lambda k,s: d[s]+d[s+j], 2))", "C02 C03"),
        ("rec-acc", "ns.array(lambda j: ns.fold((d[j],a[j]), lambda k,s: (d[s[0]+1], ns.array(lambda i: a[i+s[0]], size=2)[1]+s[1]), 2)[1])", "C02 C03 C06"),
        ("count", "ns.fold(0, lambda k,s: ns.array(lambda i: d[i+k], size=d.size())[1]-s, 2)", "C02 C03"),
    ]
    for nm, e, props in S:
        # (JAX traces the counters and arguments, and slices only with static bounds)
        prog(props, f"hidden/{nm}", f"lambda ns,a,d: {e}", ["f[n]", "i[n]"], jax=nm not in ("other", "vec-acc2", "count"))
    S = [
        ("const", "(lambda r: r[2]-r[0]*2.0+r[1])(ns.array(lambda i: (a[i],0.0,b[i])).reduce((0.0,0.0,0.0), lambda p,q: (p[0]+q[0], 0.0, p[2]+q[2]+q[1])))"),
        ("const-left", "(lambda r: r[2]-r[0]*2.0+r[1])(ns.array(lambda i: (a[i],0.0,b[i])).reduce((0.0,0.0,0.0), lambda p,q: (p[0]+q[0], 0.0, p[2]+q[2]+p[1])))"),
        ("outer", "ns.array(lambda j: (lambda r: r[1]-r[0])(ns.array(lambda i: (a[i]*b[j],b[j]), size=a.size()).reduce((0.0,b[j]), lambda p,q: (p[0]+q[0]+q[1]*0.0, b[j]))), size=b.size())"),
        ("fold", "a.reduce(0.0, lambda p,q: ns.fold(0.0, lambda k,s: s+(p+q)*0.5, 2))"),
        ("fold-rec", "a.reduce(0.0, lambda p,q: ns.fold((0.0,p), lambda k,s: (s[0]+s[1],q), 2)[0])"),
        ("concat", "a.reduce(0.0, lambda p,q: ns.wrap(KF3).concat(ns.array(lambda i: p+q, size=1))[3])"),
        ("concat2", "a.reduce(0.0, lambda p,q: ns.array(lambda i: p+q, size=1).concat(ns.wrap(KF3))[0])"),
        ("concat-outer", "ns.array(lambda j: a.reduce(0.0, lambda p,q: ns.array(lambda i: b[j], size=2).concat(ns.array(lambda i: p+q, size=1))[2]), size=b.size())"),
        ("reduce", "a.reduce(0.0, lambda p,q: ns.array(lambda i: p, size=1).concat(ns.array(lambda i: q, size=1)).reduce(0.0, lambda u,v: u+v))"),
        ("where-const", "(lambda r: r[0]-r[1]*2.0)(ns.array(lambda i: (a[i],b[i])).reduce((0.0,0.0), lambda p,q: (p[0]+q[0], ns.where(x > 0.0, p[1]+q[1], p[1].max(q[1])))))"),
        ("flag", "(lambda r: r[1].where(r[0], 0.0))(ns.array(lambda i: (a[i],True)).reduce((0.0,True), lambda p,q: (p[0]+q[0], ns.wrap(True))))"),
        ("batch-const", "ns.array(lambda j: (lambda r: r[0]-r[1])(ns.array(lambda i: (a[i]*b[j],0.0), size=a.size()).reduce((0.0,0.0), lambda p,q: (p[0]+q[0]+p[1], 0.0))), size=b.size())"),
    ]
    for nm, e in S:
        prog("C05 C10" + (" C06" if "r[" in e else ""), f"part/{nm}", f"lambda ns,a,b,x: {e}", ["f[r]", "f[n]" if "j:" in e else "f[r]", "f"], dims={"r": (0, 4)})


# =============================================================== more of everything: ranks, operands, fields, bindings


def _sums(vs, e):
    for v in reversed(vs):
        e = f"ns.fold(0.0, lambda {v},_{v}: _{v}+{e})"
    return e


def scale():
    rnd = random.Random(77)
    DD = "nmlqpo"
    V = "ijkhtw"
    # ranks up to six
    for n in range(24):
        r = 4 + n % 3
        ix = list(V[:r])
        perm = ix[:]
        rnd.shuffle(perm)
        dims = {v: DD[k] for k, v in enumerate(ix)}
        sub = rnd.sample(ix, rnd.randint(1, r - 1))
        rnd.shuffle(sub)
        ta = "f[" + ",".join(dims[v] for v in perm) + "]"
        tb = "f[" + ",".join(dims[v] for v in sub) + "]"
        prog("C01" + (" C10" if n % 4 == 0 else ""), f"rank/{r}/{n}", f"lambda ns,a,b: ns.array(lambda {','.join(ix)}: a[{','.join(perm)}]-b[{','.join(sub)}]*2.0)", [ta, tb], backends=(ALL3[n % 3],))
        sh = [f"{v}+1" if rnd.random() < .3 else f"{v}-1" if rnd.random() < .3 else f"{v}*2" if rnd.random() < .15 else v for v in perm]
        size = "(" + ",".join(f"a.size({perm.index(v)})" for v in ix) + ")"
        prog("C02 C08", f"rank-shift/{r}/{n}", f"lambda ns,a,b: ns.array(lambda {','.join(ix)}: a[{','.join(sh)}]-b[{','.join(sub)}]*2.0, size={size})", [ta, tb], backends=(ALL3[n % 3],), sym=sum(x != y for x, y in zip(sh, perm)) < 4)
        g = rnd.randrange(r)
        got = [f"g[{v}]" if k == g else v for k, v in enumerate(perm)]
        gs = "(" + ",".join("g.size()" if v == perm[g] else f"a.size({perm.index(v)})" for v in ix) + ")"
        prog("C02", f"rank-gather/{r}/{n}", f"lambda ns,a,g: ns.array(lambda {','.join(ix)}: a[{','.join(got)}], size={gs})", [ta, "i[u]"], backends=(ALL3[n % 3],))
        # sums over some of the indices, result in any order
        s = rnd.randint(1, 2)
        summed, kept = perm[:s], perm[s:]
        rnd.shuffle(kept)
        td = "f[" + ",".join(dims[v] if v in kept else "rs"[summed.index(v)] for v in perm) + "]"
        tb = "f[" + ",".join(dims[v] if v in kept else "rs"[summed.index(v)] for v in sub) + "]"
        prog("C04", f"rank-sum/{r}/{n}", f"lambda ns,a,b: ns.array(lambda {','.join(kept)}: {_sums(summed, 'a[' + ','.join(perm) + ']*b[' + ','.join(sub) + ']')})", [td, tb],
             dims={"r": (0, 2), "s": (0, 2)}, backends=(ALL3[n % 3],))
    # many operands
    for n in range(16):
        q = 4 + n % 4
        nm = "abcdefg"[:q]
        subs = [rnd.sample("ijk", rnd.randint(1, 3)) for _ in nm]
        subs[0] = rnd.sample("ijk", 3)
        dk = {"i": "n", "j": "m", "k": "l"}
        T = ["f[" + ",".join(dk[v] for v in s) + "]" for s in subs]
        terms = [f"{x}[{','.join(s)}]" for x, s in zip(nm, subs)]
        e = terms[0]
        for t in terms[1:]:
            e = f"({e}{rnd.choice('+-*')}{t})"
        prog("C01 C07" + (" C10" if n % 4 == 0 else ""), f"operands/{q}/{n}", f"lambda ns,{','.join(nm)}: ns.array(lambda i,j,k: {e})", T, backends=(ALL3[n % 3],))
        dk = {"i": "n", "j": "r", "k": "s"}
        T = ["f[" + ",".join(dk[v] for v in s) + "]" for s in subs]
        prog("C04", f"operands-sum/{q}/{n}", f"lambda ns,{','.join(nm[:6])}: ns.array(lambda i: {_sums('jk', '*'.join(terms[:6]))})", T[:6], dims={"r": (0, 2), "s": (0, 2)}, backends=(ALL3[n % 3],))
        if q > 5:  # NumPy's search for a contraction path is exponential
            nm, terms, T = nm[:5], terms[:5], T[:5]
        ink, outk = "*".join(t for t in terms if "k" in t), "*".join(["2.0"] + [t for t in terms if "k" not in t])
        prog("C04", f"operands-sums/{q}/{n}", f"lambda ns,{','.join(nm)}: ns.array(lambda i: {_sums('j', outk + '*' + _sums('k', ink))}, size=a.size({subs[0].index('i')}))", T,
             dims={"r": (0, 2), "s": (0, 2)}, backends=(ALL3[(n + 1) % 3],))
        P = [f"p{k}" for k in range(q)]
        F = f"ns.ext(lambda {','.join(P)}: {'+'.join(f'{2.0 * k - 3.0}*{x}' for k, x in enumerate(P))}, ((SCF,)*{q},SCF))"
        T = ["f[" + ",".join({"i": "n", "j": "m", "k": "l"}[v] for v in s) + "]" for s in subs]
        nm = "abcdefg"[:q]
        terms = [f"{x}[{','.join(s)}]" for x, s in zip(nm, subs)]
        prog("C14", f"operands-ext/{q}/{n}", f"lambda ns,{','.join(nm)}: ns.array(lambda i,j,k: {F}({','.join(terms)}))", T, backends=(ALL3[n % 3],))
    # many fields: more than ten, in records of every sort
    for q in (5, 6, 8, 11, 13):
        w = [(-1) ** k * (k + 2.0) for k in range(q)]
        A = [f"a[{k}]" for k in range(q)]
        names = [f"f{(7 * k) % 19}" for k in range(q)]
        for sort in "tdm":
            if sort == "t":
                mk = lambda xs: "(" + ",".join(xs) + ",)"  # noqa: E731
                ac = lambda r, k: f"{r}[{k}]"  # noqa: E731
            elif sort == "d":
                mk = lambda xs: "{" + ",".join(f"'{nm}':{x}" for nm, x in zip(names, xs)) + "}"  # noqa: E731
                ac = lambda r, k: f"{r}['{names[k]}']"  # noqa: E731
            else:
                h = q // 2
                mk = lambda xs: "((" + ",".join(xs[:h]) + ",),[" + ",".join(xs[h:]) + "])"  # noqa: E731
                ac = lambda r, k: f"{r}[0][{k}]" if k < h else f"{r}[1][{k - h}]"  # noqa: E731
            pack = lambda r: "+".join(f"{ac(r, k)}*({w[k]})" for k in range(q))  # noqa: E731
            rot = [f"{ac('s', (k + 1) % q)}*{k + 1}.0" for k in range(q)]
            one = mk([f"{k}.0" for k in range(q)])
            I = [f"a[{k}]*b[i]+{k}.0" for k in range(q)]
            B = (ALL3[q % 3],)
            prog("C06 C03", f"fields/{sort}{q}/fold", f"lambda ns,a: (lambda r: {pack('r')})(ns.fold({mk(A)}, lambda k,s: {mk(rot)}, 2))", [f"f[{q}]"], backends=B)
            prog("C06", f"fields/{sort}{q}/array", f"lambda ns,a,b: (lambda v: ns.array(lambda i: {pack('v[i]')}, size=b.size()))(ns.array(lambda i: {mk(I)}))", [f"f[{q}]", "f[n]"], backends=B)
            prog("C06", f"fields/{sort}{q}/where", f"lambda ns,a,b: ns.array(lambda i: (lambda r: {pack('r')})(ns.where(b[i] > 0.5, {mk(I)}, {one})))", [f"f[{q}]", "f[n]"], backends=B)
            add = mk([f"{ac('p', k)}+{ac('q', k)}" for k in range(q)])
            prog("C06 C05", f"fields/{sort}{q}/reduce", f"lambda ns,a,b: (lambda r: {pack('r')})(ns.array(lambda i: {mk(I)}).reduce({mk(['0.0'] * q)}, lambda p,q: {add}))", [f"f[{q}]", "f[r]"],
                 dims={"r": (0, 2)}, backends=B, sym=q < 9)
    # many bindings: chains of shared terms, nested loops and comprehensions
    for q in (4, 7, 10):
        e = f"x{q - 1}*x0-x{q // 2}"
        for k in range(q - 1, 0, -1):
            e = f"(lambda x{k}: {e})(x{k - 1}*x{k - 1}-x{max(0, k - 3)}*2.0)" if k < 4 else f"(lambda x{k}: {e})(x{k - 1}+x{k - 2}*2.0-x{k - 4})"
        prog("C07", f"bindings/{q}/scalar", f"lambda ns,x0: {e}", ["f"])
        prog("C07 C01", f"bindings/{q}/inner", f"lambda ns,a: ns.array(lambda i: (lambda x0: {e})(a[i]))", ["f[n]"])
        e = f"ns.array(lambda i: x{q - 1}[i]*x0[i]-x{q // 2}[i])"
        for k in range(q - 1, 0, -1):
            e = f"(lambda x{k}: {e})(ns.array(lambda i: x{k - 1}[i]+x{max(0, k - 3)}[i-1]*2.0, size=x{k - 1}.size()))"
        prog("C07 C12 C08", f"bindings/{q}/arrays", f"lambda ns,x0: {e}", ["f[n]"], sym=q < 5)
    for q in (3, 4, 5):
        src = f"s{q - 1}*0.5+" + "+".join(f"k{j}.float()*{j + 1}.0" for j in range(q))
        for j in range(q - 1, -1, -1):
            src = f"ns.fold({'x' if j == 0 else f's{j - 1}'}, lambda k{j},s{j}: {src}, 2)"
        prog("C03", f"nested/{q}/fold", f"lambda ns,x: {src}", ["f"])
        prog("C03", f"nested/{q}/fold-batch", f"lambda ns,a: ns.array(lambda i: (lambda x: {src})(a[i]))", ["f[n]"])
        ix = V[:q]
        prog("C01", f"nested/{q}/arrays", "lambda ns,a: " + "".join(f"ns.array(lambda {v}: " for v in ix) + "-".join(f"a[{v}]*{k + 1}.0" for k, v in enumerate(ix)) + ")" * q, ["f[n]"], backends=(ALL3[q % 3],))
        src = "*".join(f"a[{u},{v}]" for u, v in zip(ix, ix[1:]))
        for v in ix[::-1][:-1]:
            src = _sums(v, src)
        prog("C04", f"nested/{q}/sums", f"lambda ns,a: ns.array(lambda i: {src})", ["f[r,r]"], dims={"r": (0, 2)})
        cat = "".join(f".concat({x})" for x in "bcdef"[:q - 1])
        names = "abcdef"[:q]
        prog("C01 C02", f"nested/{q}/concat", f"lambda ns,{','.join(names)}: a{cat}", [f"f[{d}]" for d in "nmlqpo"[:q]], backends=(ALL3[q % 3],))
        prog("C12 C13", f"nested/{q}/args", f"lambda ns,{','.join(names)}: ns.array(lambda i: {'-'.join(f'{x}[i]*{k + 1}.0' for k, x in enumerate(names))})", ["f[n]"] * q)
        prog("C13", f"nested/{q}/consts", "lambda ns,a: ns.array(lambda i: " + "-".join(f"a[i]*ns.wrap(numpy.array([{k}.0,{k + 1}.5]))[{k % 2}]" for k in range(2 * q)) + ")", ["f[n]"], backends=(ALL3[q % 3],))
    # integers too large for a float, and for 32 bits
    for n, v in enumerate([2**31 - 1, 2**31, 2**32 + 1, 2**53 + 1, -2**31 - 1, -2**53 - 1, 2**62]):
        B = (NP, TO)
        prog("C13 C11", f"large/{n}/lit", f"lambda ns,a: ns.array(lambda i: a[i]-({v}))", ["i[n]"], backends=B)
        prog("C13", f"large/{n}/const", f"lambda ns,a: ns.array(lambda i: a[i]-ns.wrap({v}))", ["i[n]"], backends=B)
        prog("C13", f"large/{n}/arr", f"lambda ns,a: ns.array(lambda i: a[i]-ns.wrap(numpy.array([{v},3]))[i])", ["i[n]"], backends=B)
        prog("C13 C09", f"large/{n}/fold", f"lambda ns,a: ns.array(lambda i: ns.fold({v}, lambda k,s: (s-1).max(a[i]), 2))", ["i[n]"], backends=B)
        prog("C02", f"large/{n}/index", f"lambda ns,a: ns.array(lambda i: a[i+({v})]-a[({v})-i]*2.0, size=a.size())", ["f[n]"], backends=B)


def all_programs():
    if not _REG:
        for f in (c01, c02, c03, c04, c05, c06, c06b, c07, c08, c08b, c11, c12, c13, c14, summands, hidden, scale):
            f()
    return _REG


def for_property(pid):
    return [p for p in all_programs() if pid in p.props]
