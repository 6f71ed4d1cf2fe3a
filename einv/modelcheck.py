"""The assumed contracts of NumPy/PyTorch/JAX against the libraries themselves.

A skeleton is run twice on random concrete arrays: on the real backend, and through the models (SymArrays holding the same
concrete data).  Shapes, kinds and elements must agree.  Runs as part of the checks (on a sample of skeletons in the quick tier, on
all of them in the thorough tier), and over everything with:  /opt/venv/bin/python -m einv.modelcheck [property or name prefix]"""
import collections
import multiprocessing
import sys
import traceback

import numpy

from . import boot, core, libs, programs, sym  # noqa: F401
from . import symarray as sa


def model_run(p, arrays, backend):
    varargs, call = core.stage_symbolic(p, backend)
    got = []

    def run():
        args = [sa.SymArray.const(a) for a in arrays]
        with libs.active():
            out = call(dict(zip(varargs, args)))
            outs = core.flatten(list(out) if isinstance(out, tuple) else [out])
            res = []
            for o in outs:
                o = sa.asarr(o)
                shape = tuple(sym.fold_const(sym.term(d)) for d in o.shape)
                e = numpy.zeros(shape, dtype=object)
                for ix in numpy.ndindex(*shape):
                    e[ix] = value(o.at(ix))
                res.append((shape, o.kind, e))
        got.append(res)

    r = sym.explore(run, budget_s=20, max_paths=4)
    if r.unsupported:
        raise sym.Unsupported("; ".join(r.unsupported))
    return got[0]


def value(t):
    import z3

    t = sym.fold_const(t)
    if not sym.is_sym(t):
        return t
    s = z3.simplify(t)
    if z3.is_rational_value(s):
        return float(s.as_fraction())
    if z3.is_algebraic_value(s):
        return float(s.approx(20).as_fraction())
    raise sym.Unsupported("uninterpreted")


def one(job):
    i, b, seed = job
    p = programs.all_programs()[i]
    rng = numpy.random.default_rng([seed, i])
    arrays = core.random_arrays(p, rng)
    try:
        real = core.run_real(p, arrays, b)
    except Exception as e:
        return p.name, b, "real", f"{type(e).__name__} {e}"
    try:
        model = model_run(p, arrays, b)
    except sym.Unsupported as e:
        return p.name, b, "unsupported", str(e)
    except Exception as e:
        return p.name, b, "model raised", traceback.format_exc()[-400:]
    if len(real) != len(model):
        return p.name, b, "DIFF", "number"
    for r, (shape, kind, e) in zip(real, model):
        k = {"b": "b", "i": "i", "u": "i", "f": "f"}[r.dtype.kind]
        if r.shape != shape or k != kind:
            return p.name, b, "DIFF", f"{r.shape}{k} {shape}{kind}"
        if not numpy.allclose(r.astype(float), e.astype(float), equal_nan=True, rtol=1e-5):
            return p.name, b, "DIFF", f"{r} {e}"
    return p.name, b, "same", ""


if __name__ == "__main__":
    sel = sys.argv[1] if len(sys.argv) > 1 else ""
    jobs = [(i, b, 1) for i, p in enumerate(programs.all_programs()) for b in p.backends if p.name.startswith(sel) or sel in p.props]
    with multiprocessing.get_context("fork").Pool(8) as pool:
        res = pool.map(one, jobs, chunksize=4)
    print(collections.Counter(r[2] for r in res))
    for r in sorted([r for r in res if r[2] not in ("same", "unsupported")], key=lambda r: r[2])[:20]:
        print(r)
    print(collections.Counter(r[3][:60] for r in res if r[2] == "unsupported").most_common(8))
