"""Runs the obligations of one property, replays counterexamples, writes evidence."""
from __future__ import annotations

import json
import multiprocessing
import os
import signal
import sys
import contextlib
import time
import traceback
from concurrent.futures import FIRST_COMPLETED, ProcessPoolExecutor, wait
from concurrent.futures.process import BrokenProcessPool

import numpy

from . import boot  # noqa: F401

VERIF = boot.VERIF
REPO = boot.REPO

CALLED: set = set()


class JobTimeout(BaseException):
    pass


def _alarm(*_):
    raise JobTimeout


def monitor_calls():
    """Record (once per code object) the functions of /repo that the run reaches."""
    mon = sys.monitoring
    tool = 4
    try:
        mon.use_tool_id(tool, "einv")
    except ValueError:
        return
    root = os.path.join(REPO, "ein") + os.sep

    def start(code, _offset):
        if code.co_filename.startswith(root):
            CALLED.add((code.co_filename[len(root):], code.co_qualname))
        return mon.DISABLE

    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)


def _init_worker():
    try:
        import ctypes

        ctypes.CDLL(None).prctl(1, signal.SIGKILL)  # PR_SET_PDEATHSIG: no orphans
    except Exception:
        pass
    import torch

    torch.set_num_threads(1)
    signal.signal(signal.SIGALRM, _alarm)
    monitor_calls()


# ------------------------------------------------------------------ jobs
# A job is (kind, key...).  Its result is a dict:
#   status: proved | held | violated | undecided | skipped
#   obligations, discharged, evaluations, name, detail, replay


def arrays_json(arrays):
    return [{"dtype": str(a.dtype), "shape": list(a.shape), "data": numpy.asarray(a).ravel().tolist()} for a in arrays]


def arrays_unjson(items):
    return [numpy.array(d["data"], dtype=d["dtype"]).reshape(d["shape"]) for d in items]


def program_replay(p, arrays, backend, mode, what, obligation=None):
    return {
        "kind": "program",
        "program": p.name,
        "source": p.src,
        "arg_types": [a.text for a in p.args],
        "args": arrays_json(arrays),
        "backend": backend,
        "mode": mode,
        "failure": what,
        "obligation": obligation,
        "replay_cmd": "PYTHONHASHSEED=0 /opt/venv/bin/python /verif/replay.py <this file>",
    }


def samples_for(p, rng, n, big=False):
    from .core import random_arrays

    for k in range(n):
        if big and k % 3 == 2:
            top = {d: (min(hi, 9) if hi is not None else 9) for d, (lo, hi) in p.dims.items()}
            dims = {d: int(rng.integers(min(p.dims[d][0], t), t + 1)) for d, t in top.items()}
            dims = {d: max(v, p.dims[d][0]) for d, v in dims.items()}
            yield random_arrays(p, rng, dims=dims)
        else:
            yield random_arrays(p, rng, max_dim=4 if k else 3)


def within(seconds, fn):
    """fn() unless it takes longer; nested in the job's own limit."""
    t0 = time.time()
    left, _ = signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return fn()
    except JobTimeout:
        if left and time.time() - t0 >= left:
            raise
        return None
    finally:
        signal.setitimer(signal.ITIMER_REAL, max(0.05, left - (time.time() - t0)) if left else 0)


@contextlib.contextmanager
def memory_limit(extra):
    """Long dimensions make for huge intermediate arrays: these fail to be allocated, instead of exhausting the machine."""
    import resource

    old = resource.getrlimit(resource.RLIMIT_AS)
    with open("/proc/self/statm") as f:
        used = int(f.read().split()[0]) * resource.getpagesize()
    limit = used + extra if old[1] == resource.RLIM_INFINITY else min(used + extra, old[1])
    resource.setrlimit(resource.RLIMIT_AS, (limit, old[1]))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_AS, old)


def long_check(p, rng, backend, mode):
    """One run with a long dimension; None where the specification takes too long, or its numbers leave the machine's range."""
    from .core import concrete_check, long_arrays, quiet, spec_value

    arrays = long_arrays(p, rng)
    if arrays is None:
        return None

    def tame():
        with quiet():
            for v, ok in spec_value(p, arrays):
                if v.dtype.kind in "if" and not (numpy.abs(v[ok].astype(float)) < 1e9).all():
                    return False
        return True

    try:
        if not within(0.3, tame):
            return None
    except Exception:
        return None
    with memory_limit(3 << 30) if not backend.startswith("jax") else contextlib.nullcontext():
        d = within(10, lambda: concrete_check(p, arrays, backend, mode))
    return (d, arrays) if d else None


def job_conc(idx, backend, mode, n, seed):
    from . import programs
    from .core import concrete_check

    p = programs.all_programs()[idx]
    rng = numpy.random.default_rng([seed, idx, len(backend), len(mode)])
    count = 0
    for arrays in samples_for(p, rng, n, big=n > 3):
        d = concrete_check(p, arrays, backend, mode)
        count += 1
        if d:
            return dict(status="violated", name=f"{p.name}@{backend}/{mode}", detail=d, evaluations=count,
                        replay=program_replay(p, arrays, backend, mode, d))
    if mode == "staged" and (not backend.startswith("jax") or idx % 5 == 0):
        bad = long_check(p, rng, backend, mode)
        count += 1
        if bad:
            d, arrays = bad
            return dict(status="violated", name=f"{p.name}@{backend}/{mode}", detail=d, evaluations=count,
                        replay=program_replay(p, arrays, backend, mode, d))
    return dict(status="held", name=f"{p.name}@{backend}/{mode}", evaluations=count)


def job_sym(idx, backend, budget, seed):
    from . import programs

    return _sym(programs.all_programs()[idx], backend, budget, seed, idx)


def _sym(p, backend, budget, seed, idx):
    from . import sym
    from .core import concrete_check, concrete_from_model, symbolic_check

    s0 = sym.STATS.solver_s
    r = symbolic_check(p, backend, budget_s=budget)
    total = len(r.obligations)
    done = sum(1 for o in r.obligations if o.status == "proved")
    out = dict(name=f"{p.name}@{backend}", obligations=total, discharged=done, paths=r.paths, evaluations=0,
               solver_s=sym.STATS.solver_s - s0, bounded=p.bounded, detail=r.reason,
               backends=sorted({getattr(o, "backend", "") or "z3" for o in r.obligations}))
    if r.status == "proved":
        out["status"] = "proved"
        return out
    if r.status != "candidate":
        out["status"] = "undecided"
        return out
    # a failed obligation: replay its counterexample on the real code, else search near it
    rng = numpy.random.default_rng([seed, idx, 77])
    failed = getattr(r, "failed", None)
    model = getattr(failed, "model", None)
    tries = []
    if model is not None:
        try:
            arrs = concrete_from_model(p, model, rng)
        except Exception:
            arrs = None
        if arrs is not None:
            tries.append(arrs)
    tries += list(samples_for(p, rng, 40, big=True))
    for arrays in tries:
        out["evaluations"] += 1
        d = concrete_check(p, arrays, backend)
        if d:
            out.update(status="violated", detail=d,
                       replay=program_replay(p, arrays, backend, "staged", d, obligation=f"{p.name}@{backend}: {r.reason}"))
            return out
    if failed is None or failed.name == "no exception" or "uf_" in str(model):
        # an exception that the real code does not raise on the model's input: a limit of the proxies;
        # or a counterexample that gives an uninterpreted function (exp, pow, ...) an impossible table
        out["status"] = "undecided"
        return out
    out.update(status="violated", no_input=True,
               replay=dict(kind="obligation", program=p.name, source=p.src, backend=backend,
                           obligation=f"{failed.name} {failed.detail}", model=str(model)[:4000],
                           note="the counterexample of the verifier did not reproduce on concrete arrays"))
    return out


def gen_program(theme, number):
    from . import gen

    return gen.program(theme, number)


def job_gen(theme, number, n, budget, seed):
    """A grammar skeleton: concrete cross-checks on every backend, then the symbolic obligations."""
    from . import sym
    from .core import concrete_check

    p = gen_program(theme, number)
    rng = numpy.random.default_rng([seed, number, len(theme)])
    out = dict(name=p.name, evaluations=0)
    t0 = time.time()
    jax_too = theme in ("all", "fold", "steps") if budget else number % 8 == 0
    backs = [b for b in p.backends if b != "jax" or jax_too]
    if theme != "ext":
        backs.append("naive")
    for b in backs:
        for k, arrays in enumerate(samples_for(p, rng, n)):
            if k and time.time() - t0 > 12:
                break
            mode = "const" if k == n - 1 and b in ("numpy", "torch") else "staged"
            d = concrete_check(p, arrays, b, mode)
            out["evaluations"] += 1
            if d:
                return dict(out, status="violated", name=f"{p.name}@{b}/{mode}", detail=d, replay=program_replay(p, arrays, b, mode, d))
        bad = long_check(p, rng, b, "staged") if not budget and b in ("numpy", "torch") else None
        if bad:
            return dict(out, status="violated", name=f"{p.name}@{b}/staged", detail=bad[0], replay=program_replay(p, bad[1], b, "staged", bad[0]))
    out["status"] = "held"
    if budget:
        r = _sym(p, p.backends[number % len(p.backends)] if theme != "ext" else "numpy", budget, seed, number)
        r["evaluations"] += out["evaluations"]
        return r
    return out


def job_contract(mod, name, budget, seed):
    """A contract module function: returns a dict as above (see einv.contracts)."""
    from . import contracts, sym

    s0 = sym.STATS.solver_s
    out = contracts.run_case(mod, name, budget, seed)
    out["solver_s"] = sym.STATS.solver_s - s0
    return out


def job_model(idx, backend, seed):
    """The library models against the libraries, on one skeleton and random concrete arrays; not a verdict about /repo."""
    from . import modelcheck

    name, b, verdict, detail = modelcheck.one((idx, backend, seed))
    return dict(status="held", name=f"model:{name}@{b}", model=verdict, detail=detail)


JOBS = {"model": job_model, "conc": job_conc, "sym": job_sym, "contract": job_contract, "gen": job_gen}


def run_job(job, limit):
    kind, *args = job
    t0 = time.time()
    from . import sym

    st = sym.STATS
    before = (st.queries, st.simplified, st.paths, st.reachable)
    signal.alarm(int(limit))
    try:
        out = JOBS[kind](*args)
    except JobTimeout:
        out = dict(status="undecided", detail=f"no result within {limit} s", timeout=True)
    except MemoryError:
        out = dict(status="undecided", detail="out of memory")
    except Exception:
        out = dict(status="undecided", detail="checker: " + traceback.format_exc()[-1500:], crash=True)
    finally:
        signal.alarm(0)
    out.setdefault("name", str(job))
    out.setdefault("evaluations", 0)
    out.setdefault("obligations", 0)
    out.setdefault("discharged", 0)
    out["queries"], out["simplified"], out["paths"], out["reachable"] = (
        x - y for x, y in zip((st.queries, st.simplified, st.paths, st.reachable), before))
    out["kind"] = kind
    out["job"] = job
    out["time"] = time.time() - t0
    return out


def run_chunk(jobs, deadline, limit):
    res = []
    for j in jobs:
        if time.time() > deadline:
            res.append(dict(status="skipped", name=str(j), kind=j[0], job=j, evaluations=0, obligations=0, discharged=0,
                            time=0.0, detail="time"))
            continue
        res.append(run_job(j, limit))
        if res[-1]["status"] == "violated" and not res[-1].get("no_input"):
            break
    return res, set(CALLED)


def run_phase(jobs, *, workers, deadline, limit, chunk, keep_going=False):
    """Runs jobs in parallel; stops at the first replayed violation."""
    results, called = [], set()
    chunks = [jobs[i:i + chunk] for i in range(0, len(jobs), chunk)]
    ctx = multiprocessing.get_context("fork")
    for attempt in range(3):
        if not chunks:
            break
        left = []
        ex = ProcessPoolExecutor(workers, mp_context=ctx, initializer=_init_worker)
        futs = {ex.submit(run_chunk, c, deadline, limit): c for c in chunks}
        stop = False
        pending = set(futs)
        while pending and not stop:
            done, pending = wait(pending, timeout=max(1.0, deadline + 2 * limit - time.time()), return_when=FIRST_COMPLETED)
            if not done:
                break  # stuck in native code past the deadline
            for f in done:
                try:
                    rs, cs = f.result()
                except BrokenProcessPool:
                    left.append(futs[f])
                    continue
                except Exception:
                    left.append(futs[f])
                    continue
                results += rs
                called |= cs
                if any(r["status"] == "violated" and not r.get("no_input") for r in rs):
                    stop = not keep_going
        for f in pending:
            f.cancel()
        procs = list(getattr(ex, "_processes", {}).values()) if getattr(ex, "_processes", None) else []
        for pr in procs:  # all results are in, or no more are wanted
            pr.kill()
        ex.shutdown(wait=False, cancel_futures=True)
        if stop:
            return results, called, True
        chunks = [[j] for c in left for j in c]
        if attempt == 2:
            break
    for c in chunks:
        for j in c:
            results.append(dict(status="undecided", name=str(j), kind=j[0], job=j, evaluations=0, obligations=0, discharged=0,
                                time=0.0, detail="worker process died"))
    return results, called, False


# ------------------------------------------------------------------ known findings


def known_findings():
    path = os.path.join(VERIF, "known_findings.json")
    try:
        with open(path) as f:
            return json.load(f)
    except FileNotFoundError:
        return {"findings": [], "fixed": []}
