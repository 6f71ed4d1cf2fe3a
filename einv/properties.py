"""Per property: the obligations to generate, and the evidence of a run."""
from __future__ import annotations

import json
import os
import sys
import time

from . import boot, contracts, core, gen, programs, runner

PROPS = [f"C{k:02d}" for k in range(1, 15)]

TRUSTED = [
    "CPython 3.12 executing the functions of /repo on symbolic arguments (einv.sym forks at every branch)",
    "z3 (QF_UFLIA/UFNRA queries) as the deciding back end; constant folding for ground obligations",
    "assumed contracts of NumPy/PyTorch/JAX array functions (einv/symarray.py, einv/libs.py), cross-checked on concrete arrays by the same run's concrete executions",
    "the specification (einv/ref.py): the language's meaning, written from the documentation",
    "floating point treated as exact real arithmetic; integers as unbounded",
]


def tier_config(tier):
    if tier == "thorough":
        return dict(total=3000, limit=150, budget=90, conc=12, gen=800, gen_budget=30, bulk=6000, modes=("staged", "const", "function"), naive=True)
    return dict(total=420, limit=45, budget=15, conc=3, gen=90, gen_budget=4, bulk=500, modes=("staged", "const"), naive=False)


# Configurations of the compiler in which a property's skeletons are also verified (core.VARIANTS).
PROP_VARIANTS = {
    "C01": ("no_cancellations", "no_pads"), "C02": ("no_takes", "no_pads", "no_elision", "gathers"), "C03": ("loops", "no_cancellations"),
    "C04": ("no_einsum", "no_reductions", "loops"), "C05": ("no_cancellations",), "C06": ("no_cancellations", "gathers"),
    "C07": ("loops", "gathers"), "C08": ("no_elision",), "C14": ("no_cancellations",),
}


def jobs_for(pid, tier, seed):
    cfg = tier_config(tier)
    variants = [v for v in PROP_VARIANTS.get(pid, ()) if core.has_variant(v)]
    progs = programs.all_programs()
    idx = [i for i, p in enumerate(progs) if pid in p.props]
    first, bulk, second = [], [], []
    for m, c in contracts.for_property(pid):
        first.append(("contract", m, c.name, cfg["budget"], seed))
    for n, i in enumerate(idx):
        p = progs[i]
        for b in p.backends:
            first.append(("conc", i, b, "staged", cfg["conc"], seed))
        modes = cfg["modes"][1:] if tier == "thorough" else (("const", "function")[(n + seed) % 2],)
        for md in modes:
            for b in (p.backends if tier == "thorough" else (p.backends[n % len(p.backends)],)):
                first.append(("conc", i, b, md, max(1, cfg["conc"] - 1), seed))
        if pid in ("C10", "C03") or tier == "thorough":
            if not pid == "C14":
                first.append(("conc", i, "naive", "staged", 2, seed))
        if p.sym:
            for k, b in enumerate(p.backends):
                if tier == "thorough" or (n + k) % 12 == 0:
                    second.append(("model", i, b, seed))
                second.append(("sym", i, b, cfg["budget"], seed))
        configs = [f"{b}+{v}" for b in p.backends for v in variants]
        for b in configs if tier == "thorough" else configs[n % len(configs):][:1] if configs else ():
            first.append(("conc", i, b, "staged", max(1, cfg["conc"] - 1), seed))
            if p.sym:
                second.append(("sym", i, b, cfg["budget"], seed))
    for t in gen.PROP_THEMES[pid]:
        for k in range(cfg["gen"] // len(gen.PROP_THEMES[pid])):
            second.append(("gen", t, 1000 * seed + k, 3, cfg["gen_budget"], seed))
        for k in range(cfg["bulk"] // len(gen.PROP_THEMES[pid])):
            bulk.append(("gen", t, 100000 * seed + k, 3, 0, seed))
    return first, bulk, second


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = tier_config(tier)
    t0 = time.time()
    deadline = t0 + cfg["total"]
    workers = min(8, os.cpu_count() or 4)
    import ein  # noqa: F401
    import jax  # noqa: F401
    import torch  # noqa: F401

    try:
        import ein.backend  # noqa: F401
    except Exception as e:  # pragma: no cover
        print("cannot import ein:", e)
    results, called = [], set()
    for jobs, chunk in zip(jobs_for(pid, tier, seed), (3, 10, 2)):
        r, c, stop = runner.run_phase(jobs, workers=workers, deadline=deadline, limit=cfg["limit"], chunk=chunk)
        results += r
        called |= c
        if stop:
            break
    return report(pid, tier, seed, results, called, time.time() - t0)


def _z3_version():
    try:
        import z3

        return z3.get_version_string()
    except Exception:
        return "?"


def matches(finding, pid, res):
    if finding.get("property") != pid:
        return False
    return finding.get("name") == res["name"]


def report(pid, tier, seed, results, called, wall):
    os.makedirs(os.path.join(boot.VERIF, "evidence"), exist_ok=True)
    known = runner.known_findings()
    violated = [r for r in results if r["status"] == "violated"]
    hits, fresh = [], []
    for r in violated:
        f = next((f for f in known.get("findings", []) if matches(f, pid, r)), None)
        (hits if f else fresh).append((r, f))
    fresh.sort(key=lambda rf: bool(rf[0].get("no_input")))
    count = lambda s: sum(r["status"] == s for r in results)  # noqa: E731
    obligations = sum(r["obligations"] for r in results)
    discharged = sum(r["discharged"] for r in results)
    evals = sum(r["evaluations"] for r in results)
    und = [r for r in results if r["status"] in ("undecided", "skipped")]
    ground = sum(r.get("ground", 0) for r in results)
    if not obligations and not violated:
        print(f"ERROR: no obligations were generated for {pid}")
        return 3
    cases = {f"{m}:{c.name}": c for m, c in contracts.for_property(pid)}
    per_case, per_fun = {}, {}
    for r in results:
        if r["kind"] != "contract":
            continue
        c = cases.get(r["name"])
        per_case[r["name"]] = {"status": r["status"], "solver_obligations": r["obligations"], "ground_obligations": r.get("ground", 0)}
        if c is not None and (c.bounded or c.domain):
            per_case[r["name"]]["domain"] = c.bounded or c.domain
        for f in (c.functions if c is not None else ()):
            e = per_fun.setdefault(f, {"contract_cases": 0, "proved": 0})
            e["contract_cases"] += 1
            e["proved"] += r["status"] == "proved"
    skeletons = [r for r in results if r["kind"] == "sym" or r["kind"] == "gen" and r["job"][4]]
    cov = {
        "obligations": obligations,
        "discharged": discharged,
        "checker_cmd": f"PYTHONHASHSEED=0 /opt/venv/bin/python /verif/check.py {pid} --tier {tier}",
        "trusted_base": TRUSTED,
        "back_end": "z3 " + _z3_version(),
        "discharged_by_rewriting": sum(r.get("simplified", 0) for r in results),
        "solver_queries": sum(r.get("queries", 0) for r in results),
        "solver_s": round(sum(r.get("solver_s", 0.0) for r in results), 2),
        "paths": sum(r.get("paths", 0) or 0 for r in results),
        "paths_shown_reachable": sum(r.get("reachable", 0) for r in results),
        "functions_under_contract": per_fun,
        "contract_cases": per_case,
        "functions_executed": sorted({f"{a}:{b}" for a, b in called}),
        "skeletons_stated": len({r["name"].split("@")[0] for r in skeletons}),
        "skeletons_proved": sum(r["status"] == "proved" for r in skeletons),
        "skeletons_proved_up_to_an_unrolling_bound": len({r["name"] for r in skeletons if r.get("bounded") and r["status"] == "proved"}),
        "bounded_not_proved": {
            "what": "obligations evaluated on enumerated or sampled instances; never counted in obligations/discharged",
            "ground_obligations": sum(r.get("ground", 0) for r in results),
            "ground_obligations_met": sum(r.get("ground_ok", 0) for r in results),
            "concrete_runs_against_the_specification": sum(r["evaluations"] for r in results if r["kind"] != "contract"),
        },
        "library_models_checked_against_the_libraries": {
            "runs": sum(r["kind"] == "model" for r in results),
            "agree": sum(r.get("model") == "same" for r in results),
            "disagree": [f"{r['name']}: {r['detail'][:200]}" for r in results if r.get("model") not in (None, "same", "unsupported", "real")],
        },
        "undecided": count("undecided"),
        "skipped_for_time": count("skipped"),
        "undecided_names": [f"{r['name']}: {r.get('detail', '')[:160]}" for r in und][:40],
        "samples": [r["name"] for r in skeletons if r["status"] == "proved"][:8],
    }
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "proof",
        "coverage": cov,
        "assumptions": TRUSTED[2:] + sorted({c.note for m, c in contracts.for_property(pid) if c.note}),
        "wall_s": round(wall, 2),
        "violations": len(fresh),
    }
    with open(os.path.join(boot.VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid} [{tier}] obligations {discharged}/{obligations} discharged (and {ground} ground ones), {cov['skeletons_proved']} skeletons, "
          f"{len(per_case)} contract cases, {evals} concrete runs, undecided {len(und)}, {wall:.0f} s")
    for r in und[:8]:
        print("  undecided:", r["name"], r.get("detail", "")[-300:].replace("\n", " | "))
    for r, f in hits:
        print(f"KNOWN-FINDING: property={pid} {f.get('what', r['name'])}")
    if not fresh:
        return 0
    r, _ = fresh[0]
    path = os.path.join(boot.VERIF, "evidence", f"{pid}.replay.json")
    rep = dict(r.get("replay") or {})
    rep["property"] = pid
    rep["obligation_name"] = r["name"]
    rep["detail"] = r.get("detail", "")
    with open(path, "w") as f:
        json.dump(rep, f, indent=1, default=str)
    print("  failed:", r["name"], str(r.get("detail", ""))[:400])
    line = f"VIOLATION property={pid} replay={path}"
    if r.get("no_input"):
        line += " no-failing-input-found"
    print(line)
    return 1
