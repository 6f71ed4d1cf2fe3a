"""All obligations of all properties, deduplicated; stops at the first violation (development tool)."""
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import einv.boot  # noqa
from einv import contracts, gen, programs, properties, runner  # noqa

import ein, jax, torch  # noqa
try:
    import ein.backend  # noqa
except Exception as e:
    print(e)
t0 = time.time()
seen, first, second = set(), [], []
for pid in properties.PROPS:
    a, bulk, b = properties.jobs_for(pid, "quick", 1)
    for j in a + bulk:
        if j not in seen:
            seen.add(j)
            first.append(j)
    for j in b:
        if j not in seen:
            seen.add(j)
            second.append(j)
limit = 45
budget = float(os.environ.get("EINV_ALL_S", "400"))


def props_of(r):
    j = r["job"]
    if j[0] == "contract":
        return [c.props for m, c in contracts.all_cases() if m == j[1] and c.name == j[2]][0]
    if j[0] == "gen":
        return [p for p, ts in gen.PROP_THEMES.items() if j[1] in ts]
    return programs.all_programs()[j[1]].props


import random

random.Random(1).shuffle(first)
first.sort(key=lambda j: 0 if j[0] == "conc" else 1)
for phase in (first, second):
    keep = bool(os.environ.get("EINV_ALL_KEEP"))
    rs, _, stop = runner.run_phase(phase, workers=8, deadline=t0 + budget, limit=limit, chunk=3, keep_going=keep)
    if keep:
        from collections import Counter
        print(f"{time.time()-t0:.0f}s", Counter((r["kind"], r["status"]) for r in rs))
        for (k, d), n in Counter((r["kind"], str(r.get("detail"))[:90]) for r in rs if r["status"] == "undecided").most_common(12):
            print("   undecided", n, k, d.replace("\n", " "))
        for r in rs:
            if r["status"] == "violated":
                print("   VIOLATED", r["name"], "no-input" if r.get("no_input") else "", str(r.get("detail"))[:300].replace("\n", " "))
        continue
    v = [r for r in rs if r["status"] == "violated"]
    if v:
        v.sort(key=lambda r: bool(r.get("no_input")))
        print("ALL caught", f"{time.time()-t0:.0f}s", v[0]["name"], "no-input" if v[0].get("no_input") else "", ",".join(sorted(set().union(*(props_of(r) for r in v)))), str(v[0].get("detail"))[:100].replace("\n", " "))
        sys.stdout.flush()
        os._exit(0)
print("ALL missed", f"{time.time()-t0:.0f}s")
sys.stdout.flush()
os._exit(0)
