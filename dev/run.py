"""Run contract cases by pattern (development tool): run.py 'codegen:reading-*' [budget]"""
import fnmatch
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import einv.boot  # noqa
from einv import contracts  # noqa

budget = float(sys.argv[2]) if len(sys.argv) > 2 else 40
for m, c in list(contracts.all_cases()):
    if fnmatch.fnmatch(f"{m}:{c.name}", sys.argv[1]):
        t = time.time()
        r = contracts.run_case(m, c.name, budget, 1)
        print(f"{time.time()-t:6.1f}s", r["name"], r["status"], f"{r['discharged']}/{r['obligations']} ground {r['ground_ok']}/{r['ground']}", str(r.get("detail") or "")[:700], flush=True)
