"""Development tool: tries candidate planted bugs in scratch copies, keeps those that pass the tests and fail their demo.

usage: seedtool.py CANDIDATES.py [name...]   (CANDIDATES.py defines SEEDS, a list of dicts:
  id, property, file, edits [(old, new)...], needs, breaks, demo (python source))
Not used by any check."""
import concurrent.futures
import json
import os
import re
import runpy
import shutil
import subprocess
import sys

PY = "/opt/venv/bin/python"
BASE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
SCRATCH = "/tmp/seedscratch"


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def run_tests(copy):
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", JAX_PLATFORMS="cpu", OMP_NUM_THREADS="2")
    r = sh([PY, "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "--timeout=300", "-x"], cwd=copy, env=env)
    tail = r.stdout.strip().splitlines()[-3:]
    return r.returncode == 0, tail


def try_seed(s):
    name = s["id"]
    copy = f"{SCRATCH}/{name}"
    shutil.rmtree(copy, ignore_errors=True)
    sh(["cp", "-a", "/repo", copy])
    files = s["file"]
    edits = s["edits"] if isinstance(s["edits"][0], (tuple, list)) else [s["edits"]]
    for e in edits:
        f, old, new = (files, *e) if len(e) == 2 else e
        path = f"{copy}/{f}"
        text = open(path).read()
        if text.count(old) != 1:
            return name, False, f"edit matches {text.count(old)} times: {old[:50]!r}"
        open(path, "w").write(text.replace(old, new))
    diff = sh(["git", "diff"], cwd=copy).stdout
    d = f"{SCRATCH}/{name}.demo"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(f"{d}/demo.py", "w").write(s["demo"])
    open(f"{d}/demo.sh", "w").write(
        '#!/bin/bash\nexport PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu PYTHONPATH="$PWD"\n'
        'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    ok0 = sh(["bash", f"{d}/demo.sh"], cwd="/repo")
    ok1 = sh(["bash", f"{d}/demo.sh"], cwd=copy)
    if ok0.returncode != 0:
        res = (name, False, "demo fails on clean: " + ok0.stderr[-600:])
    elif ok1.returncode == 0:
        res = (name, False, "demo passes with patch")
    else:
        passed, tail = run_tests(copy)
        if not passed:
            res = (name, False, "tests: " + " | ".join(tail))
        else:
            out = f"/verif/seeded/{name}"
            os.makedirs(out, exist_ok=True)
            open(f"{out}/patch.diff", "w").write(diff)
            shutil.copy(f"{d}/demo.py", out)
            shutil.copy(f"{d}/demo.sh", out)
            os.chmod(f"{out}/demo.sh", 0o755)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                      open(f"{out}/meta.json", "w"), indent=1)
            res = (name, True, "kept; demo says: " + (ok1.stderr.strip().splitlines() or ["?"])[-1][:150])
    shutil.rmtree(copy, ignore_errors=True)
    shutil.rmtree(d, ignore_errors=True)
    return res


def main():
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    names = set(sys.argv[2:])
    seeds = [s for s in seeds if not names or s["id"] in names]
    os.makedirs(SCRATCH, exist_ok=True)
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for name, ok, msg in ex.map(try_seed, seeds):
            print("KEPT " if ok else "drop ", name, "--", msg, flush=True)


main()
