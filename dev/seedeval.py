"""Development tool: runs a property's check against each planted bug, in scratch copies (EINV_REPO)."""
import json, os, shutil, subprocess, sys, time
PY = "/opt/venv/bin/python"
names = sys.argv[1:] or sorted(os.listdir("/verif/seeded"))
for name in names:
    d = f"/verif/seeded/{name}"
    meta = json.load(open(f"{d}/meta.json"))
    copy = f"/tmp/seedeval/{name}"
    shutil.rmtree(copy, ignore_errors=True)
    os.makedirs("/tmp/seedeval", exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", copy], check=True)
    subprocess.run(["git", "apply", f"{d}/patch.diff"], cwd=copy, check=True)
    t = time.time()
    r = subprocess.run([PY, "/verif/check.py", meta["property"], "--tier", "quick"], capture_output=True, text=True,
                       env=dict(os.environ, EINV_REPO=copy, PYTHONHASHSEED="0", VERIF_SEED="1", EINV_EVIDENCE="/tmp/seedeval/ev"))
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    det = [l for l in r.stdout.splitlines() if not l.startswith("VIOLATION")][-2:]
    print(f"{name:32} {meta['property']} exit={r.returncode} {time.time()-t:.0f}s", v[:1], det, r.stderr[-300:] if r.returncode not in (0, 1) else "", flush=True)
    shutil.rmtree(copy, ignore_errors=True)
