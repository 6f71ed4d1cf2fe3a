"""Process set-up: /repo's working tree first, then the tools' site-packages last."""
import os
import sys

REPO = os.environ.get("EINV_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def boot():
    os.environ.setdefault("JAX_PLATFORMS", "cpu")
    os.environ.setdefault("CUDA_VISIBLE_DEVICES", "")
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    if TOOLS not in sys.path:
        sys.path.append(TOOLS)
    sys.setrecursionlimit(20000)
    import warnings

    warnings.filterwarnings("ignore")


boot()
