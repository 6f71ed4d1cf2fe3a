#!/usr/bin/env python3
"""replay.py <replay file>: re-runs a reported failure against /repo; exit 1 if it still fails."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import einv.boot  # noqa: E402,F401
from einv import runner  # noqa: E402


def main(path):
    r = json.load(open(path))
    if r["kind"] == "program":
        from einv.core import Program, concrete_check

        p = Program(r["program"], r["source"], r["arg_types"])
        d = concrete_check(p, runner.arrays_unjson(r["args"]), r["backend"], r["mode"])
        print("source :", r["source"])
        print("result :", d or "agrees with the specification")
        return 1 if d else 0
    if r["kind"] == "contract":
        out = runner.job_contract(r["module"], r["case"], 60, 1)
        print(json.dumps({k: v for k, v in out.items() if k != "replay"}, indent=1, default=str))
        return 1 if out["status"] == "violated" else 0
    print(json.dumps(r, indent=1))
    return 1


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
