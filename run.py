#!/usr/bin/env python3
"""run.py <PROPERTY> [--tier quick|thorough] | run.py --replay FILE | run.py --self-test"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from mc import core  # noqa: E402


def _run():
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    if "--tier" in args:
        i = args.index("--tier")
        tier = args[i + 1]
        del args[i : i + 2]
    if "--self-test" in args:
        return core.self_test()
    if "--replay" in args:
        replay = args[args.index("--replay") + 1]
        pid = json.load(open(replay))["property"]
    else:
        pid = args[0]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    rc = core.main(pid, tier, replay)
    sys.stdout.flush()
    return rc


if __name__ == "__main__":
    sys.exit(_run())
