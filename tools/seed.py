#!/usr/bin/env python3
"""Development tool.  seed.py new ID PROP  < spec   |  seed.py check ID [Cnn ...]

check: apply seeded/ID/patch.diff to /repo, run tests, demo and the checks, undo."""
import json
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd="/repo", timeout=1500):
    r = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)
    return r.returncode, r.stdout + r.stderr


def tests():
    sh("bash /opt/vp/test.sh /tmp/seed_out.json")
    d = json.load(open("/tmp/seed_out.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    names = base.get("passed") or base.get("stable") or base
    miss = [n for n in names if n not in d["passed"]]
    return miss


def check(bid, props=None, skip_tests=False):
    d = os.path.join(ROOT, "seeded", bid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    props = props or [meta["property"]]
    assert not sh("git status --porcelain --untracked-files=no")[1].strip(), "dirty /repo"
    rc0, o0 = sh(f"bash {d}/demo.sh", timeout=300)
    rc, o = sh(f"git apply {d}/patch.diff")
    assert rc == 0, o
    try:
        miss = [] if skip_tests else tests()
        rc1, o1 = sh(f"bash {d}/demo.sh", timeout=300)
        res = []
        for p in props:
            rc, o = sh(f"/opt/venv/bin/python run.py {p}", cwd=ROOT, timeout=1500)
            kinds = [l.strip() for l in o.splitlines() if l.startswith("  kind:")]
            res.append((p, rc, kinds[:4]))
    finally:
        sh("git checkout -- .")
    ok = rc0 == 0 and rc1 != 0 and not miss
    print(f"{bid}: {'OK' if ok else 'BAD'} demo clean={rc0} patched={rc1} tests-broken={miss[:3]} | ", res, flush=True)
    if rc0:
        print(o0[-800:])
    if not ok and rc1 == 0:
        print("demo passes with patch:", o1[-500:])
    return ok, res


if __name__ == "__main__":
    if sys.argv[1] == "check":
        check(sys.argv[2], sys.argv[3:] or None)
    elif sys.argv[1] == "all":
        for b in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
            check(b, skip_tests="--fast" in sys.argv)
