"""Bounded exhaustive explorer: enumerate -> execute on the real code -> compare with the model.

A property module supplies

    ID, BOUNDS (text), ASSUMPTIONS (list)
    cases(tier)      -> list of JSON-able case dicts (the complete, finite alphabet of the tier)
    run(case, ctx)   -> explores every operation sequence of the case on fresh real objects

The complete list of cases is always executed; nothing is sampled and nothing is cut off.
Cases are distributed statically over worker processes (case i -> worker i % W), so a run is a
deterministic function of the tree and the tier.
"""
import hashlib
import importlib
import json
import concurrent.futures
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NCPU = 1
REPO = os.environ.get("LATTPY_REPO", "/repo")
KNOWN = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
MAX_VIOL_PER_WORKER = 40


def prepare_env():
    """Import lattpy from the working tree, never from stale bytecode."""
    for var in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ.setdefault(var, "1")
    os.environ["MPLBACKEND"] = "Agg"
    sys.dont_write_bytecode = True
    # workers=-1 of scipy's trees: one thread per process (the processes already use all cores)
    global NCPU
    NCPU = os.cpu_count() or 1
    os.cpu_count = lambda: 1
    pyc = tempfile.mkdtemp(prefix="mc_pyc_")
    sys.pycache_prefix = pyc
    os.environ.setdefault("MPLCONFIGDIR", pyc)
    sys.path.insert(0, REPO)
    import warnings

    warnings.simplefilter("ignore")
    return pyc


def lattpy():
    import lattpy as lp

    assert os.path.realpath(lp.__file__).startswith(os.path.realpath(REPO) + "/"), lp.__file__
    return lp


class Timeout(Exception):
    pass


class Stop(Exception):
    """Abort the current case after a violation was recorded."""


class Ctx:
    """Counters and verdicts of one worker."""

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.violations = []
        self.samples = []
        self.skipped = 0
        self.case = None
        self.trace = []
        self.stages = {}

    # -- exploration bookkeeping --------------------------------------------------
    def begin(self, *label):
        """Start one execution (trace) on a fresh real object."""
        self.trace = list(label)
        self.traces += 1

    def op(self, label):
        """One transition executed on the implementation."""
        self.transitions += 1
        self.trace.append(label)

    def state(self, canon):
        self.states.add(hashlib.blake2b(repr(canon).encode(), digest_size=8).digest())

    def outcome(self, obj):
        self.outcomes.add(hashlib.blake2b(repr(obj).encode(), digest_size=8).digest())

    # -- verdicts -----------------------------------------------------------------
    def fail(self, kind, detail="", stop=True):
        v = dict(
            case=self.case,
            key=case_key(self.case),
            kind=str(kind),
            detail=str(detail)[:1500],
            trace=[str(t) for t in self.trace][-60:],
        )
        self.violations.append(v)
        if stop:
            raise Stop()

    def check(self, cond, kind, detail="", stop=True):
        if not cond:
            self.fail(kind, detail() if callable(detail) else detail, stop)

    def eq(self, got, want, kind, stop=True):
        if not got == want:
            self.fail(kind, f"got {got!r} want {want!r}", stop)

    def raises(self, types, fn, kind):
        """fn() must raise one of ``types``; returns the exception."""
        try:
            r = fn()
        except types as e:
            return e
        except Stop:
            raise
        except Timeout:
            raise
        except Exception as e:  # noqa
            self.fail(kind, f"raised {type(e).__name__}: {safe_str(e)} instead of {types}")
        self.fail(kind, f"returned {safe_str(r)} instead of raising {types}")


def safe_str(x):
    try:
        return str(x)[:300]
    except Exception as e:  # noqa
        return f"<unprintable {type(x).__name__}: {type(e).__name__}>"


def case_key(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"), default=str)


def _alarm(signum, frame):
    raise Timeout()


def run_case(mod, case, ctx, limit):
    ctx.case = case
    ctx.trace = []
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, limit)  # processor time: independent of the load of the machine
    try:
        mod.run(case, ctx)
    except Stop:
        pass
    except Timeout:
        _record(ctx, "no-termination", f"case did not finish within {limit}s of processor time")
    except Exception as e:  # noqa
        tb = traceback.format_exc()
        _record(ctx, f"exception:{type(e).__name__}", f"{safe_str(e)}\n{tb[-1200:]}")
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def _record(ctx, kind, detail):
    try:
        ctx.fail(kind, detail)
    except Stop:
        pass


def _worker(args):
    modname, cases, wi, nw, limit = args
    mod = importlib.import_module(modname)
    ctx = Ctx()
    t0 = time.time()
    for case in cases[wi::nw]:
        run_case(mod, case, ctx, limit)
        if len(ctx.violations) >= MAX_VIOL_PER_WORKER:
            break
        if ctx.violations and ctx.violations[-1]["kind"] == "no-termination":
            break
        if len(ctx.samples) < 1 and ctx.traces:
            ctx.samples.append(dict(case=case, last_trace=[str(t) for t in ctx.trace][-12:]))
    return dict(
        states=ctx.states,
        transitions=ctx.transitions,
        traces=ctx.traces,
        outcomes=ctx.outcomes,
        violations=ctx.violations,
        samples=ctx.samples,
        skipped=ctx.skipped,
        wall=time.time() - t0,
    )


def load_known(pid):
    """Lines ``finding: property=<id> kind=<kind> case=<json>`` (exact match)."""
    out = []
    if not os.path.exists(KNOWN):
        return out
    for line in open(KNOWN):
        line = line.rstrip("\n")
        if line.startswith("finding: property=%s " % pid):
            rest = line.split(" ", 2)[2]
            kind, case = rest.split(" case=", 1)
            case, _, what = case.partition(" :: ")
            out.append(dict(kind=kind[len("kind=") :], key=case, what=what))
    return out


def main(pid, tier, replay=None):
    pyc = prepare_env()
    try:
        return _main(pid, tier, replay)
    finally:
        shutil.rmtree(pyc, ignore_errors=True)


def _main(pid, tier, replay):
    t0 = time.time()
    try:
        lattpy()
    except Exception as e:  # noqa  the tree does not even import
        ctx = Ctx()
        ctx.case = {"import": "lattpy"}
        _record(ctx, f"import:{type(e).__name__}", traceback.format_exc())
        return report(pid, tier, None, [], ctx.violations, dict(), t0)
    modname = f"mc.{pid.lower()}"
    mod = importlib.import_module(modname)
    limit = 200 if tier == "quick" else 1800
    if replay:
        rec = json.load(open(replay))
        ctx = Ctx()
        for case in rec["cases"]:
            run_case(mod, case, ctx, limit)
        for v in ctx.violations:
            print("REPLAYED", v["kind"], v["detail"])
            print("  trace:", " ; ".join(v["trace"]))
        print("replay: %d violation(s)" % len(ctx.violations))
        return 1 if ctx.violations else 0
    cases = list(mod.cases(tier))
    nw = max(1, min(8, NCPU, len(cases)))
    jobs = [(modname, cases, i, nw, limit) for i in range(nw)]
    if nw == 1:
        res = [_worker(jobs[0])]
    else:
        try:
            with concurrent.futures.ProcessPoolExecutor(nw, mp_context=mp.get_context("fork")) as pool:
                res = list(pool.map(_worker, jobs, chunksize=1))
        except concurrent.futures.process.BrokenProcessPool as e:  # the code under test killed the interpreter
            ctx = Ctx()
            ctx.case = {"worker": "died"}
            _record(ctx, "crash", f"a worker process died: {e}")
            return report(pid, tier, mod, cases, ctx.violations, dict(), t0)
    states, outcomes, viol, samples = set(), set(), [], []
    tot = dict(transitions=0, traces=0, skipped=0)
    for wi, r in enumerate(res):
        states |= r["states"]
        outcomes |= r["outcomes"]
        for v in r["violations"]:
            v["worker"] = wi
            v["nw"] = nw
        viol += r["violations"]
        samples += r["samples"]
        for k in tot:
            tot[k] += r[k]
    cov = dict(
        states=len(states),
        transitions=tot["transitions"],
        traces_validated_against_impl=tot["traces"],
        cases=len(cases),
        distinct_outcomes=len(outcomes),
        skipped_cases=tot["skipped"],
        exhaustive=True,
        bounds=mod.BOUNDS[tier] if isinstance(mod.BOUNDS, dict) else mod.BOUNDS,
        samples=samples[:4],
        validation="every trace is an execution of the real code in /repo; the model's "
        "prediction is compared with the implementation after every transition",
    )
    return report(pid, tier, mod, cases, viol, cov, t0)


def report(pid, tier, mod, cases, viol, cov, t0):
    known = load_known(pid)
    new, seen_known = [], {}
    for v in viol:
        for k in known:
            if k["kind"] == v["kind"] and k["key"] == v["key"]:
                seen_known[(k["kind"], k["key"])] = k
                break
        else:
            new.append(v)
    for k in seen_known.values():
        print(f"KNOWN-FINDING: property={pid} {k['what'] or k['kind'] + ' ' + k['key']}")
    ev = dict(
        property=pid,
        tier=tier,
        seed=int(os.environ.get("VERIF_SEED", "0") or 0),
        level="model_checking",
        coverage=cov or dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[]),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
        wall_s=round(time.time() - t0, 3),
        violations=len(new),
    )
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(
        f"{pid} [{tier}] cases={cov.get('cases')} states={cov.get('states')} "
        f"transitions={cov.get('transitions')} traces={cov.get('traces_validated_against_impl')} "
        f"outcomes={cov.get('distinct_outcomes')} skipped={cov.get('skipped_cases')} "
        f"violations={len(new)} wall={ev['wall_s']}s"
    )
    if not new:
        return 0
    rdir = os.path.join(ROOT, "replays")
    os.makedirs(rdir, exist_ok=True)
    # one replay per distinct kind, the simplest (first enumerated) witness first
    order = {case_key(c): i for i, c in enumerate(cases)}
    new.sort(key=lambda v: order.get(v["key"], 0))
    kinds = {}
    for v in new:
        kinds.setdefault(v["kind"], v)
    for i, v in enumerate(list(kinds.values())[:8]):
        path = os.path.join(rdir, f"{pid}-{i}.json")
        rec = dict(v, property=pid, tier=tier, cases=[v["case"]])
        with open(path, "w") as f:
            json.dump(rec, f, indent=1, default=str)
        print(f"VIOLATION property={pid} replay={path}")
        print(f"  kind:   {v['kind']}")
        print(f"  case:   {v['key']}")
        print(f"  trace:  {' ; '.join(v['trace'])[-600:]}")
        print("  detail: " + v["detail"].replace("\n", "\n          "))
    return 1


def self_test():
    """Setup: the tree imports, the check modules load and their alphabets are non-empty."""
    pyc = prepare_env()
    try:
        lattpy()
        import glob

        for f in sorted(glob.glob(os.path.join(ROOT, "mc", "c[0-9][0-9].py"))):
            mod = importlib.import_module("mc." + os.path.basename(f)[:-3])
            print(mod.ID, len(list(mod.cases("quick"))), "quick cases")
    finally:
        shutil.rmtree(pyc, ignore_errors=True)
    return 0
