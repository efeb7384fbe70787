"""C05  Configuration and build history do not matter."""
import itertools

from . import life
from .core import lattpy

ID = "C05"
BOUNDS = {
    "quick": "four unit cells (1D with up to three atoms, 2D, hexagonal, 3D with up to two) x every sequence of at most 3 "
    "(1D: 4) of 19 life cycle operations (add atom, connect all/one pair with or without analysis, analyse, build two "
    "sizes with/without periodic axes, set/reset periodic axes, query everything, copy and spoil original or copy, work on "
    "another lattice with the same ingredients), from the empty lattice, and of at most 2 (three states: 3) from six further states",
    "thorough": "as quick with one (3D) to three (1D) more operations in every sequence",
}
ASSUMPTIONS = [
    "adding an atom resets the connections and the analysis (documented by the errors raised afterwards); connections take "
    "effect at the next analysis, built sites at the next build",
    "periodic axes are set while the analysed configuration is the one the lattice was built with",
]
PREFIXES = [
    (),
    (("atom", 1),),
    (("atom", 0), ("atom", 1), ("build", 1, (0,))),
    (("atom", 1), ("build", 1, ()), ("query",)),
    (("atom", 0), ("atom", 2), ("query",), ("build", 0, ())),
    (("atom", 0), ("atom", 0), ("conn", 0, 1, 2, True), ("build", 1, (0,)), ("query",)),
    (("atom", 0), ("atom", 0), ("conn", 0, 0, 1, False), ("conn", 0, 1, 2, True), ("build", 1, ()), ("fork",)),
]


def cases(tier):
    out = []
    for pool in life.POOLS:
        al = life.alphabet(pool)
        for p in range(len(PREFIXES)):
            depth = 3 if (pool == "1d" and p in (2, 5)) or (pool == "hex" and p == 5) else 2
            if tier == "thorough":
                depth += 1 if pool == "3d" else 2 if pool != "1d" else 3 - (depth == 3)
            elif p == 0:
                depth = 4 if pool == "1d" else 3
            for f in [None] + list(range(len(al))):
                if f is None or depth > 0:
                    out.append(dict(pool=pool, prefix=p, first=f, depth=depth))
    return out


def run(case, ctx):
    lp = lattpy()
    pool = case["pool"]
    al = life.alphabet(pool)
    prefix = PREFIXES[case["prefix"]]

    def explore(L, seq):
        """All extensions of seq; every sequence is executed on a fresh object and checked at its end."""
        execute_and_check(ctx, lp, pool, prefix + tuple(seq))
        if len(seq) >= case["depth"]:
            return
        for op in al:
            N = life.enabled(L, op)
            if N is not None:
                explore(N, seq + [op])

    L = life.Life(pool)
    for op in prefix:
        L = life.enabled(L, op)
        if L is None:
            return
    if case["first"] is None:
        execute_and_check(ctx, lp, pool, prefix)
        return
    op = al[case["first"]]
    N = life.enabled(L, op)
    if N is not None:
        explore(N, [op])


def execute_and_check(ctx, lp, pool, seq):
    ctx.begin("new", pool)
    latt = life.new(lp, pool)
    L = life.Life(pool)
    for op in seq:
        N = life.enabled(L, op)
        ctx.op(op)
        latt = life.execute(lp, latt, L, N, op)
        L = N
    life.check(ctx, lp, latt, L, "history")
    ctx.state(L.canon())
    ctx.outcome(L.canon())
