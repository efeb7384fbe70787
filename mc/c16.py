"""C16  Invalid requests fail cleanly without changing the lattice."""
import os

import numpy as np

from . import life
from .c05 import PREFIXES
from .core import lattpy

ID = "C16"
BOUNDS = {
    "quick": "all life cycle sequences of length <= 3 of 15 operations from the empty lattice and of "
    "length <= 2 (2D, 3D: 1) from six further states; every enabled one of 50 failing requests injected in every intermediate state, and each one "
    "separately with full comparison in the final state, followed by every enabled operation",
    "thorough": "as quick with one more operation per sequence",
}
ASSUMPTIONS = [
    "setting all connections to zero and analysing at once is not a request of this kind (the configuration is applied, the analysis fails)",
    "the message of an error is readable if it is a non-empty string that can be printed",
]


class Boom(Exception):
    pass


def boom(*a, **k):
    raise Boom("boom")


def faults(lp, L):
    """[(label, exception types, request)] that must fail in this state."""
    import lattpy.utils as U

    d = L.dim
    v, atoms, blocks = life.POOLS[L.pool]
    wrong = [0.3] * (d + 1)
    size = [2.0] * d if d > 1 else 2.0
    out = []

    def f(label, types, fn):
        out.append((label, types, fn))

    CE = U.ConfigurationError
    n = L.n
    f("add_atom dim", ValueError, lambda l: l.add_atom(wrong, "W", neighbors=1))
    if d > 1:
        f("add_atom dim-", ValueError, lambda l: l.add_atom([0.3] * (d - 1), "W"))
    f("get_atom unknown", ValueError, lambda l: l.get_atom("nope"))
    f("get_alpha unknown", ValueError, lambda l: l.get_alpha(lp.Atom("nope")))
    f("load missing", OSError, lambda l: type(l).load("/nonexistent-dir/x.latt"))
    f("dump", OSError, lambda l: l.dump("/nonexistent-dir/x.latt"))
    if not n:
        f("analyze no atoms", U.NoAtomsError, lambda l: l.analyze())
        f("connections no atoms", U.NoAtomsError, lambda l: l.add_connections(1))
        f("connection no atoms", U.NoAtomsError, lambda l: l.add_connection(0, 0, 1))
        f("build no atoms", CE, lambda l: l.build(size))
    else:
        for i in range(n):
            f("occupied %d" % i, U.SiteOccupiedError, lambda l, i=i: l.add_atom(atoms[i], "W", neighbors=2))
        f("occupied atom", U.SiteOccupiedError, lambda l: l.add_atom(np.array(atoms[0]), lp.Atom("W", color="r")))
        if not np.any(atoms[0]):
            f("occupied origin", U.SiteOccupiedError, lambda l: l.add_atom())
            f("occupied primitive", U.SiteOccupiedError, lambda l: l.add_atom([0.0] * d, primitive=True))
        f("connection range", IndexError, lambda l: l.add_connection(0, n, 2, analyze=True))
        f("connection range2", IndexError, lambda l: l.add_connection(n + 3, 0, 2))
        f("connection atom", ValueError, lambda l: l.add_connection(0, lp.Atom("nope"), 2, analyze=True))
        f("get_position range", IndexError, lambda l: l.get_position([0] * d, n))
        f("check_points dim", ValueError, lambda l: l.check_points(np.zeros((2, d)), [1.0] * (d + 1)))
        f("build_indices dim", ValueError, lambda l: l.build_indices([1.0] * (d + 1)))
        f("translation dim", ValueError, lambda l: l.build_translation_vectors([1.0] * (d + 1)))
    if n and not any(L.C):
        f("analyze no connections", U.NoConnectionsError, lambda l: l.analyze())
        f("build no connections", U.NoConnectionsError, lambda l: l.build(size, periodic=0))
    if n and any(L.C) and L.ana is None:
        f("build not analyzed", U.NotAnalyzedError, lambda l: l.build(size, periodic=True))
    if L.ana is None:
        f("get_neighbors", U.NotAnalyzedError, lambda l: l.get_neighbors())
        f("get_neighbor_positions", U.NotAnalyzedError, lambda l: l.get_neighbor_positions())
        f("get_neighbor_vectors", U.NotAnalyzedError, lambda l: l.get_neighbor_vectors())
        f("fourier_weights", U.NotAnalyzedError, lambda l: l.fourier_weights([0.0] * d))
    else:
        f("get_neighbors range", IndexError, lambda l: l.get_neighbors(alpha=n + 1))
        f("get_neighbors level", IndexError, lambda l: l.get_neighbors(distidx=99))
    if L.ana is not None and any(L.C):
        # a build that would otherwise work
        B = lambda l, *a, **k: l.build(*a, num_jobs=1, **k)  # noqa
        f("build dim", ValueError, lambda l: B(l, [2.0] * (d + 1)))
        f("build pos dim", ValueError, lambda l: B(l, size, pos=[0.0] * (d + 1)))
        f("build shape dim", ValueError, lambda l: B(l, lp.Shape([2.0] * (d + 1))))
        f("build circle dim", ValueError, lambda l: B(l, lp.Circle([0.0] * (d + 1), 2.0)))
        gap = np.array(v, float).T @ np.full(d, 0.77)
        f("build empty", ValueError, lambda l: B(l, lp.Circle(gap, 1e-2), periodic=True))
        f("build empty callback", ValueError, lambda l: B(l, size, callback=lambda i, p: np.zeros(len(i), dtype=bool)))
        f("build filter", ValueError, lambda l: B(l, size, min_neighbors=1000))
        f("build filter primitive", ValueError, lambda l: B(l, size, primitive=True, min_neighbors=500, periodic=True))
        f("build callback", Boom, lambda l: B(l, size, callback=boom))
        f("build custom shape", Boom, lambda l: B(l, bad_shape(lp, d, "limits")))
        f("build custom shape2", Boom, lambda l: B(l, bad_shape(lp, d, "contains")))
        for ax in (d, -d - 1, [0, d]):
            f(f"build periodic {ax}", IndexError, lambda l, ax=ax: B(l, size, periodic=ax))
            f(f"build primitive periodic {ax}", IndexError, lambda l, ax=ax: B(l, size, primitive=True, periodic=ax))
    if L.m is None:
        f("set_periodic not built", U.NotBuiltError, lambda l: l.set_periodic(0))
        f("set_periodic not built all", U.NotBuiltError, lambda l: l.set_periodic(True))
        f("reset periodic not built", U.NotBuiltError, lambda l: l.set_periodic(None))
    else:
        ns = len(L.m.ids)
        f("set_periodic range", IndexError, lambda l: l.set_periodic(d))
        f("set_periodic range2", IndexError, lambda l: l.set_periodic([0, d]))
        f("set_periodic range3", IndexError, lambda l: l.set_periodic(-d - 1))
        if L.ana is None:
            f("set_periodic not analyzed", U.NotAnalyzedError, lambda l: l.set_periodic(0))
            f("set_periodic not analyzed2", U.NotAnalyzedError, lambda l: l.set_periodic(True))
            f("append not analyzed", U.NotAnalyzedError, lambda l: l.append(l.copy()))
            f("repeat not analyzed", U.NotAnalyzedError, lambda l: l.repeat())
        f("remove range", IndexError, lambda l: l.data.remove(ns))
        f("remove range2", IndexError, lambda l: l.data.remove([0, ns + 2]))
        f("remove range3", IndexError, lambda l: l.data.remove(-ns - 1))
        f("sort range", IndexError, lambda l: l.data.sort(d + 3))
        for q in ("neighbors", "nearest_neighbors", "position", "alpha", "atom", "minimum_distances"):
            if q != "minimum_distances" or L.ana is not None:
                f(q + " range", IndexError, lambda l, q=q: getattr(l, q)(ns + 1))
        if L.ana is not None and L.ana == L.built:
            f("append axis", IndexError, lambda l: l.append(l.copy(), ax=d))
            f("repeat axis", IndexError, lambda l: l.repeat(2, ax=d + 1))
            f("append sort axis", IndexError, lambda l: l.append(l.copy(), sort_ax=d + 3))
            f("append dim", (ValueError, IndexError), lambda l: l.append(other_dim(lp, d)))
    return out


def other_dim(lp, d):
    o = lp.Lattice(np.eye(d + 1))
    o.add_atom(neighbors=1)
    o.build([2.0] * (d + 1), num_jobs=1)
    return o


def bad_shape(lp, d, where):
    from lattpy.shape import AbstractShape

    class S(AbstractShape):
        def limits(self):
            if where == "limits":
                boom()
            return np.array([[0.0, 2.0]] * self.dim)

        def contains(self, points, tol=0.0):
            boom()

        def plot(self, *a, **k):
            pass

    return S(d, np.zeros(d))


def snap(lp, latt, L):
    """The answers of the lattice, cheap enough to take around every request."""
    dct = latt.todict()
    con = dct["connections"]
    out = [latt.vectors.tolist(), [(id(a), dict(a)) for a in latt.atoms], [list(map(float, p)) for p in latt.atom_positions],
           None if con is None else np.array(con).tolist(), latt.num_base]
    if L.ana is not None:
        out.append([sorted((float(k), sorted(map(tuple, np.array(r).tolist()))) for k, r in b.items()) for b in latt.base_neighbors])
        out.append([latt.distances.tolist(), latt.num_neighbors.tolist()])
    out += [latt.num_sites, [int(x) for x in latt.periodic_axes]]
    if L.m is not None:
        dat = latt.data
        out += [dat.indices.tolist(), dat.positions.tolist(), latt.shape.tolist(), latt.pos.tolist(), latt.primitive]
        nb = []
        for i in range(latt.num_sites):
            m = dat.neighbor_mask(i)
            p = dat.neighbor_mask(i, periodic=True)
            nb.append(sorted(zip(dat.neighbors[i][m].tolist(), np.asarray(dat.distvals)[dat.distances[i][m]].tolist(), p[m].tolist(),
                                 dat.pnvecs[i][m].tolist())))
        out.append(nb)
    else:
        out.append(latt.shape)
    return out


def cases(tier):
    out = []
    extra = tier == "thorough"
    for pool in life.POOLS:
        al = alphabet(pool)
        for p in range(len(PREFIXES)):
            depth = 3 if p == 0 else 2 if pool == "1d" else 1
            for fi in [None] + list(range(len(al))):
                out.append(dict(pool=pool, prefix=p, first=fi, depth=depth + extra))
    return out


def alphabet(pool):
    return [op for op in life.alphabet(pool) if op[0] not in ("query", "fork", "spawn", "other")]


def inject(ctx, lp, latt, L, i=None, checked=True):
    fs = faults(lp, L)
    before = snap(lp, latt, L) if checked else None
    h = hash(latt) if checked else None
    for label, types, fn in fs if i is None else [fs[i]]:
        ctx.op("!" + label)
        e = ctx.raises(types, lambda: fn(latt), "error:" + label)
        s = str(e)
        ctx.check(isinstance(s, str) and len(s.strip()) > 3 and len(repr(e)) > 3, "message:" + label, lambda: repr(e))
        if checked:
            after = snap(lp, latt, L)
            ctx.check(after == before, "changed:" + label, lambda: diff(before, after))
            ctx.eq(hash(latt), h, "hash:" + label)
        ctx.outcome((label, type(e).__name__))


def diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return f"item {i}: {str(x)[:300]} -> {str(y)[:300]}"
    return "length"


def one(ctx, lp, pool, seq, al):
    def play(fault_every):
        ctx.begin("new", pool)
        latt, L = life.new(lp, pool), life.Life(pool)
        for op in seq:
            if fault_every:
                inject(ctx, lp, latt, L, checked=False)
            N = life.enabled(L, op)
            ctx.op(op)
            latt = life.execute(lp, latt, L, N, op)
            L = N
        return latt, L

    latt, L = play(True)
    inject(ctx, lp, latt, L)
    life.check(ctx, lp, latt, L, "after-faults")
    ctx.state(L.canon())
    # still fully usable: every further operation
    base = list(ctx.trace)
    for op in al:
        N = life.enabled(L, op)
        if N is None:
            continue
        c = latt.copy()
        ctx.trace = base + [op]
        ctx.op(op)
        c = life.execute(lp, c, L, N, op)
        life.check(ctx, lp, c, N, "usable", full=False)


def run(case, ctx):
    lp = lattpy()
    assert not os.path.exists("/nonexistent-dir")
    pool, al = case["pool"], alphabet(case["pool"])
    prefix = PREFIXES[case["prefix"]]

    def visit(L, seq):
        one(ctx, lp, pool, prefix + tuple(seq), al)
        if len(seq) < case["depth"]:
            for op in al:
                N = life.enabled(L, op)
                if N is not None:
                    visit(N, seq + [op])

    L = life.Life(pool)
    for op in prefix:
        L = life.enabled(L, op)
        if L is None:
            return
    if case["first"] is None:
        one(ctx, lp, pool, prefix, al)
        return
    N = life.enabled(L, al[case["first"]])
    if N is not None:
        visit(N, [al[case["first"]]])
