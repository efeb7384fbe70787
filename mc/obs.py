"""Observers: turn a real lattice into model values using the public interface only."""
import numpy as np

from .ref import key


def idx_list(latt):
    return [tuple(int(x) for x in row) for row in np.asarray(latt.indices)]


def check_sites(ctx, latt, crystal, want, what="sites"):
    """The built sites are exactly ``want``, each once, with correct positions."""
    ids = idx_list(latt)
    ctx.check(latt.num_sites == len(ids), what + ":num_sites", lambda: f"{latt.num_sites} vs {len(ids)}")
    ctx.check(len(set(ids)) == len(ids), what + ":duplicate-site", lambda: dups(ids))
    got = set(ids)
    ctx.check(got == want, what + ":wrong-set", lambda:
              f"missing {sorted(want - got)[:6]} ({len(want - got)}) extra {sorted(got - want)[:6]} "
              f"({len(got - want)}) of {len(want)}")
    pos = np.asarray(latt.positions, dtype=float)
    ctx.check(pos.shape == (len(ids), crystal.dim), what + ":positions-shape", lambda: pos.shape)
    if ids:
        err = np.abs(pos - crystal.poss(ids)).max()
        ctx.check(err < 1e-6, what + ":wrong-position", lambda: f"max error {err}")
    return ids


def dups(ids):
    seen, d = set(), []
    for i in ids:
        if i in seen:
            d.append(i)
        seen.add(i)
    return d[:6]


def distval(latt, k):
    return key(latt.data.distvals[k])


def graph(ctx, latt, ids=None, what="graph"):
    """Directed neighbor relation with multiplicity check, from Lattice.neighbors and
    Lattice.iter_neighbors: {(idx_i, idx_j): distance}."""
    ids = ids if ids is not None else idx_list(latt)
    n = len(ids)
    g = {}
    for i in range(n):
        per_level = {}
        for k, nbs in latt.iter_neighbors(i):
            for j in nbs:
                j = int(j)
                ctx.check(0 <= j < n, what + ":neighbor-out-of-range", lambda: f"site {i} -> {j} of {n}")
                ctx.check(j not in per_level, what + ":duplicate-neighbor",
                          lambda: f"site {ids[i]} lists {ids[j]} twice")
                per_level[j] = int(k)
        nb = [int(j) for j in latt.neighbors(i)]
        ctx.check(sorted(nb) == sorted(per_level), what + ":neighbors-vs-iter",
                  lambda: f"site {i}: neighbors {sorted(nb)} iter {sorted(per_level)}")
        for j, k in per_level.items():
            g[(ids[i], ids[j])] = distval(latt, k)
    return g


def cmp_graph(ctx, got, want, what="graph"):
    if got == want:
        return
    miss = [e for e in want if e not in got]
    extra = [e for e in got if e not in want]
    bad = [(e, got[e], want[e]) for e in want if e in got and got[e] != want[e]]
    if miss:
        ctx.fail(what + ":missing-neighbor", f"{len(miss)} missing, e.g. {sorted(miss)[:4]}")
    if extra:
        ctx.fail(what + ":extra-neighbor", f"{len(extra)} extra, e.g. {sorted(extra)[:4]}")
    ctx.fail(what + ":wrong-distance", f"{len(bad)} wrong (edge, got, want), e.g. {sorted(bad)[:4]}")
