"""Vectorised comparison of large lattices (site numbers across 2**15 and 2**16) with the crystal.

Same oracle as model.py -- every configured neighbor relation between the sites, modulo the periodic
translations -- but evaluated with array operations, for sizes where site numbers need another width."""
import itertools

import numpy as np

from . import cfgs, ref

# (crystal, cells) with 32766..33000 and 65534..66000 sites
LATTS = [("chain", [32767]), ("chain", [32769]), ("chain-n3", [33000]), ("ssh-n2", [16400]), ("square", [181, 182]),
         ("honeycomb", [128, 129]), ("chain", [65535]), ("chain", [65537]), ("tri-chain", [22000]),
         # 379 different neighbor distances
         ("golomb", [11]),
         # three dimensions, two periodic axes, 1100 sites
         ("sc", [11, 10, 10])]


def relation(cr, ids, tv=()):
    """Sorted array of rows (i, j), and the distances."""
    ids = np.asarray(ids, np.int64)
    d = cr.dim
    lo, hi = ids[:, :d].min(0), ids[:, :d].max(0)
    ext = hi - lo + 1
    grid = np.full(tuple(ext) + (cr.n,), -1, np.int64)
    grid[tuple((ids[:, :d] - lo).T) + (ids[:, d],)] = np.arange(len(ids))
    shifts = [np.zeros(d, np.int64)] if not len(tv) else [
        np.array(c) @ np.array(tv, np.int64).reshape(-1, d) for c in itertools.product((-1, 0, 1), repeat=len(tv))]
    I, J, D = [], [], []
    for a in range(cr.n):
        src = np.where(ids[:, d] == a)[0]
        for dist, nb in cr.nbrs(a):
            for sh in shifts:
                t = ids[src, :d] + np.array(nb[:-1]) - sh - lo
                ok = ((t >= 0) & (t < ext)).all(1)
                j = grid[tuple(t[ok].T) + (nb[-1],)]
                I.append(src[ok][j >= 0])
                J.append(j[j >= 0])
                D.append(np.full((j >= 0).sum(), ref.key(dist)))
    return order(np.concatenate(I), np.concatenate(J), np.concatenate(D))


def order(i, j, d):
    i, j, d = np.asarray(i, np.int64), np.asarray(j, np.int64), np.asarray(d, float)
    o = np.lexsort((d, j, i))
    return i[o], j[o], d[o]


def same(a, b):
    return len(a[0]) == len(b[0]) and np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1]) and np.abs(a[2] - b[2]).max(initial=0) < 1e-3


def check(ctx, latt, cr, ids, tv, what):
    """Sites, stored neighbors and all bulk views; per-site queries at every width boundary."""
    n = len(ids)
    got = np.asarray(latt.indices).astype(np.int64)
    ctx.check(latt.num_sites == n and np.array_equal(got, ids), what + ":sites", lambda: f"{got.shape} want {np.shape(ids)}")
    pos = cr.poss(ids)
    ctx.check(np.abs(np.asarray(latt.positions, float) - pos).max() < 1e-6 * np.abs(pos).max(), what + ":positions")
    want = relation(cr, ids, tv)
    dv = np.round(np.asarray(latt.data.distvals, float), 4)
    uniq = tuple(x[want[0] < want[1]] for x in want)
    for u, w in ((False, want), (True, uniq)):
        p, k = latt.neighbor_pairs(unique=u)
        g = order(np.asarray(p)[:, 0], np.asarray(p)[:, 1], dv[np.asarray(k)])
        ctx.check(same(g, w), what + f":neighbor_pairs-{u}", lambda: f"{len(g[0])} pairs, want {len(w[0])}; {first(g, w)}")
    am = latt.adjacency_matrix().tocoo()
    ctx.check(am.shape == (n, n), what + ":adjacency-shape", lambda: am.shape)
    nz = am.data != 0
    g = order(am.row[nz], am.col[nz], dv[am.data[nz].astype(int) - 1])
    ctx.check(same(g, want), what + ":adjacency", lambda: first(g, want))
    dm = latt.dmap()
    r, c = np.asarray(dm.rows, np.int64), np.asarray(dm.cols, np.int64)
    on, hop = np.asarray(dm.onsite()), np.asarray(dm.hopping())
    ctx.check(np.array_equal(np.sort(r[on]), np.arange(n)) and np.array_equal(r[on], c[on]), what + ":dmap-onsite")
    val = np.zeros(len(r))
    for k in range(len(dv)):
        if np.isfinite(dv[k]):
            val[np.asarray(dm.hopping(k))] = dv[k]
    g = order(r[hop], c[hop], val[hop])
    ctx.check(same(g, want), what + ":dmap", lambda: first(g, want))
    h = dm.build_csr(np.ones(dm.size))
    ctx.check(h.shape == (n, n) and h.sum() == n + len(want[0]), what + ":dmap-csr", lambda: f"{h.shape} {h.sum()}")
    start = np.searchsorted(want[0], np.arange(n + 1))
    num = [len(latt.neighbors(i)) for i in range(n)]
    ctx.check(np.array_equal(num, np.diff(start)), what + ":num-neighbors")
    for i in near(n):
        a = dict(zip(want[1][start[i]:start[i + 1]].tolist(), want[2][start[i]:start[i + 1]].tolist()))
        nb = {int(j): float(dv[k]) for k, x in latt.iter_neighbors(i) for j in x}
        ctx.check(nb == a, what + ":iter_neighbors", lambda: f"{i}: {nb} want {a}")
        for u in (False, True):
            nb = sorted(int(j) for j in latt.neighbors(i, unique=u))
            ctx.check(nb == sorted(j for j in a if not u or j > i), what + ":neighbors", lambda: f"{i}: {nb} want {a}")
        for j in list(a) + near(n)[::3]:
            k = latt.check_neighbors(i, j)
            ctx.check((k is None) == (j not in a), what + ":check_neighbors", lambda: f"{i} {j}: {k}")


def first(g, w):
    s = set(zip(*[x.tolist() for x in g])) ^ set(zip(*[x.tolist() for x in w]))
    return f"differ in {sorted(s)[:4]}"


def near(n):
    """Site numbers around every width boundary."""
    out = {0, 1, 2, n - 1, n - 2, n - 3, n // 2}
    for b in (127, 255, 32767, 65535):
        out |= set(range(b - 2, b + 4))
    return sorted(i for i in out if 0 <= i < n)


def block(ctx, lp, name, cells, latt=None, what="huge"):
    """A primitive block, its sites in the order of the implementation."""
    cr = cfgs.crystal(name)
    latt = latt if latt is not None else cfgs.make(lp, name)
    size = np.array(cells, float) - 0.02
    pos = np.full(cr.dim, -0.02)
    latt.build(size if cr.dim > 1 else float(size[0]), primitive=True, pos=pos if cr.dim > 1 else float(pos[0]), num_jobs=1)
    return latt, cr, same_set(ctx, latt, cells_of(cr, cells), what)


def cells_of(cr, cells, at=None):
    at = [0] * cr.dim if at is None else at
    r = [np.arange(a, a + c) for a, c in zip(at, cells)]
    return np.stack(np.meshgrid(*r, np.arange(cr.n), indexing="ij"), -1).reshape(-1, cr.dim + 1).astype(np.int64)


def same_set(ctx, latt, want, what):
    ids = np.asarray(latt.indices).astype(np.int64)
    ctx.check(ids.shape == want.shape and np.array_equal(ids[np.lexsort(ids.T[::-1])], want[np.lexsort(want.T[::-1])]),
              what + ":site-set", lambda: f"{ids.shape} want {want.shape}")
    return ids


def tvs(cr, ids, axes):
    e = np.ptp(ids[:, :cr.dim], axis=0) + 1
    return [tuple(int(e[a]) if i == a else 0 for i in range(cr.dim)) for a in axes]


def run(ctx, lp, case, kinds):
    """Every operation of the kinds on a large block, open and periodic, compared with the crystal."""
    name, cells = case["cfg"], case["cells"]
    for per in [(), (0,)] + ([(0, 2), (0, 1, 2)] if len(cells) == 3 else []):
        for op in kinds:
            ctx.begin(f"build {name} {cells} periodic={per}")
            latt, cr, ids = block(ctx, lp, name, cells)
            n = len(ids)
            tv = tvs(cr, ids, per)
            if per:
                latt.set_periodic(list(per))
            ctx.op(op)
            k = op[0]
            if k == "views":
                check(ctx, latt, cr, ids, tv, "huge:before")
                continue
            if k == "open":
                latt.set_periodic(None)
                tv = []
            elif k == "rebuild":
                latt, cr, ids = block(ctx, lp, name, cells, latt=latt)
                tv = []
            elif k == "remove":
                gone = {"ends": [0, n - 1], "mid": [n // 2, 127, 300], "tail": list(range(min(32766, n - 6), min(n, 32772))), "neg": [-1]}[op[1]]
                latt.data.remove(gone)
                ids = np.delete(ids, np.array(gone) % n, axis=0)
            elif k == "sort":
                latt.data.sort(op[1], reverse=op[2])
                new = same_set(ctx, latt, ids, "huge")
                s = new[:, op[1]] * (-1 if op[2] else 1)
                ctx.check(bool((np.diff(s) >= 0).all()), "huge:not-sorted")
                ids = new
            elif k == "reverse":
                latt.data.sort(indices=np.arange(n)[::-1])
                ids = ids[::-1]
            elif k == "sortn":
                latt.data.sort_neighbors()
            elif k == "append":
                small = [7] + list(cells[1:])
                other, _, ids2 = block(ctx, lp, name, small)
                latt.append(other, 0, op[1])
                ids2 = ids2 + np.array([cells[0] if op[1] > 0 else -7] + [0] * cr.dim)
                ids, tv = same_set(ctx, latt, np.concatenate([ids, ids2]), "huge"), []
            elif k == "appendto":
                small = [7] + list(cells[1:])
                other, _, ids2 = block(ctx, lp, name, small)
                other.append(latt, 0, op[1])
                ids = ids + np.array([7 if op[1] > 0 else -cells[0]] + [0] * cr.dim)
                latt, ids, tv = other, same_set(ctx, other, np.concatenate([ids2, ids]), "huge"), []
            elif k == "repeat":
                latt.repeat(1, 0, op[1])
                ids2 = ids + np.array([cells[0] * op[1]] + [0] * cr.dim)
                ids, tv = same_set(ctx, latt, np.concatenate([ids, ids2]), "huge"), []
            elif k == "extend":
                latt.extend(3, 0, op[1])
                want = cells_of(cr, [cells[0] + 3] + list(cells[1:]), [0 if op[1] > 0 else -3] + [0] * (cr.dim - 1))
                ids, tv = same_set(ctx, latt, want, "huge"), []
            else:
                raise KeyError(k)
            check(ctx, latt, cr, ids, tv, "huge:" + k)
            ctx.state((name, tuple(cells), per, op))
    ctx.outcome((name, n))


def cases(pick=slice(None)):
    return [dict(mode="huge", cfg=n, cells=c) for n, c in LATTS[pick]]


# lattices of intermediate size for the queries
BIG = [("chain", [101]), ("chain", [257]), ("ssh-n2", [520]), ("chain", [1500]), ("tri-chain", [1400]), ("square", [33, 32]),
       ("honeycomb", [24, 50]), ("hexs", [66, 65]), ("sc", [11, 10, 10]), ("diamond", [9, 8, 9]), ("square", [101, 100]),
       ("chain", [33000])]
