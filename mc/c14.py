"""C14  Site queries answer for the lattice as built."""
import itertools

import numpy as np

from . import cfgs, hist, huge, model
from .core import lattpy

ID = "C14"
BOUNDS = {
    "quick": "all queries in every state reached by all operation sequences of length <= 1 (2 on four lattices) from 9 "
    "lattices, on all crystals x 3 blocks x 2 origins; every site and every missing cell of the surrounding box, all "
    "combinations of lower/upper limits from 5 values per axis, inverted, short and open ended; tree queries of the sites; masses of all or some atoms, also zero; 12 lattices of 101 to 33000 sites",
    "thorough": "as quick with all sequences of length <= 2 on all lattices and 3 on two lattices",
}
ASSUMPTIONS = ["positions of different sites differ by more than 1e-3"]


def cases(tier):
    out = []
    for i, (name, cells) in enumerate(hist.LATTS):
        al = hist.alphabet(len(cells), rich=False)
        depth = 2 if tier == "thorough" or i in (0, 1, 3, 4) else 1
        if tier == "thorough" and i in (1, 4):
            depth = 3
        for f in [None] + list(range(len(al))):
            out.append(dict(mode="hist", cfg=name, cells=cells, first=f, depth=depth))
    for name in cfgs.names():
        cr = cfgs.crystal(name)
        fr = cr.R @ cr.Vinv
        if fr.min() < -1e-6 or fr.max() > 0.95:
            continue
        for cells in {1: [[1], [2], [7]], 2: [[1, 1], [3, 3], [2, 4]], 3: [[1, 1, 1], [2, 2, 2], [3, 1, 2]], 4: [[2, 2, 2, 1]]}[cr.dim]:
            for o in (0, -7):
                out.append(dict(mode="crystal", cfg=name, cells=cells, origin=o))
    out += [dict(mode="big", cfg=n, cells=c) for n, c in huge.BIG]
    return out


MASSES = [1.00794, 18.9984032, 0.000548579, 55.845]


def big(case, ctx, lp):
    """Lattices with many sites."""
    ctx.begin(f"build {case['cfg']} {case['cells']}")
    latt, cr, ids = huge.block(ctx, lp, case["cfg"], case["cells"])
    data = latt.data
    n, d = len(ids), cr.dim
    P = cr.poss(ids)
    sc = 1e-9 * n * np.abs(P).max()
    ctx.op("queries")
    lim = np.array([P.min(0), P.max(0)])
    ctx.check(np.allclose(latt.limits(), lim, atol=1e-6) and np.allclose(data.get_limits(), lim, atol=1e-6), "big:limits")
    ctx.check(np.allclose(latt.center(), lim.mean(0), atol=1e-6), "big:center", lambda: latt.center())
    ctx.check(np.allclose(latt.relative_position([0.3] * d), lim[0] + 0.3 * (lim[1] - lim[0]), atol=1e-6), "big:relative_position")
    ctx.check(np.abs(latt.center_of_gravity() - P.mean(0)).max() < sc, "big:center_of_gravity", lambda: latt.center_of_gravity())
    for k in range(cr.n + 1):
        for at, m in list(zip(latt.atoms, MASSES))[:k]:
            at["mass"] = m
        w = np.array([MASSES[a] if a < k else 1.0 for a in range(cr.n)])[ids[:, -1]]
        got, want = latt.center_of_gravity(), (w[:, None] * P).sum(0) / w.sum()
        ctx.check(np.abs(got - want).max() < sc, "big:center_of_gravity-mass", lambda: f"{got} want {want}")
    ncell = int(np.prod(case["cells"]))
    ctx.check(int(latt.num_cells) == ncell, "big:num_cells", lambda: latt.num_cells)
    vol = abs(np.linalg.det(cr.V)) * ncell
    ctx.check(abs(latt.volume() - vol) < 1e-6 * max(1, vol), "big:volume", lambda: latt.volume())
    for a in range(cr.n):
        got = np.asarray(data.get_positions(a), float)
        want = P[ids[:, -1] == a]
        ctx.check(got.shape == want.shape and np.abs(got - want).max() < 1e-6, "big:get_positions", lambda: a)
    il = np.array([ids.min(0), ids.max(0)])
    ctx.check(np.array_equal(data.get_index_limits(), il) and np.array_equal(data.get_cell_limits(), il[:, :-1])
              and np.array_equal(data.get_translation_limits(), il[:, :-1]), "big:index-limits")
    X = np.asarray(latt.positions, float)
    for ax in range(d):
        for f, g in itertools.product((None, 0.0, 0.31, 0.5, 0.83), repeat=2):
            lo, hi = [None if x is None else float(np.sort(X[:, ax])[int(x * (n - 1))]) for x in (f, g)]
            ok = (X[:, ax] >= (-np.inf if lo is None else lo)) & (X[:, ax] <= (np.inf if hi is None else hi))
            a, b = [None] * ax + [lo], [None] * ax + [hi]
            for inv in (False, True):
                ctx.check(np.array_equal(data.site_mask(a, b, inv), ok ^ inv), "big:site_mask", lambda: f"{a} {b} {inv}")
                ctx.check(np.array_equal(data.find_sites(a, b, inv), np.where(ok ^ inv)[0]), "big:find_sites", lambda: f"{a} {b} {inv}")
        L = lim[1, ax] - lim[0, ax]
        for off in (0.0137, 0.21 * L + 0.0013, 0.77 * L):
            edge = [lim[0, ax] + off, lim[1, ax] - off]
            if min(np.abs(X[:, ax] - e).min() for e in edge) > 1e-6:
                want = np.where((X[:, ax] < edge[0]) | (X[:, ax] > edge[1]))[0]
                ctx.check(np.array_equal(data.find_outer_sites(ax, off), want), "big:find_outer_sites", lambda: f"{ax} {off}")
    sites = sorted({i for i in huge.near(n) + list(range(90, 110)) + list(range(990, 1030)) + [n // 3, 2 * n // 3] if i < n})
    for i in sites:
        ctx.op("site")
        idx = tuple(int(x) for x in ids[i])
        ctx.check(latt.superindex_from_index(idx) == i, "big:superindex_from_index", lambda: f"{idx}: {latt.superindex_from_index(idx)}")
        ctx.check(latt.superindex_from_pos(P[i]) == i, "big:superindex_from_pos", lambda: f"{i}: {latt.superindex_from_pos(P[i])}")
        ctx.check(latt.superindex_from_pos(P[i] + 5e-5) == i, "big:superindex_from_pos", lambda: f"{i}")
        out = np.array(idx)
        out[0] += 2 * case["cells"][0]
        ctx.check(latt.superindex_from_index(tuple(out)) is None and latt.superindex_from_pos(P[i] + 2e-3) is None, "big:missing", lambda: i)
        ctx.check(int(latt.alpha(i)) == idx[-1] and latt.atom(i) is latt.atoms[idx[-1]] and np.allclose(latt.position(i), P[i]),
                  "big:site", lambda: i)
    nb, ds = latt.kdtree().query()
    rmax = max(x for a in range(cr.n) for x, _ in cr.nbrs(a))
    for i in sites:
        got = {int(j) for j, x in zip(nb[i], ds[i]) if x < rmax + 1e-6}
        want = set(np.where(np.linalg.norm(P - P[i], axis=1) < rmax + 1e-6)[0].tolist()) - {i}
        ctx.check(got == want, "big:kdtree", lambda: f"site {i}: {got} want {want}")
    ctx.state((case["cfg"], n))


def check(ctx, latt, m, deep):
    cr, d, ids = m.cr, m.cr.dim, m.ids
    n = len(ids)
    P = cr.poss(ids)
    data = latt.data
    scale = np.min(np.linalg.norm(cr.V, axis=1))
    # lookup by index / position
    pos = {s: i for i, s in enumerate(ids)}
    lo, hi = np.min(ids, axis=0), np.max(ids, axis=0)
    for idx in itertools.product(*[range(a - 1, b + 2) for a, b in zip(lo[:-1], hi[:-1])], range(cr.n)):
        got = latt.superindex_from_index(idx)
        ctx.check((None if got is None else int(got)) == pos.get(idx), "superindex_from_index", lambda: f"{idx}: {got} want {pos.get(idx)}")
        for form in (list, np.array):
            got2 = latt.superindex_from_index(form(idx))
            ctx.check((None if got2 is None else int(got2)) == pos.get(idx), "superindex_from_index-form", lambda: f"{form} {idx}: {got2}")
        x = cr.pos(idx)
        got = latt.superindex_from_pos([float(v) for v in x])
        ctx.check((None if got is None else int(got)) == pos.get(idx), "superindex_from_pos-list", lambda: f"{x}: {got} want {pos.get(idx)}")
        got = latt.superindex_from_pos(x)
        ctx.check((None if got is None else int(got)) == pos.get(idx), "superindex_from_pos", lambda: f"{x}: {got} want {pos.get(idx)}")
    ctx.check(latt.superindex_from_index(tuple(lo[:-1]) + (cr.n + 3,)) is None, "superindex_from_index", "missing atom found")
    for i in range(n):
        got = latt.superindex_from_pos(P[i] + 5e-5)
        ctx.check(got is not None and int(got) == i, "superindex_from_pos", lambda: f"site {i} within tolerance: {got}")
        for ax in range(d):
            e = np.zeros(d)
            e[ax] = 2e-3
            for sg in (1, -1):
                ctx.check(latt.superindex_from_pos(P[i] + sg * e) is None, "superindex_from_pos", lambda: f"site {i} + {sg * e} found")
                got = latt.superindex_from_pos(P[i] + sg * e, atol=5e-3)
                ctx.check(got is not None and int(got) == i, "superindex_from_pos-atol", lambda: f"site {i} + {sg * e}: {got}")
        ctx.check(int(latt.alpha(i)) == ids[i][-1], "alpha", lambda: f"site {i}: {latt.alpha(i)}")
        ctx.check(latt.atom(i) is latt.atoms[ids[i][-1]], "atom", lambda: f"site {i}: {latt.atom(i)}")
        ctx.check(np.allclose(latt.position(i), P[i], atol=1e-6), "position", lambda: f"site {i}: {latt.position(i)}")
    # global quantities
    lim = np.array([P.min(0), P.max(0)])
    for f in (latt.limits, data.get_limits):
        ctx.check(np.shape(f()) == (2, d) and np.allclose(f(), lim, atol=1e-6), "limits", lambda: f"{f()} want {lim}")
    for fr in itertools.product((0.0, 0.25, 1.0), repeat=d) if d < 4 else [(0.5,) * d]:
        want = lim[0] + np.array(fr) * (lim[1] - lim[0])
        ctx.check(np.allclose(latt.relative_position(list(fr)), want, atol=1e-6), "relative_position", lambda: f"{fr}")
    ctx.check(np.allclose(latt.relative_position(0.3), lim[0] + 0.3 * (lim[1] - lim[0]), atol=1e-6), "relative_position", "scalar")
    ctx.check(np.shape(latt.center()) == (d,) and np.allclose(latt.center(), lim.mean(0), atol=1e-6), "center", lambda: latt.center())
    cog = P.mean(0)
    ctx.check(np.allclose(latt.center_of_gravity(), cog, atol=1e-6), "center_of_gravity", lambda: f"{latt.center_of_gravity()} want {cog}")
    if deep:
        for a, at in enumerate(latt.atoms):
            at["mass"] = 1.5 + 2 * a
        w = np.array([1.5 + 2 * s[-1] for s in ids])
        cog = (w[:, None] * P).sum(0) / w.sum()
        ctx.check(np.allclose(latt.center_of_gravity(), cog, atol=1e-6), "center_of_gravity-mass", lambda: f"{latt.center_of_gravity()} want {cog}")
        for at in latt.atoms:
            del at["mass"]
        # atoms without a mass weigh 1
        for mass in (3.5, 2, 0, 0.0, np.float32(0.25)):
            latt.atoms[0]["mass"] = mass
            w = np.array([float(mass) if s[-1] == 0 else 1.0 for s in ids])
            if w.sum() > 0:
                cog = (w[:, None] * P).sum(0) / w.sum()
                ctx.check(np.allclose(latt.center_of_gravity(), cog, atol=1e-6), "center_of_gravity-default", lambda: f"{latt.center_of_gravity()} want {cog}")
            del latt.atoms[0]["mass"]
        tree = latt.kdtree()
        nb, ds = tree.query()
        rmax = max(x for a in range(cr.n) for x, _ in cr.nbrs(a))
        D = np.linalg.norm(P[:, None] - P[None], axis=-1)
        for i in range(n):
            got = {int(j) for j, x in zip(nb[i], ds[i]) if x < rmax + 1e-6}
            ctx.check(got == {j for j in range(n) if j != i and D[i, j] < rmax + 1e-6}, "kdtree", lambda: f"site {i}: {got}")
    ncell = len({s[:-1] for s in ids})
    ctx.check(int(latt.num_cells) == ncell, "num_cells", lambda: f"{latt.num_cells} want {ncell}")
    vol = abs(np.linalg.det(cr.V)) * ncell
    ctx.check(abs(latt.volume() - vol) < 1e-6 * max(1, vol), "volume", lambda: f"{latt.volume()} want {vol}")
    ctx.check(int(data.dim) == d, "dim", lambda: data.dim)
    ctx.check(bool(data) and int(latt.num_sites) == n == int(data.num_sites), "num_sites", lambda: f"{latt.num_sites} {data.num_sites}")
    if deep:
        e = data.copy()
        e.reset()
        ctx.check(not e and e.num_sites == 0 and data.num_sites == n, "reset", "")
    for a in range(cr.n):
        want = P[[i for i, s in enumerate(ids) if s[-1] == a]].reshape(-1, d)
        got = np.asarray(data.get_positions(a), float)
        ctx.check(got.shape == want.shape and np.allclose(got, want, atol=1e-6), "get_positions", lambda: f"atom {a}")
    I = np.array(ids)
    il = np.array([I.min(0), I.max(0)])
    ctx.check(np.array_equal(data.get_index_limits(), il), "get_index_limits", lambda: data.get_index_limits())
    ctx.check(np.array_equal(data.get_cell_limits(), il[:, :-1]), "get_cell_limits", lambda: data.get_cell_limits())
    ctx.check(np.array_equal(data.get_translation_limits(), il[:, :-1]), "get_translation_limits", lambda: data.get_translation_limits())
    # masks
    exact = np.asarray(latt.positions, float)
    vals = []
    for ax in range(d):
        mid = float(np.sort(exact[:, ax])[n // 2])
        vals.append([None, lim[0, ax] - 1.0, mid, mid + 0.013 * scale])
    nax = min(d, 2 if not deep else 3)
    for mins in itertools.product(*vals[:nax]):
        for maxs in itertools.product(*vals[:nax]):
            ok = np.ones(n, bool)
            for ax in range(nax):
                if mins[ax] is not None:
                    ok &= exact[:, ax] >= mins[ax]
                if maxs[ax] is not None:
                    ok &= exact[:, ax] <= maxs[ax]
            for inv in (False, True):
                got = np.asarray(data.site_mask(list(mins), list(maxs), inv))
                ctx.check(got.shape == (n,) and np.array_equal(got.astype(bool), ok ^ inv), "site_mask", lambda: f"{mins} {maxs} {inv}")
                ctx.check(np.allclose(exact[got], exact[ok ^ inv]), "site_mask-index", lambda: f"{mins} {maxs} {inv}")
                got = [int(i) for i in data.find_sites(list(mins), list(maxs), inv)]
                ctx.check(got == np.where(ok ^ inv)[0].tolist(), "find_sites", lambda: f"{mins} {maxs} {inv}: {got}")
    ctx.check(len(data.find_sites()) == n and len(data.find_sites(invert=True)) == 0, "find_sites", "no limits")
    ctx.check([int(i) for i in data.find_sites(maxs=[vals[0][2]])] == np.where(exact[:, 0] <= vals[0][2])[0].tolist(), "find_sites", "maxs only")
    if d > 1:  # limits of the first axes only
        for lo, hi in itertools.product(vals[0], repeat=2):
            ok = (exact[:, 0] >= (-np.inf if lo is None else lo)) & (exact[:, 0] <= (np.inf if hi is None else hi))
            for a, b in (([lo], [hi]), ([lo], [hi] + [None] * (d - 1)), ([lo] + [None] * (d - 1), (hi,))):
                got = data.site_mask(a, b)
                ctx.check(np.array_equal(got, ok), "site_mask-short", lambda: f"{a} {b}")
            ctx.check(np.array_equal(data.find_sites([lo]), np.where(exact[:, 0] >= (-np.inf if lo is None else lo))[0]), "find_sites-short", "")
    for ax in range(d):
        for off in (0.013 * scale, 0.6 * scale, 1.7 * scale):
            want = [i for i in range(n) if P[i, ax] < lim[0, ax] + off - 1e-9 or P[i, ax] > lim[1, ax] - off + 1e-9]
            amb = any(abs(P[i, ax] - x) < 1e-6 for i in range(n) for x in (lim[0, ax] + off, lim[1, ax] - off))
            if not amb:
                got = [int(i) for i in data.find_outer_sites(ax, off)]
                ctx.check(got == want, "find_outer_sites", lambda: f"ax {ax} offset {off}: {got} want {want}")


def run(case, ctx):
    lp = lattpy()
    if case["mode"] == "big":
        return big(case, ctx, lp)
    if case["mode"] == "crystal":
        ctx.begin(f"build {case['cfg']} {case['cells']}")
        latt, m = model.start(ctx, lp, case["cfg"], case["cells"], case["origin"])
        ctx.op("queries")
        check(ctx, latt, m, True)
        ctx.state((case["cfg"], m.canon()))
        ctx.outcome((case["cfg"], len(m.ids)))
        return
    name, cells = case["cfg"], case["cells"]
    al = hist.alphabet(len(cells), rich=False)
    seqs = [()] if case["first"] is None else [(al[case["first"]],) + s for s in hist.sequences(al, case["depth"] - 1)]
    for seq in seqs:
        ctx.begin(f"build {name} {cells}")
        latt, m = model.start(ctx, lp, name, cells)
        for op in seq:
            if not hist.apply(ctx, lp, latt, m, op, name, cells):
                break
        else:
            ctx.op("queries")
            check(ctx, latt, m, False)
            ctx.state((name, m.canon()))
            ctx.outcome((name, len(m.ids)))
