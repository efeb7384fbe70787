"""C13  Minimum distances respect periodic boundaries."""
import itertools

import numpy as np

from . import cfgs, hist, huge, model
from .c04 import axis_vectors
from .core import lattpy

ID = "C13"
BOUNDS = {
    "quick": "all crystals (1D-3D, 4D hypercubic) x blocks of unit cells (extents 1..5 in 1D/2D, 1..3 in 3D) x every set of "
    "periodic axes x every pair of sites; 12 lattices of 101 to 33000 sites, every set of axes, up to 30 sites each; (up to 8 sites, 3 cells per axis: every spelling of the axes, given to build or set later); cartesian boxes of all bases with lattice vectors along the axes; every state "
    "reached by all operation sequences of length <= 2 from four lattices",
    "thorough": "as quick with extents 1..7 (1D/2D) and 1..4 (3D) and sequences of length <= 3",
}
ASSUMPTIONS = [
    "commensurate lattices: the periodic translations are those the built block defines",
    "pairs of sites whose nearest image is more than one lattice size away along some axis are excluded (strongly oblique "
    "blocks; counted as skipped)",
]


def cases(tier):
    out = []
    for name in cfgs.names():
        cr = cfgs.crystal(name)
        d = cr.dim
        fr = cr.R @ cr.Vinv
        if fr.min() < -1e-6 or fr.max() > 0.95:
            continue
        ext = {1: range(1, 6), 2: range(1, 6), 3: range(1, 4), 4: [2]}[d]
        if tier == "thorough":
            ext = {1: range(1, 8), 2: range(1, 8), 3: range(1, 5), 4: [2, 3]}[d]
        for cells in itertools.product(ext, repeat=d):
            if np.prod(cells) * cr.n > 1:
                out.append(dict(mode="block", cfg=name, cells=list(cells), origin=0 if sum(cells) % 2 else -3))
        av = [axis_vectors(cr.V, ax) for ax in range(d)]
        if all(a is not None for a in av) and d < 4:
            for e in itertools.product([1, 2, 3] if d < 3 else [1, 2], repeat=d):
                out.append(dict(mode="box", cfg=name, cells=list(e)))
    out += [dict(mode="big", cfg=n, cells=c) for n, c in huge.BIG]
    for i in (0, 1, 3, 4):
        name, cells = hist.LATTS[i]
        al = hist.alphabet(len(cells), rich=False)
        for f in [None] + list(range(len(al))):
            out.append(dict(mode="hist", cfg=name, cells=cells, first=f, depth=2 if tier == "quick" else 3))
    return out


def check(ctx, latt, cr, ids, T, what, bonds=True):
    """T: list of translation vectors (cartesian)."""
    P = cr.poss(ids)
    n = len(ids)
    k = len(T)
    diff = P[:, None, :] - P[None, :, :]

    def images(m):
        best = np.full((n, n), np.inf)
        for c in itertools.product(range(-m, m + 1), repeat=k):
            sh = np.array(c, float) @ np.array(T) if k else 0.0
            best = np.minimum(best, np.linalg.norm(diff + sh, axis=2))
        return best

    near = images(1)
    full = images(3) if k < 3 else images(2)
    ok = near <= full + 1e-9
    if not ok.all():
        ctx.skipped += 1
    for i in range(n):
        ctx.op(f"minimum_distances({i})")
        got = np.asarray(latt.minimum_distances(i), float)
        ctx.check(got.shape == (n,), what + ":shape", lambda: got.shape)
        bad = ok[i] & (np.abs(got - full[i]) > 1e-6)
        ctx.check(not bad.any(), what + ":distance", lambda: f"site {i}: {got[bad][:4]} want {full[i][bad][:4]} at {np.where(bad)[0][:4]}")
        ctx.check(abs(got[i]) < 1e-9, what + ":self")
        if bonds:
            for lv, nbs in latt.iter_neighbors(i):
                for j in nbs:
                    dv = float(latt.data.distvals[lv])
                    ctx.check(got[int(j)] <= dv + 1e-5, what + ":neighbor-distance", lambda: f"{i}-{j}: {got[int(j)]} vs {dv}")


def run(case, ctx):
    lp = lattpy()
    name = case["cfg"]
    cr = cfgs.crystal(name)
    d = cr.dim
    if case["mode"] == "block":
        for r in range(d + 1):
            for axes in itertools.combinations(range(d), r):
                ctx.begin("block", axes)
                latt, _, want = model.block(lp, name, case["cells"], case["origin"])
                ids = model.ids_of(latt)
                ctx.op("build")
                if axes:
                    ctx.op(f"set_periodic({axes})")
                    latt.set_periodic(list(axes))
                T = [case["cells"][a] * cr.V[a] for a in axes]
                check(ctx, latt, cr, ids, T, "block")
                if len(ids) <= 8 and axes and max(case["cells"]) <= 3:
                    want = np.array([latt.minimum_distances(i) for i in range(len(ids))])
                    spellings(ctx, lp, name, case, axes, ids, want)
                ctx.state((name, tuple(case["cells"]), axes))
    elif case["mode"] == "box":
        av = [axis_vectors(cr.V, ax) for ax in range(d)]
        L = np.array([a[0] for a in av])
        size = L * np.array(case["cells"])
        for r in range(d + 1):
            for axes in itertools.combinations(range(d), r):
                ctx.begin("box", axes)
                latt = cfgs.make(lp, name)
                lo = np.array([-0.013] * d)
                ctx.op("build")
                latt.build(size - 0.02 if d > 1 else float(size[0] - 0.02), pos=lo if d > 1 else float(lo[0]), num_jobs=1)
                ids = model.ids_of(latt)
                by = {}
                for s in ids:
                    by.setdefault(s[-1], []).append(cr.pos(s[:-1] + (0,)))
                ext = np.max([np.ptp(np.array(v), axis=0) for v in by.values()], axis=0)
                if any(abs(np.floor(ext[a] / L[a] + 1e-6) + 1 - case["cells"][a]) > 1e-6 for a in axes):
                    ctx.skipped += 1
                    continue
                if axes:
                    ctx.op(f"set_periodic({axes})")
                    latt.set_periodic(list(axes))
                T = [size[a] * np.eye(d)[a] for a in axes]
                check(ctx, latt, cr, ids, T, "box")
                ctx.state((name, "box", tuple(case["cells"]), axes))
    elif case["mode"] == "big":
        big(case, ctx, lp)
    else:
        history(case, ctx, lp)


def big(case, ctx, lp):
    """Lattices with many sites: the distances from the first, last, middle and width-boundary sites."""
    name, cells = case["cfg"], case["cells"]
    d = len(cells)
    latt, cr, ids = huge.block(ctx, lp, name, cells)
    n = len(ids)
    P = cr.poss(ids)
    for r in range(d + 1):
        for axes in itertools.combinations(range(d), r):
            ctx.begin("big", axes)
            ctx.op(f"set_periodic({axes})")
            latt.set_periodic(list(axes) if axes else None)
            T = np.array([cells[a] * cr.V[a] for a in axes]).reshape(-1, d)
            for i in huge.near(n) + [n // 3, 2 * n // 3, 99, 100, 101, 999, 1000, 1001]:
                if i >= n:
                    continue
                ctx.op(f"minimum_distances({i})")
                full = near = None
                for m in (1, 2):
                    best = np.full(n, np.inf)
                    for c in itertools.product(range(-m, m + 1), repeat=len(axes)):
                        best = np.minimum(best, np.linalg.norm(P - P[i] + np.array(c, float) @ T, axis=1))
                    near, full = full, best
                got = np.asarray(latt.minimum_distances(i), float)
                ctx.check(got.shape == (n,), "big:shape", lambda: got.shape)
                bad = (near <= full + 1e-9) & (np.abs(got - full) > 1e-6)
                ctx.check(not bad.any(), "big:distance", lambda: f"site {i}: {got[bad][:4]} want {full[bad][:4]} at {np.where(bad)[0][:4]}")
            ctx.state((name, tuple(cells), axes))


def forms(axes, d):
    neg = [a - d for a in axes]
    out = [list(axes)[::-1], neg, tuple(axes), np.array(axes), list(axes) + list(axes), list(axes)[:1] + neg]
    if len(axes) == 1:
        out += [axes[0], axes[0] - d, np.int64(axes[0])]
    if len(axes) == d:
        out.append(True)
    return out


def spellings(ctx, lp, name, case, axes, ids, want):
    """Every way to name the same axes gives the same distances (those just checked)."""
    for form in forms(axes, len(case["cells"])):
        for how in ("set", "build", "other-first") if form is True or isinstance(form, tuple) else ("set", "build")[len(axes) % 2:][:1]:
            kw = {"periodic": form} if how == "build" else {}
            latt, _, _ = model.block(lp, name, case["cells"], case["origin"], **kw)
            ctx.op(f"{how} periodic={form!r}")
            if how == "other-first":
                latt.set_periodic(True)
                latt.minimum_distances(0)
            if how != "build":
                latt.set_periodic(form)
            ctx.check(model.ids_of(latt) == ids, "spelling:sites", "")
            got = np.array([latt.minimum_distances(i) for i in range(len(ids))])
            ctx.check(np.allclose(got, want, atol=1e-9), "spelling:distance", lambda: f"{form!r} {how}")


def history(case, ctx, lp):
    name, cells = case["cfg"], case["cells"]
    al = hist.alphabet(len(cells), rich=False)
    rest = [()] if case["first"] is None else hist.sequences(al, case["depth"] - 1)
    for seq in rest:
        full = (() if case["first"] is None else (al[case["first"]],)) + tuple(seq)
        ctx.begin(name, cells)
        latt, m = model.start(ctx, lp, name, cells)
        ok = True
        for op in full:
            if not hist.apply(ctx, lp, latt, m, op, name, cells):
                ok = False
                break
        if not ok:
            continue
        if any(model.extent(m.ids, a) != t[a] for a, t in m.tv.items()):
            ctx.skipped += 1  # removed sites: no longer commensurate
            continue
        T = [np.array(t) @ m.cr.V for t in m.tv.values()]
        check(ctx, latt, m.cr, m.ids, T, "history")
        ctx.state(m.canon())
