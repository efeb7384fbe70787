"""C21  Plots show exactly the lattice."""
import itertools
import math
import os

import numpy as np

from . import cfgs, hist, model
from .core import lattpy

ID = "C21"
BOUNDS = {
    "quick": "22 crystals (1D-3D) x 1-3 blocks of unit cells x every set of periodic axes, and every state reached by all "
    "sequences of two operations from four lattices, each drawn with every plot option on its own and all options together; "
    "unit cell plots of all crystals in 1D-3D and basis plots of all bases x all combinations of the display options; "
    "boxes, hulls (2D/3D), circles and donuts (2D) x positions x sizes x bases; Wigner-Seitz cells and Brillouin zones of all "
    "bases x drawing options; drawing helpers on all small inputs",
    "thorough": "as quick with all crystals and larger blocks",
}
ASSUMPTIONS = [
    "the drawn content is read from matplotlib's artists (offsets, segments, colors, texts, view limits); their rendering is matplotlib's",
    "a stub of a periodic bond starts at the site and is the given fraction (pscale) of the bond",
    "one-dimensional plots lie on the line y = 0",
]
COLORS = ["r", "#00ff00", (0.1, 0.2, 0.7)]
MIX = ["chain", "chain-n3", "ssh-n2", "tri-chain", "chain-iso", "square", "square-n2", "rect-13", "oblique75", "hex", "neg", "honeycomb",
       "honeycomb-asym", "centered-mix", "lieb", "kagome", "generic2", "square-big", "sc", "sc-n2", "nacl-ab", "cscl", "tric", "diamond"]
CELLS = {1: [[1], [4], [5]], 2: [[1, 2], [3, 3], [4, 2]], 3: [[2, 1, 1], [3, 2, 2]]}


def plt_():
    os.environ["MPLBACKEND"] = "Agg"
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    return plt


def cases(tier):
    out = []
    for name in MIX if tier == "quick" else [n for n in cfgs.names() if cfgs.crystal(n).dim < 4]:
        cr = cfgs.crystal(name)
        fr = cr.R @ cr.Vinv
        if fr.min() < -1e-6 or fr.max() > 0.95:
            continue
        for cells in CELLS[cr.dim] + ([[7], [6, 3], [3, 3, 3]][cr.dim - 1:cr.dim] if tier == "thorough" else []):
            for axes in [()] + [c for r in range(1, cr.dim + 1) for c in itertools.combinations(range(cr.dim), r)]:
                out.append(dict(part="lattice", cfg=name, cells=cells, axes=list(axes)))
    for name, cells in (("chain", [130]), ("tri-chain", [90]), ("square", [12, 11]), ("honeycomb", [17, 16]), ("sc", [5, 6, 5]), ("chain", [1030])):
        for axes in ([], [0]):
            out.append(dict(part="lattice", cfg=name, cells=cells, axes=axes))
    for i in (1, 3, 4, 7):
        name, cells = hist.LATTS[i]
        for f in range(len(hist.alphabet(len(cells), rich=False))):
            out.append(dict(part="hist", cfg=name, cells=cells, first=f))
    out += [dict(part="cell", cfg=n) for n in cfgs.names() if cfgs.crystal(n).dim < 4]
    out += [dict(part="basis", cfg=n) for n in cfgs.names() if cfgs.crystal(n).dim < 4]
    out += [dict(part="wigner", cfg=n) for n in cfgs.names() if cfgs.crystal(n).dim < 4]
    out += [dict(part="shape", kind=k) for k in ("box2", "box3", "circle", "donut", "hull2", "hull3")]
    out += [dict(part="helpers", dim=d) for d in (1, 2, 3)] + [dict(part="empty")]
    return out


def run(case, ctx):
    lp = lattpy()
    plt = plt_()
    try:
        globals()["part_" + case["part"]](case, ctx, lp, plt)
    finally:
        plt.close("all")


# -- reading the artists -------------------------------------------------------------------------
def rgba(c):
    import matplotlib.colors as mc

    return tuple(round(float(x), 4) for x in mc.to_rgba(c))


def rnd(p, s=1.0):
    return tuple(round(float(x) / s, 6) + 0.0 for x in p)


def plane(p):
    p = [float(x) for x in p]
    return p + [0.0] if len(p) == 1 else p


def seg_collections(ax):
    from matplotlib.collections import LineCollection

    return [c for c in ax.collections if isinstance(c, LineCollection)]


def segments(ax, s=1.0, skip=()):
    """[(a, b, color, linewidth)]: all non-degenerate line segments drawn by line collections."""
    out = []
    for c in seg_collections(ax):
        if c in skip:
            continue
        seg = c._segments3d if hasattr(c, "_segments3d") else c.get_segments()
        col, lws = c.get_edgecolor(), np.atleast_1d(c.get_linewidth())
        for k, pts in enumerate(seg):
            pts = np.asarray(pts, float)
            for a, b in zip(pts[:-1], pts[1:]):
                if np.abs(a - b).max() > 1e-9 * s:
                    out.append((rnd(a, s), rnd(b, s), rgba(col[k % len(col)]), float(lws[k % len(lws)])))
    return out


def points(ax, s=1.0):
    """[(position, rgba, radius or None, size)]: all drawn markers."""
    from matplotlib.collections import LineCollection, PolyCollection

    out = []
    for c in ax.collections:
        if isinstance(c, (LineCollection, PolyCollection)):
            continue
        off = np.array(c._offsets3d).T if hasattr(c, "_offsets3d") else np.asarray(c.get_offsets(), float)
        col = np.atleast_2d(c.get_facecolor())
        size = np.atleast_1d(c.get_sizes()) if hasattr(c, "get_sizes") else np.ones(1)
        rad = np.atleast_1d(c.radius) if hasattr(c, "radius") else [None]
        for k, p in enumerate(off):
            if len(size) and size[k % len(size)] == 0:
                continue
            out.append((rnd(p, s), rgba(col[k % len(col)]), rad[k % len(rad)], None))
    return out


def texts(ax, s=1.0):
    out = []
    for t in ax.texts:
        p = t.get_position_3d() if hasattr(t, "get_position_3d") else t.get_position()
        out.append((t.get_text(), rnd(p, s)))
    return out


def near(a, b):
    return len(a) == len(b) and all(abs(x - y) < 2e-5 for x, y in zip(a, b))


def multiset(ctx, got, want, what, key=lambda x: x):
    """Equality of multisets of (coordinates, label) with a tolerance on the coordinates."""
    got, want = sorted(got, key=repr), list(want)
    left = {}
    for w in want:
        left.setdefault(tuple(round(x, 3) + 0.0 for x in w[0]), []).append(w)
    bad = []
    for g in got:
        hit = None
        for k in neighbors_keys(g[0]):
            for w in left.get(k, ()):
                if w[1:] == g[1:] and near(w[0], g[0]):
                    hit = (k, w)
                    break
            if hit:
                break
        if hit:
            left[hit[0]].remove(hit[1])
        else:
            bad.append(g)
    miss = [w for v in left.values() for w in v]
    ctx.check(not bad and not miss, what, lambda: f"unexpected {bad[:3]} ({len(bad)}), missing {miss[:3]} ({len(miss)})")


def neighbors_keys(p):
    k = tuple(round(x, 3) + 0.0 for x in p)
    yield k
    # coordinates close to a rounding boundary
    opts = []
    for x, r in zip(p, k):
        o = {r}
        for y in (x - 2e-5, x + 2e-5):
            o.add(round(y, 3) + 0.0)
        opts.append(sorted(o))
    for q in itertools.product(*opts):
        if q != k:
            yield q


def line_key(a, b):
    return (a + b) if a <= b else (b + a)


def lines_equal(ctx, got, want, what):
    """Undirected segments: [(a, b, label...)]."""
    g, w = [], []
    for a, b, *r in got:
        g.append((a + b,) + tuple(r))
    for a, b, *r in want:
        w.append((a + b,) + tuple(r))
    # match undirected: orient every segment like the model where possible
    key = lambda t: tuple(round(x, 2) + 0.0 for x in t)  # noqa
    have = {}
    for x in w:
        have.setdefault(key(x[0]), []).append(x)
    out = []
    for x in g:
        n = len(x[0]) // 2
        y = (x[0][n:] + x[0][:n],) + x[1:]
        if any(near(q[0], x[0]) for k in neighbors2(x[0]) for q in have.get(k, ())):
            out.append(x)
        else:
            out.append(y)
    multiset(ctx, out, w, what)


def neighbors2(p):
    opts = []
    for x in p:
        opts.append(sorted({round(x, 2) + 0.0, round(x - 2e-5, 2) + 0.0, round(x + 2e-5, 2) + 0.0}))
    return list(itertools.product(*opts))


def in_view(ctx, ax, pts, what):
    lims = [ax.get_xlim(), ax.get_ylim()] + ([ax.get_zlim()] if hasattr(ax, "get_zlim") else [])
    for p in pts:
        for x, (a, b) in zip(p, lims):
            t = 1e-9 * (abs(a) + abs(b))
            ctx.check(min(a, b) - t <= x <= max(a, b) + t, what + ":in-view", lambda: f"{p} outside {lims}")


def colored(lp, name):
    """The lattice of the alphabet with explicit colors/radii on some atoms."""
    v, atoms, conns = cfgs.BASE[name]
    latt = lp.Lattice(np.array(v, float))
    s = float(np.linalg.norm(np.array(v), axis=1).min())
    looks = []
    nm = (lambda i: "A") if name in cfgs.SAME else cfgs.atom_name
    for i, p in enumerate(atoms):
        if i % 2 == 0 and len(atoms) > 1 or sum(map(ord, name)) % 2:
            latt.add_atom(list(p), nm(i), color=COLORS[i % 3], radius=(0.1 + 0.05 * i) * s)
            looks.append((rgba(COLORS[i % 3]), (0.1 + 0.05 * i) * s))
        else:
            latt.add_atom(list(p), nm(i), radius=0.15 * s)
            looks.append((rgba(f"C{i}"), 0.15 * s))
    if np.isscalar(conns):
        latt.add_connections(conns)
    else:
        for (i, j), k in conns:
            latt.add_connection(i, j, k)
        latt.analyze()
    return latt, looks, s


DEFAULTS = dict(lw=None, margins=0.1, legend=None, grid=False, pscale=0.5, show_periodic=True, show_indices=False, index_offset=0.1, con_colors=None,
                adjustable="box")


def variants(n, d):
    out = [{}, dict(lw=2.5), dict(margins=0.25), dict(margins=[0.2] + [0.3] * (d - 1)), dict(legend=True), dict(legend=False), dict(grid=True),
           dict(pscale=0.3), dict(pscale=1.0), dict(show_periodic=False), dict(show_indices=True), dict(show_indices=True, index_offset=0.25),
           dict(con_colors=[(0, 0, "m")]), dict(con_colors=[(n - 1, 0, "g"), (n - 1, n - 1, "c")]), dict(adjustable="datalim"), dict(ax="own"),
           dict(lw=1.5, margins=0.05, legend=True, grid=True, pscale=0.2, show_indices=True, index_offset=0.2, con_colors=[(0, n - 1, "y")],
                adjustable="datalim", ax="own")]
    return out


def con_color(cols, a, b):
    c = "k"
    for i, j, col in cols or ():
        if {i, j} == {a, b}:
            c = col
    return rgba(c)


def state(latt):
    d = latt.data
    arr = [np.array(getattr(d, k), copy=True) for k in ("indices", "positions", "neighbors", "distances", "pnvecs", "paxes")]
    return arr + [np.array(latt.vectors), np.array(latt.atom_positions), [int(x) for x in latt.periodic_axes], [dict(a) for a in latt.atoms],
                  None if latt.shape is None else np.array(latt.shape)]


def same_state(a, b):
    def eq(x, y):
        if isinstance(x, np.ndarray):
            return np.array_equal(x, y, equal_nan=x.dtype.kind == "f")
        return x == y

    return all(eq(x, y) for x, y in zip(a, b))


def check_plot(ctx, plt, latt, m, looks, s, kw, draw=False):
    d, n = m.cr.dim, m.cr.n
    kw = dict(kw)
    own = None
    if kw.pop("ax", None):
        fig = plt.figure()
        own = fig.add_subplot(111, projection="3d" if d == 3 else None)
        kw["ax"] = own
    o = dict(DEFAULTS, **kw)
    before = state(latt)
    nfig = len(plt.get_fignums())
    ctx.op("plot " + " ".join(sorted(kw)))
    ax = latt.plot(**kw)
    ctx.check(len(plt.get_fignums()) == nfig + (own is None) and (own is None or ax is own), "plot:axes", "")
    pos = [plane(p) for p in m.cr.poss(m.ids)]
    # sites
    got = [(p, c) for p, c, _, _ in points(ax, s)]
    multiset(ctx, got, [(rnd(p, s), looks[i[-1]][0]) for p, i in zip(pos, m.ids)], "plot:sites")
    if d < 3:
        multiset(ctx, [(p + ((r or 0) / s,),) for p, _, r, _ in points(ax, s)], [(rnd(p, s) + (looks[i[-1]][1] / s,),) for p, i in zip(pos, m.ids)], "plot:radius")
    # bonds
    want = []
    adj = m.adj()
    for i, a in enumerate(adj):
        for j, (_, sh) in a.items():
            ai, aj = m.ids[i][-1], m.ids[j][-1]
            p, q = np.array(pos[i]), np.array(pos[j])
            if not any(sh):
                if i < j:
                    want.append((rnd(p, s), rnd(q, s), con_color(o["con_colors"], ai, aj)))
            elif o["show_periodic"]:
                w = np.array(plane(np.array(sh, float) @ m.cr.V))
                want.append((rnd(p, s), rnd(p + o["pscale"] * (q + w - p), s), rgba("0.5")))
    segs = segments(ax, s)
    lines_equal(ctx, [x[:3] for x in segs], want, "plot:bonds")
    if o["lw"] is not None:
        ctx.check(all(abs(x[3] - o["lw"]) < 1e-9 for x in segs), "plot:lw", lambda: {x[3] for x in segs})
    # indices
    tx = texts(ax, s)
    if o["show_indices"]:
        ctx.check(sorted(t for t, _ in tx) == sorted(str(i) for i in range(len(pos))), "plot:indices", lambda: tx)
        offs = {tuple(round(a - b, 4) for a, b in zip(p, rnd(pos[int(t)], s))) for t, p in tx}
        ctx.check(len(offs) <= 1 or max(abs(x) for o1 in offs for x, y in zip(o1, next(iter(offs))) for x in (x - y,)) < 1e-3, "plot:index-position", lambda: offs)
        ctx.check(all(abs(x * s - o["index_offset"]) < 1e-3 * s for o1 in offs for x in o1), "plot:index-offset", lambda: offs)
    else:
        ctx.check(not tx, "plot:no-indices", lambda: tx)
    # legend and format
    leg = ax.get_legend()
    wantleg = n > 1 if o["legend"] is None else o["legend"]
    ctx.check((leg is not None) == bool(wantleg), "plot:legend", lambda: leg)
    if leg is not None:
        names = [t.get_text() for t in leg.get_texts()]
        ctx.check(set(names) == {a.name for a in latt.atoms}, "plot:legend-names", lambda: names)
    if d < 3:
        g = any(x.get_visible() for x in ax.xaxis.get_gridlines())
        ctx.check(g == o["grid"], "plot:grid", lambda: g)
        ctx.check(ax.get_aspect() in ("equal", 1.0), "plot:aspect", lambda: ax.get_aspect())
        ctx.check(ax.get_adjustable() == o["adjustable"], "plot:adjustable", lambda: ax.get_adjustable())
        mg = o["margins"] if isinstance(o["margins"], list) else [o["margins"]] * 2
        mg = mg * 2 if len(mg) == 1 else mg
        ctx.check(np.allclose(ax.margins()[:2], mg), "plot:margins", lambda: ax.margins())
    in_view(ctx, ax, pos, "plot")
    if draw:
        ax.get_figure().canvas.draw()
    ctx.check(same_state(before, state(latt)), "plot:changed-lattice", "")
    plt.close("all")


def part_lattice(case, ctx, lp, plt):
    name, cells, axes = case["cfg"], case["cells"], case["axes"]
    ctx.begin("lattice", name, cells, axes)
    latt, looks, s = colored(lp, name)
    _, cr, want = model.block(lp, name, cells, latt=latt)
    m = model.Model(cr, model.ids_of(latt))
    if axes:
        if not m.set_periodic(axes):
            ctx.skipped += 1
            return
        latt.set_periodic(list(axes))
    m._b = None
    for k, kw in enumerate(variants(cr.n, cr.dim)):
        if axes and cr.dim == 3 and len(m.ids) > 12 and k % 4:
            continue
        if len(m.ids) > 100 and k not in (0, 9, 10):  # default, no periodic bonds, indices
            continue
        check_plot(ctx, plt, latt, m, looks, s, kw, draw=k in (0, 16) and len(m.ids) < 12)
        ctx.state((name, tuple(cells), tuple(axes), k))
    ctx.outcome((name, tuple(cells), len(axes)))


def part_hist(case, ctx, lp, plt):
    name, cells = case["cfg"], case["cells"]
    al = hist.alphabet(len(cells), rich=False)
    for second in [None] + al:
        ctx.begin("hist", name, cells, al[case["first"]], second)
        latt, m = model.start(ctx, lp, name, cells)
        ok = hist.apply(ctx, lp, latt, m, al[case["first"]], name, cells)
        if ok and second is not None:
            ok = hist.apply(ctx, lp, latt, m, second, name, cells)
        if not ok or not m.ids:
            ctx.skipped += 1
            continue
        looks = [(rgba(f"C{i}"), 0.2) for i in range(m.cr.n)]
        if m.bonds() is None:
            ctx.skipped += 1
            continue
        check_plot(ctx, plt, latt, m, looks, 1.0, dict(show_indices=True))
        ctx.state(m.canon())
    ctx.outcome((name, case["first"]))


def part_empty(case, ctx, lp, plt):
    """Lattices in which one kind of atom has no sites left, and single sites."""
    for d in (1, 2, 3):
        name = {1: "ssh", 2: "honeycomb", 3: "cscl"}[d]
        for keep in (0, 1):
            ctx.begin("empty", name, keep)
            latt, looks, s = colored(lp, name)
            model.block(lp, name, [3] * d if d < 3 else [2, 2, 1], latt=latt)
            ids = model.ids_of(latt)
            gone = [i for i, x in enumerate(ids) if x[-1] != keep]
            latt.data.remove(gone)
            m = model.Model(cfgs.crystal(name), [x for x in ids if x[-1] == keep])
            for kw in ({}, dict(show_indices=True)):
                check_plot(ctx, plt, latt, m, looks, s, kw, draw=False)
            ctx.state((name, keep))
    for d in (4, 5):
        ctx.begin("too many dimensions", d)
        latt = lp.Lattice(np.eye(d))
        latt.add_atom()
        latt.add_connections(1)
        latt.build([1] * d, num_jobs=1)
        for f in (latt.plot, latt.plot_cell, latt.plot_basis):
            try:
                f()
                ctx.fail("dimension:accepted", f.__name__)
            except ValueError:
                pass
        ctx.state(d)
    ctx.outcome("empty")


# -- unit cell and basis -------------------------------------------------------------------------
def check_vectors(ctx, ax, V, s, shown, outline, what):
    """Basis vector arrows and outlines of the cell."""
    from matplotlib.quiver import Quiver

    d = len(V)
    W = [plane(v) for v in V]
    lines = []
    for ln in ax.lines:
        xyz = np.array(ln.get_data_3d() if hasattr(ln, "get_data_3d") else ln.get_data(), float).T
        if len(xyz) == 2:
            lines.append((rnd(xyz[0], s), rnd(xyz[1], s)))
    want = set()
    if shown and outline and d > 1:
        for k in range(d):
            for c in itertools.product((0, 1), repeat=d):
                if c[k] == 0 and any(c):
                    a = np.array(c) @ np.array(V)
                    want.add((rnd(a, s), rnd(a + V[k], s)))
    uniq = {tuple(round(x, 4) + 0.0 for x in line_key(a, b)) for a, b in lines}
    wl = {tuple(round(x, 4) + 0.0 for x in line_key(a, b)) for a, b in want}
    ctx.check(len(uniq) == len(wl), what + ":outline-number", lambda: f"{len(uniq)} want {len(wl)}")
    for a, b in lines:
        ctx.check(any(near(a, x) and near(b, y) or near(a, y) and near(b, x) for x, y in want), what + ":outline", lambda: f"{(a, b)} not in {want}")
    for x, y in want:
        ctx.check(any(near(a, x) and near(b, y) or near(a, y) and near(b, x) for a, b in lines), what + ":outline-missing", lambda: f"{(x, y)}")
    if d < 3:
        q = [c for c in ax.collections if isinstance(c, Quiver)]
        got = [(rnd(xy, s), rnd((u, v), s)) for c in q for xy, u, v in zip(c.XY, np.ravel(c.U), np.ravel(c.V))]
        w = [(rnd([0, 0], s), rnd(v, s)) for v in W] if shown else []
        ctx.check(len(got) == len(w) and all(any(near(a, x) and near(b, y) for a, b in got) for x, y in w), what + ":vectors", lambda: f"{got} want {w}")
        ctx.check(all(c.angles == "xy" and c.scale == 1 and c.scale_units == "xy" for c in q), what + ":vector-scale", "")


def arrows3d(ax):
    """Line collections of three-dimensional arrows: shaft and head segments."""
    out = []
    for c in seg_collections(ax):
        seg = np.asarray(c._segments3d) if hasattr(c, "_segments3d") else ()
        if len(seg) and len(seg) % 3 == 0 and len(seg) > 1:
            out.append(c)
    return out


def part_basis(case, ctx, lp, plt):
    V = np.array(cfgs.BASE[case["cfg"]][0], float)
    d = len(V)
    s = float(np.linalg.norm(V, axis=1).max())
    latt = lp.Lattice(V)
    for vecs, cell, grid, lw, ls, margins in itertools.product((True, False), (True, False), (False, True), (None, 2.0), ("--", ":"), (0.1, [0.2] * d)):
        if (lw, ls) == (2.0, "--") and grid:
            continue
        ctx.begin("basis", case["cfg"], vecs, cell, grid, lw, ls, margins)
        own = None
        if lw:
            own = plt.figure().add_subplot(111, projection="3d" if d == 3 else None)
        ctx.op("plot_basis")
        ax = latt.plot_basis(lw=lw, ls=ls, margins=margins, grid=grid, show_cell=cell, show_vecs=vecs, ax=own)
        ctx.check(own is None or ax is own, "basis:axes", "")
        check_vectors(ctx, ax, V, s, vecs, cell, "basis")
        if d == 3:
            segs = segments(ax, s)
            for v in V:
                hit = any(near(a, rnd([0] * 3)) and near(b, rnd(v, s)) or near(b, rnd([0] * 3)) and near(a, rnd(v, s)) for a, b, _, _ in segs)
                ctx.check(hit == vecs, "basis:vectors", lambda: f"{v} {vecs}")
        if vecs:
            in_view(ctx, ax, [plane(v) for v in V] + [plane([0.0] * d)], "basis")
        ctx.check(d == 3 or any(x.get_visible() for x in ax.xaxis.get_gridlines()) == grid, "basis:grid", "")
        ctx.check(not points(ax), "basis:points", "")
        if vecs and cell and d > 1:
            ctx.check(all(ln.get_linestyle() == ls and (lw is None or ln.get_linewidth() == lw) for ln in ax.lines), "basis:style", "")
        if grid and lw:
            ax.get_figure().canvas.draw()
        plt.close("all")
        ctx.state((case["cfg"], vecs, cell, grid, lw, ls, str(margins)))
    ctx.check(np.array_equal(latt.vectors, V), "basis:changed", "")
    ctx.outcome(case["cfg"])


def part_cell(case, ctx, lp, plt):
    name = case["cfg"]
    cr = cfgs.crystal(name)
    d, n = cr.dim, cr.n
    latt, looks, s = colored(lp, name)
    R = [plane(p) for p in cr.R]
    opts = [dict(), dict(show_neighbors=False), dict(show_vecs=False), dict(show_cell=False), dict(legend=True), dict(legend=False), dict(grid=True),
            dict(lw=2.0), dict(alpha=0.3), dict(con_colors=[(0, 0, "m")]), dict(con_colors=[(n - 1, 0, "g"), (n - 1, n - 1, "c")]),
            dict(margins=[0.2] * d), dict(margins=0.3), dict(ax="own"), dict(cell_lw=2.0, cell_ls=":"), dict(adjustable="datalim"),
            dict(show_vecs=False, con_colors=[(0, n - 1, "y")], lw=1.5, alpha=0.9, legend=True, grid=True, ax="own", adjustable="datalim")]
    snap = (np.array(latt.vectors), np.array(latt.atom_positions), [dict(a) for a in latt.atoms])
    for k, kw in enumerate(opts):
        ctx.begin("cell", name, kw)
        kw = dict(kw)
        if kw.pop("ax", None):
            kw["ax"] = plt.figure().add_subplot(111, projection="3d" if d == 3 else None)
        ctx.op("plot_cell")
        ax = latt.plot_cell(**kw)
        ctx.check("ax" not in kw or ax is kw["ax"], "cell:axes", "")
        shown = kw.get("show_vecs", True)
        check_vectors(ctx, ax, cr.V, s, shown, kw.get("show_cell", True), "cell")
        arrows = arrows3d(ax) if d == 3 and shown else []
        if d == 3 and shown:
            ctx.check(len(arrows) == 1, "cell:vectors", lambda: len(arrows))
        segs = segments(ax, s, skip=arrows)
        want, sites = [], []
        alpha = kw.get("alpha", 0.5)
        if kw.get("show_neighbors", True):
            for a in range(n):
                for _, nb in cr.nbrs(a):
                    p = plane(cr.pos(nb))
                    want.append((rnd(R[a], s), rnd(p, s), con_color(kw.get("con_colors"), a, nb[-1])))
                    if any(nb[:-1]):
                        sites.append((rnd(p, s), looks[nb[-1]][0][:3] + (alpha,)))
        dedupe(ctx, segs, want, "cell:bonds")
        got = [(p, c) for p, c, _, _ in points(ax, s)]
        w = [(rnd(p, s), looks[i][0]) for i, p in enumerate(R)]
        for x in w:
            ctx.check(sum(near(x[0], g[0]) and x[1] == g[1] for g in got) == 1, "cell:atoms", lambda: f"{x} in {got[:8]}")
        got = [g for g in got if not any(near(x[0], g[0]) and x[1] == g[1] for x in w)]
        for g in got:
            ctx.check(any(near(g[0], x[0]) and np.allclose(g[1], x[1], atol=2e-4) for x in sites), "cell:neighbor-sites", lambda: f"{g} not in {sites[:8]}")
        for x in sites:
            ctx.check(any(near(g[0], x[0]) and np.allclose(g[1], x[1], atol=2e-4) for g in got), "cell:missing-sites", lambda: f"{x}")
        if "lw" in kw:
            ctx.check(all(abs(x[3] - kw["lw"]) < 1e-9 for x in segs), "cell:lw", "")
        leg = ax.get_legend()
        wl = kw.get("legend")
        ctx.check((leg is not None) == (n > 1 if wl is None else wl), "cell:legend", "")
        if leg is not None:
            ctx.check([t.get_text() for t in leg.get_texts()] == [a.name for a in latt.atoms], "cell:legend-names", "")
        ctx.check(d == 3 or any(x.get_visible() for x in ax.xaxis.get_gridlines()) == kw.get("grid", False), "cell:grid", "")
        ctx.check(d == 3 or ax.get_adjustable() == kw.get("adjustable", "box"), "cell:adjustable", "")
        in_view(ctx, ax, R + [plane(cr.pos(nb)) for a in range(n) for _, nb in cr.nbrs(a) if kw.get("show_neighbors", True)], "cell")
        if k in (0, 16):
            ax.get_figure().canvas.draw()
        now = (np.array(latt.vectors), np.array(latt.atom_positions), [dict(a) for a in latt.atoms])
        ctx.check(all(np.array_equal(x, y) for x, y in zip(snap[:2], now[:2])) and snap[2] == now[2], "cell:changed", "")
        plt.close("all")
        ctx.state((name, k))
    ctx.outcome(name)


def dedupe(ctx, segs, want, what):
    """Equality as sets of undirected segments with color."""
    def hit(x, ys):
        return any(x[2] == y[2] and (near(x[0], y[0]) and near(x[1], y[1]) or near(x[0], y[1]) and near(x[1], y[0])) for y in ys)

    for x in segs:
        ctx.check(hit(x, want), what + "-extra", lambda: f"{x} not in {want[:6]}")
    for x in want:
        ctx.check(hit(x, segs), what + "-missing", lambda: f"{x} of {len(want)} ({len(segs)} drawn)")


# -- shapes --------------------------------------------------------------------------------------
def part_shape(case, ctx, lp, plt):
    kind = case["kind"]
    d = 3 if kind.endswith("3") else 2
    P = [None, [0.0] * d, [1.0, -2.0, 0.5][:d]]
    if kind.startswith("box"):
        bases = [None, np.eye(d), np.array([[1.0, 0.3, 0.0], [0.5, 1.2, 0.1], [0.0, 0.2, 0.9]])[:d, :d]]
        todo = itertools.product([[1.0] * d, [3.0, 2.0, 1.5][:d]], P, bases)
        mk = lambda t: lp.Shape(t[0], t[1], t[2])  # noqa
    elif kind == "circle":
        todo = itertools.product(P[1:], [0.5, 2.0])
        mk = lambda t: lp.Circle(*t)  # noqa
    elif kind == "donut":
        todo = itertools.product(P[1:], [2.0, 3.5], [0.5, 1.0])
        mk = lambda t: lp.Donut(*t)  # noqa
    else:
        sets = [[[0, 0, 0], [2, 0, 0], [0, 2, 0], [0, 0, 2]], [[0, 0, 0], [3, 0, 0], [3, 2, 0], [0, 2, 0], [1, 1, 2], [1, 1, 0.5]],
                [[-1, 0, 0], [1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1], [0, 0, 0]]]
        todo = [(np.array(x, float)[:, :d],) for x in sets]
        mk = lambda t: lp.ConvexHull(t[0])  # noqa
    for t in todo:
        for kw in ({}, dict(color="r", lw=1.5, alpha=0.4)):
            ctx.begin("shape", kind, [np.array(x).tolist() if x is not None else None for x in t], kw)
            ctx.op("plot")
            sh = mk(t)
            ax = plt.figure().add_subplot(111, projection="3d" if d == 3 else None)
            sh.plot(ax, **kw)
            globals()["shape_" + kind.rstrip("23")](ctx, ax, sh, t, d)
            col = rgba(kw.get("color", "k"))
            segs = segments(ax)
            ctx.check(all(x[2] == col for x in segs), "shape:color", lambda: {x[2] for x in segs})
            if "lw" in kw:
                ctx.check(all(x[3] == kw["lw"] for x in segs), "shape:lw", "")
            for p in ax.patches:
                if p.get_fill():
                    ctx.check(rgba(p.get_facecolor()) == col[:3] + (kw.get("alpha", 0.2),), "shape:fill", lambda: p.get_facecolor())
            ax.get_figure().canvas.draw()
            plt.close("all")
            ctx.state((kind, str(t), str(kw)))
    ctx.outcome(kind)


def surfaces(ax):
    from mpl_toolkits.mplot3d.art3d import Poly3DCollection

    out = []
    for c in ax.collections:
        if isinstance(c, Poly3DCollection):
            for f in np.asarray(c._faces):
                out.append([rnd(p) for p in f])
    return out


def shape_box(ctx, ax, sh, t, d):
    size, pos, B = t
    pos = np.zeros(d) if pos is None else np.array(pos)
    B = np.eye(d) if B is None else np.array(B)
    corner = {c: rnd((pos + np.array(c) * size) @ B) for c in itertools.product((0, 1), repeat=d)}
    want = [(corner[a], corner[b], None) for a, b in itertools.combinations(corner, 2) if sum(x != y for x, y in zip(a, b)) == 1]
    segs = [x[:2] + (None,) for x in segments(ax)]
    ctx.check(len(segs) == len(want), "box:edges-number", lambda: len(segs))
    dedupe(ctx, segs, want, "box:edges")
    if d == 2:
        poly = [p for p in ax.patches if p.get_fill()]
        ctx.check(len(poly) == 1, "box:fill", lambda: len(poly))
        xy = [rnd(p) for p in poly[0].get_xy()]
        loop = [(a, b, None) for a, b in zip(xy, xy[1:] + xy[:1]) if not near(a, b)]
        dedupe(ctx, loop, want, "box:fill")
    else:
        fs = surfaces(ax)
        faces = {frozenset(corner[c] for c in corner if c[k] == v) for k in range(d) for v in (0, 1)}
        ctx.check(len(fs) == 6 and all(any(len(f) == 4 and all(any(near(p, q) for q in f) for p in w) for f in fs) for w in faces), "box:faces", lambda: fs[:3])
        for f in fs:
            dedupe(ctx, [(a, b, None) for a, b in zip(f, f[1:] + f[:1])], want, "box:face") if False else None
            for a, b in zip(f, f[1:] + f[:1]):
                ctx.check(any(near(a, x) and near(b, y) or near(a, y) and near(b, x) for x, y, _ in want), "box:face-loop", lambda: f)
    in_view2(ctx, ax, corner.values(), "box")


def in_view2(ctx, ax, pts, what):
    ax.autoscale_view()
    in_view(ctx, ax, pts, what)


def shape_circle(ctx, ax, sh, t, d):
    c, r = t
    cs = list(ax.patches)
    ctx.check(cs and any(p.get_fill() for p in cs), "circle:fill", "")
    for p in cs:
        path = p.get_path().transformed(p.get_patch_transform())
        v = np.array([x for x, code in zip(path.vertices, path.codes) if code in (1, 2, 4)])
        e = path.get_extents()
        ctx.check(np.allclose([e.x0, e.x1, e.y0, e.y1], [c[0] - r, c[0] + r, c[1] - r, c[1] + r], atol=1e-6), "circle:extent", lambda: e)
        del v


def shape_donut(ctx, ax, sh, t, d):
    c, ro, ri = t
    ls = [np.array(x.get_data()).T for x in ax.lines]
    rad = sorted(round(float(r), 6) for x in ls for r in {round(float(v), 6) for v in np.hypot(*(x - c).T)})
    ctx.check(rad == sorted((ri, ro)), "donut:radii", lambda: rad)
    for x in ls:
        ctx.check(near(x[0], x[-1]) and len(x) > 20 and np.abs(np.mean(x[:-1], 0) - c).max() < 1e-6, "donut:circle", "")
    poly = [p for p in ax.patches if p.get_fill()]
    ctx.check(len(poly) == 1, "donut:fill", lambda: len(poly))
    xy = poly[0].get_xy()
    rr = np.hypot(*(xy - c).T)
    ctx.check(np.all(np.isclose(rr, ri) | np.isclose(rr, ro)) and np.isclose(rr, ri).any() and np.isclose(rr, ro).any(), "donut:fill-radii", lambda: rr)
    x, y = xy[:, 0], xy[:, 1]
    area = 0.5 * abs(np.sum(x * np.roll(y, -1) - y * np.roll(x, -1)))
    ctx.check(abs(area - math.pi * (ro ** 2 - ri ** 2)) < 0.02 * math.pi * ro ** 2, "donut:fill-area", lambda: area)


def shape_hull(ctx, ax, sh, t, d):
    import scipy.spatial

    X = t[0]
    h = scipy.spatial.ConvexHull(X)
    verts = [rnd(X[i]) for i in h.vertices]
    segs = segments(ax)
    for a, b, _, _ in segs:
        for p in (a, b, tuple((x + y) / 2 for x, y in zip(a, b))):
            v = h.equations[:, :-1] @ np.array(p) + h.equations[:, -1]
            ctx.check(abs(v.max()) < 1e-6, "hull:edge", lambda: f"{(a, b)}")
    for v in verts:
        ctx.check(any(near(v, x[0]) or near(v, x[1]) for x in segs), "hull:vertex", lambda: v)
    if d == 2:
        L = sum(math.dist(a, b) for a, b, _, _ in segs)
        ctx.check(abs(L - h.area) < 1e-6, "hull:outline", lambda: f"{L} {h.area}")
        poly = [p for p in ax.patches if p.get_fill()]
        x, y = poly[0].get_xy().T
        a = 0.5 * abs(np.sum(x * np.roll(y, -1) - y * np.roll(x, -1)))
        ctx.check(len(poly) == 1 and abs(a - h.volume) < 1e-6, "hull:fill", lambda: a)
    else:
        fs = surfaces(ax)
        a = 0.0
        for f in fs:
            f = np.array(f)
            ctx.check(len(f) == 3, "hull:faces", lambda: f)
            a += 0.5 * np.linalg.norm(np.cross(f[1] - f[0], f[2] - f[0]))
        ctx.check(abs(a - h.area) < 1e-5, "hull:surface", lambda: f"{a} {h.area}")
        tri = {line_key(a, b) for a, b, _, _ in segs}
        w = {line_key(f[i], f[j]) for f in fs for i, j in ((0, 1), (1, 2), (0, 2))}
        ctx.check(tri == w, "hull:edges", "")


# -- Wigner-Seitz cells --------------------------------------------------------------------------
def part_wigner(case, ctx, lp, plt):
    V = np.array(cfgs.BASE[case["cfg"]][0], float)
    d = len(V)
    latt = lp.Lattice(V)
    for what in ("wigner_seitz_cell", "brillouin_zone"):
        ws = getattr(latt, what)()
        s = float(np.abs(ws.vertices).max())
        E = set()
        if d > 1:
            for e in ws.edges:
                e = [int(x) for x in e]
                for a, b in zip(e, e[1:] + e[:1]):
                    if a != b:
                        E.add((min(a, b), max(a, b)))
        for draw, pts, data, fill in itertools.product((True, False), repeat=4):
            ctx.begin("wigner", case["cfg"], what, draw, pts, data, fill)
            own = plt.figure().add_subplot(111, projection="3d" if d == 3 else None) if fill else None
            ctx.op("draw")
            ax = ws.draw(ax=own, color="r", point_color="b", lw=1.25, draw=draw, points=pts, draw_data=data, fill=fill)
            ctx.check(own is None or ax is own, "wigner:axes", "")
            got = [(p, c) for p, c, _, _ in points(ax, s)]
            w = [(rnd(plane(p), s), rgba("r")) for p in ws.vertices] if pts else []
            w += [(rnd(plane(p), s), rgba("b")) for p in ws.points] if data else []
            multiset(ctx, got, w, "wigner:points")
            segs = [x for x in segments(ax, s) if x[2] == rgba("r")]
            want = [(rnd(ws.vertices[a], s), rnd(ws.vertices[b], s), rgba("r")) for a, b in E] if draw else []
            dedupe(ctx, segs, want, "wigner:edges")
            ctx.check(all(x[3] == 1.25 for x in segs), "wigner:lw", "")
            rest = [x for x in segments(ax, s) if x[2] != rgba("r")]
            want = [(rnd([0.0] * d), rnd(p, s), rgba("b")) for p in ws.points if np.abs(p).max() > 1e-9] if data and d > 1 else []
            dedupe(ctx, rest, want, "wigner:vectors")
            if d == 3:
                fs = surfaces(ax)
                ctx.check(len(fs) == (len(ws.edges) if fill else 0), "wigner:faces", lambda: len(fs))
                for f, e in zip(fs, ws.edges):
                    ctx.check(all(any(near(rnd(ws.vertices[i]), p) for p in f) for i in e) and
                              all(any(near(rnd(ws.vertices[i]), p) for i in e) for p in f), "wigner:face", "")
            if pts:
                in_view2(ctx, ax, [plane(p) for p in ws.vertices], "wigner")
            if (draw, pts, data) == (True, True, True):
                ax.get_figure().canvas.draw()
            plt.close("all")
            ctx.state((case["cfg"], what, draw, pts, data, fill))
    ctx.outcome((case["cfg"], len(ws.vertices)))


# -- helpers -------------------------------------------------------------------------------------
def part_helpers(case, ctx, lp, plt):
    import lattpy.plotting as pl

    d = case["dim"]
    G = [np.array(p, float) for p in itertools.product((0.0, 1.0, -2.5), repeat=d)]
    new = lambda: plt.figure().add_subplot(111, projection="3d" if d == 3 else None)  # noqa
    sets = [np.array(G[:k]) for k in range(1, min(len(G), 6))] + [np.array(G)]
    for X in sets:
        for pos in [None] + ([np.array([0.5, -1.0, 2.0][:d])]):
            ctx.begin("vectors", X.tolist(), None if pos is None else pos.tolist())
            ctx.op("draw_vectors")
            ax = new()
            pl.draw_vectors(ax, X, pos, color="g", lw=2.0)
            p0 = np.zeros(d) if pos is None else pos
            want = [(rnd(plane(p0)), rnd(plane(p0 + v)), rgba("g")) for v in X if np.abs(v).max() > 0]
            lines_equal(ctx, [x[:3] for x in segments(ax)], want, "draw_vectors")
            plt.close("all")
            ctx.op("draw_arrows")
            ax = new()
            q = pl.draw_arrows(ax, X, pos)
            if d < 3:
                got = [(rnd(xy), rnd((u, v))) for xy, u, v in zip(q.XY, np.ravel(q.U), np.ravel(q.V))]
                ctx.check(got == [(rnd(plane(p0)), rnd(plane(v))) for v in X], "draw_arrows", lambda: got)
            in_view(ctx, ax, [plane(p0 + v) for v in X], "draw_arrows")
            plt.close("all")
        ctx.begin("points", X.tolist())
        ctx.op("draw_points")
        ax = new()
        pl.draw_points(ax, X, size=7, color="m")
        multiset(ctx, [(p, c) for p, c, _, _ in points(ax)], [(rnd(plane(x)), rgba("m")) for x in X], "draw_points")
        sz = {float(v) for c in ax.collections for v in np.atleast_1d(c.get_sizes())}
        ctx.check(sz == {49.0}, "draw_points:size", lambda: sz)
        in_view(ctx, ax, [plane(x) for x in X], "draw_points")
        plt.close("all")
        ctx.op("draw_sites")
        ax = new()
        pl.draw_sites(ax, X, radius=0.3, color="m", label="lab")
        multiset(ctx, [(p, c) for p, c, _, _ in points(ax)], [(rnd(plane(x)), rgba("m")) for x in X], "draw_sites")
        ctx.check("lab" in ax.get_legend_handles_labels()[1], "draw_sites:label", "")
        if d < 3:
            ctx.check(all(abs(r - 0.3) < 1e-9 for _, _, r, _ in points(ax)), "draw_sites:radius", "")
            ax.margins(0, 0)
            ax.autoscale_view()
            lo, hi = np.array([plane(x) for x in X]).min(0) - 0.3, np.array([plane(x) for x in X]).max(0) + 0.3
            in_view(ctx, ax, [lo + 1e-9, hi - 1e-9], "draw_sites")
            # the drawn radius is in data units
            ax.set_xlim(-4, 4)
            ax.set_ylim(-2, 2)
            ax.get_figure().canvas.draw()
            c = ax.collections[0]
            tr = c.get_transforms()[0]
            ctx.check(abs(tr[0, 0] - 0.3 * ax.bbox.width / 8) < 1e-6 and abs(tr[1, 1] - 0.3 * ax.bbox.height / 4) < 1e-6, "draw_sites:scaled", lambda: tr)
        plt.close("all")
        for off in (None, 0.25, np.array([0.1, 0.2, 0.3][:max(2, d)])):
            ctx.op("draw_indices")
            ax = new()
            if off is None:
                pl.text(ax, [f"s{i}" for i in range(len(X))], X)
            else:
                pl.draw_indices(ax, X, off)
            w = [(("s%d" if off is None else "%d") % i, rnd(np.array(plane(x)) + (0 if off is None else off))) for i, x in enumerate(X)]
            ctx.check(texts(ax) == w, "draw_indices", lambda: f"{texts(ax)} want {w}")
            plt.close("all")
        if d > 1 and len(X) > 1:
            ctx.op("draw_lines")
            ax = new()
            S = [np.array([a, b]) for a, b in zip(X[:-1], X[1:])]
            pl.draw_lines(ax, S, color="c")
            lines_equal(ctx, [x[:3] for x in segments(ax)], [(rnd(a), rnd(b), rgba("c")) for a, b in S], "draw_lines")
            ctx.op("draw_line")
            ln = pl.draw_line(ax, X, color="c")
            xyz = np.array(ln.get_data_3d() if d == 3 else ln.get_data()).T
            ctx.check(ln in ax.lines and np.allclose(xyz, X), "draw_line", lambda: xyz)
            plt.close("all")
        ctx.state((d, len(X)))
    if d == 2:
        for n in (1, 2, 3):
            for col in [None, []] + [[(a, b, "r")] for a in range(n) for b in range(n)] + [[(0, 0, "r"), (n - 1, 0, "b")]]:
                ctx.begin("colors", n, col)
                ctx.op("connection_color_array")
                got = pl.connection_color_array(n, "k", col)
                want = [["k"] * n for _ in range(n)]
                for a, b, c in col or ():
                    want[a][b] = want[b][a] = c
                ctx.check(got == want, "color-array", lambda: got)
        for axis in (False, True):
            ctx.begin("hide_box", axis)
            ax = new()
            ax.plot([0, 1], [0, 1])
            ctx.op("hide_box")
            pl.hide_box(ax, axis)
            vis = {k: ax.spines[k].get_visible() for k in ("top", "right", "left", "bottom")}
            ctx.check(vis == dict(top=False, right=False, left=not axis, bottom=not axis), "hide_box", lambda: vis)
            plt.close("all")
        # linear interpolation of a linear function is exact
        X = np.array(list(itertools.product((0.0, 1.0, 2.0, 3.5), (0.0, 0.7, 2.0))))
        for a, b, num in itertools.product((0.0, 1.5), (1.0, -2.0), ((5, 7), (9, 3))):
            ctx.begin("interpolate", a, b, num)
            ctx.op("interpolate_to_grid")
            xx, yy, zz = pl.interpolate_to_grid(X, a * X[:, 0] + b * X[:, 1], num=num)
            ctx.check(xx.shape == yy.shape == zz.shape == num[::-1], "interpolate:shape", lambda: zz.shape)
            ctx.check(np.allclose(xx[0], np.linspace(0, 3.5, num[0])) and np.allclose(yy[:, 0], np.linspace(0, 2, num[1])), "interpolate:grid", "")
            ok = ~np.isnan(zz)
            ctx.check(ok[1:-1, 1:-1].all() and np.allclose(zz[ok], (a * xx + b * yy)[ok]), "interpolate:values", "")
    ctx.outcome(d)
