"""C04  Periodic boundary conditions turn a commensurate lattice into a torus."""
import itertools

import numpy as np

from . import cfgs, huge, obs, ref
from .core import lattpy

ID = "C04"
BOUNDS = {
    "quick": "all 1D-3D crystals (4D: hypercubic) x blocks of unit cells (every extent 3..5 per axis "
    "in 1D/2D, 3..4 in 3D; plus 1/2-cell extents where the quotient is simple) x both origins x every "
    "non-empty set of axes x 4 ways of requesting them; cartesian boxes for all bases with lattice "
    "vectors along the axes; long chains across the 127/128, 255/256 index boundaries; lattices across 32768 and 65536 sites; few connections among many closer sites",
    "thorough": "as quick with extents 2..7 (1D/2D) and 2..5 (3D), and two more origins",
}
ASSUMPTIONS = [
    "commensurate lattices only: the site set is a complete set of representatives modulo the "
    "periodic translations (documented use: full unit cells / matching boxes)",
    "every pair of sites is connected by at most one image and no bond wraps around the lattice more "
    "than once (documented: at least three atoms per axis)",
]



def axis_vectors(V, ax):
    """Shortest lattice vector along cartesian axis ax (or None), brute force."""
    best = None
    d = len(V)
    for n in itertools.product(range(-4, 5) if d > 2 else range(-14, 15), repeat=d):
        v = np.array(n) @ V
        if v[ax] > 1e-9 and np.all(np.abs(np.delete(v, ax)) < 1e-9):
            if best is None or v[ax] < best[0] - 1e-9:
                best = (float(v[ax]), n)
    return best


def cases(tier):
    out = []
    for name in cfgs.names():
        cr = cfgs.crystal(name)
        d = cr.dim
        if d <= 2:
            ext = range(3, 6) if tier == "quick" else range(2, 8)
        elif d == 3:
            ext = range(3, 5) if tier == "quick" else range(2, 6)
        else:
            ext = [3]
        kmax = int(cr.C.max())
        extra = [e for e in (5, 6, 7, 9) if kmax > 1 and e not in ext] if d < 3 else []
        origins = [0, -5] if tier == "quick" else [0, -5, 3, 120]
        exts = list(itertools.product(ext, repeat=d)) + [(e,) * d for e in extra]
        if 1 < d < 4:
            exts += [(1,) + (4,) * (d - 1), (4,) * (d - 1) + (2,)]
        for e in exts:
            for o in origins if d < 3 else origins[:1]:
                out.append(dict(cfg=name, cells=list(e), origin=o))
        # cartesian boxes
        av = [axis_vectors(cr.V, ax) for ax in range(d)]
        ok = [a is not None for a in av]
        if any(ok) and d < 4:
            for e in itertools.product([2, 3, 4] if d < 3 else [2, 3], repeat=d):
                for o in (0, -1):
                    out.append(dict(cfg=name, box=list(e), origin=o))
    for name in ("slant3", "slant4", "slant5", "slant11", "slant-y"):
        for e in ([1, 4], [4, 1], [1, 1], [2, 6], [6, 2]):
            for o in (0, -1):
                out.append(dict(cfg=name, box=e, origin=o))
    for n in (100, 126, 200, 127, 128, 129, 254, 255, 256, 257):
        for o in (0, -n // 2, -n):
            out.append(dict(cfg="chain", cells=[n], origin=o))
            out.append(dict(cfg="ssh", cells=[n], origin=o))
    for e in ([130, 3], [3, 130], [16, 16], [15, 17], [4, 64], [64, 4], [16, 8], [8, 16]):
        out.append(dict(cfg="square", cells=e, origin=0))
        out.append(dict(cfg="square-n2", cells=e, origin=0))
        out.append(dict(cfg="honeycomb", cells=e, origin=-4))
    for e in ([13, 3], [26, 3]):
        out.append(dict(cfg="stripes", cells=e, origin=0))
    out.append(dict(cfg="screen", cells=[24, 2], origin=0))
    for e in ([10, 10, 2], [10, 3, 3]):
        out.append(dict(cfg="layers", cells=e, origin=0))
    out += huge.cases()
    return out


def build(lp, case):
    """Returns (lattice, crystal, set of sites, {axis: period in cells}) or None."""
    cr = cfgs.crystal(case["cfg"])
    latt = cfgs.make(lp, case["cfg"])
    d = cr.dim
    o = case["origin"]
    if "cells" in case:
        e = case["cells"]
        frac = cr.R @ cr.Vinv
        if frac.min() < -1e-6 or frac.max() > 0.95:
            return None
        # a primitive box covering exactly the requested cells
        lo = np.full(d, float(o)) - 0.02
        size = np.array(e, float) - 0.02
        latt.build(size if d > 1 else float(size[0]), primitive=True, pos=lo if d > 1 else float(lo[0]), num_jobs=1)
        cells = itertools.product(*[range(o, o + n) for n in e])
        want = {c + (a,) for c in cells for a in range(cr.n)}
        per = {i: tuple(int(n if i == j else 0) for j, n in enumerate(e)) for i in range(d)}
    else:
        e = case["box"]
        av = [axis_vectors(cr.V, ax) for ax in range(d)]
        lo, size, per = np.zeros(d), np.zeros(d), {}
        for ax in range(d):
            if av[ax] is None:
                size[ax] = e[ax] * 1.01 + 0.02
            else:
                L = e[ax] * av[ax][0]
                lo[ax] = o * L - 0.02
                size[ax] = L - 0.02
                per[ax] = tuple(int(x) * e[ax] for x in av[ax][1])
        want, amb = cr.sites_where(lo, lo + size, ref.box_margin(lo, size))
        if amb or not want:
            return None
        latt.build(size if d > 1 else float(size[0]), pos=lo if d > 1 else float(lo[0]), num_jobs=1)
        # the period must be the documented one: extent of the lattice points plus one spacing
        want = set(want)
    return latt, cr, want, per


def simple_torus(cr, want, tvecs):
    """The quotient relation, or None if some pair is connected by several images."""
    t = ref.torus(cr, want, tvecs)
    T = np.array(tvecs)
    unit = {tuple(int(x) for x in np.array(c) @ T) for c in itertools.product((-1, 0, 1), repeat=len(T))}
    out = {}
    for (s, u), im in t.items():
        if s == u or len(im) != 1 or not all(sh in unit for _, sh in im):
            return None
        out[(s, u)] = next(iter(im))
    # complete: every site has all of its neighbors along the periodic directions
    return out


def tiles(cr, want, tvecs):
    """The sites are pairwise inequivalent modulo the translations."""
    T = np.array(tvecs)
    for c in itertools.product(range(-2, 3), repeat=len(T)):
        if any(c):
            sh = np.array(c) @ T
            for s in want:
                if tuple(int(x) for x in np.array(s[:-1]) + sh) + (s[-1],) in want:
                    return False
    return True


def check_periodic(ctx, latt, cr, ids, g, what):
    """g: {(s,t): (dist, shift)} is the expected relation."""
    obs.cmp_graph(ctx, obs.graph(ctx, latt, ids, what), {k: v[0] for k, v in g.items()}, what)
    exp = {}
    for (s, t), (dd, sh) in g.items():
        exp.setdefault(s, {})[t] = (dd, sh)
    data = latt.data
    for i, s in enumerate(ids):
        e = exp.get(s, {})
        p = sorted(ids[int(j)] for j in data.get_neighbors(i, periodic=True))
        q = sorted(ids[int(j)] for j in data.get_neighbors(i, periodic=False))
        ctx.check(p == sorted(t for t, v in e.items() if any(v[1])), what + ":periodic-flag", lambda: f"{s}: {p}")
        ctx.check(q == sorted(t for t, v in e.items() if not any(v[1])), what + ":regular-flag", lambda: f"{s}: {q}")
        # stored image vectors reproduce the bond lengths
        m = np.asarray(data.neighbor_mask(i))
        for j, nv in zip(np.asarray(data.neighbors)[i][m], np.asarray(data.pnvecs)[i][m]):
            t = ids[int(j)]
            dv = cr.pos(t) - np.asarray(nv, float) @ cr.V - cr.pos(s)
            ctx.check(abs(np.linalg.norm(dv) - e[t][0]) < 1e-3, what + ":image-vector",
                      lambda: f"{s}->{t} nvec {nv}: length {np.linalg.norm(dv)} want {e[t][0]}")


def ways(axes, d):
    """Equivalent ways to request the axes."""
    w = [("set_periodic(list)", lambda l: l.set_periodic(list(axes)))]
    if len(axes) == 1:
        w.append(("set_periodic(int)", lambda l: l.set_periodic(axes[0])))
    else:
        w.append(("set_periodic(reversed)", lambda l: l.set_periodic(tuple(axes[::-1]))))
    w.append(("set_periodic(negative)", lambda l: l.set_periodic([a - d for a in axes])))
    if len(axes) == d:
        w.append(("set_periodic(True)", lambda l: l.set_periodic(True)))
    else:
        w.append(("all-then-these", lambda l: (l.set_periodic(True), l.set_periodic(np.array(axes)))))
    return w


def run(case, ctx):
    lp = lattpy()
    if case.get("mode") == "huge":
        return huge.run(ctx, lp, case, [("views",), ("open",)])
    b = build(lp, case)
    if b is None:
        ctx.skipped += 1
        return
    latt, cr, want, per = b
    if not cr.well_separated():
        ctx.skipped += 1
        return
    done = 0
    base = None
    for r in range(1, len(per) + 1):
        for axes in itertools.combinations(sorted(per), r):
            tv = [per[a] for a in axes]
            g = simple_torus(cr, want, tv)
            if g is None or ("box" in case and not tiles(cr, want, tv)):
                ctx.skipped += 1
                continue
            ctx.begin("build")
            done += 1
            if base is None:
                base = obs.check_sites(ctx, latt, cr, want)
            for name, w in ways(list(axes), cr.dim):
                if len(want) > 150 and name not in ("set_periodic(list)", "set_periodic(int)"):
                    continue
                ctx.op(f"{name} {axes}")
                w(latt)
                check_periodic(ctx, latt, cr, base, g, "periodic")
                ctx.check(sorted(int(a) % cr.dim for a in latt.periodic_axes) == list(axes), "periodic_axes",
                          lambda: f"{latt.periodic_axes} want {axes}")
            ctx.state((case["cfg"], str(case), axes))
            ctx.outcome((case["cfg"], len(g)))
            ctx.op("set_periodic(None)")
            latt.set_periodic(None)
            obs.cmp_graph(ctx, obs.graph(ctx, latt, base), cr.graph(want), "removed")
            ctx.check(len(latt.periodic_axes) == 0, "periodic_axes", "not reset")
    if not done:
        ctx.skipped += 1
