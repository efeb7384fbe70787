"""C02  Building selects exactly the sites of the requested region."""
import itertools

import numpy as np

from . import cfgs, obs, ref, regions
from .core import lattpy

ID = "C02"
BOUNDS = {
    "quick": "all crystals (1D-4D) x all regions of the alphabet (cartesian boxes, primitive boxes, "
    "oblique shapes, balls, shells, hulls; offsets of both signs) x {build, build_indices} plus "
    "callbacks and dtypes, unfiltered indices and translation vectors of the same regions; whole numbers of unit cells of all rectangular bases; 1D sizes crossing every 127/128/255/256 boundary with both offsets; the same object built for all ordered pairs of regions; regions of up to 70000 sites, regions up to 3*10^6 away from the origin, all kinds of numbers for size and position",
    "thorough": "as quick with denser size/radius grids and boundary sweeps up to 70000 sites",
}
ASSUMPTIONS = ["regions whose boundary passes within (1e-6, 2.5e-3) outside of a site are skipped "
               "(the documented tolerance of the region test is 1e-3)"]

DTYPES = [None, "int16", "int32", "int64"]


def cases(tier):
    out = []
    for name in cfgs.names():
        cr = cfgs.crystal(name)
        for r in regions.boxes(cr, tier) + regions.shapes(cr, tier):
            out.append(dict(cfg=name, region=r))
    for name in ("chain", "chain-neg", "ssh", "square", "honeycomb", "sc"):
        cr = cfgs.crystal(name)
        for r in regions.boxes(cr, tier)[:: 3]:
            for cb in range(1, 4):
                out.append(dict(cfg=name, region=r, callback=cb))
            for dt in DTYPES[1:]:
                out.append(dict(cfg=name, region=r, dtype=dt))
    # the same lattice built again for other regions
    for name in cfgs.names():
        cr = cfgs.crystal(name)
        rs = regions.boxes(cr, "quick") + regions.shapes(cr, "quick")
        rs = [r for r in rs if not r.get("dense")][:: max(1, len(rs) // 7)]
        for r in rs:
            out.append(dict(cfg=name, region=r, again=[x for x in rs if x != r]))
    # size sweeps crossing the integer-width boundaries of index storage
    sweep = [60, 100, 126, 127, 128, 129, 200, 254, 255, 256, 257, 300]
    if tier == "thorough":
        sweep += [400, 511, 512, 1000, 32767, 32768, 33000, 65535, 65536, 70000]
    for s in sweep:
        for p in (None, -s // 2, -s, 1000, -130):
            r = dict(kind="box", size=s)
            if p is not None:
                r["pos"] = p
            out.append(dict(cfg="chain", region=r))
            if s <= 1000:
                out.append(dict(cfg="ssh", region=r))
                out.append(dict(cfg="chain-neg", region=r))
    for s in ([130, 1], [1, 130], [257, 2], [2, 257]):
        for p in (None, [-s[0] // 2, -s[1] // 2], [-130, 1]):
            r = dict(kind="box", size=s)
            if p is not None:
                r["pos"] = p
            for name in ("square", "hex", "honeycomb"):
                out.append(dict(cfg=name, region=r))
    out += [dict(cfg="sc", region=dict(kind="box", size=s)) for s in ([130, 1, 1], [1, 130, 1], [1, 1, 130])]
    # regions with many sites
    for name, s in (("chain", 999), ("chain", 1001), ("chain", 4097), ("chain", 32768), ("chain", 70000), ("ssh", 2050), ("tri-chain", 1500), ("square", [36, 31]),
                    ("square", [70, 69]), ("hexs", [40, 33]), ("honeycomb", [70, 41]), ("rot20", [33, 33]), ("kagome", [40, 30]), ("sc", [11, 10, 9]),
                    ("fcc", [6, 7, 6]), ("diamond", [5, 6, 5]), ("hyper4", [5, 5, 5, 4])):
        d = 1 if np.isscalar(s) else len(s)
        L = abs(np.linalg.det(cfgs.crystal(name).V)) ** (1 / d)
        for p in (None, -17.25):
            r = dict(kind="box", size=s, pos=None if p is None else (p if d == 1 else [p] * d))
            out.append(dict(cfg=name, region={k: v for k, v in r.items() if v is not None}))
            q = dict(r, primitive=True, size=s + 0.37 if d == 1 else [x + 0.37 for x in s])
            out.append(dict(cfg=name, region={k: v for k, v in q.items() if v is not None}))
        if d in (2, 3):
            R = (20.3 if d == 2 else 6.3) * L
            for c in (0.0, 3.3):
                out.append(dict(cfg=name, region=dict(kind="circle", pos=[c] * d, radius=R)))
                out.append(dict(cfg=name, region=dict(kind="donut", pos=[c] * d, ro=R, ri=0.4 * R)))
                out.append(dict(cfg=name, region=dict(kind=f"hull{d}", pos=[c] * d, scale=(7.0 if d == 2 else 4.0) * L)))
    # far away from the origin: cell numbers of every width
    for p in (130, 1000, 32760, 32770, 65540, 10**6, 3 * 10**6):
        for sg in (1, -1):
            out += [dict(cfg=n, region=dict(kind="box", size=5, pos=sg * p)) for n in ("chain", "chain-neg", "ssh")]
            out += [dict(cfg="square", region=dict(kind="box", size=[3, 2], pos=q)) for q in ([sg * p, 1], [-2, sg * p])]
            out.append(dict(cfg="honeycomb", region=dict(kind="circle", pos=[sg * p + 0.3, 0.2], radius=3.3)))
            out.append(dict(cfg="square", region=dict(kind="box", size=[3.37, 2.37], pos=[sg * p, 1], primitive=True)))
            out.append(dict(cfg="sc", region=dict(kind="box", size=[2, 1, 1], pos=[0, 1, sg * p])))
    # kinds of numbers of size and position
    for name in ("chain", "ssh", "chain-neg", "square", "honeycomb", "rect", "sc", "nacl-ab"):
        d = cfgs.crystal(name).dim
        for prim in (False, True):
            for sz, po in (([3, 2, 2], [-2, 1, 0]), ([2.5, 1.5, 2.25], [0.25, -1.75, 3]), ([4, 3, 2], None), ([100, 1, 1], [100, 0, 1]), ([2.5, 3, 1], [0, 0, 0])):
                out.append(dict(cfg=name, forms=sz[:d], pos=None if po is None else po[:d], primitive=prim))
    # whole numbers of unit cells of rectangular bases: the far boundary is excluded
    for name in cfgs.names():
        cr = cfgs.crystal(name)
        if np.any(cr.V - np.diag(np.diag(cr.V))) or np.any(np.diag(cr.V) <= 0):
            continue
        if (cr.R @ cr.Vinv).min() < -1e-9 or (cr.R @ cr.Vinv).max() > 0.99:
            continue
        ext = {1: range(1, 8), 2: range(1, 5), 3: range(1, 4), 4: range(1, 3)}[cr.dim]
        for e in itertools.product(ext, repeat=cr.dim):
            for p in (None, 2, -3):
                out.append(dict(cfg=name, whole=list(e), pos=p))
    return out


def callback(kind):
    if kind == 1:
        return lambda ind, pos: ind[:, 0] >= 1
    if kind == 2:
        return lambda ind, pos: pos[:, 0] < pos[:, 0].mean() + 0.3
    return lambda ind, pos: (ind[:, 0] + ind[:, -1]) % 2 == 0


def run(case, ctx):
    lp = lattpy()
    cr = cfgs.crystal(case["cfg"])
    if "forms" in case:
        return forms(case, ctx, lp, cr)
    if "whole" in case:
        return whole(case, ctx, lp, cr)
    r = case["region"]
    want, amb = regions.sites(cr, r)
    if amb or len(want) == 0:
        ctx.skipped += 1
        return
    cb = case.get("callback")
    kw0 = {}
    if cb:
        ids = sorted(want)
        ind = np.array(ids)
        m = callback(cb)(ind, cr.poss(ind))
        want = {i for i, ok in zip(ids, m) if ok}
        if not want:
            ctx.skipped += 1
            return
        kw0["callback"] = callback(cb)
    if case.get("dtype"):
        kw0["dtype"] = np.dtype(case["dtype"])
    shape, kw = regions.build_args(lp, cr, r)

    ctx.begin("configure")
    latt = cfgs.make(lp, case["cfg"])
    ctx.op(f"build_indices({r})")
    ind, pos = latt.build_indices(shape, return_pos=True, **kw, **kw0) if "pos" not in kw and "primitive" not in kw \
        else latt.build_indices(lp.Shape(shape, kw.get("pos"), latt.vectors if kw.get("primitive") else None),
                                primitive=bool(kw.get("primitive")), return_pos=True, **kw0)
    got = [tuple(int(x) for x in row) for row in ind]
    ctx.check(len(got) == len(set(got)), "build_indices:duplicate", lambda: obs.dups(got))
    ctx.check(set(got) == want, "build_indices:wrong-set", lambda: diff(set(got), want))
    ctx.check(len(pos) == len(got) and np.abs(np.asarray(pos, float) - cr.poss(got)).max() < 1e-6,
              "build_indices:position", "")
    if not kw0 and len(want) < 3000:
        unchecked(ctx, lp, latt, cr, r, shape, kw, want)
    ctx.op(f"build({r})")
    latt = cfgs.make(lp, case["cfg"])
    latt.build(shape, num_jobs=1, **kw, **kw0)
    obs.check_sites(ctx, latt, cr, want)
    p = cr.poss(sorted(want))
    ctx.check(np.allclose(latt.shape, p.max(0) - p.min(0), atol=1e-6), "shape-attribute",
              lambda: f"{latt.shape} want {p.max(0) - p.min(0)}")
    ctx.check(np.allclose(latt.pos, p.min(0), atol=1e-6), "pos-attribute", lambda: f"{latt.pos} want {p.min(0)}")
    if case.get("again") is not None:
        again(case, ctx, lp, cr, latt)
    ctx.state((case["cfg"], str(r), tuple(sorted(want))))
    ctx.outcome(len(want))


def again(case, ctx, lp, cr, latt):
    """Building the same lattice again: only the new region counts."""
    for r in case["again"]:
        want, amb = regions.sites(cr, r)
        if amb or not want:
            continue
        shape, kw = regions.build_args(lp, cr, r)
        ctx.op(f"build({r})")
        latt.build(shape, num_jobs=1, **kw)
        obs.check_sites(ctx, latt, cr, want, "again")
        p = cr.poss(sorted(want))
        ctx.check(np.allclose(latt.shape, p.max(0) - p.min(0), atol=1e-6), "again:shape-attribute", lambda: latt.shape)
        ctx.check(np.allclose(latt.pos, p.min(0), atol=1e-6), "again:pos-attribute", lambda: f"{latt.pos} want {p.min(0)}")
        ctx.check(bool(latt.primitive) == bool(kw.get("primitive", False)), "again:primitive", lambda: latt.primitive)
        ctx.state((case["cfg"], str(case["region"]), str(r)))


def unchecked(ctx, lp, latt, cr, r, shape, kw, want):
    """Translation vectors and unfiltered indices of the region."""
    obj = shape if not kw else lp.Shape(shape, kw.get("pos"), latt.vectors if kw.get("primitive") else None)
    prim = bool(kw.get("primitive"))
    ctx.op("build_indices(check=False)")
    ind, pos = latt.build_indices(obj, primitive=prim, check=False, return_pos=True)
    got = [tuple(int(x) for x in row) for row in ind]
    ctx.check(len(got) == len(set(got)) and want <= set(got), "unfiltered:missing", lambda: sorted(want - set(got))[:5])
    ctx.check(np.abs(np.asarray(pos, float) - cr.poss(got)).max() < 1e-6 * max(1.0, np.abs(pos).max()), "unfiltered:position", "")
    ctx.op("build_indices(return_pos=False)")
    ctx.check(latt.build_indices(obj, primitive=prim)[1] is None, "return_pos", "")
    cells, amb = regions.sites(ref.Crystal(cr.V, [[0.0] * cr.dim], 0), r)
    if amb:
        return
    cells = {c[:-1] for c in cells}
    for chk in (True, False):
        ctx.op(f"build_translation_vectors(check={chk})")
        got = [tuple(int(x) for x in row) for row in latt.build_translation_vectors(obj, primitive=prim, check=chk)]
        ctx.check(len(got) == len(set(got)), "cells:duplicate", lambda: obs.dups(got))
        ctx.check(cells <= set(got) if not chk else cells == set(got), "cells:wrong-set", lambda: diff(set(got), cells))


def whole(case, ctx, lp, cr):
    """n unit cells of a rectangular basis: fractional coordinates in [p, p + n)."""
    e, p = case["whole"], case["pos"] or 0
    fr = cr.R @ cr.Vinv
    want = set()
    for a in range(cr.n):
        ranges = []
        for ax in range(cr.dim):
            f = fr[a, ax]
            top = (f - round(f)) % 1.0
            if 0.99 < top < 1 - 1e-9:
                ctx.skipped += 1
                return
            lo = int(np.ceil(p - f - 1e-9))
            ranges.append(range(lo, lo + e[ax]))
        want |= {c + (a,) for c in itertools.product(*ranges)}
    ctx.begin("configure")
    latt = cfgs.make(lp, case["cfg"])
    kw = {} if case["pos"] is None else dict(pos=[p] * cr.dim if cr.dim > 1 else p)
    ctx.op(f"build({e}, primitive)")
    latt.build(e if cr.dim > 1 else e[0], primitive=True, num_jobs=1, **kw)
    obs.check_sites(ctx, latt, cr, want, "whole-cells")
    ctx.state((case["cfg"], tuple(e), p))
    ctx.outcome(len(want))


def kinds(x):
    out = [list(x), tuple(x), np.array(x, float)]
    if len(x) == 1:
        out += [x[0], float(x[0]), np.float64(x[0])]
    for t in ("float32", "int64", "int32", "int16", "int8", "uint8"):
        if np.array_equal(np.array(x, float), np.array(x, float).astype(t).astype(float)):
            out.append(np.array(x, t))
    return out


def forms(case, ctx, lp, cr):
    """Size and position as any kind of numbers: the same lattice."""
    r = dict(kind="box", size=[float(x) for x in case["forms"]], primitive=case["primitive"])
    if case["pos"] is not None:
        r["pos"] = [float(x) for x in case["pos"]]
    want, amb = regions.sites(cr, r)
    if case["primitive"] or amb:  # cells on the boundary: the reference is the lattice of plain numbers
        latt = cfgs.make(lp, case["cfg"])
        latt.build(r["size"], primitive=case["primitive"], pos=r.get("pos"), num_jobs=1)
        want = {tuple(int(x) for x in row) for row in latt.indices}
    for i, size in enumerate(kinds(case["forms"])):
        for j, pos in enumerate(kinds(case["pos"]) if case["pos"] is not None else [None]):
            ctx.begin(case["cfg"])
            kw = {} if pos is None else dict(pos=pos)
            if case["primitive"]:
                kw["primitive"] = True
            ctx.op(f"build({size!r}, {kw!r})")
            latt = cfgs.make(lp, case["cfg"])
            latt.build(size, num_jobs=1, **kw)
            obs.check_sites(ctx, latt, cr, want, "forms")
            ctx.state((case["cfg"], case["primitive"], tuple(case["forms"]), i, j))
            if case["primitive"]:
                continue
            ctx.op("Shape")
            latt = cfgs.make(lp, case["cfg"])
            latt.build(lp.Shape(size, pos), num_jobs=1)
            obs.check_sites(ctx, latt, cr, want, "forms-shape")


def diff(got, want):
    return (f"missing {sorted(want - got)[:6]} ({len(want - got)}) extra {sorted(got - want)[:6]} "
            f"({len(got - want)}) of {len(want)}")
