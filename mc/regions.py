"""Finite alphabet of build regions and their reference predicates."""
import itertools

import numpy as np

from . import ref

POLY = [[0.0, 0.0], [4.1, 0.3], [5.2, 3.1], [2.4, 5.3], [-0.6, 3.2]]  # counter-clockwise
TRI3 = [[0.0, 0, 0], [4.2, 0, 0], [0, 4.3, 0], [0, 0, 4.4]]


def region(crystal, r):
    """r: dict(kind=..., ...) -> (lo, hi, margin function)."""
    k = r["kind"]
    d = crystal.dim
    if k == "box":
        size = np.broadcast_to(np.asarray(r["size"], float), (d,)) if d == 1 else np.asarray(r["size"], float)
        lo = np.zeros(d) if r.get("pos") is None else np.broadcast_to(np.asarray(r["pos"], float), (d,))
        if r.get("primitive") or r.get("basis"):
            B = crystal.V if r.get("primitive") else np.asarray(r["basis"], float)
            corners = np.array([(lo + np.array(c) * size) @ B for c in itertools.product((0, 1), repeat=d)])
            return corners.min(0), corners.max(0), ref.par_margin(lo, size, B)
        return lo, lo + size, ref.box_margin(lo, size)
    if k == "circle":
        c = np.asarray(r["pos"], float)
        return c - r["radius"], c + r["radius"], ref.ball_margin(c, r["radius"])
    if k == "donut":
        c = np.asarray(r["pos"], float)
        return c - r["ro"], c + r["ro"], ref.donut_margin(c, r["ro"], r["ri"])
    if k == "hull2":
        p = np.asarray(POLY, float) * r["scale"] + np.asarray(r["pos"], float)
        return p.min(0), p.max(0), ref.hull_margin_2d(p)
    if k == "hull3":
        # tetrahedron {x_i >= p_i, sum (x_i - p_i)/s_i <= 1}
        p0 = np.asarray(r["pos"], float)
        s = np.array([4.2, 4.3, 4.4]) * r["scale"]

        def f(p):
            q = p - p0
            n = 1 / s
            return np.maximum(np.max(-q, axis=1), (q @ n - 1) / np.linalg.norm(n))

        return p0, p0 + s, f
    raise KeyError(k)


def sites(crystal, r):
    lo, hi, m = region(crystal, r)
    return crystal.sites_where(lo, hi, m)


def build_args(lp, crystal, r):
    """(shape argument, keyword arguments) for Lattice.build / build_indices."""
    k = r["kind"]
    if k == "box":
        size, pos = r["size"], r.get("pos")
        kw = {}
        if r.get("as_shape"):
            basis = crystal.V if r.get("primitive") else r.get("basis")
            return lp.Shape(size, pos, basis), kw
        if r.get("primitive"):
            kw["primitive"] = True
        if pos is not None:
            kw["pos"] = pos
        return size, kw
    if k == "circle":
        return lp.Circle(r["pos"], r["radius"]), {}
    if k == "donut":
        return lp.Donut(r["pos"], r["ro"], r["ri"]), {}
    if k == "hull2":
        p = np.asarray(POLY, float) * r["scale"] + np.asarray(r["pos"], float)
        return lp.ConvexHull(p), {}
    if k == "hull3":
        s = np.array([4.2, 4.3, 4.4]) * r["scale"]
        p = np.vstack([np.zeros(3), np.diag(s)]) + np.asarray(r["pos"], float)
        return lp.ConvexHull(p), {}
    raise KeyError(k)


def boxes(crystal, tier):
    """Box-like regions, scaled to the size of the unit cell."""
    d = crystal.dim
    L = abs(np.linalg.det(crystal.V)) ** (1 / d)
    out = []
    if d == 1:
        sizes = [1, 2, 3.5, 7]
        poss = [None, 0.5, -3, -7.25, 11]
        for s in sizes:
            for p in poss:
                out.append(dict(size=s * L, pos=None if p is None else p * L))
        for s in (1.37, 2.37, 6.63):
            for p in (None, -4, 3):
                out.append(dict(size=s, pos=p, primitive=True))
    elif d == 2:
        ss = [1.0, 2.5, 4.0] if tier == "quick" else [1.0, 2.0, 2.5, 4.0, 5.3]
        poss = [None, (-2.25, 1.5), (3.0, -4.0), (0.5, 7.0)]
        for s in itertools.product(ss, repeat=2):
            for p in poss:
                out.append(dict(size=[x * L for x in s], pos=None if p is None else [x * L for x in p]))
        for s in itertools.product([1.37, 2.37, 3.63], repeat=2):
            for p in (None, (-3, 1), (2, 2.55)):
                out.append(dict(size=list(s), pos=None if p is None else list(p), primitive=True))
    elif d == 3:
        ss = [(1.5, 1.5, 1.5), (2.5, 1.0, 2.0), (1.0, 3.0, 1.5)]
        if tier == "thorough":
            ss = list(itertools.product([1.0, 2.0, 2.5], repeat=3))
        for s in ss:
            for p in (None, (-1.25, 2.0, 0.5), (3.0, -2.0, -1.0)):
                out.append(dict(size=[x * L for x in s], pos=None if p is None else [x * L for x in p]))
        for s in [(1.37, 1.37, 1.37), (1.63, 1.37, 2.37), (2.37, 2.37, 0.63)]:
            for p in (None, (-2, 1, 1)):
                out.append(dict(size=list(s), pos=None if p is None else list(p), primitive=True))
    else:
        out.append(dict(size=[1.0 * L] * d, pos=None))
        out.append(dict(size=[2.0 * L] + [1.0 * L] * (d - 1), pos=[-1.0 * L] * d))
        out.append(dict(size=[1.37] * d, pos=None, primitive=True))
    for o in out:
        o["kind"] = "box"
    return [{k: v for k, v in o.items() if v is not None} for o in out]


def shapes(crystal, tier):
    d = crystal.dim
    L = abs(np.linalg.det(crystal.V)) ** (1 / d)
    out = []
    rads = (1.6, 2.55, 3.3) if tier == "quick" else (1.2, 1.6, 2.1, 2.55, 3.3, 4.15)
    if d == 2:
        for c in ((0.0, 0.0), (-3.1, 2.2), (0.5, 0.25)):
            c = [x * L for x in c]
            for r in rads:
                out.append(dict(kind="circle", pos=c, radius=r * L))
                out.append(dict(kind="donut", pos=c, ro=(r + 0.9) * L, ri=r * L * 0.6))
            out.append(dict(kind="hull2", pos=c, scale=L))
        for b in ([[1.0, 0.2], [0.0, 1.0]], [[0.8, -0.5], [0.3, 1.1]]):
            for p in (None, [-2.5, 1.25]):
                out.append(dict(kind="box", size=[3.3 * L, 2.6 * L], pos=p, basis=b, as_shape=True))
    elif d == 3:
        for c in ((0.0, 0.0, 0.0), (-1.1, 0.7, 2.2)):
            c = [x * L for x in c]
            out.append(dict(kind="circle", pos=c, radius=1.55 * L))
            out.append(dict(kind="donut", pos=c, ro=1.9 * L, ri=0.85 * L))
            out.append(dict(kind="hull3", pos=c, scale=0.6 * L))
    elif d == 1:
        for c in (0.0, -3.3):
            out.append(dict(kind="circle", pos=[c * L], radius=3.2 * L))
            out.append(dict(kind="donut", pos=[c * L], ro=4.2 * L, ri=1.4 * L))
    return [{k: v for k, v in o.items() if v is not None} for o in out]
