"""C12  Shapes contain exactly their points and lie within their limits."""
import itertools

import numpy as np

from . import cfgs
from .core import lattpy

ID = "C12"
BOUNDS = {
    "quick": "boxes of dimension 1-4: every size in {0,0.5,1,3}^d x 4 positions x (no basis and 7 bases), circles and balls "
    "(1D-4D): 5 radii x 4 centers, donuts: 6 radius pairs x 4 centers, convex hulls of 18 point sets in 2D-4D; all shapes with 18 numbers of points up to 131073; 6 "
    "tolerances; every point of a grid over the shape and its surroundings plus points displaced from every face by "
    "fractions and multiples of the tolerance; point sets of size 0, 1 and all; points exactly on the border; every kind of numbers for sizes, positions, radii, bases and points; check_points of a lattice for "
    "boxes (cartesian and primitive) and shape objects with all bases",
    "thorough": "as quick with a grid of twice the density and hulls of every subset of >= 3 points of a 3x3 grid",
}
ASSUMPTIONS = ["points within 1e-9 (relative) of the border of curved or oblique shapes may be on either side"]
TOLS = [None, 0.0, 1e-10, 1e-3, 0.05, 0.5]
POS = [None, 0.0, -1.5, 2.25]
B2 = {
    "neg": [[-1.0, 0.0], [0.0, 2.0]],
    "hex": cfgs.HEX,
    "hexs": cfgs.HEXS,
    "skew": [[1.0, 0.0], [2.0, 1.0]],
    "left": [[0.0, 1.0], [1.0, 0.0]],
    "rot": cfgs.rot(cfgs.E2, 33),
    "small": [[0.01, 0.002], [0.0, 0.02]],
}
B1 = {"b2": [[2.0]], "neg": [[-0.5]]}
B3 = {"fcc": cfgs.FCC, "bcc": cfgs.BCC, "tric": [[1.0, 0, 0], [0.2, 1.1, 0], [0.1, 0.3, 0.9]], "perm": [[0, 1.0, 0], [0, 0, 1.0], [2.0, 0, 0]]}
B4 = {"b": (np.eye(4) + 0.25 * np.eye(4, k=1)).tolist()}
BAS = {1: B1, 2: B2, 3: B3, 4: B4}

HULLS = {
    "tri": [[0, 0], [2, 0], [0.5, 1.5]],
    "tri-cw": [[0, 0], [0.5, 1.5], [2, 0]],
    "square": [[0, 0], [2, 0], [2, 2], [0, 2]],
    "square-in": [[0, 0], [2, 0], [1, 1], [2, 2], [0, 2], [0.5, 0.7]],
    "hexagon": [[np.cos(t), np.sin(t)] for t in np.arange(6) * np.pi / 3],
    "far": [[10, -7], [12, -7], [13, -5], [9, -4]],
    "thin": [[0, 0], [5, 0.1], [5, 0.2]],
    "penta": [[0, -1], [1.5, 0], [1, 2], [-1, 2], [-1.25, 0.5]],
    "tiny": [[0, 0], [0.01, 0], [0, 0.02]],
    "circle12": [[3 * np.cos(t), np.sin(t)] for t in np.arange(12) * np.pi / 6 + 0.1],
    "circle40": [[np.cos(t) - 4, 2 * np.sin(t) + 1] for t in np.arange(40) * np.pi / 20],
    "cloud": [[(7 * i) % 31 / 10, (11 * i) % 31 / 12] for i in range(31)],
    "ball26": [[np.cos(t) * np.sin(u), np.sin(t) * np.sin(u), 2 * np.cos(u)] for t in np.arange(8) * np.pi / 4 for u in (0.5, 1.4, 2.4)] + [[0, 0, 2], [0, 0, -2]],
    "tetra": [[0, 0, 0], [2, 0, 0], [0, 2, 0], [0, 0, 2]],
    "cube": list(itertools.product((-1, 1), repeat=3)),
    "octa": [[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1.5], [0, 0, -1.5]],
    "prism": [[0, 0, 0], [2, 0, 0], [1, 1.5, 0], [0, 0, 3], [2, 0, 3], [1, 1.5, 3], [1, 0.5, 1]],
    "simplex4": [[0] * 4] + np.eye(4).tolist(),
}


# numbers of points around powers of two and ten
MANY = [255, 256, 257, 1000, 1001, 1023, 1025, 4095, 4096, 4097, 9999, 10001, 16385, 32768, 65535, 65537, 100003, 131073]


def many(case, ctx, lp):
    """Every shape with many points at once: as in the small sets."""
    d, n = case["dim"], case["n"]
    i = np.arange(1, n + 1)[:, None]
    P = 6.0 * np.modf(i * np.sqrt([2.0, 3.0, 5.0, 7.0])[None, :d])[0] - 2.5
    P[0], P[-1], P[n // 2] = 0.25, 0.3, 0.2  # inside of all of them
    c = np.full(d, 0.25)
    B = np.eye(d) + 0.25 * np.eye(d, k=1)
    Bi = np.linalg.inv(B)
    size = np.full(d, 2.0)
    r = np.linalg.norm(P - c, axis=1)
    box = lambda q: np.max(np.maximum(-q, q - size), axis=1)  # noqa
    items = [("Circle", lp.Circle(c, 1.7), r - 1.7), ("Donut", lp.Donut(c, 1.7, 0.0), r - 1.7), ("Shape", lp.Shape(size), box(P)),
             ("Donut-ring", lp.Donut(c + 0.9, 2.0, 0.5), np.maximum(np.linalg.norm(P - c - 0.9, axis=1) - 2.0, 0.5 - np.linalg.norm(P - c - 0.9, axis=1))),
             ("Shape-basis", lp.Shape(size, basis=B), box(P @ Bi))]
    if d > 1:
        H = np.vstack([np.full(d, -0.5), 2.5 * np.eye(d)])
        N, O = planes(H)
        items.append(("ConvexHull", lp.ConvexHull(H), np.max(P @ N.T - O, axis=1)))
    for name, sh, m in items:
        for arr in (P, np.asfortranarray(P), np.repeat(P, 2, axis=1)[:, ::2]):
            ctx.begin(name, d, n)
            ctx.op("contains")
            got = np.asarray(sh.contains(arr))
            ok = np.abs(m) > 1e-8
            ctx.check(got.shape == (n,) and np.array_equal(got[ok], (m < 0)[ok]), "many:" + name, lambda: f"{np.where(ok & (got != (m < 0)))[0][:5]}")
        ctx.state((name, d, n))
    latt = lp.Lattice(B)
    ctx.op("check_points")
    got = np.asarray(latt.check_points(P, size, True))
    m = box(P @ Bi)
    ok = np.abs(m) > 5e-3
    ctx.check(got.shape == (n,) and np.array_equal(got[ok], (m < 0)[ok]), "many:check_points")


def cases(tier):
    out = []
    for d in range(1, 5):
        for size in itertools.product([0.0, 0.5, 1.0, 3.0] if d < 4 else [0.5, 2.0], repeat=d):
            for b in [None] + list(BAS[d]):
                out.append(dict(kind="box", size=list(size), basis=b))
        for r in (0.0, 0.5, 1.0, 2.5, 40.0):
            out.append(dict(kind="ball", dim=d, radius=r))
        for ro, ri in ((1.0, 0.0), (1.0, 0.5), (2.5, 2.0), (3.0, 1.0), (1.0, 1.0), (40.0, 10.0)):
            out.append(dict(kind="donut", dim=d, ro=ro, ri=ri))
        for b in BAS[d]:
            out.append(dict(kind="points", dim=d, basis=b))
    for d in range(1, 5):
        for n in MANY:
            out.append(dict(kind="many", dim=d, n=n))
    for d in range(1, 5):
        for k in range(6):
            out.append(dict(kind="types", dim=d, k=k))
    out.append(dict(kind="border"))
    for h, p in HULLS.items():
        out.append(dict(kind="hull", points=np.array(p, float).tolist()))
    if tier == "thorough":
        grid = list(itertools.product((0.0, 1.0, 2.0), repeat=2))
        for k in range(3, 10):
            for sub in itertools.combinations(grid, k):
                P = np.array(sub)
                if np.linalg.matrix_rank(P - P[0]) == 2:
                    out.append(dict(kind="hull", points=P.tolist()))
    for c in out:
        c["tier"] = tier
    return out


def grid(lo, hi, d, tier, extra=()):
    """Points over [lo-1, hi+1] incl. the limits, and displaced by fractions of all tolerances."""
    ax = []
    for a, b in zip(lo, hi):
        n = {1: 41, 2: 13, 3: 7, 4: 4}[d] * (2 if tier == "thorough" and d < 4 else 1)
        w = max(b - a, 0.5)
        xs = set(np.linspace(a - 0.7 * w, b + 0.7 * w, n)) | {a, b, (a + b) / 2}
        if d < 4:
            xs |= set(e for e in extra for e in (a - e, b + e))
        ax.append(sorted(float(x) for x in xs))
    return np.array(list(itertools.product(*ax)))


def shift(tol, d):
    t = 0.0 if tol is None else tol
    return [0.5 * t, 1.5 * t] if t > 1e-6 else [1e-6]


def verify(ctx, sh, P, margin, tol, default, scale, what, exact=False):
    """margin(P) <= tol decides; ``exact``: no rounding in the arithmetic."""
    t = default if tol is None else tol
    m = margin(P)
    amb = np.abs(m - t) <= (0 if exact else 1e-9 * max(1.0, scale))
    if not exact or t not in (0.0, 0.5):
        amb = np.abs(m - t) <= 1e-9 * max(1.0, scale)
    want = m <= t
    call = (lambda p: sh.contains(p)) if tol is None else (lambda p: sh.contains(p, tol))
    ctx.op(f"contains(tol={tol})")
    got = np.asarray(call(P))
    ctx.check(got.shape == (len(P),) and got.dtype == bool, what + ":shape", lambda: f"{got.shape} {got.dtype}")
    bad = (got != want) & ~amb
    ctx.check(not bad.any(), what + ":contains", lambda: f"point {P[bad][0].tolist()} margin {m[bad][0]} tol {t}: {got[bad][0]}")
    if tol is not None:
        g = np.asarray(sh.contains(P, tol=tol))
        ctx.check(np.array_equal(g, got), what + ":contains-keyword")
    step = max(1, len(P) // 25)
    for i in range(0, len(P), step):
        g = np.asarray(call(P[i:i + 1]))
        ctx.check(g.shape == (1,) and (bool(g[0]) == bool(got[i]) or amb[i]), what + ":contains-single", lambda: P[i])
    g = np.asarray(call(P[:40].tolist()))
    ctx.check(np.array_equal(g[~amb[:40]], got[:40][~amb[:40]]), what + ":contains-list")
    g = np.asarray(call(np.zeros((0, P.shape[1]))))
    ctx.check(g.shape == (0,), what + ":contains-empty", lambda: g.shape)
    return got, want & ~amb


def limits(ctx, sh, lo, hi, what, scale):
    lim = np.asarray(sh.limits(), float)
    ctx.check(lim.shape == (len(lo), 2), what + ":limits-shape", lambda: lim.shape)
    ctx.check(np.abs(lim[:, 0] - lo).max() <= 1e-9 * scale and np.abs(lim[:, 1] - hi).max() <= 1e-9 * scale, what + ":limits",
              lambda: f"{lim.tolist()} want {np.array([lo, hi]).T.tolist()}")


def run(case, ctx):
    lp = lattpy()
    {"box": box, "ball": ball, "donut": donut, "hull": hull, "points": points, "many": many, "types": types, "border": border}[case["kind"]](case, ctx, lp)


def positions(d):
    for p in POS:
        yield None if p is None else [p + 0.5 * i for i in range(d)]
    yield [2 - 3 * i for i in range(d)]  # whole numbers


def scaled(x):
    """The same whole numbers as integers."""
    return [int(v) for v in x] if all(float(v).is_integer() for v in x) else None


def box(case, ctx, lp):
    size = np.array(case["size"])
    d = len(size)
    B = None if case["basis"] is None else np.array(BAS[d][case["basis"]], float)
    for pos in positions(d):
        variants = [lp.Shape(list(size), pos, None if B is None else B.tolist())]
        if d == 1:
            variants.append(lp.Shape(float(size[0]), pos, B))
        variants.append(lp.Shape(tuple(size), pos=None if pos is None else np.array(pos), basis=B))
        if scaled(size):
            variants.append(lp.Shape(scaled(size), pos, B))
            variants.append(lp.Shape(np.array(scaled(size)), pos, B))
        o = np.zeros(d) if pos is None else np.array(pos)
        C = np.array(list(itertools.product(*zip(o, o + size))))
        X = C if B is None else C @ B
        lo, hi = X.min(0), X.max(0)
        sc = max(1.0, np.abs(X).max())
        Binv = None if B is None else np.linalg.inv(B)
        for vi, sh in enumerate(variants):
            ctx.begin("Shape", pos, vi)
            ctx.check(sh.dim == d and np.allclose(sh.pos, o), "box:attributes")
            limits(ctx, sh, lo, hi, "box", sc)
            for tol in TOLS if vi == 0 else [1e-3]:
                P = grid(o, o + size, d, case["tier"], shift(tol, d))
                margin = lambda q: np.max(np.maximum(o - q, q - (o + size)), axis=1)  # noqa
                if B is None:
                    got, sure = verify(ctx, sh, P, margin, tol, 0.0, sc, "box", exact=True)
                else:
                    P = P @ B
                    got, sure = verify(ctx, sh, P, lambda x: margin(x @ Binv), tol, 0.0, np.linalg.cond(B) * np.abs(P @ Binv).max(), "box")
                inside(ctx, sh, P, got if tol in (None, 0.0) else None, "box", sc)
            ctx.state((case["kind"], tuple(size), case["basis"], str(pos), vi))


def inside(ctx, sh, P, got, what, sc):
    if got is None:
        return
    lim = np.asarray(sh.limits(), float)
    Q = P[got]
    ctx.check(np.all(Q >= lim[:, 0] - 1e-9 * sc) and np.all(Q <= lim[:, 1] + 1e-9 * sc), what + ":outside-limits")


def rays(c, radii, d):
    """Points at the given distances in all grid directions."""
    D = np.array([v for v in itertools.product((-1, 0, 1), repeat=d) if any(v)], float)
    if d == 2:
        t = np.arange(24) * np.pi / 12
        D = np.array([np.cos(t), np.sin(t)]).T
    D = D / np.linalg.norm(D, axis=1)[:, None]
    return np.vstack([c + r * D for r in radii])


def ball(case, ctx, lp):
    d, r = case["dim"], case["radius"]
    for pos in positions(d):
        if pos is None:
            continue
        c = np.array(pos)
        for sh in (lp.Circle(pos, r), lp.Circle(tuple(pos), radius=r)):
            ctx.begin("Circle", pos)
            sc = max(1, r + np.abs(c).max())
            ctx.check(sh.dim == d, "ball:dim")
            limits(ctx, sh, c - r, c + r, "ball", sc)
            for tol in TOLS:
                t = tol or 0.0
                rr = [x for x in (0, r / 3, 0.9 * r, r - 1e-6, r + 1e-6, r + 0.5 * t, r + 1.5 * t, r - t, r * 1.1 + 1e-5, r + 1) if x >= 0]
                P = np.vstack([grid(c - r, c + r, d, case["tier"]), rays(c, rr, d)])
                got, _ = verify(ctx, sh, P, lambda x: np.linalg.norm(x - c, axis=1) - r, tol, 0.0, sc, "ball")
                inside(ctx, sh, P, got if not t else None, "ball", sc)
                # axis-aligned points on the border are representable exactly
                A = np.array([c + s * r * np.eye(d)[i] for i in range(d) for s in (1, -1)])
                ctx.check(np.all(sh.contains(A, t)), "ball:border", lambda: A[~np.asarray(sh.contains(A, t))])
            ctx.state(("ball", d, r, str(pos)))


def donut(case, ctx, lp):
    d, ro, ri = case["dim"], case["ro"], case["ri"]
    for pos in positions(d):
        if pos is None:
            continue
        c = np.array(pos)
        for sh in (lp.Donut(pos, ro, ri), lp.Donut(tuple(pos), radius_outer=ro, radius_inner=ri)):
            ctx.begin("Donut", pos)
            sc = max(1, ro + np.abs(c).max())
            limits(ctx, sh, c - ro, c + ro, "donut", sc)
            for tol in TOLS:
                t = tol or 0.0
                rr = [0, ri / 2, ri - 1e-6, ri + 1e-6, ri - 0.5 * t, ri - 1.5 * t, ri + 0.5 * t, (ri + ro) / 2, ro - 1e-6, ro + 1e-6,
                      ro + 0.5 * t, ro + 1.5 * t, ro + 1]
                P = np.vstack([grid(c - ro, c + ro, d, case["tier"]), rays(c, [x for x in rr if x >= 0], d)])

                def margin(x):
                    q = np.linalg.norm(x - c, axis=1)
                    return np.maximum(q - ro, ri - q)

                got, _ = verify(ctx, sh, P, margin, tol, 1e-10, sc, "donut")
                inside(ctx, sh, P, got if t < 1e-9 else None, "donut", sc)
            ctx.state(("donut", d, ro, ri, str(pos)))


def planes(P):
    """Facets of the hull of P by brute force: (unit normal, offset), x.n <= o inside."""
    d = P.shape[1]
    out = []
    for combo in itertools.combinations(range(len(P)), d):
        A = P[list(combo)]
        M = A[1:] - A[0]
        u, s, vt = np.linalg.svd(M)
        if len(s) < d - 1 or s[-1] < 1e-12:
            continue
        n = vt[-1]
        o = n @ A[0]
        side = P @ n - o
        eps = 1e-9 * np.abs(P).max()
        if np.all(side <= eps):
            pl = (n, o)
        elif np.all(side >= -eps):
            pl = (-n, -o)
        else:
            continue
        if not any(np.abs(pl[0] - q[0]).max() < 1e-7 and abs(pl[1] - q[1]) < 1e-7 * np.abs(P).max() for q in out):
            out.append(pl)
    return np.array([p[0] for p in out]), np.array([p[1] for p in out])


def points(case, ctx, lp):
    """check_points of a lattice: boxes (cartesian or in units of the basis) and shape objects."""
    d = case["dim"]
    V = np.array(BAS[d][case["basis"]], float)
    cls = {"LatticeStructure": lp.LatticeStructure, "Lattice": lp.Lattice}
    B = np.linalg.inv(V)
    for name, size, pos, rel, tol in itertools.product(cls, ([2.0] * d, [1.0, 3.0, 2.0, 1.0][:d], 2.0), (None, 0.25, -1.5), (False, True), (None, 1e-3, 0.1)):
        if not isinstance(size, list) and d > 1:
            continue
        latt = cls[name](V)
        ctx.begin(name, size, pos, rel, tol)
        s = np.array(np.atleast_1d(size), float)
        p = np.zeros(d) if pos is None else np.full(d, pos)
        g = grid(p, p + s, d, case["tier"])
        P = g @ V if rel else g
        q = P @ B if rel else P
        m = np.maximum(p - q, q - p - s).max(axis=1)
        t = 1e-3 if tol is None else tol
        kw = {} if tol is None else {"tol": tol}
        if pos is not None:
            kw["pos"] = pos if d == 1 else p
        ctx.op("check_points")
        got = np.asarray(latt.check_points(P, size, rel, **kw))
        far = np.abs(m) > 2 * t * max(1.0, np.linalg.cond(V))
        ctx.check(got.shape == (len(P),) and np.array_equal(got[far], m[far] < 0) and got[np.abs(m) < 1e-9].all(), "check_points", lambda: P[far & (got != (m < 0))][:4])
        obj = lp.Circle([0.3] * d, 1.2)
        got = np.asarray(latt.check_points(P, obj, **{k: v for k, v in kw.items() if k == "tol"}))
        r = np.linalg.norm(P - 0.3, axis=1) - 1.2
        far = np.abs(r) > 2 * t
        ctx.check(np.array_equal(got[far], r[far] < 0), "check_points-shape", lambda: P[far & (got != (r < 0))][:4])
        ctx.state((name, str(V), str(size), pos, rel, tol))


def hull(case, ctx, lp):
    P0 = np.array(case["points"])
    d = P0.shape[1]
    N, O = planes(P0)
    for pts in (P0, P0.tolist(), P0[::-1]):
        sh = lp.ConvexHull(pts)
        ctx.begin("ConvexHull")
        sc = max(1.0, np.abs(P0).max())
        ctx.check(sh.dim == d, "hull:dim")
        limits(ctx, sh, P0.min(0), P0.max(0), "hull", sc)
        margin = lambda x: np.max(x @ N.T - O, axis=1)  # noqa
        for tol in TOLS:
            t = tol or 0.0
            P = grid(P0.min(0), P0.max(0), d, case["tier"])
            # displaced along every facet normal from the facet's centre
            ex = []
            for n, o in zip(N, O):
                c = P0[np.abs(P0 @ n - o) < 1e-9 * sc].mean(axis=0)
                ex += [c + s * n for s in (1e-6, -1e-6, 0.5 * t, 1.5 * t, -0.5 * t)]
            P = np.vstack([P, ex])
            got, _ = verify(ctx, sh, P, margin, tol, 1e-10, sc, "hull")
            inside(ctx, sh, P, got if t < 1e-9 else None, "hull", sc)
        ctx.check(np.all(sh.contains(P0, 1e-9 * sc)), "hull:own-points")
    ctx.state(("hull", str(case["points"])))


def kinds(x):
    """The same numbers in every representation that holds them."""
    a = np.array(x, float)
    out = [a.tolist(), tuple(a.tolist()) if a.ndim == 1 else tuple(map(tuple, a.tolist())), a, np.asfortranarray(a)]
    for t in ("float32", "int64", "int32", "int16", "int8", "uint8", "uint16"):
        with np.errstate(all="ignore"):
            if np.array_equal(a.astype(t).astype(float), a):
                out.append(a.astype(t))
    if np.array_equal(a, np.round(a)):
        out.append(np.array(x).astype(int).tolist())
    return out


TRIPLES = {2: [((3, 4), 5), ((5, 12), 13), ((8, 15), 17), ((1, 0), 1), ((0, 2), 2), ((6, 8), 10)],
           3: [((1, 2, 2), 3), ((2, 3, 6), 7), ((1, 4, 8), 9), ((4, 4, 7), 9), ((0, 3, 4), 5), ((0, 0, 2), 2)]}


def border(case, ctx, lp):
    """Points exactly on the border (all numbers are whole) belong to circles and donuts, points one unit away do not."""
    for d, triples in TRIPLES.items():
        for v, r in triples:
            pts = sorted({tuple(s * x for s, x in zip(sg, p)) for p in itertools.permutations(v) for sg in itertools.product((1, -1), repeat=d)})
            for c in ([0] * d, list(range(-3, d - 3)), [7 * i + 2 for i in range(d)]):
                P = np.array(pts, float) + np.array(c, float)
                shapes = [("circle", lp.Circle(c, r), 1), ("outer", lp.Donut(c, r, r / 2), 1), ("inner", lp.Donut(c, r + 3, r), -1)]
                for name, sh, side in shapes:
                    off = P - np.array(c)
                    away = np.array(c) + off * (1 + side * 0.5)
                    for tol in (None, 0.0, 0, 1e-10, 0.01):
                        ctx.begin(f"{name} center {c} radius {r} tol {tol}")
                        kw = {} if tol is None else dict(tol=tol)
                        ctx.check(bool(np.all(sh.contains(P, **kw))), "border:" + name, lambda: f"{P[~np.asarray(sh.contains(P, **kw))].tolist()}")
                        ctx.check(not np.any(sh.contains(away, **kw)), "border:away-" + name, lambda: away.tolist())
                        ctx.state((name, r, tuple(c), tol))


def num(x):
    return [x, float(x), np.float64(x), np.float32(x)] + ([int(x)] + [np.dtype(t).type(x) for t in ("int64", "int8", "uint8", "uint32")] if x == int(x) else [])


def types(case, ctx, lp):
    """The kind of numbers a shape or its points are given in makes no difference."""
    d, k = case["dim"], case["k"]
    pos = [[0] * d, [100, -3, 5, 2][:d], [100, 3, 120, 7][:d], [0.5, -0.25, 3, 1][:d], [-128, 1, 2, 3][:d], [50, 60, 70, 80][:d]][k]
    size = [[2] * d, [100, 2, 3, 1][:d], [27, 4, 100, 2][:d], [1.5, 3, 0.5, 2][:d], [100, 100, 2, 2][:d], [1, 2, 3, 4][:d]][k]
    rad = [2, 100, 27, 2.5, 5, 3][k]
    g = [np.unique([p - 1, p, p + s / 2, p + s, p + s + 1, p - rad, p + rad]) for p, s in zip(pos, size)]
    P = np.array(list(itertools.product(*[x[:7 if d < 3 else 5 if d == 3 else 4] for x in g])), float)
    W = np.round(P)
    pts = [P] + [x for x in kinds(W) if isinstance(x, np.ndarray)]
    lo, hi = np.array(pos, float), np.array(pos, float) + np.array(size, float)
    r0 = lambda X: np.sqrt(((X - lo) ** 2).sum(1))  # noqa

    def verify(sh, f, lim, what):
        ctx.check(np.allclose(np.asarray(sh.limits(), float), lim, atol=1e-9), "types:limits:" + what, lambda: f"{sh.limits()} want {lim}")
        for X in pts:
            m = f(np.asarray(X, float))
            got = np.asarray(sh.contains(X, 1e-6))
            bad = (got != (m <= 0)) & (np.abs(m) > 1e-5)
            ctx.check(got.shape == (len(X),) and not bad.any(), "types:contains:" + what, lambda: f"{X.dtype}: {np.asarray(X)[bad][:3]}")

    ctx.begin("types", d, k)
    for s in kinds(size) + (num(size[0]) if d == 1 else []):
        for p in kinds(pos) + ([None] if not any(pos) else []):
            ctx.op("box")
            verify(lp.Shape(s, p), lambda X: np.maximum(lo - X, X - hi).max(1), np.array([lo, hi]).T, "box")
            for b in kinds(np.eye(d) * 2):
                ctx.op("oblique box")
                verify(lp.Shape(s, p, b), lambda X: np.maximum(2 * lo - X, X - 2 * hi).max(1), 2 * np.array([lo, hi]).T, "basis")
    for p in kinds(pos):
        for r in num(rad):
            ctx.op("ball")
            verify(lp.Circle(p, r), lambda X: r0(X) - rad, np.array([lo - rad, lo + rad]).T, "ball")
            for ri in num(1):
                verify(lp.Donut(p, r, ri), lambda X: np.maximum(r0(X) - rad, 1 - r0(X)), np.array([lo - rad, lo + rad]).T, "donut")
    if d in (2, 3):
        C = np.array([lo + np.array(c) * (hi - lo) for c in itertools.product((0, 1), repeat=d)])
        for c in kinds(C):
            ctx.op("hull")
            verify(lp.ConvexHull(c), lambda X: np.maximum(lo - X, X - hi).max(1), np.array([lo, hi]).T, "hull")
    ctx.state(("types", d, k))
