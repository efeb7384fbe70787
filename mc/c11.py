"""C11  Reciprocal lattice, Wigner-Seitz cell and Brillouin zone."""
import itertools

import numpy as np

from . import cfgs
from .core import lattpy

ID = "C11"
BOUNDS = {
    "quick": "all bases of the crystal alphabet (1D-4D), 2D bases of 3 length ratios x 9 angles x 3 scales, 14 further 3D "
    "bases (monoclinic, rhombohedral, triclinic, left-handed, tiny, huge), 8 bases in units of 3e-10, 1e-5 and 1e6; every point of a fractional grid over "
    "[-1,1]^d (2D 21^2, 3D 9^3 points); distance levels 0..7; up to 100001 points at once, all kinds of numbers; every face, vertex, edge and grid point of the cells",
    "thorough": "as quick with 2D bases of 6 ratios x 17 angles x 3 scales, 41^2 / 17^3 points and levels 0..11",
}
ASSUMPTIONS = ["points within 1e-6 of the border of a cell may be assigned to either side"]


def mono(b, c, al, be, ga):
    al, be, ga = np.deg2rad([al, be, ga])
    cx = c * np.cos(be)
    cy = c * (np.cos(al) - np.cos(be) * np.cos(ga)) / np.sin(ga)
    return [[1.0, 0, 0], [b * np.cos(ga), b * np.sin(ga), 0], [cx, cy, np.sqrt(c * c - cx * cx - cy * cy)]]


def bases(tier):
    out, seen = {}, set()
    for n in cfgs.names():
        v = cfgs.BASE[n][0]
        k = repr(np.array(v).tolist())
        if k not in seen:
            seen.add(k)
            out[n] = v
    ratios = [0.6, 1.0, 1.9] if tier == "quick" else [0.4, 0.6, 0.8, 1.0, 1.3, 1.9]
    angles = [30, 45, 60, 75, 90, 100, 120, 135, 150] if tier == "quick" else list(range(25, 160, 8))
    for r in ratios:
        for t in angles:
            for s in (1.0, 0.02, 50.0):
                a = np.deg2rad(t)
                out[f"2d-{r}-{t}-{s}"] = (s * np.array([[1.0, 0], [r * np.cos(a), r * np.sin(a)]])).tolist()
    for i, (b, c, al, be, ga) in enumerate([(1.2, 0.9, 90, 100, 90), (1, 1, 60, 60, 60), (1, 1, 80, 80, 80), (1, 1, 105, 105, 105),
                                            (1.1, 0.8, 75, 85, 95), (1.3, 1.7, 100, 95, 70), (1, 2.5, 90, 90, 90), (0.7, 1.4, 90, 90, 60)]):
        v = np.array(mono(b, c, al, be, ga))
        out[f"3d-{i}"] = v.tolist()
        if i in (1, 4, 5):
            out[f"3d-{i}-tiny"] = (0.01 * v).tolist()
            out[f"3d-{i}-left"] = (100 * v[[1, 0, 2]]).tolist()
    # lattice constants in SI units (meters) and other extreme units
    for n in ("chain", "square", "rect", "honeycomb", "generic2", "sc", "fcc", "tric"):
        for s in (3e-10, 1e-5, 1e6):
            out[f"unit-{n}-{s}"] = (s * np.array(cfgs.BASE[n][0], float).reshape(-1, np.size(cfgs.BASE[n][0][0]) if np.ndim(cfgs.BASE[n][0]) else 1)).tolist()
    return out


def cases(tier):
    return [dict(basis=n, vectors=np.array(v).tolist(), tier=tier) for n, v in bases(tier).items()]


def lattice_points(V, radius):
    ext = np.ceil(radius * np.linalg.norm(np.linalg.inv(V), axis=0)).astype(int)
    N = np.array(list(itertools.product(*[range(-e, e + 1) for e in ext])))
    T = N @ V
    d = np.linalg.norm(T, axis=1)
    m = d <= radius * (1 + 1e-9)
    return N[m], T[m], d[m]


def ref_cell(V):
    """Faces (lattice vectors), vertices of the Voronoi cell of the origin, by brute force."""
    d = len(V)
    radius = np.sum(np.linalg.norm(V, axis=1)) * 1.01
    N, T, dist = lattice_points(V, radius)
    nz = dist > 1e-9 * radius
    T, dist = T[nz], dist[nz]
    # a vector contributes a face iff its midpoint is at least as close to 0 and T than to any other point
    # (strictly closer: full-dimensional face)
    faces = []
    for t, r in zip(T, dist):
        other = T[np.abs(T - t).max(axis=1) > 1e-9 * radius]
        if np.all(np.linalg.norm(other - t / 2, axis=1) > r / 2 + 1e-7 * radius):
            faces.append(t)
    F = np.array(faces)
    b = np.sum(F * F, axis=1) / 2
    verts = []
    for combo in itertools.combinations(range(len(F)), d):
        A = F[list(combo)]
        if abs(np.linalg.det(A)) < 1e-9 * np.prod(np.linalg.norm(A, axis=1)):
            continue
        x = np.linalg.solve(A, b[list(combo)])
        if np.all(F @ x <= b * (1 + 1e-9) + 1e-9 * radius ** 2):
            if not any(np.abs(x - y).max() < 1e-7 * radius for y in verts):
                verts.append(x)
    return F, np.array(verts)


def same_points(a, b, tol):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    D = np.abs(a[:, None] - b[None]).max(axis=2) < tol
    return bool((D.sum(0) == 1).all() and (D.sum(1) == 1).all())


def run(case, ctx):
    lp = lattpy()
    V = np.array(case["vectors"], float)
    d = len(V)
    ctx.begin(case["basis"])
    b = lp.LatticeBasis(V if d > 1 else float(V[0, 0]))
    reciprocal(case, ctx, lp, b, V)
    neighbor_cells(case, ctx, b, V)
    if d <= 3:
        cell(case, ctx, b.wigner_seitz_cell(), V, "ws")
        B = 2 * np.pi * np.linalg.inv(V).T
        cell(case, ctx, b.brillouin_zone(), B, "bz")
        cell(case, ctx, b.brillouin_zone(min_negative=True), B, "bz-neg", light=True)
        cell(case, ctx, lp.Lattice(V).wigner_seitz_cell(), V, "latt", light=True)


def reciprocal(case, ctx, lp, b, V):
    d = len(V)
    ctx.op("reciprocal_vectors")
    R = np.asarray(b.reciprocal_vectors(), float)
    ctx.check(R.shape == (d, d) and np.abs(V @ R.T - 2 * np.pi * np.eye(d)).max() < 1e-6, "reciprocal_vectors", lambda: R)
    ctx.check(np.allclose(b.reciprocal_vectors(check=True), R), "reciprocal_vectors:check")
    ctx.check(b.is_reciprocal(R) is True or bool(b.is_reciprocal(R)), "is_reciprocal")
    if d == 1:
        ctx.check(bool(b.is_reciprocal(float(R[0, 0]))), "is_reciprocal:scalar")
    nrm = np.linalg.norm(V, axis=1).max()
    for i, j in itertools.product(range(d), repeat=2):
        for s in (1e-3, -1e-3):
            Q = R.copy()
            Q[i, j] += s / np.abs(V[:, j]).max()
            ctx.check(not b.is_reciprocal(Q), "is_reciprocal:wrong-accepted", lambda: f"{i},{j}")
            ctx.check(bool(b.is_reciprocal(Q, tol=2e-3)), "is_reciprocal:tol", lambda: f"{i},{j}")
    ctx.check(not b.is_reciprocal(-R), "is_reciprocal:sign")
    if d > 1:
        ctx.check(not b.is_reciprocal(R[::-1]), "is_reciprocal:order")
    for cls in (lp.LatticeBasis, lp.Lattice):
        for neg in (False, True):
            ctx.op("reciprocal_lattice")
            rl = cls(V).reciprocal_lattice(min_negative=neg)
            W = np.asarray(rl.vectors, float)
            ctx.check(isinstance(rl, cls), "reciprocal_lattice:type", lambda: type(rl))
            if not neg:
                ctx.check(np.allclose(W, R), "reciprocal_lattice")
                back = np.asarray(rl.reciprocal_lattice().vectors, float)
                ctx.check(np.abs(back - V).max() < 1e-9 * nrm, "reciprocal-twice", lambda: back)
                ctx.check(abs(rl.cell_volume * abs(np.linalg.det(V)) / (2 * np.pi) ** d - 1) < 1e-9, "reciprocal-volume")
            else:
                for w, r in zip(W, R):
                    same, flip = np.allclose(w, r), np.allclose(w, -r)
                    ctx.check(same or flip, "min_negative", lambda: f"{w} {r}")
                    ctx.check(np.sum(np.sign(np.round(w, 10))) >= 0, "min_negative:sign", lambda: w)
    ctx.check(np.allclose(b.vectors, V), "basis:changed")


def neighbor_cells(case, ctx, b, V):
    d = len(V)
    if np.linalg.norm(V, axis=1).max() > 5 * np.linalg.norm(V, axis=1).min():
        pass
    levels = 8 if case["tier"] == "quick" else 12
    if d == 4:
        levels = 2
    scale = np.linalg.norm(V, axis=1).min()
    N, T, dist = lattice_points(V, (levels + 1) * scale * 1.0001)
    o = np.argsort(dist, kind="stable")
    groups = []
    for i in o:
        if dist[i] < 1e-9 * scale:
            continue
        if groups and dist[i] - groups[-1][0] < 1e-6 * scale:
            groups[-1][1].append(tuple(int(x) for x in N[i]))
        else:
            groups.append((dist[i], [tuple(int(x) for x in N[i])]))
    near = [i for i, (x, y) in enumerate(zip(groups, groups[1:])) if y[0] - x[0] < 1e-3 * scale]
    if near and near[0] < levels:  # the levels before the first two that are hard to tell apart
        ctx.skipped += 1
        levels = near[0]
    zero = (0,) * d
    for k in range(levels):
        for inc in (True, False):
            ctx.op(f"get_neighbor_cells({k})")
            got = [tuple(int(round(float(x))) for x in r) for r in b.get_neighbor_cells(k, include_origin=inc)]
            want = sorted(groups[k][1] + ([zero] if inc else []))
            ctx.check(sorted(got) == want, "get_neighbor_cells", lambda: f"level {k} origin {inc}: {sorted(got)} want {want}")
            got = [tuple(int(round(float(x))) for x in r) for r in
                   b.get_neighbor_cells(k, include_origin=inc, comparison=lambda x, y: x <= y * (1 + 1e-6))]
            want = sorted([x for g in groups[:k + 1] for x in g[1]] + ([zero] if inc else []))
            ctx.check(sorted(got) == want, "get_neighbor_cells:within", lambda: f"level {k} origin {inc}: {sorted(got)} want {want}")
            ctx.state((case["basis"], k, inc, tuple(want)))


MANY = [999, 1001, 4097, 10001, 65537, 100001]


def cell(case, ctx, ws, V, what, light=False):
    d = len(V)
    F, verts = ref_cell(V)
    size = np.abs(verts).max()
    tol = 1e-6 * size
    ctx.op(what)
    vv = np.asarray(ws.vertices, float)
    ctx.check(same_points(vv, verts, 10 * tol), what + ":vertices", lambda: f"{vv.tolist()} want {verts.tolist()}")
    lim = np.array([verts.min(0), verts.max(0)]).T
    ctx.check(np.abs(np.asarray(ws.limits) - lim).max() < 10 * tol, what + ":limits", lambda: f"{ws.limits} want {lim}")
    ctx.check(np.abs(np.asarray(ws.size) - (lim[:, 1] - lim[:, 0])).max() < 10 * tol, what + ":size", lambda: ws.size)
    # faces / edges
    if d > 1:
        want = []
        for t in F:
            on = frozenset(int(i) for i in np.where(np.abs(vv @ t - t @ t / 2) < 1e-6 * (t @ t))[0])
            want.append(on)
        got = [frozenset(int(i) for i in e) for e in ws.edges]
        ctx.check(sorted(map(sorted, got)) == sorted(map(sorted, want)), what + ":faces", lambda: f"{got} want {want}")
        vol = hull_volume(vv)
        ctx.check(abs(vol - abs(np.linalg.det(V))) < 1e-6 * vol, what + ":volume", lambda: vol)
    sym(ctx, ws, V, F, vv, what, tol)
    # containment on the grid
    n = {1: 81, 2: 21, 3: 9}[d] if case["tier"] == "quick" else {1: 321, 2: 41, 3: 17}[d]
    if light:
        n = n // 2 + 1
    ax = np.linspace(-1, 1, n) + 0.003
    X = np.array(list(itertools.product(ax, repeat=d))) @ V
    m = np.max(X @ F.T / (np.sum(F * F, axis=1) / 2), axis=1)  # <= 1 inside
    clear = np.abs(m - 1) > 1e-6
    X, inside = X[clear], m[clear] < 1
    got = np.asarray(ws.check(X))
    ctx.check(got.shape == inside.shape and np.array_equal(got, inside), what + ":check",
              lambda: f"{X[got != inside][:3].tolist()} reported {got[got != inside][:3]}")
    step = max(1, len(X) // 40)
    for x, i in zip(X[::step], inside[::step]):
        ctx.op("check")
        ctx.check(bool(ws.check(x)) == bool(i), what + ":check-single", lambda: x)
    ctx.state((case["basis"], what, len(verts), len(F), int(inside.sum())))
    ctx.outcome((len(verts), len(F)))
    if light:
        return
    # many points, any kind of numbers
    for n in MANY:
        k = (np.arange(n) * 7) % len(X)
        got = np.asarray(ws.check(X[k]))
        ctx.check(got.shape == (n,) and np.array_equal(got, inside[k]), what + ":check-many", lambda: f"{n} points")
    Z = np.array(list(itertools.product(range(-3, 4), repeat=d)))
    mz = np.max(Z @ F.T / (np.sum(F * F, axis=1) / 2), axis=1)
    Z, mz = Z[np.abs(mz - 1) > 1e-6], mz[np.abs(mz - 1) > 1e-6]
    for t in ("int8", "int16", "int32", "int64", "float32"):
        ctx.check(np.array_equal(ws.check(Z.astype(t)), mz < 1), what + ":check-kind", t)
    ctx.check(np.array_equal(ws.check(Z.tolist()), mz < 1), what + ":check-kind", "list")
    num = {1: 5000, 2: 72, 3: 18}[d]
    w = [[lo + (hi - lo) * 1.2 * i / num - 0.1 * (hi - lo) for i in range(num)] for lo, hi in lim]
    mesh(ctx, ws, ws.meshgrid(nums=num, offset=0.2), w, F, what + ":meshgrid-large")
    # sample grids
    for num in (4, 5):
        for off in (0.0, 0.5):
            for end in (False, True):
                L = lim * (1 + off)
                vals = ws.linspace(num, off, end)
                den = num - 1 if end else num
                w = [[lo + (hi - lo) * i / den for i in range(num)] for lo, hi in L]
                ctx.check(len(vals) == d and all(len(a) == num and np.allclose(a, c, atol=10 * tol) for a, c in zip(vals, w)),
                          what + ":linspace", lambda: f"{vals} want {w}")
                mesh(ctx, ws, ws.meshgrid(nums=num, offset=off, endpoint=end), w, F, what + ":meshgrid")
                g = np.asarray(ws.meshgrid(nums=num, offset=off, endpoint=end, check=False))
                ctx.check(np.isfinite(g).all() and np.allclose(g, np.array(np.meshgrid(*w)), atol=10 * tol), what + ":meshgrid-nocheck")
    nums = list(range(3, 3 + d))
    vals = ws.linspace(nums)
    ctx.check([len(x) for x in vals] == nums, what + ":linspace-nums")
    st = [(hi - lo) / 3.3 for lo, hi in lim]
    for s in (st, st[0]):
        vals = ws.arange(s)
        ss = s if hasattr(s, "__len__") else [s] * d
        w = []
        for (lo, hi), q in zip(lim, ss):
            r, i = [], 0
            while lo + i * q < hi - 1e-9 * size:
                r.append(lo + i * q)
                i += 1
            w.append(r)
        if any(abs((hi - lo) / q - round((hi - lo) / q)) < 1e-6 for (lo, hi), q in zip(lim, ss)):
            continue
        ctx.check(len(vals) == d and all(len(a) == len(c) and np.allclose(a, c, atol=10 * tol) for a, c in zip(vals, w)),
                  what + ":arange", lambda: f"{vals} want {w}")
        mesh(ctx, ws, ws.meshgrid(steps=s), w, F, what + ":meshgrid-steps")
    ctx.raises(ValueError, lambda: ws.meshgrid(), what + ":meshgrid-no-args")


def mesh(ctx, ws, g, w, F, what):
    g = np.asarray(g, float)
    want = np.array(np.meshgrid(*w))
    ctx.check(g.shape == want.shape, what + ":shape", lambda: f"{g.shape} want {want.shape}")
    m = np.max(np.tensordot(F / (np.sum(F * F, axis=1) / 2)[:, None], want, axes=(1, 0)), axis=0)
    size = np.abs(want).max()
    nan = np.isnan(g)
    ctx.check(np.all(nan.all(axis=0) == nan.any(axis=0)), what + ":partial-nan")
    nan = nan.all(axis=0)
    ctx.check(np.all(nan[m > 1 + 1e-6]) and not np.any(nan[m < 1 - 1e-6]), what + ":mask")
    ok = ~nan
    ctx.check(np.allclose(g[:, ok], want[:, ok], atol=1e-5 * size), what + ":values")


def sym(ctx, ws, V, F, vv, what, tol):
    d = len(V)
    o, corners, edges, faces = ws.symmetry_points()
    ctx.check(np.allclose(o, 0) and np.shape(o) == (d,) and same_points(corners, vv, 10 * tol), what + ":symmetry-corners")
    if d == 1:
        ctx.check(edges is None and faces is None, what + ":symmetry-1d")
    elif d == 2:
        ctx.check(same_points(edges, F / 2, 1e-5 * np.abs(F).max()) or len(edges) == len(F) and same_points(edges, mids(vv, F), 10 * tol),
                  what + ":symmetry-edges", lambda: edges)
        ctx.check(faces is None, what + ":symmetry-faces")
    else:
        want = np.array([vv[np.abs(vv @ t - t @ t / 2) < 1e-6 * (t @ t)].mean(axis=0) for t in F])
        ctx.check(same_points(faces, want, 100 * tol), what + ":symmetry-faces", lambda: faces)
        # every edge belongs to two faces: pairs of vertices sharing two face planes
        on = np.array([np.abs(vv @ t - t @ t / 2) < 1e-6 * (t @ t) for t in F])
        e = [(vv[i] + vv[j]) / 2 for i in range(len(vv)) for j in range(i) if np.sum(on[:, i] & on[:, j]) == 2]
        got = np.asarray(edges, float)
        ctx.check(got.shape == (2 * len(e), 3), what + ":symmetry-edges-count", lambda: f"{got.shape} want {2 * len(e)}")
        D = np.abs(got[:, None] - np.array(e)[None]).max(axis=2) < 100 * tol
        ctx.check((D.sum(0) == 2).all() and (D.sum(1) == 1).all(), what + ":symmetry-edges")


def mids(vv, F):
    return np.array([vv[np.abs(vv @ t - t @ t / 2) < 1e-6 * (t @ t)].mean(axis=0) for t in F])


def hull_volume(P):
    import scipy.spatial
    return scipy.spatial.ConvexHull(P).volume
