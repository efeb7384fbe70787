"""C10  Coordinate transformations are exact inverses."""
import itertools

import numpy as np

from . import cfgs
from .core import lattpy

ID = "C10"
BOUNDS = {
    "quick": "all bases of the alphabet (1D-4D) x every cell in [-3,3]^d (3D/4D: [-2,2]^d) and four far cells "
    "(up to 10^6) x every point of a fractional grid (interior and on the cell border), each alone and all as one "
    "array; every shape in {1..4}^d (4D: {1,2,3}^4) x every cell and super index, alone and as array; the numbers around every power of two of 16 shapes with up to 2^56 cells; 9 bases x every kind of number (list, tuple, integer and float arrays of every width) for vectors, cells, points and indices; arrays of 21 lengths up to 131073 rows",
    "thorough": "as quick with cells in [-6,6]^d (3D/4D: [-3,3]^d), a finer fractional grid and shapes in {1..6}^d "
    "(4D: {1..4}^4)",
}
ASSUMPTIONS = ["points within 1e-9 of the border of a cell may be assigned to either of the adjacent cells"]
TYPED = [[[2]], [[0.7]], [[2, 0], [0, 1]], [[1, 0], [1, 1]], [[1.5, 0.866], [1.5, -0.866]], [[-1.0, 0.0], [0.3, 2.0]],
         [[0.5, 0.5, 0], [0.5, 0, 0.5], [0, 0.5, 0.5]], [[2, 0, 0], [0, 3, 0], [1, 0, 4]], np.eye(4).tolist()]
ROWS = [100, 255, 256, 257, 511, 513, 999, 1000, 1001, 1024, 1025, 2049, 4097, 8193, 10001, 16385, 32769, 50001, 65537, 100001, 131073]
FAR = [1000, -1000, 10**6, -(10**6)]


def cases(tier):
    out = []
    seen = set()
    for name in cfgs.names():
        v = cfgs.BASE[name][0]
        k = repr(np.array(v).tolist())
        kind = "geo" if k not in seen else None
        seen.add(k)
        if kind:
            out.append(dict(cfg=name, kind="points"))
        out.append(dict(cfg=name, kind="atoms"))
    for d in range(1, 5):
        n = (6 if tier == "thorough" else 4) if d < 4 else (4 if tier == "thorough" else 3)
        for shape in itertools.product(range(1, n + 1), repeat=d):
            out.append(dict(shape=list(shape), kind="super"))
    # shapes with more cells than fit in 16, 32 and 53 bits: the cells around every width boundary
    for shape in ([40000], [70000], [3 * 10**9], [200, 200], [300, 300], [70000, 70000], [2, 2**31], [2**31, 2], [2**40, 5],
                  [40, 40, 40], [2000, 2000, 2000], [3, 2**31, 2], [200] * 4, [300] * 4, [2**13] * 4, [10**8, 10**9]):
        out.append(dict(shape=shape, kind="superfar"))
    out += [dict(kind="types", vectors=v) for v in TYPED]
    out += [dict(kind="many", vectors=v, rows=r) for v in TYPED for r in ROWS]
    for c in out:
        c["tier"] = tier
    return out


def close(a, b, scale=1.0):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and (not a.size or np.abs(a - b).max() <= 1e-9 * max(scale, 1.0))


def run(case, ctx):
    lp = lattpy()
    {"points": run_points, "atoms": run_atoms, "super": run_super, "superfar": run_far, "types": run_types, "many": run_many}[case["kind"]](case, ctx, lp)


def grids(d, tier):
    m = (3 if d < 3 else 2) if tier == "quick" else (6 if d < 3 else 3)
    if d == 4:
        m = 1
    cells = list(itertools.product(range(-m, m + 1), repeat=d))
    cells += [tuple(f if i == a else 1 for i in range(d)) for f in FAR for a in range(d)]
    fr = [0.0, 0.25, 0.6, 0.999] if d < 3 else [0.0, 0.35, 0.9]
    if tier == "thorough":
        fr = [0.0, 1e-6, 0.125, 0.5, 0.75, 1 - 1e-6] if d < 3 else fr
    if d == 4:
        fr = [0.0, 0.4]
    return np.array(cells, dtype=np.int64), np.array(list(itertools.product(fr, repeat=d)))


def run_points(case, ctx, lp):
    v = np.array(cfgs.BASE[case["cfg"]][0], float)
    d = len(v)
    cells, fracs = grids(d, case["tier"])
    given = v.copy()
    for cls in (lp.LatticeBasis, lp.LatticeStructure, lp.Lattice):
        b = cls(v if d > 1 or cls is lp.Lattice else float(v[0, 0]))
        ctx.begin(cls.__name__)
        ctx.check(b.dim == d and close(b.vectors, given), "basis:vectors", lambda: b.vectors)
        ctx.check(close(b.norms, [np.sqrt(sum(x * x for x in r)) for r in given]), "basis:norms", lambda: b.norms)
        vol = abs(np.linalg.det(given))
        ctx.check(abs(b.cell_volume - vol) < 1e-9 * max(1, vol), "basis:cell_volume", lambda: b.cell_volume)
        lo, hi = np.minimum(given.min(0), 0), np.maximum(given.max(0), 0)
        ctx.check(close(b.cell_size, hi - lo), "basis:cell_size", lambda: b.cell_size)
        if d <= 3:
            w = np.eye(3)
            w[:d, :d] = given
            ctx.check(close(b.vectors3d, w), "basis:vectors3d", lambda: b.vectors3d)
    # all points at once (2D arrays), one by one (1D sequences)
    N = np.repeat(cells, len(fracs), axis=0)
    F = np.tile(fracs, (len(cells), 1))
    C = N + F  # lattice coordinates
    X = np.zeros_like(C)
    for i in range(d):  # plain definition
        X = X + C[:, i:i + 1] * given[i]
    scale = np.abs(X).max() + np.abs(C).max()
    eps = 1e-9 * np.linalg.cond(given)
    ctx.op("batch")
    ctx.check(close(b.transform(C), X, scale), "transform:batch")
    ctx.check(np.abs(b.itransform(X) - C).max() <= eps * scale, "itransform:batch")
    ctx.check(close(b.transform(b.itransform(X)), X, scale) and np.abs(b.itransform(b.transform(C)) - C).max() <= eps * scale,
              "roundtrip:batch")
    R = F @ given
    T = np.asarray(b.translate(N, R))
    ctx.check(close(T, X, scale), "translate:batch")
    ctx.check(close(b.translate(N), N.astype(float) @ given, scale), "translate:batch-origin")
    r0 = R[-1]
    ctx.check(close(b.translate([2] * d, R), 2 * given.sum(0) + R, scale), "translate:one-cell-many-r")
    ctx.check(close(b.translate(N, r0), N.astype(float) @ given + r0, scale), "translate:batch-one-r")
    check_itrans(ctx, b.itranslate(X), X, N, F, given, "itranslate:batch", scale, eps)
    tup = lambda a: [float(x) for x in a]  # noqa
    for i in range(len(N)):
        c, x, n, f, r = tup(C[i]), tup(X[i]), [int(k) for k in N[i]], F[i], tup(R[i])
        s = np.abs(X[i]).max() + np.abs(C[i]).max()
        ctx.op("point")
        ctx.state((case["cfg"], i))
        ctx.check(close(b.transform(c), X[i], s), "transform:single", lambda: f"{c} -> {b.transform(c)} want {x}")
        ctx.check(np.shape(b.itransform(x)) == (d,) and np.abs(b.itransform(x) - C[i]).max() <= eps * max(1, s),
                  "itransform:single", lambda: f"{x} -> {b.itransform(x)} want {c}")
        ctx.check(close(b.translate(n, r), X[i], s), "translate:single", lambda: f"{n} {r}: {b.translate(n, r)} want {x}")
        ctx.check(close(b.translate(n), X[i] - R[i], s), "translate:single-origin", lambda: f"{n}: {b.translate(n)}")
        nv, rr = b.itranslate(x)
        check_itrans(ctx, (np.asarray(nv)[None], np.asarray(rr)[None]), X[i:i + 1], N[i:i + 1], f[None], given,
                     "itranslate:single", s, eps)
        if d == 1:  # scalars are accepted in one dimension
            nv, rr = b.itranslate(x[0])
            ctx.check(close(b.translate(nv, rr), [x[0]], s) and close(b.translate(n[0], r[0]), X[i], s), "scalar:1d")
    ctx.check(close(b.vectors, given) and close(v, given), "basis:changed")


def check_itrans(ctx, res, X, N, F, given, what, scale, eps):
    nv, r = np.asarray(res[0]), np.asarray(res[1], float)
    ctx.check(nv.shape == X.shape and r.shape == X.shape, what + ":shape", lambda: f"{nv.shape} {r.shape}")
    ctx.check(np.array_equal(nv, np.round(nv)), what + ":integer", lambda: nv[:3])
    rec = nv.astype(float) @ given + r
    ctx.check(np.abs(rec - X).max() <= 1e-9 * max(1, scale), what + ":sum", lambda: f"{rec[:3]} want {X[:3]}")
    fr = r @ np.linalg.inv(given)
    tol = eps * max(1, scale)
    ctx.check(fr.min() >= -tol and fr.max() <= 1 + tol, what + ":remainder-outside-cell", lambda: f"{fr.min()} {fr.max()}")
    inner = ((F > 1e-5 + tol) & (F < 1 - 1e-5 - tol)).all(axis=1)
    bad = inner & np.any(nv != N, axis=1)
    ctx.check(not bad.any(), what + ":wrong-cell", lambda: f"{X[bad][0]}: {nv[bad][0]} want {N[bad][0]}")


def run_atoms(case, ctx, lp):
    name = case["cfg"]
    cr = cfgs.crystal(name)
    latt = cfgs.make(lp, name)
    d = cr.dim
    cells, _ = grids(d, case["tier"])
    ids = [tuple(int(x) for x in c) + (a,) for c in cells for a in range(cr.n)]
    W = np.array([sum((s[i] * cr.V[i] for i in range(d)), cr.R[s[-1]]) for s in ids])
    ctx.begin("positions")
    sc = np.abs(W).max()
    for dt in (np.int64, np.int32):
        ctx.op("batch")
        ctx.check(close(latt.get_positions(np.array(ids, dtype=dt)), W, sc), "get_positions", lambda: dt)
    ctx.check(close(latt.get_positions(ids), W, sc), "get_positions:list")
    ctx.check(close(np.array(latt.atom_positions), cr.R), "atom_positions")
    near = min([np.linalg.norm(n @ cr.V) for n in np.array([x for x in itertools.product((-1, 0, 1), repeat=d) if any(x)])])
    for s, w in zip(ids, W):
        ctx.op("site")
        ctx.state((name, s))
        n = list(s[:-1])
        p = latt.get_position(n if d > 1 else n[0], s[-1])
        ctx.check(close(p, w, sc), "get_position", lambda: f"{s}: {p} want {w}")
        p = latt.get_position(np.array(n), alpha=s[-1])
        ctx.check(close(p, w, sc), "get_position:array", lambda: f"{s}: {p} want {w}")
        if s[-1] == 0:
            # the cell of a point near its origin
            for off in (0.0, 0.3, -0.3):
                x = np.array(n) @ cr.V + off * cr.V.sum(axis=0)
                e = latt.estimate_index(x)
                ctx.check(np.asarray(e).shape == (d,) and [int(k) for k in e] == n, "estimate_index", lambda: f"{x}: {e} want {n}")
    for a in range(cr.n):
        ctx.check(close(latt.get_position(alpha=a), cr.R[a]) and close(latt.get_position(None, a), cr.R[a]), "get_position:none")
    ctx.check(close(np.array(latt.atom_positions), cr.R), "atom_positions:changed")


def run_super(case, ctx, lp):
    shape = case["shape"]
    d = len(shape)
    b = lp.LatticeBasis.hypercubic(d)
    cells = list(itertools.product(*[range(s) for s in shape]))  # row-major enumeration is the numbering
    total = len(cells)
    ctx.begin("super", shape)
    for shp in (list(shape), tuple(shape), np.array(shape)):
        si = b.get_cell_superindex(np.array(cells), shp)
        ctx.op("batch")
        ctx.check(isinstance(si, np.ndarray) and si.shape == (total,) and [int(x) for x in si] == list(range(total)),
                  "superindex:batch", lambda: si)
        ix = b.get_cell_index(np.arange(total), shp)
        ctx.check(np.shape(ix) == (total, d) and [tuple(int(x) for x in r) for r in ix] == cells, "cellindex:batch", lambda: ix)
    for k, c in enumerate(cells):
        ctx.op("single")
        ctx.state((tuple(shape), k))
        s = b.get_cell_superindex(list(c), shape)
        ctx.check(np.ndim(s) == 0 and int(s) == k, "superindex:single", lambda: f"{c}: {s} want {k}")
        s = b.get_cell_superindex(np.array([c]), shape)
        ctx.check(np.shape(s) == (1,) and int(s[0]) == k, "superindex:array", lambda: f"{c}: {s} want {k}")
        for kk in (k, np.int64(k)):
            r = b.get_cell_index(kk, shape)
            ctx.check(np.shape(r) == (d,) and tuple(int(x) for x in r) == c, "cellindex:single", lambda: f"{k}: {r} want {c}")
    # reversed order of an array keeps the order
    si = b.get_cell_superindex(np.array(cells[::-1]), shape)
    ctx.check([int(x) for x in si] == list(range(total))[::-1], "superindex:order")
    ix = b.get_cell_index(np.arange(total)[::-1], shape)
    ctx.check([tuple(int(x) for x in r) for r in ix] == cells[::-1], "cellindex:order")


def run_far(case, ctx, lp):
    """Numbers around every integer-width boundary of shapes with too many cells to enumerate."""
    shape = case["shape"]
    d = len(shape)
    b = lp.LatticeBasis.hypercubic(d)
    total = 1
    for s in shape:
        total *= s
    nums = set()
    for k in (0, 7, 8, 15, 16, 24, 31, 32, 33, 40, 52, 53, 54, 62):
        nums |= set(range(2**k - 3, 2**k + 4))
    for f in (2, 3, 7):
        nums |= set(range(total // f - 2, total // f + 3))
    nums |= set(range(total - 5, total))
    nums = sorted(x for x in nums if 0 <= x < total)
    cells = []
    for x in nums:  # plain definition, exact integers
        c = []
        for s in shape[::-1]:
            c.append(x % s)
            x //= s
        cells.append(tuple(c[::-1]))
    ctx.begin("super-far", shape)
    for shp in (list(shape), tuple(shape), np.array(shape)):
        ctx.op("batch")
        si = b.get_cell_superindex(np.array(cells, dtype=np.int64), shp)
        ctx.check([int(x) for x in si] == nums, "superindex:far-batch", lambda: [(c, int(x), n) for c, x, n in zip(cells, si, nums) if x != n][:3])
        ix = b.get_cell_index(np.array(nums, dtype=np.int64), shp)
        ctx.check([tuple(int(x) for x in r) for r in ix] == cells, "cellindex:far-batch",
                  lambda: [(n, r, c) for n, r, c in zip(nums, ix.tolist(), cells) if tuple(r) != c][:3])
    for k, c in zip(nums, cells):
        ctx.op("single")
        ctx.state((tuple(shape), k))
        s = b.get_cell_superindex(list(c), shape)
        ctx.check(int(s) == k, "superindex:far", lambda: f"{c}: {s} want {k}")
        r = b.get_cell_index(k, shape)
        ctx.check(tuple(int(x) for x in r) == c, "cellindex:far", lambda: f"{k}: {r} want {c}")


INTS = ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32"]


def kinds(rows, integer):
    """The same numbers in every representation that holds them exactly."""
    a = np.array(rows)
    out = [("list", a.tolist()), ("tuple", tuple(a.tolist()) if a.ndim < 2 else tuple(tuple(r) for r in a.tolist())),
           ("float64", a.astype(float)), ("fortran", np.asfortranarray(a.astype(float)))]
    if np.array_equal(a.astype(np.float32), a):
        out.append(("float32", a.astype(np.float32)))
    if integer:
        for t in INTS:
            if np.array_equal(a.astype(t).astype(np.int64), a.astype(np.int64)):
                out.append((t, a.astype(t)))
        out.append(("strided", np.repeat(a, 2, axis=0)[::2]))
    ro = a.astype(float)
    ro.setflags(write=False)
    out.append(("readonly", ro))
    return out


def run_types(case, ctx, lp):
    """The kind of the numbers makes no difference."""
    V = np.array(case["vectors"], float)
    d = len(V)
    integral = np.array_equal(V, np.round(V))
    cells = [list(c) for c in itertools.product((-2, 0, 1, 3), repeat=d)][:90] + [[100] * d, [127] + [1] * (d - 1)]
    pos = [[abs(x) for x in c] for c in cells]  # for the unsigned types
    rs = [[0.25, -1.5, 3.0, 0.5][:d], [1, 2, -1, 4][:d], [3, 0, 5, 1][:d]]
    for vk, v in kinds(case["vectors"], integral):
        b = lp.LatticeStructure(v)
        b.add_atom()
        ctx.begin("vectors", vk)
        ctx.check(close(b.vectors, V), "types:vectors", lambda: f"{vk}: {b.vectors}")
        for N in (cells, pos):
            W = np.array(N, float) @ V
            for nk, n in kinds(N, True):
                if nk.startswith("float") and vk != "list":
                    continue
                ctx.op(nk)
                ctx.state((repr(case["vectors"]), vk, nk))
                sc = 500.0
                ctx.check(close(b.translate(n), W, sc), "types:translate", lambda: f"{vk} {nk}")
                ctx.check(close(b.transform(n), W, sc), "types:transform", lambda: f"{vk} {nk}")
                for r in rs:
                    for rk, rr in kinds(r, all(x == int(x) for x in r)):
                        ctx.check(close(b.translate(n, rr), W + np.array(r, float), sc), "types:translate-r", lambda: f"{vk} {nk} {rk}: {r}")
                        ctx.check(close(b.translate(n[1], rr), W[1] + np.array(r, float), sc), "types:translate-one", lambda: f"{vk} {nk} {rk}: {r}")
                if not nk.startswith(("float", "fortran", "readonly", "list", "tuple")):
                    idx = np.concatenate([n, np.zeros((len(n), 1), n.dtype)], axis=1)
                    ctx.check(close(b.get_positions(idx), W, sc), "types:get_positions", lambda: f"{vk} {nk}")
                    ctx.check(close(b.get_position(n[2], 0), W[2], sc), "types:get_position", lambda: f"{vk} {nk}")
                    ctx.check(close(b.get_position(n[2], np.uint8(0)), W[2], sc), "types:get_position", lambda: f"{vk} {nk}")
                    sh = np.max(pos, axis=0) + 1
                    if N is pos:
                        want = [0] * len(N)
                        for k in range(d):
                            want = [w * int(sh[k]) + int(x[k]) for w, x in zip(want, N)]
                        for sk, shp in kinds(sh.tolist(), True):
                            if sk in ("float64", "float32", "fortran", "readonly"):
                                continue
                            got = b.get_cell_superindex(n, shp)
                            ctx.check([int(x) for x in got] == want, "types:superindex", lambda: f"{nk} {sk}")
                            got = [int(b.get_cell_superindex(x, shp)) for x in n]
                            ctx.check(got == want, "types:superindex-one", lambda: f"{nk} {sk}")
                            for t in ("int64", "uint64", "int32", "int16", "uint8"):
                                if max(want) > np.iinfo(t).max:
                                    continue
                                got = b.get_cell_index(np.array(want, t), shp)
                                ctx.check(np.array_equal(np.asarray(got).astype(np.int64), N), "types:cellindex", lambda: f"{sk} {t}")
                # whole numbers as points
                C = np.array(N, float) @ np.linalg.inv(V)
                ctx.check(np.abs(np.asarray(b.itransform(n), float) - C).max() < 1e-9 * 500, "types:itransform", lambda: f"{vk} {nk}")
                nv, r = b.itranslate(n)
                F = C - np.floor(C)
                check_itrans(ctx, (nv, r), np.array(N, float), np.floor(C), F, V, "types:itranslate", 500.0, 1e-9 * np.linalg.cond(V))
                one = b.itranslate(n[1])
                check_itrans(ctx, [np.asarray(o)[None] for o in one], np.array(N[1:2], float), np.floor(C[1:2]), F[1:2], V,
                             "types:itranslate-one", 500.0, 1e-9 * np.linalg.cond(V))
                if d == 1 and not isinstance(n, (list, tuple)):
                    x = n[1, 0]
                    ctx.check(close(np.ravel(b.translate(x)), W[1], sc), "types:scalar", lambda: f"{vk} {nk}")


def run_many(case, ctx, lp):
    """Arrays of any length: every row as the plain definition says."""
    V = np.array(case["vectors"], float)
    d, n = len(V), case["rows"]
    b = lp.LatticeStructure(case["vectors"])
    R = np.array([[0.1 * (k + 1)] * d for k in range(3)]) @ V
    for r in R:
        b.add_atom(r, atom=str(r[0]))
    k = np.arange(n)
    N = np.stack([(k * (7 + 4 * i) + i) % (13 + 6 * i) - 6 for i in range(d)], axis=1)
    F = np.stack([((k * (3 + i)) % 97 + 1) / 100 for i in range(d)], axis=1)
    C = N + F
    X = np.zeros((n, d))
    for i in range(d):
        X += C[:, i:i + 1] * V[i]
    T = np.zeros((n, d))
    for i in range(d):
        T += N[:, i:i + 1] * V[i]
    ctx.begin("rows", n)
    ctx.op("batch")
    ctx.state((repr(case["vectors"]), n))
    sc, eps = 200.0, 1e-9 * np.linalg.cond(V)
    ctx.check(close(b.transform(C), X, sc), "many:transform")
    ctx.check(np.abs(b.itransform(X) - C).max() <= eps * sc, "many:itransform")
    ctx.check(close(b.translate(N), T, sc), "many:translate")
    ctx.check(close(b.translate(N, R[0]), T + R[0], sc), "many:translate-r")
    ctx.check(close(b.translate(N, X - T), X, sc), "many:translate-rs")
    ctx.check(close(b.translate([1] * d, X), X + V.sum(0), sc), "many:translate-one")
    check_itrans(ctx, b.itranslate(X), X, N, F, V, "many:itranslate", sc, eps)
    idx = np.concatenate([N, (k % 3)[:, None]], axis=1)
    ctx.check(close(b.get_positions(idx), T + R[k % 3], sc), "many:get_positions")
    sh = [13 + 6 * i for i in range(d)]
    cells = N - N.min(0)
    want = np.zeros(n, np.int64)
    for i in range(d):
        want = want * sh[i] + cells[:, i]
    ctx.check(np.array_equal(b.get_cell_superindex(cells, sh), want), "many:superindex")
    ctx.check(np.array_equal(b.get_cell_index(want, sh), cells), "many:cellindex")
