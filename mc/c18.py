"""C18  Numeric helpers are exact over their whole range."""
import itertools
import math
import re

import numpy as np

from .core import lattpy

ID = "C18"
BOUNDS = {
    "quick": "vindices: all limits in [-2,2]^2 per axis in 1-3 dimensions, limits around every 8/16 bit boundary, all sort axes, "
    "8 types; vrange: all starts/stops/steps of a grid in 1-3 dimensions and 6 call forms; min_dtype: all values within 2 of "
    "every power of two up to 2^62, all pairs, all integer input types; lookup tables with 1..300 and 65530..65540 values x 6 types; "
    "interweave, chain, distances, number/time formatting on full grids; cells of all lengths x angles, all vectors of a grid; "
    "rotations by 48 angles (all triples of 12); tree queries of 20 point sets x k x limit x metric x options x periodic boxes; arrays of 17 lengths up to 131073 (trees up to 10001 points); every kind of numbers for points and vectors; interpolation of 3 point sets to all grids of a set of sizes x offsets x methods x fill values",
    "thorough": "as quick with larger grids (vindices [-3,3], more angles, all triples of values for min_dtype)",
}
ASSUMPTIONS = [
    "tree queries: no distance equals the limit exactly; a query mixes no stored and other points",
    "min_dtype is claimed for integers of up to 63 bits",
]
PARTS = ["vindices", "vlimits", "vrange", "mindtype", "lookup", "interweave", "chain", "distance", "format", "cell", "vectors",
         "rotation", "tree", "many", "kinds", "interpolate"]
NUMS = [100, 129, 256, 500, 999, 1000, 1001, 1025, 2048, 4097, 5000, 10001, 20000, 32769, 65537, 100001, 131073]


def cases(tier):
    out = []
    for p in PARTS:
        n = {"vindices": 8, "mindtype": 4, "tree": 20, "vrange": 6, "vectors": 2, "cell": 4, "lookup": 4, "rotation": 4, "many": len(NUMS)}.get(p, 1)
        out += [dict(part=p, i=i, n=n, tier=tier) for i in range(n)]
    return sorted(out, key=lambda c: c["i"])


def run(case, ctx):
    lp = lattpy()
    import lattpy.spatial as sp
    import lattpy.utils as ut

    globals()["part_" + case["part"]](case, ctx, sp, ut)


def share(case, it):
    for j, x in enumerate(it):
        if j % case["n"] == case["i"]:
            yield x


# -- index grids -------------------------------------------------------------------------------
def check_grid(ctx, got, axes, sort_axis, what):
    """got is exactly the product of the axes' values, sorted along sort_axis."""
    d = len(axes)
    got = np.asarray(got)
    n = int(np.prod([len(a) for a in axes]))
    ctx.check(got.shape == (n, d), what + ":shape", lambda: f"{got.shape} want {(n, d)}")
    if not n:
        return
    if n > 20000:
        want = np.array(np.meshgrid(*axes, indexing="ij")).reshape(d, -1).T
        g = got[np.lexsort(got.T)]
        w = want[np.lexsort(want.T)]
        ctx.check(np.array_equal(g, w), what + ":values", "")
    else:
        g = sorted(map(tuple, got.tolist()))
        w = sorted(itertools.product(*[list(a) for a in axes]))
        ctx.check(g == w, what + ":values", lambda: f"{g[:5]} want {w[:5]}")
    if sort_axis is not None:
        col = got[:, sort_axis]
        ctx.check(all(x <= y for x, y in zip(col[:-1].tolist(), col[1:].tolist())), what + ":sorted", lambda: col)


def part_vindices(case, ctx, sp, ut):
    m = 2 if case["tier"] == "quick" else 3
    lims = [(a, b) for a in range(-m, m + 1) for b in range(a, m + 2)]
    for d in (1, 2, 3):
        ll = lims if d < 3 else lims[::2] if case["tier"] == "quick" else lims[::2]
        for lim in share(case, itertools.product(ll, repeat=d)):
            ctx.begin("vindices", lim)
            for sa in [None] + list(range(d)) + [-1]:
                ctx.op(("vindices", lim, sa))
                for _ in range(2):  # the caller may overwrite the first grid
                    got = sp.vindices(lim, sort_axis=sa)
                    check_grid(ctx, got, [range(a, b) for a, b in lim], sa, "vindices")
                    if got.flags.writeable:
                        got[...] = 0
            check_grid(ctx, sp.vindices(np.array(lim)), [range(a, b) for a, b in lim], 0, "vindices-default")
            ctx.state(("vindices", lim))
            ctx.outcome(("vindices", lim))


EDGES = [0, 1, 126, 127, 128, 129, 254, 255, 256, 257]


def part_vlimits(case, ctx, sp, ut):
    pairs = [(s * a, t * b) for a in EDGES for b in EDGES for s in (1, -1) for t in (1, -1) if s * a < t * b]
    big = [(x, x + 3) for k in (15, 16, 31) for s in (1, -1) for x in range(s * 2 ** k - 4, s * 2 ** k + 3)]
    big += [(-x, x) for x in (32766, 32767, 32768)] + [(0, x) for x in (32766, 32767, 32768, 65535, 65536)]
    types = [None, np.int8, np.uint8, np.int16, np.int32, np.int64, int, "int16"]
    for lim in sorted(set(pairs)) + big:
        for dt in types:
            if lim[0] < 0 and dt == np.uint8:
                continue
            ctx.begin("limits", lim, str(dt))
            ctx.op(("vindices", lim, str(dt)))
            check_grid(ctx, sp.vindices([lim], dtype=dt), [range(*lim)], 0, "vindices")
            if abs(lim[0]) < 300:
                check_grid(ctx, sp.vindices([lim, (-1, 1)], sort_axis=1, dtype=dt), [range(*lim), range(-1, 1)], 1, "vindices")
                for it in (np.int8, np.uint8, np.int16, np.uint16):
                    a = np.array([lim]).astype(it)
                    if a.tolist() == [list(lim)]:
                        check_grid(ctx, sp.vindices(a, dtype=dt), [range(*lim)], 0, "vindices-%s" % it.__name__)
        ctx.state(("limits", lim))
        ctx.outcome(("limits", lim))


def values(a, b, s):
    out, i = [], 0
    while (a + i * s < b) if s > 0 else (a + i * s > b):
        out.append(a + i * s)
        i += 1
    return out


def part_vrange(case, ctx, sp, ut):
    starts, stops, steps = [-1, 0, 0.5], [0, 1, 2.5, 3], [1, 0.5, 2, 0.25]
    one = [(a, b, s) for a in starts for b in stops for s in steps if a <= b]
    one = one + [(2, 0, -0.5), (0, -2, -1)]
    combos = [(x,) for x in one] + list(itertools.product(one, repeat=2)) + list(itertools.product(one[::5], repeat=3))
    for combo in share(case, combos):
        a, b, s = (list(x) for x in zip(*combo))
        d = len(combo)
        ax = [values(*c) for c in combo]
        if any(len(x) > 9 for x in ax) and d > 1:
            continue
        ctx.begin("vrange", combo)
        for sa in [None] + list(range(d)):
            ctx.op(("vrange", combo, sa))
            check_grid(ctx, sp.vrange(a, b, s, sort_axis=sa), ax, sa, "vrange")
        check_grid(ctx, sp.vrange(np.array(a), np.array(b), step=np.array(s)), ax, 0, "vrange-step-kw")
        if len(set(s)) == 1:
            check_grid(ctx, sp.vrange(a, b, s[0]), ax, 0, "vrange-scalar-step")
            check_grid(ctx, sp.vrange(a, b, step=s[0]), ax, 0, "vrange-scalar-step-kw")
            if s[0] == 1:
                check_grid(ctx, sp.vrange(a, b), ax, 0, "vrange-two")
                check_grid(ctx, sp.vrange(a, b, None), ax, 0, "vrange-none")
            if not any(a):
                check_grid(ctx, sp.vrange(b, step=s[0]), ax, 0, "vrange-stop-step")
                if s[0] == 1:
                    check_grid(ctx, sp.vrange(b), ax, 0, "vrange-one")
                    if d == 1:
                        check_grid(ctx, sp.vrange(b[0]), ax, 0, "vrange-scalar")
        if all(float(v).is_integer() for x in ax for v in x):
            r = sp.vrange(a, b, s, dtype=np.int16)
            ctx.check(r.dtype == np.int16, "vrange-dtype", r.dtype)
            check_grid(ctx, r, ax, 0, "vrange-int16")
        ctx.state(("vrange", combo))
        ctx.outcome([len(x) for x in ax])


# -- types and tables --------------------------------------------------------------------------
def int_values():
    vals = {0, 1, 2, 3, 100}
    for k in (7, 8, 15, 16, 31, 32, 62):
        vals |= {2 ** k + e for e in range(-2, 3)}
    return sorted(vals | {-v for v in vals})


INTS = [np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32, np.int64, np.uint64]


def fits(dt, lo, hi):
    i = np.iinfo(dt)
    return i.min <= lo and hi <= i.max


def check_dtype(ctx, ut, arg, lo, hi, what):
    for signed in (True, False):
        dt = np.dtype(ut.min_dtype(arg, signed=signed))
        ctx.check(dt.kind in "iu", what + ":kind", lambda: f"{arg!r}: {dt}")
        ctx.check(fits(dt, lo, hi), what + ":holds", lambda: f"min_dtype({arg!r}, {signed}) = {dt}")
        if signed or lo < 0:
            ctx.check(dt.kind == "i", what + ":signed", lambda: f"min_dtype({arg!r}, {signed}) = {dt}")
        # minimal: the next smaller type does not hold the values (a negative boundary value may count as exceeding it)
        kind = np.dtype("i1" if dt.kind == "i" else "u1").kind
        if dt.itemsize > 1:
            small = np.iinfo(f"{kind}{dt.itemsize // 2}")
            ctx.check(hi > small.max or -lo > small.max, what + ":minimal", lambda: f"min_dtype({arg!r}, {signed}) = {dt}")


def part_mindtype(case, ctx, sp, ut):
    vals = int_values()
    for v in share(case, vals):
        ctx.begin("min_dtype", v)
        ctx.op(v)
        check_dtype(ctx, ut, v, v, v, "value")
        check_dtype(ctx, ut, [v], v, v, "list")
        for w in vals:
            lo, hi = min(v, w), max(v, w)
            check_dtype(ctx, ut, [v, w], lo, hi, "pair")
            check_dtype(ctx, ut, np.array([[v, 0], [w, 0]], dtype=np.int64), min(lo, 0), max(hi, 0), "array")
            if case["tier"] == "thorough":
                for u in vals:
                    check_dtype(ctx, ut, (v, w, u), min(lo, u), max(hi, u), "triple")
            for it in INTS:
                if fits(it, lo, hi):
                    check_dtype(ctx, ut, np.array([v, w], dtype=it), lo, hi, "typed")
            ctx.op(("pair", v, w))
            ctx.state((v, w))
        for it in INTS:
            if fits(it, v, v):
                check_dtype(ctx, ut, it(v), v, v, "scalar")
        ctx.outcome(v)


def part_lookup(case, ctx, sp, ut):
    ns = list(range(1, 301)) + [65533, 65534, 65535, 65536, 65537, 65538]
    if case["tier"] == "quick":
        ns = [n for n in ns if n < 20 or 120 < n < 135 or 250 < n < 262] + [65535, 65536]
    for n in share(case, ns):
        base = [("float", np.arange(n) * 0.37 - 3), ("int", np.arange(n) * 2 - 5), ("inf", np.append(np.arange(n - 1) * 1.5, np.inf)),
                ("str", np.array([f"x{i}" for i in range(n)])), ("bool", np.array([False, True][:n]))]
        types = [None, np.uint8, np.int8, np.uint16, np.int32, "uint8"]
        for (lab, vals), dt in itertools.product(base if n < 1000 else base[:1], types if n < 1000 else types[1:3]):
            ctx.begin("lookup", n, lab, str(dt))
            if n < 1000:
                arr = np.concatenate([vals[::-1], vals, vals[::2]])
            else:
                continue_large(ctx, ut, n, dt)
                continue
            arrs = [arr, arr.tolist()]
            if len(arr) % 2 == 0:
                arrs.append(arr.reshape(2, -1))
            for x in arrs:
                ctx.op((n, lab, str(dt), type(x).__name__))
                v, i = ut.create_lookup_table(x) if dt is None else ut.create_lookup_table(x, dt)
                v, i = np.asarray(v), np.asarray(i)
                ctx.check(np.array_equal(v, np.unique(vals)), "lookup:values", lambda: v)
                ctx.check(i.dtype.kind in "iu" and i.shape == np.shape(x), "lookup:type", lambda: f"{i.dtype} {i.shape}")
                ctx.check(i.size == 0 or (i.min() >= 0 and i.max() < len(v)), "lookup:range", lambda: f"{n} {dt}: {i.min()} {i.max()}")
                ctx.check(np.array_equal(v[i], np.asarray(x)), "lookup:inverse", lambda: f"{n} {dt}")
        ctx.state(("lookup", n))
        ctx.outcome(n)


def continue_large(ctx, ut, n, dt):
    # every value would be compared with the whole array: use few rows of a large table
    arr = np.arange(n, dtype=np.int32)
    ctx.op(("large", n, str(dt)))
    v, i = ut.create_lookup_table(arr, dt)
    ctx.check(np.array_equal(v, arr) and np.array_equal(np.asarray(v)[i], arr), "lookup:large", f"{n} {dt}")


def part_interweave(case, ctx, sp, ut):
    types = [np.int8, np.int64, np.uint8, np.float32, np.float64]
    for n, k, d in itertools.product(range(0, 4), range(1, 4), range(0, 3)):
        for tt in itertools.product(types, repeat=k):
            arrs = []
            for a, t in enumerate(tt):
                x = (np.arange(n * max(d, 1)) + 100 * (a + 1) % 125 + (0.5 if t in (np.float32, np.float64) else 0)).astype(t)
                arrs.append(x.reshape(n, d) if d else x)
            ctx.begin("interweave", n, d, [t.__name__ for t in tt])
            ctx.op("interweave")
            r = np.asarray(sp.interweave(arrs))
            want = [arrs[j % k][j // k].tolist() for j in range(n * k)]
            ctx.check(r.tolist() == want and r.shape[0] == n * k, "interweave", lambda: f"{r.tolist()} want {want}")
            ctx.state((n, k, d, [t.__name__ for t in tt]))
            ctx.outcome(want)


def part_chain(case, ctx, sp, ut):
    for n in range(0, 6):
        for items in ([f"p{i}" for i in range(n)], tuple(range(n)), np.arange(n) * 1.5, [0] * n, np.arange(2 * n).reshape(n, 2)):
            for cyc in (False, True):
                if n == 0 and cyc:
                    continue
                ctx.begin("chain", n, cyc)
                ctx.op("chain")
                got = ut.chain(items, cyc)
                want = [(i, i + 1) for i in range(n - 1)] + ([(n - 1, 0)] if cyc else [])
                ok = len(got) == len(want) and all(
                    len(g) == 2 and np.array_equal(g[0], items[i]) and np.array_equal(g[1], items[j]) for g, (i, j) in zip(got, want))
                ctx.check(ok, "chain", lambda: f"{got} want {want}")
                ctx.state((n, cyc))
                ctx.outcome(want)


def part_distance(case, ctx, sp, ut):
    g = [-3.0, -0.5, 0.0, 1.0, 4.0, 1 / 3]
    for d in (1, 2, 3):
        pts = list(itertools.product(g if d < 3 else g[1::2], repeat=d))
        P = np.array(pts)
        for i, p in enumerate(pts):
            ctx.begin("distance", p)
            want = [math.sqrt(sum((x - y) ** 2 for x, y in zip(p, q))) for q in pts]
            ctx.op("distances")
            for dec in (None, 0, 2, 6):
                tol = 1e-12 if dec is None else 0.5 * 10 ** -dec + 1e-9
                got = sp.distances(P[i], P) if dec is None else sp.distances(P[i], P, dec)
                rev = sp.distances(P, P[i].tolist(), decimals=dec)
                ctx.check(np.shape(got) == (len(P),) and np.allclose(got, want, rtol=0, atol=tol), "distances", lambda: f"{p} {dec}")
                ctx.check(np.allclose(rev, want, rtol=0, atol=tol), "distances-reverse", lambda: f"{p} {dec}")
                if dec is not None:
                    ctx.check(np.array_equal(got, np.round(got, dec)), "distances-decimals", lambda: f"{p} {dec}")
                for q, w in zip(P, want):
                    s = sp.distance(P[i], q, dec)
                    ctx.check(abs(s - w) <= tol and (dec is None or s == round(s, dec)), "distance", lambda: f"{p} {q} {dec}: {s} want {w}")
            ctx.check(np.allclose(sp.distances(P, P[::-1]), [math.dist(a, b) for a, b in zip(pts, pts[::-1])]), "distances-pairs", "")
            ctx.state((d, p))
            ctx.outcome(want[:8])


PRE = {"": 0, "k": 1, "M": 2, "G": 3, "T": 4, "P": 5, "E": 6, "Z": 7, "Y": 8}


def part_format(case, ctx, sp, ut):
    mant = [1, 1.5, 2, 9.99, 42, 123.4, 999, 999.94, 1000, 1023, 1023.9]
    for div, fn in ((1000.0, lambda v, dec: ut.frmt_num(v, dec)), (1024.0, lambda v, dec: ut.frmt_num(v, dec, "iB", 1024)),
                    (1024.0, lambda v, dec: ut.frmt_bytes(v, dec)), (1000.0, lambda v, dec: ut.frmt_num(v, dec, unit="Hz"))):
        for e, m, s, dec in itertools.product(range(0, 8), mant, (1, -1), (0, 1, 2)):
            v = s * m * div ** e
            ctx.begin("format", v, dec)
            ctx.op("frmt")
            t = fn(v, dec)
            r = re.fullmatch(r"(-?\d+(?:\.\d+)?)([kMGTPEZY]?)(iB|Hz|)", t)
            ctx.check(r is not None, "format:syntax", t)
            ctx.check(len((r.group(1) + ".").split(".")[1]) == dec, "format:decimals", t)
            p = PRE[r.group(2)]
            x = float(r.group(1))
            ctx.check(abs(x * div ** p - v) <= (0.5000001 * 10 ** -dec) * div ** p, "format:value", f"{v}: {t}")
            a = abs(v) / div ** p
            ctx.check(a < div * (1 + 1e-12) and (p == 0 or a >= 1 - 1e-12), "format:prefix", f"{v}: {t}")
            ctx.state((v, dec))
            ctx.outcome(t)
    ctx.check(ut.frmt_num(0) == "0.0" and ut.frmt_num(5, 1, "m") == "5.0m" and ut.frmt_bytes(2048) == "2.0kiB", "format:examples", "")
    secs = [0, 1e-6, 5e-5, 2e-4, 0.0015, 0.02, 0.5, 0.94, 1, 1.5, 9.9, 42, 59.9, 60, 61, 75.5, 119, 600, 3599, 3600, 3601, 3661, 7322, 36000, 90061]
    for s, short, width in itertools.product(secs, (False, True), (0, 5, 20)):
        ctx.begin("time", s, short, width)
        ctx.op("frmt_time")
        t = ut.frmt_time(s, short, width)
        ctx.check(len(t) >= width, "time:width", repr(t))
        t0 = t.strip()
        val, tol = parse_time(t0, short)
        ctx.check(val is not None and abs(val - s) <= tol, "time:value", f"{s} {short}: {t0!r} -> {val}")
        ctx.state((s, short, width))
        ctx.outcome(t)


def parse_time(t, short):
    m = re.fullmatch(r"(\d+):(\d+)h", t)
    if m:
        return int(m[1]) * 3600 + int(m[2]) * 60, 60
    m = re.fullmatch(r"(\d+):(\d\d)", t)
    if m:
        return int(m[1]) * 60 + int(m[2]), 0.51
    m = re.fullmatch(r"(\d+):(\d\d):(\d\d)h", t)
    if m:
        return int(m[1]) * 3600 + int(m[2]) * 60 + int(m[3]), 0.51
    m = re.fullmatch(r"(\d+):(\d\d\.\d)min", t)
    if m:
        return int(m[1]) * 60 + float(m[2]), 0.051
    m = re.fullmatch(r"([\d.]+)(\u03BCs|\u00b5s|ms|s)", t)
    if m and not short:
        u = {"ms": 1e-3, "s": 1.0}.get(m[2], 1e-6)
        return float(m[1]) * u, (0.51 if u == 1e-6 else 0.051) * u
    return None, 0


# -- geometry ----------------------------------------------------------------------------------
def part_cell(case, ctx, sp, ut):
    g = [-1.5, 0.0, 0.5, 2.0]
    for d in (1, 2, 3):
        vs = list(itertools.product(g, repeat=d))
        if d == 3:
            vs = [v for v in vs if v[0] >= v[2] or sum(v) > 2][::3]
        for vec in share(case, itertools.product(vs, repeat=d)):
            v = np.array(vec)
            ctx.begin("cell", vec)
            for arg in (v, v.tolist()):
                ctx.op("cell")
                size = sp.cell_size(arg)
                want = [max(0.0, max(c)) - min(0.0, min(c)) for c in zip(*vec)]
                ctx.check(np.allclose(size, want, atol=1e-12), "cell_size", lambda: f"{vec}: {size} want {want}")
                vol = sp.cell_volume(arg)
                ctx.check(np.ndim(vol) == 0 and abs(float(vol) - abs(det(vec))) < 1e-9, "cell_volume", lambda: f"{vec}: {vol} want {abs(det(vec))}")
            ctx.check(np.array_equal(v, np.array(vec)), "cell:argument-changed", vec)
            ctx.state(vec)
            ctx.outcome(want)
    if case["i"] == 0:
        for diag in itertools.product([0.5, 2.0], repeat=4):
            v = np.diag(diag)
            v[3, 0] = 0.7
            for arg in (v, v.tolist()):
                ctx.check(abs(sp.cell_volume(arg) - np.prod(diag)) < 1e-9, "cell_volume-4d", diag)


def det(m):
    if len(m) == 1:
        return m[0][0]
    return sum((-1) ** j * m[0][j] * det([r[:j] + r[j + 1:] for r in m[1:]]) for j in range(len(m)))


def angle(u, v):
    return math.degrees(math.acos(max(-1, min(1, np.dot(u, v) / np.linalg.norm(u) / np.linalg.norm(v)))))


def part_vectors(case, ctx, sp, ut):
    lens = [0.5, 1.0, 2.5]
    for a in lens:
        ctx.check(np.allclose(np.ravel(sp.compute_vectors(a)), [a]), "vectors-1d", a)
    for a, b, al in share(case, itertools.product(lens, lens, range(10, 180, 10))):
        ctx.begin("vectors", a, b, al)
        ctx.op("compute_vectors")
        v = np.asarray(sp.compute_vectors(a, b, alpha=al))
        ok = v.shape == (2, 2) and np.allclose([np.linalg.norm(v[0]), np.linalg.norm(v[1])], [a, b]) and abs(angle(v[0], v[1]) - al) < 1e-6
        ctx.check(ok and abs(v[0, 1]) < 1e-12 and v[1, 1] > 0 and v[0, 0] > 0, "vectors-2d", lambda: f"{a} {b} {al}: {v}")
        r = np.asarray(sp.compute_vectors(a, b, alpha=al, decimals=3))
        ctx.check(np.allclose(r, np.round(v, 3), atol=1e-12), "vectors-decimals", lambda: f"{r} {v}")
        ctx.state((a, b, al))
        ctx.outcome(v.round(9).tolist())
    angs = [50, 60, 75, 90, 100, 115] if case["tier"] == "quick" else range(40, 135, 7)
    for a, b, c, al, be, ga in share(case, itertools.product(lens[:2], lens[1:], lens, angs, angs, angs)):
        ca, cb, cg = (math.cos(math.radians(x)) for x in (al, be, ga))
        if 1 - ca * ca - cb * cb - cg * cg + 2 * ca * cb * cg < 1e-3:
            continue  # no such cell
        ctx.begin("vectors", a, b, c, al, be, ga)
        ctx.op("compute_vectors")
        v = np.asarray(sp.compute_vectors(a, b, c, al, be, ga))
        ln = np.linalg.norm(v, axis=1)
        got = (angle(v[1], v[2]), angle(v[0], v[2]), angle(v[0], v[1]))
        # angles as used by crystallography: alpha = (b, c), beta = (a, c), gamma = (a, b)
        ctx.check(np.allclose(ln, [a, b, c]), "vectors-lengths", lambda: f"{ln} want {(a, b, c)}")
        ctx.check(np.allclose(got, (al, be, ga), atol=1e-6), "vectors-angles", lambda: f"{got} want {(al, be, ga)}")
        ctx.check(np.allclose(v[0, 1:], 0) and abs(v[1, 2]) < 1e-12 and v[2, 2] > 0, "vectors-orientation", lambda: v)
        ctx.state((a, b, c, al, be, ga))
        ctx.outcome(v.round(9).tolist())


def ref_rot(axis, th):
    c, s = math.cos(th), math.sin(th)
    u = np.zeros(3)
    u[axis] = 1
    K = np.array([[0, -u[2], u[1]], [u[2], 0, -u[0]], [-u[1], u[0], 0]])
    return np.eye(3) + s * K + (1 - c) * K @ K


def part_rotation(case, ctx, sp, ut):
    degs = [x for x in range(-360, 361, 15)]
    pts = np.array(list(itertools.product([-1.0, 0.0, 0.5], repeat=3)))
    for deg in share(case, degs):
        th = math.radians(deg)
        ctx.begin("rotation", deg)
        for i, fn in enumerate((sp.rx, sp.ry, sp.rz)):
            ctx.op(("r", i, deg))
            R = np.asarray(fn(th))
            ctx.check(np.allclose(R, ref_rot(i, th), atol=1e-12), "rotation-matrix", lambda: f"axis {i} {deg}: {R}")
            ang = [0.0, 0.0, 0.0]
            ang[i] = deg
            want = pts @ ref_rot(i, th)
            got = sp.rotate3d(pts, *ang)
            ctx.check(np.allclose(got, want, atol=1e-12), "rotate3d", lambda: f"axis {i} {deg}")
            ctx.check(np.allclose(sp.rotate3d(pts, *np.deg2rad(ang), degree=False), want, atol=1e-12), "rotate3d-rad", lambda: f"{i} {deg}")
            for p, w in zip(pts, want):
                ctx.check(np.allclose(sp.rotate3d(p, *ang), w, atol=1e-12), "rotate3d-point", lambda: f"{p}")
        p2 = pts[::3, :2]
        want = p2 @ ref_rot(2, th)[:2, :2]
        ctx.check(np.allclose(sp.rotate2d(p2, deg), want, atol=1e-12) and np.allclose(sp.rotate2d(p2, th, degree=False), want, atol=1e-12),
                  "rotate2d", deg)
        for p, w in zip(p2, want):
            ctx.check(np.allclose(sp.rotate2d(p, deg), w, atol=1e-12), "rotate2d-point", lambda: f"{p}")
        ctx.state(deg)
        ctx.outcome(deg)
    tri = degs[::2] if case["tier"] == "thorough" else degs[::4]
    for ax, ay, az in share(case, itertools.product(tri, repeat=3)):
        ctx.begin("rot", ax, ay, az)
        ctx.op("rot")
        r = [math.radians(x) for x in (ax, ay, az)]
        want = ref_rot(2, r[2]) @ ref_rot(1, r[1]) @ ref_rot(0, r[0])
        R = np.asarray(sp.rot(*r))
        ctx.check(np.allclose(R, want, atol=1e-11), "rot", lambda: f"{(ax, ay, az)}: {R} want {want}")
        ctx.check(np.allclose(sp.rotate3d(pts, ax, ay, az), pts @ want, atol=1e-11), "rotate3d-general", lambda: f"{(ax, ay, az)}")
        ctx.state((ax, ay, az))


def point_sets():
    out = []
    for n in (2, 3, 5, 9):
        out.append(np.arange(n, dtype=float)[:, None] * 1.1)
    for nx, ny in ((2, 2), (3, 3), (4, 3), (1, 5), (5, 5), (16, 16)):
        out.append(np.array(list(itertools.product(range(nx), range(ny))), float) * [1.0, 1.3])
    out.append(np.array([[x * 1.0 + y * 0.5, y * 0.9] for x in range(4) for y in range(4)]))
    out.append(np.array([[0, 0], [1, 0], [0, 5], [7, 7], [1.2, 0.1]], float))
    for n in (2, 3):
        out.append(np.array(list(itertools.product(range(n), repeat=3)), float) * [1, 1.2, 0.8])
    out.append(np.array(list(itertools.product(range(2), range(2), range(3))), float))
    out.append(np.arange(254, dtype=float)[:, None])
    out.append(np.arange(255, dtype=float)[:, None])
    out.append(np.arange(256, dtype=float)[:, None])
    out.append(np.arange(257, dtype=float)[:, None])
    out.append(np.array([[0.0, 0.0, 0.0], [0.5, 0.25, 0.75], [-1, 2, 0.5], [3, 3, 3]]))
    return out


def metric(a, b, p):
    d = np.abs(a[:, None, :] - b[None, :, :])
    return d.max(-1) if p == np.inf else d.sum(-1) if p == 1 else np.sqrt((d ** 2).sum(-1))


def part_tree(case, ctx, sp, ut):
    pts = point_sets()[case["i"]]
    n = len(pts)
    other = pts + 0.237 * np.arange(1, pts.shape[1] + 1)
    ks = sorted({2, 3, 5, n, n + 1, n + 3}) if n < 60 else [2, 4, 9]
    limits = [np.inf, 0.55, 1.05, 1.57, 2.57, 5.33]
    for k, lim, p in itertools.product(ks, limits, (2, 1, np.inf)):
        if n > 60 and (p != 2 or lim > 3 and lim != np.inf):
            continue
        ctx.begin("tree", case["i"], k, lim, p)
        tree = sp.KDTree(pts, k=k, max_dist=lim, p=p)
        for x, D, self_ in ((None, metric(pts, pts, p), True), (pts, metric(pts, pts, p), True), (other, metric(other, pts, p), False)):
            for zero, compact, dec, jobs in itertools.product((False, True), (True, False), (None, 3), (1, 2)):
                if jobs == 2 and (zero or dec or n > 60):
                    continue
                ctx.op(("query", self_, zero, compact, dec, jobs))
                nb, ds = tree.query(x, jobs, dec, zero, compact)
                nb, ds = np.asarray(nb), np.asarray(ds)
                drop = self_ and not zero
                cols = k - drop
                for i in range(n):
                    row = D[i]
                    idx = [j for j in range(n) if row[j] < lim and not (drop and j == i)]
                    want = sorted(row[j] for j in idx)[:cols]
                    ok = np.isfinite(ds[i])
                    got = nb[i][ok].tolist()
                    gd = ds[i][ok]
                    ctx.check(len(set(got)) == len(got) and len(got) == len(want), "query:count", lambda: f"point {i}: {got} want {len(want)}")
                    ctx.check(np.allclose(gd, want, atol=1e-9 if dec is None else 6e-4), "query:dists", lambda: f"point {i}: {gd} want {want}")
                    ctx.check(all(j in idx for j in got) and np.allclose([row[j] for j in got], gd, atol=1e-9 if dec is None else 6e-4),
                              "query:points", lambda: f"point {i}: {got} {idx}")
                    ctx.check(np.all(nb[i][~ok] == n) and (not (~ok).any() or not ok[np.argmax(~ok):].any()), "query:padding", lambda: nb[i])
                if compact:
                    ctx.check(nb.shape[1] == 0 or np.isfinite(ds).any(axis=0).all(), "query:compact", nb.shape)
                else:
                    ctx.check(nb.shape == (n, cols), "query:shape", lambda: f"{nb.shape} {cols}")
        if k > n and n < 60:
            # only some of the points coincide with points of the tree: no neighbor gets lost
            for cut in {1, n - 1, n // 2} - {0}:
                mix = np.concatenate([pts[:cut], other[cut:]])
                D = metric(mix, pts, p)
                ctx.op(("query-mixed", cut))
                nb, ds = tree.query(mix)
                for i in range(n):
                    got = set(np.asarray(nb)[i][np.isfinite(ds[i])].tolist())
                    ctx.check({j for j in range(n) if 1e-12 < D[i, j] < lim} <= got <= {j for j in range(n) if D[i, j] < lim},
                              "query:mixed", lambda: f"point {i}: {got}")
        if lim < np.inf and n < 60 and k == ks[0]:
            D = metric(pts, pts, p)
            Do = metric(other, pts, p)
            ctx.op("ball")
            got = [sorted(x) for x in tree.query_ball_point(other, lim)]
            ctx.check(got == [sorted(np.nonzero(r < lim)[0].tolist()) for r in Do], "ball_point", "")
            t2 = sp.KDTree(other, k=k, p=p)
            got = [sorted(x) for x in t2.query_ball_tree(tree, lim)]
            ctx.check(got == [sorted(np.nonzero(r < lim)[0].tolist()) for r in Do], "ball_tree", "")
            got = {tuple(sorted(x)) for x in tree.query_pairs(lim)}
            ctx.check(got == {(i, j) for i in range(n) for j in range(i + 1, n) if D[i, j] < lim}, "pairs", "")
        ctx.state((case["i"], k, lim, p))
        ctx.outcome((case["i"], k, lim, p))
    if n < 60 and pts.min() >= 0:
        box = pts.max(axis=0) + 1.15
        for lim, p in itertools.product(limits, (2, 1, np.inf)):
            d = np.abs(pts[:, None, :] - pts[None, :, :])
            d = np.minimum(d, box - d)
            D = d.max(-1) if p == np.inf else d.sum(-1) if p == 1 else np.sqrt((d ** 2).sum(-1))
            if np.any(np.abs(D - lim) < 1e-6):
                continue
            ctx.begin("box", case["i"], lim, p)
            tree = sp.KDTree(pts, k=n, max_dist=lim, p=p, boxsize=box)
            ctx.op("query-box")
            nb, ds = tree.query()
            for i in range(n):
                ok = np.isfinite(ds[i])
                got = {int(j): float(x) for j, x in zip(nb[i][ok], ds[i][ok])}
                want = {j: D[i, j] for j in range(n) if j != i and D[i, j] < lim}
                ctx.check(set(got) == set(want) and all(abs(got[j] - want[j]) < 1e-9 for j in want), "query-box", lambda: f"{i}: {got} want {want}")
            if lim < np.inf:
                ctx.check({tuple(sorted(x)) for x in tree.query_pairs(lim)} == {(i, j) for i in range(n) for j in range(i + 1, n)
                          if D[i, j] < lim}, "pairs-box", "")
            ctx.state((case["i"], "box", lim, p))


def part_many(case, ctx, sp, ut):
    """Long arrays: every row as the plain definition says."""
    n = NUMS[case["i"]]
    k = np.arange(n)
    ctx.begin("many", n)
    for d in (1, 2, 3):
        P = np.stack([((k * (7 + 2 * i)) % (101 + i)) * 0.37 - 5 for i in range(d)], axis=1)
        Q = np.stack([((k * (5 + 4 * i)) % (89 + i)) * 0.21 + 1 for i in range(d)], axis=1)
        want = np.sqrt(sum((P[:, i] - Q[:, i]) ** 2 for i in range(d)))
        ctx.op("distances")
        ctx.check(np.allclose(sp.distances(P, Q), want, atol=1e-9, rtol=0), "many:distances", n)
        want = np.sqrt(sum((P[:, i] - Q[3, i]) ** 2 for i in range(d)))
        ctx.check(np.allclose(sp.distances(P, Q[3]), want, atol=1e-9, rtol=0) and np.allclose(sp.distances(Q[3], P), want, atol=1e-9, rtol=0)
                  and np.allclose(sp.distances(P, Q[3], 2), want, atol=5.1e-3, rtol=0), "many:distances-one", n)
        ctx.op("interweave")
        for m in (1, 2, 3):
            arrs = [P + 1000 * a for a in range(m)]
            r = np.asarray(sp.interweave(arrs))
            ctx.check(r.shape == (n * m, d) and all(np.array_equal(r[a::m], arrs[a]) for a in range(m)), "many:interweave", f"{n} {m}")
            arrs = [x[:, 0] for x in arrs]
            r = np.asarray(sp.interweave(arrs))
            ctx.check(r.shape == (n * m,) and all(np.array_equal(r[a::m], arrs[a]) for a in range(m)), "many:interweave", f"{n} {m}")
        ctx.state((n, d))
    if n <= 5000:
        ctx.op("interweave")
        arrs = [np.arange(4) + 4 * a for a in range(n)]
        r = np.asarray(sp.interweave(arrs))
        ctx.check(np.array_equal(r, np.arange(4 * n).reshape(n, 4).T.ravel()), "many:interweave-arrays", n)
    ctx.op("chain")
    for cyc in (False, True):
        c = ut.chain(list(range(n)), cyc)
        ctx.check(len(c) == n - 1 + cyc and all(tuple(x) == (i, i + 1) for i, x in enumerate(c[:n - 1])) and (not cyc or tuple(c[-1]) == (n - 1, 0)),
                  "many:chain", n)
    ctx.op("vindices")
    g = np.asarray(sp.vindices([[0, n]]))
    ctx.check(np.array_equal(np.sort(g[:, 0]), k), "many:vindices-1d", n)
    m = int(n ** 0.5) + 1
    g = np.asarray(sp.vindices([[-m, 0], [5, 5 + m]])).astype(np.int64)
    ctx.check(np.array_equal(np.sort((g[:, 0] + m) * m + g[:, 1] - 5), np.arange(m * m)), "many:vindices-2d", n)
    m = int(n ** (1 / 3)) + 1
    g = np.asarray(sp.vindices([[-m, 0], [5, 5 + m], [0, m]])).astype(np.int64)
    ctx.check(np.array_equal(np.sort(((g[:, 0] + m) * m + g[:, 1] - 5) * m + g[:, 2]), np.arange(m ** 3)), "many:vindices-3d", n)
    ctx.op("vrange")
    g = np.asarray(sp.vrange([0.0], [n * 0.5], [0.5]))
    ctx.check(np.allclose(np.sort(g[:, 0]), k * 0.5), "many:vrange", n)
    ctx.op("rotate")
    P = np.stack([k % 11 - 5.0, k % 7 - 3.0, k % 5 * 0.5], axis=1)
    ctx.check(np.allclose(sp.rotate3d(P, 30, 0, 0), P @ ref_rot(0, math.radians(30))), "many:rotate3d", n)
    ctx.check(np.allclose(sp.rotate2d(P[:, :2], 40), P[:, :2] @ ref_rot(2, math.radians(40))[:2, :2]), "many:rotate2d", n)
    ctx.op("lookup")
    a = (k * 7) % min(n, 250)
    v, i = ut.create_lookup_table(a)
    ctx.check(np.array_equal(np.asarray(v)[i], a) and len(v) == len(set(a.tolist())), "many:lookup", n)
    if n > 10001:
        return
    ctx.op("tree")
    m = int(n ** 0.5) + 1
    P = np.stack([k // m * 1.0, k % m * 1.1], axis=1)
    sites = sorted({0, 1, n - 1, n - 2, n // 2, n // 3} | {x for x in (127, 128, 255, 256, 257, 999, 1000, 1001, 4096) if x < n})
    for kk, lim in ((5, np.inf), (9, 1.2), (30, 2.3)):
        tree = sp.KDTree(P, k=kk, max_dist=lim)
        for x, self_ in ((None, True), (P + 0.1, False)):
            nb, ds = tree.query(x)
            nb, ds = np.asarray(nb), np.asarray(ds)
            ctx.check(len(nb) == n, "many:tree-shape", nb.shape)
            for i in sites:
                D = np.linalg.norm(P - (P if x is None else x)[i], axis=1)
                want = sorted(D[[j for j in range(n) if D[j] < lim and not (self_ and j == i)]])[:kk - self_]
                ok = np.isfinite(ds[i])
                ctx.check(ok.sum() == len(want) and np.allclose(ds[i][ok], want) and np.allclose(D[nb[i][ok]], ds[i][ok]) and
                          len(set(nb[i][ok].tolist())) == ok.sum() and np.all(nb[i][~ok] == n), "many:tree", lambda: f"point {i}: {nb[i]}")


def part_kinds(case, ctx, sp, ut):
    """The kind of numbers makes no difference."""
    def kinds(x):
        a = np.array(x, float)
        out = [a.tolist(), a]
        for t in ("float32", "int64", "int32", "int16", "int8", "uint8", "uint16", "uint64"):
            with np.errstate(all="ignore"):
                if np.array_equal(a.astype(t).astype(float), a):
                    out.append(a.astype(t))
        return out

    same = lambda a, b: np.allclose(np.asarray(a, float), np.asarray(b, float), atol=1e-9, rtol=1e-12)  # noqa
    V = [[0, 0], [100, -100], [-100, 100], [3, 4], [200, 0], [0, 200], [1.5, 2], [127, -128]]
    for p, q in itertools.product(V, repeat=2):
        for x, y in itertools.product(kinds(p), kinds(q)):
            ctx.begin("kinds", p, q)
            ctx.op("distance")
            w = math.dist(p, q)
            if isinstance(x, np.ndarray) and isinstance(y, np.ndarray):
                ctx.check(abs(sp.distance(x, y) - w) < 1e-9, "kinds:distance", lambda: f"{x!r} {y!r}: {sp.distance(x, y)}")
            ctx.check(same(sp.distances(x, [y, y]), [w, w]), "kinds:distances", lambda: f"{x!r} {y!r}")
            ctx.check(same(sp.distances(np.array([x, x]), y), [w, w]), "kinds:distances", lambda: f"{x!r} {y!r}")
        ctx.state((tuple(p), tuple(q)))
    for v in ([[100, 0], [100, 100]], [[100, 0], [-100, 1]], [[2, 0], [0, 120]], [[1, 0, 0], [0, 100, 0], [100, 3, 100]], [[-100, 0, 0], [50, 100, 0], [100, 3, 100]],
              [[127]], [[-100]], [[0.5, 0], [0.25, 2]], [[20, 0, 0, 0], [0, 20, 0, 0], [1, 0, 20, 0], [0, 0, 3, 20]]):
        a = np.array(v, float)
        for x in kinds(v):
            ctx.begin("kinds", v)
            ctx.op("cell")
            ctx.check(same(sp.cell_size(x), np.maximum(a.max(0), 0) - np.minimum(a.min(0), 0)), "kinds:cell_size", lambda: f"{x!r}: {sp.cell_size(x)}")
            w = abs(np.linalg.det(a))
            ctx.check(abs(sp.cell_volume(x) - w) < 1e-9 * w, "kinds:cell_volume", lambda: f"{x!r}: {sp.cell_volume(x)}")
        ctx.state(str(v))
    P = np.array([[100, 2, 3], [-1, 0, 5], [120, 120, 120]])
    for x in kinds(P):
        ctx.begin("kinds", "rotate")
        ctx.op("rotate")
        ctx.check(same(sp.rotate3d(x, 0, 30, 0), P @ ref_rot(1, math.radians(30))), "kinds:rotate3d", lambda: f"{x!r}")
        ctx.check(same(sp.rotate2d(np.asarray(x)[:, :2], 30), P[:, :2] @ ref_rot(2, math.radians(30))[:2, :2]), "kinds:rotate2d", lambda: f"{x!r}")
    for lo, hi in (([0, -3], [100, 5]), ([-100, 100], [100, 105]), ([0, 0], [200, 3]), ([1, 2], [3, 4])):
        for x in kinds(np.array([lo, hi]).T):
            ctx.begin("kinds", "vindices")
            ctx.op("vindices")
            got = {tuple(int(v) for v in r) for r in sp.vindices(x)}
            ctx.check(got == set(itertools.product(range(lo[0], hi[0]), range(lo[1], hi[1]))), "kinds:vindices", lambda: f"{x!r}")
        for x, y in zip(kinds(lo), kinds(hi)):
            ctx.op("vrange")
            got = {tuple(int(v) for v in r) for r in sp.vrange(x, y)}
            ctx.check(got == set(itertools.product(range(lo[0], hi[0]), range(lo[1], hi[1]))), "kinds:vrange", lambda: f"{x!r} {y!r}")
        ctx.state((tuple(lo), tuple(hi)))


# -- interpolation to a grid -------------------------------------------------------------------


def part_interpolate(case, ctx, sp, ut):
    """Linear functions are reproduced exactly inside the hull of the points, points outside get the fill value."""
    from lattpy.plotting import interpolate_to_grid

    sets = {"square": [[x, y] for x in range(4) for y in range(3)],
            "shifted": [[x * 0.7 - 3.1, y * 1.3 + 2] for x in range(3) for y in range(4)],
            "rect": [[0.0, 0.0], [2.0, 0.0], [0.0, 5.0], [2.0, 5.0], [1.0, 2.0]]}
    for name, pts in sets.items():
        pos = np.array(pts, float)
        lo, hi = pos.min(0), pos.max(0)
        for num in ((4, 7), (5, 3), (2, 2), (11, 6)):
            for off in ((0.0, 0.0), (0.25, 0.5), (0.3, 0.0), (0.0, 0.2), (-0.1, -0.2)):
                for method in ("linear", "nearest", "cubic"):
                    for fill in (None, 0.0, -7.5):
                        for a, b, c in ((1.0, 0.0, 0.0), (0.0, 1.0, 2.0), (1.5, -2.25, 0.5)):
                            ctx.begin(f"interpolate_to_grid({name}, num={num}, offset={off}, method={method}, fill={fill})")
                            vals = a * pos[:, 0] + b * pos[:, 1] + c
                            kw = {} if fill is None else dict(fill_value=fill)
                            if method != "linear":
                                kw["method"] = method
                            xx, yy, zz = interpolate_to_grid(pos.copy(), vals.copy(), num=num, offset=off, **kw)
                            gx = [lo[0] - off[0] + i * (hi[0] - lo[0] + 2 * off[0]) / (num[0] - 1) for i in range(num[0])]
                            gy = [lo[1] - off[1] + i * (hi[1] - lo[1] + 2 * off[1]) / (num[1] - 1) for i in range(num[1])]
                            X, Y = np.array([gx] * num[1]), np.array([[y] * num[0] for y in gy])
                            ctx.check(np.shape(xx) == X.shape and np.abs(xx - X).max() < 1e-9, "interpolate:x", lambda: xx)
                            ctx.check(np.shape(yy) == Y.shape and np.abs(yy - Y).max() < 1e-9, "interpolate:y", lambda: yy)
                            ctx.check(np.shape(zz) == X.shape, "interpolate:shape", lambda: np.shape(zz))
                            for i, j in itertools.product(range(num[1]), range(num[0])):
                                p = np.array([X[i, j], Y[i, j]])
                                ins = np.all(p > lo + 1e-6) and np.all(p < hi - 1e-6)
                                out = np.any(p < lo - 1e-6) or np.any(p > hi + 1e-6)
                                z = float(zz[i, j])
                                if method == "nearest":
                                    dd = np.linalg.norm(pos - p, axis=1)
                                    ctx.check(any(abs(z - v) < 1e-9 for v in vals[dd <= dd.min() + 1e-9]), "interpolate:nearest", lambda: f"{p}: {z}")
                                elif ins:
                                    ctx.check(abs(z - (a * p[0] + b * p[1] + c)) < 1e-6, "interpolate:value", lambda: f"{p}: {z}")
                                elif out:
                                    ctx.check(np.isnan(z) if fill is None else z == fill, "interpolate:fill", lambda: f"{p}: {z}")
                            ctx.state((name, num, off, method, fill, a))
    xx, yy, zz = interpolate_to_grid(np.array(sets["square"], float), np.arange(12.0))
    ctx.check(np.shape(zz) == (100, 100) and xx.min() == 0 and xx.max() == 3 and yy.min() == 0 and yy.max() == 2, "interpolate:default")
