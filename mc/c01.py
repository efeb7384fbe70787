"""C01  Neighbor shells of the infinite crystal are exact."""
import itertools

import numpy as np

from . import cfgs
from .core import lattpy
from .ref import Crystal

ID = "C01"
BOUNDS = {
    "quick": "all crystals of the library x 3 configuration routes; all symmetric connection "
    "matrices with levels 0..2 for 2-atom and 0..1 for 3-atom unit cells; every atom, every "
    "distance level, 8 (1D..) translation vectors up to 2^31 cells away, given as every kind of integer, 4 wave vectors; unit cells with 28 and 260 atoms",
    "thorough": "as quick with 2-atom levels 0..4, 3-atom levels 0..2, all 2D bases of a 6x6 grid "
    "of vector pairs with up to 3 levels",
}
ASSUMPTIONS = ["shell distances differ by more than 1e-3 (the library rounds to 6 decimals)"]

ROUTES = ["add_connections/add_connection+analyze", "by-name", "kwargs"]

MULTI2 = {
    "1d": ([[1.0]], [[0.0], [0.35]]),
    "2d-square": ([[1.0, 0], [0, 1.0]], [[0.0, 0], [0.5, 0.3]]),
    "2d-hex": (cfgs.HEX, [[0.0, 0], [1.0, 0]]),
    "3d": (cfgs.E3, [[0.0, 0, 0], [0.5, 0.4, 0.3]]),
}
MULTI3 = {
    "1d": ([[2.0]], [[0.0], [0.5], [1.2]]),
    "2d": ([[2.0, 0.1], [0, 1.8]], [[0.0, 0], [0.9, 0.15], [0.25, 0.8]]),
}


def grid2d():
    """All ordered pairs of short 2D vectors that are not (nearly) parallel."""
    vs = [(1.0, 0.0), (0.0, 1.0), (0.6, 0.9), (-0.4, 1.1), (1.3, 0.4), (0.8, -0.7), (-1.0, 0.2)]
    return [([list(a), list(b)], [[0.0, 0.0]]) for a, b in itertools.permutations(vs, 2)
            if abs(a[0] * b[1] - a[1] * b[0]) > 0.35]


def cases(tier):
    out = []
    for name in list(cfgs.names()) + ["golomb", "atoms260"]:
        for route in range(3):
            out.append(dict(cfg=name, route=route))
    lv2 = range(3) if tier == "quick" else range(5)
    for m, (v, a) in MULTI2.items():
        for c00, c01, c11 in itertools.product(lv2, repeat=3):
            if c00 or c01 or c11:
                out.append(dict(multi=2, cell=m, conns=[[[0, 0], c00], [[0, 1], c01], [[1, 1], c11]]))
    lv3 = range(2) if tier == "quick" else range(3)
    pairs = [(0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 2)]
    for m in MULTI3:
        for cs in itertools.product(lv3, repeat=6):
            if any(cs):
                out.append(dict(multi=3, cell=m, conns=[[list(p), c] for p, c in zip(pairs, cs)]))
    for i, _ in enumerate(grid2d()):
        for k in (1, 2) if tier == "quick" else (1, 2, 3, 4):
            out.append(dict(grid=i, conns=k))
    # many levels: more than 127 / 255 neighbors per atom
    for name, k in (("sc", 9), ("sc", 14), ("square", 25), ("chain", 130), ("fcc", 10), ("hyper4", 5)):
        out.append(dict(deep=name, levels=k))
    if tier == "thorough":
        for name, k in (("chain", 300), ("square", 60), ("sc", 25), ("rect", 40), ("honeycomb", 25)):
            out.append(dict(deep=name, levels=k))
    return out


def configure(lp, case):
    if "cfg" in case:
        v, atoms, conns = cfgs._get(case["cfg"])
        route = case["route"]
    else:
        if "deep" in case:
            v, atoms, _ = cfgs.BASE[case["deep"]]
            conns = case["levels"]
        elif "grid" in case:
            v, atoms = grid2d()[case["grid"]]
            conns = case["conns"]
        else:
            v, atoms = (MULTI2 if case["multi"] == 2 else MULTI3)[case["cell"]]
            conns = [(tuple(p), c) for p, c in case["conns"]]
        route = 0
    cr = Crystal(v, atoms, conns)
    nm = cfgs.atom_name
    if route == 0:
        latt = cfgs.make_from(lp, v, atoms, conns)
    elif route == 1:
        # primitive coordinates for the atoms, Atom instances, names for the connections,
        # analysis triggered by the last add_connection
        latt = lp.LatticeStructure(lp.LatticeBasis(v))
        for i, p in enumerate(atoms):
            latt.add_atom(cr.R[i] @ cr.Vinv, lp.Atom(nm(i)), primitive=True)
        pairs = [(i, j) for i in range(cr.n) for j in range(i, cr.n)]
        for q, (i, j) in enumerate(pairs):
            latt.add_connection(nm(j), nm(i), int(cr.C[i, j]), analyze=q == len(pairs) - 1)
    else:
        d = {tuple(p): nm(i) for i, p in enumerate(cr.R)}
        cons = {(nm(i), nm(j)): int(cr.C[i, j]) for i in range(cr.n) for j in range(i, cr.n)}
        latt = lp.Lattice(v, atoms=d, cons=cons)
    return latt, cr


def run(case, ctx):
    lp = lattpy()
    ctx.begin("configure")
    latt, cr = configure(lp, case)
    ctx.op("configure+analyze")
    if not cr.well_separated():
        ctx.skipped += 1
        return
    d = cr.dim
    trans = [np.zeros(d, int)] + [s * np.eye(d, dtype=int)[i] for i in range(d) for s in (3, -2)]
    trans.append(np.arange(1, d + 1) * 70 - 100)
    if cr.n < 20 and "deep" not in case:
        trans += [np.full(d, x) for x in (127, -128, 32767, 10**6, -(2**31))]
    ks = [np.zeros(d), np.full(d, 0.37), np.arange(1, d + 1) * 0.9, -np.full(d, 1.3)]
    all_d = set()
    for a in range(cr.n):
        shells = cr.shells(a)
        all_d |= {round(s[0], 5) for s in shells}
        ctx.op(f"atom {a}")
        want_num = sum(len(s) for _, s in shells)
        ctx.check(int(latt.num_neighbors[a]) == want_num, "num_neighbors",
                  lambda: f"atom {a}: {latt.num_neighbors[a]} want {want_num}")
        got_d = np.asarray(latt.distances[a], dtype=float)
        got_d = got_d[got_d > 0]
        ctx.check(len(got_d) == len(shells) and np.allclose(got_d, [s[0] for s in shells], atol=1e-5),
                  "distances", lambda: f"atom {a}: {got_d} want {[s[0] for s in shells]}")
        for k, (dist, members) in enumerate(shells):
            for t in trans:
                ctx.op(f"get_neighbors({t.tolist()},{a},{k})")
                nb = np.asarray(latt.get_neighbors(t, a, k))
                got = [tuple(int(x) for x in r) for r in nb]
                want = {tuple(int(x + y) for x, y in zip(m[:-1], t)) + (m[-1],) for m in members}
                ctx.check(len(got) == len(set(got)), "duplicate-neighbor", lambda: str(got))
                ctx.check(set(got) == want, "wrong-neighbors",
                          lambda: f"atom {a} level {k} t={t}: missing {sorted(want - set(got))[:5]} "
                                  f"extra {sorted(set(got) - want)[:5]}")
                p = np.asarray(latt.get_neighbor_positions(t, a, k), dtype=float)
                ctx.check(match_rows(p, [cr.pos(m) for m in want]), "neighbor-positions",
                          lambda: f"atom {a} level {k} t={t}: {p.tolist()}")
                ctx.state((case_id(case), a, k, tuple(t.tolist()), tuple(sorted(got))))
            ctx.op(f"get_neighbor_vectors({a},{k})")
            want_v = [cr.pos(m) - cr.R[a] for m in members]
            v = np.asarray(latt.get_neighbor_vectors(a, k), dtype=float)
            ctx.check(match_rows(v, want_v), "neighbor-vectors", lambda: f"atom {a} level {k}: {v.tolist()}")
            v0 = np.asarray(latt.get_neighbor_vectors(a, k, include_zero=True), dtype=float)
            ctx.check(match_rows(v0, want_v + [np.zeros(d)]), "neighbor-vectors-zero",
                      lambda: f"atom {a} level {k}: {v0.tolist()}")
            for kv in ks:
                ctx.op("fourier_weights")
                w = complex(latt.fourier_weights(kv if d > 1 else kv, a, k))
                ref = sum(np.exp(1j * float(np.dot(kv, x))) for x in want_v)
                ctx.check(abs(w - ref) < 1e-6 * max(1, len(want_v)), "fourier-weights",
                          lambda: f"atom {a} level {k} k={kv}: {w} want {ref}")
            if a == 0 and k == 0 or k == len(shells) - 1:
                kinds(ctx, latt, cr, a, k, members)
            # default arguments
        if shells and a == 0:
            zero = [cr.pos(m) for m in shells[0][1]]
            ctx.check(match_rows(latt.get_neighbor_positions(), zero), "neighbor-positions", "default arguments")
            ctx.check(match_rows(latt.get_neighbor_vectors(), np.array(zero) - cr.R[0]), "neighbor-vectors", "default arguments")
            ctx.check(match_rows(latt.get_neighbor_vectors(0), np.array(zero) - cr.R[0]), "neighbor-vectors", "default arguments")
            for kv in ks:
                w, ref = complex(latt.fourier_weights(kv)), sum(np.exp(1j * float(kv @ x)) for x in np.array(zero) - cr.R[0])
                ctx.check(abs(w - ref) < 1e-6 * max(1, len(zero)), "fourier-weights", "default arguments")
            got = {tuple(int(x) for x in r) for r in latt.get_neighbors()}
            ctx.check(got == shells[0][1], "wrong-neighbors", "default arguments")
        # base_neighbors: raw view of the same information
        bn = latt.base_neighbors[a]
        got = sorted((round(float(dd), 4), tuple(int(x) for x in r)) for dd, rows in bn.items() for r in rows)
        want = sorted((round(dd, 4), m) for dd, ms in shells for m in ms)
        ctx.check(got == want, "base-neighbors", lambda: f"atom {a}: {got[:6]} want {want[:6]}")
        ctx.outcome(tuple((round(dd, 6), len(ms)) for dd, ms in shells))


def kinds(ctx, latt, cr, a, k, members):
    """The cell as any kind of numbers."""
    d = cr.dim
    for t in ([3] * d, [100, 27, 3, 1][:d], [-100, 120, 0, 5][:d], [127] * d, [-128] * d):
        want = {tuple(int(x + y) for x, y in zip(m[:-1], t)) + (m[-1],) for m in members}
        forms = [t, tuple(t)] + [np.array(t, x) for x in ("int8", "int16", "int32", "int64")]
        if min(t) >= 0:
            forms += [np.array(t, "uint8"), np.array(t, "uint16")]
        if d == 1:
            forms += [t[0], np.int8(t[0]), np.int64(t[0])]
        for f in forms:
            ctx.op("kinds")
            got = {tuple(int(x) for x in r) for r in latt.get_neighbors(f, a, k)}
            ctx.check(got == want, "kinds:neighbors", lambda: f"{f!r} atom {a} level {k}: {sorted(got)[:3]} want {sorted(want)[:3]}")
            p = np.asarray(latt.get_neighbor_positions(f, a, k), float)
            ctx.check(match_rows(p, [cr.pos(m) for m in want]), "kinds:positions", lambda: f"{f!r} atom {a} level {k}")
            for q in (np.int8(a), np.uint8(a)) if a < 128 else ():
                got = {tuple(int(x) for x in r) for r in latt.get_neighbors(f, q, np.int8(k) if k < 128 else k)}
                ctx.check(got == want, "kinds:atom", lambda: f"{f!r} atom {q!r}")


def case_id(case):
    return str(sorted(case.items()))


def match_rows(got, want, tol=1e-6):
    got = np.asarray(got, float)
    want = np.asarray(want, float)
    if got.shape != want.shape:
        return False
    if not len(want):
        return True
    dist = np.abs(got[:, None, :] - want[None, :, :]).max(axis=2)
    ok = dist < tol
    return bool(np.all(ok.sum(axis=0) == 1) and np.all(ok.sum(axis=1) == 1))
