"""Life cycle of a lattice: configuration, analysis, build and periodic axes, as an explicit-state
model.  Shared by C05 (history independence), C15 (clones) and C16 (faults)."""
import itertools

import numpy as np

from . import model
from .ref import Crystal

S3 = 3 ** 0.5
# name: (vectors, pool of atoms, small and large block, names)
POOLS = {
    "1d": ([[2.0]], [[0.0], [0.5], [1.1]], [[3], [4]]),
    "2d": ([[1.0, 0.0], [0.0, 1.0]], [[0.0, 0.0], [0.5, 0.4]], [[3, 2], [3, 3]]),
    "hex": ([[1.5, S3 / 2], [1.5, -S3 / 2]], [[0.0, 0.0], [1.0, 0.0]], [[2, 3], [3, 3]]),
    "3d": ([[1.0, 0, 0], [0, 1.2, 0], [0, 0, 1.5]], [[0.0, 0, 0], [0.4, 0.5, 0.3]], [[2, 2, 1], [3, 2, 2]]),
}
_CR = {}


def crystal(pool, n, C):
    k = (pool, n, C)
    if k not in _CR:
        v, atoms, _ = POOLS[pool]
        cr = Crystal(v, atoms[:n], 0)
        cr.C = np.array(C, dtype=int).reshape(n, n)
        _CR[k] = cr
    return _CR[k]


class Life:
    """Model state: atoms, connections, analysed configuration, built lattice."""

    def __init__(self, pool):
        self.pool = pool
        self.n = 0
        self.C = ()  # flattened symmetric matrix
        self.ana = None  # (n, C) at the last analysis, None if not analysed
        self.built = None  # (n, C) used for the last build
        self.m = None  # model.Model of the built lattice

    def clone(self):
        o = Life(self.pool)
        o.n, o.C, o.ana, o.built = self.n, self.C, self.ana, self.built
        o.m = self.m.clone() if self.m else None
        return o

    @property
    def dim(self):
        return len(POOLS[self.pool][0])

    def set_conn(self, i, j, k):
        M = np.array(self.C, dtype=int).reshape(self.n, self.n)
        M[i, j] = M[j, i] = k
        self.C = tuple(int(x) for x in M.ravel())

    def cr(self):
        return crystal(self.pool, *self.ana)

    def canon(self):
        return (self.pool, self.n, self.C, self.ana, self.built, self.m.canon() if self.m else None)


def alphabet(pool):
    d = len(POOLS[pool][0])
    ops = [("atom", 0), ("atom", 1), ("conns", 1, True), ("conns", 2, True), ("conns", 1, False),
           ("conn", 0, 0, 1, False), ("conn", 0, 1, 2, True), ("conn", 1, 1, 0, False), ("analyze",),
           ("build", 0, ()), ("build", 1, ()), ("build", 1, (0,)), ("periodic", tuple(range(d))), ("periodic", (d - 1,)),
           ("open",), ("query",), ("fork",), ("spawn",), ("other",)]
    return ops


def new(lp, pool):
    return lp.Lattice(np.array(POOLS[pool][0], dtype=float))


def enabled(L, op):
    """None if the operation is not meaningful in this state, else the successor model."""
    k = op[0]
    N = L.clone()
    if k == "atom":
        if L.n >= len(POOLS[L.pool][1]):
            return None
        N.n += 1
        N.C = (op[1],) * (N.n * N.n)
        N.ana = (N.n, N.C) if op[1] else None
    elif k == "conns":
        if not L.n:
            return None
        N.C = (op[1],) * (L.n * L.n)
        if op[2]:
            N.ana = (L.n, N.C)
    elif k == "conn":
        if max(op[1], op[2]) >= L.n:
            return None
        N.set_conn(op[1], op[2], op[3])
        if op[4]:
            N.ana = (N.n, N.C)
        if not any(N.C) and op[4]:
            return None
    elif k == "analyze":
        if not any(L.C):
            return None
        N.ana = (L.n, L.C)
    elif k == "build":
        if L.ana is None or not any(L.C):
            return None
        v, atoms, blocks = POOLS[L.pool]
        cells = blocks[op[1]]
        o = op[1]
        ids = [c + (a,) for c in itertools.product(*[range(o, o + n) for n in cells]) for a in range(L.ana[0])]
        N.m = model.Model(N.cr(), ids)
        N.built = L.ana
        if op[2] and not N.m.set_periodic(op[2]):
            return None
    elif k == "periodic":
        if L.m is None or L.ana != L.built or not N.m.set_periodic(op[1]):
            return None
    elif k == "open":
        if L.m is None:
            return None
        N.m.set_periodic(())
    elif k in ("query", "fork", "spawn", "other"):
        pass
    else:
        raise KeyError(k)
    return N


def execute(lp, latt, L, N, op, store=None):
    """Execute op on the real lattice; returns the lattice to continue with.  ``store`` keeps objects
    alive that must stay independent."""
    k = op[0]
    v, atoms, blocks = POOLS[L.pool]
    if k == "atom":
        latt.add_atom(list(atoms[L.n]), "ABC"[L.n], neighbors=op[1])
    elif k == "conns":
        latt.add_connections(op[1], analyze=op[2])
    elif k == "conn":
        latt.add_connection(op[1], op[2], op[3], analyze=op[4])
    elif k == "analyze":
        latt.analyze()
    elif k == "build":
        cells, o = blocks[op[1]], op[1]
        d = L.dim
        size, lo = np.array(cells) - 0.02, np.full(d, o - 0.02)
        if d == 1:
            size, lo = float(size[0]), float(lo[0])
        latt.build(size, primitive=True, pos=lo, periodic=list(op[2]) if op[2] else None, num_jobs=1)
        ids = model.ids_of(latt)
        if sorted(ids) == sorted(N.m.ids):
            N.m.ids = ids
    elif k == "periodic":
        latt.set_periodic(list(op[1]))
    elif k == "open":
        latt.set_periodic(None)
    elif k == "query":
        query(latt, L)
    elif k == "fork":
        # continue with the copy, spoil the original
        new_ = latt.copy()
        spoil(lp, latt, L)
        latt = new_
    elif k == "spawn":
        # continue with the original, spoil the copy
        spoil(lp, latt.copy(), L)
    elif k == "other":
        # an unrelated lattice built from the same ingredients (basis array, atoms)
        o = lp.Lattice(latt.vectors)
        for p, at in zip(latt.atom_positions, latt.atoms):
            o.add_atom(p, at)
        if L.n:
            o.add_connections(3)
            o.build([2.0] * L.dim if L.dim > 1 else 2.0, num_jobs=1)
            spoil(lp, o, L)
    return latt


def query(latt, L):
    repr(latt), latt.vectors, latt.num_base, latt.cell_volume
    latt.reciprocal_vectors()
    if L.n:
        latt.get_position(alpha=0), latt.get_positions([[0] * L.dim + [0]])
        latt.build_indices([2.0] * L.dim if L.dim > 1 else 2.0, return_pos=True)
        latt.get_base_atom_dict(), latt.todict()
    if L.ana:
        for a in range(L.n):
            if any(np.array(L.ana[1]).reshape(L.n, L.n)[a]):
                latt.get_neighbors(alpha=a), latt.get_neighbor_vectors(a), latt.fourier_weights(np.zeros(L.dim), a)
        str(latt.distances), latt.num_neighbors, latt.base_neighbors
    if L.m:
        latt.dmap(), latt.neighbor_pairs(), latt.adjacency_matrix(), latt.neighbors(0), list(latt.iter_neighbors(0))
        latt.limits(), latt.num_cells, latt.volume(), hash(latt), str(latt.data), latt.minimum_distances(0)
        for _ in latt.periodic_translation_vectors(list(range(latt.dim)), latt.primitive):
            pass


def spoil(lp, latt, L):
    """Modify everything a lattice holds in place through its interface."""
    if latt.num_sites:
        latt.data.sort(0, reverse=True)
        latt.data.remove(0)
        latt.data.positions += 7.0
        latt.data.neighbors[:] = 0
        latt.data.distvals += 1.0
        latt.set_periodic(None)
    for at in latt.atoms:
        pass
    if L.n:
        latt.add_connections(3)
        if L.n > 1:
            latt.add_connection(0, 1, 0, analyze=True)
    latt.add_atom([0.123] * L.dim, "X")
    latt.add_connections(1)
    latt.build([3.0] * L.dim if L.dim > 1 else 3.0, num_jobs=1)
    latt.vectors[:] = 0.5


def check(ctx, lp, latt, L, what, full=True):
    """Every observable of the real lattice equals the prediction for the model state."""
    d = L.dim
    v, atoms, _ = POOLS[L.pool]
    ctx.check(np.allclose(latt.vectors, v, atol=1e-12), what + ":vectors", lambda: latt.vectors)
    ctx.check(latt.num_base == L.n and len(latt.atoms) == L.n, what + ":num_base", lambda: latt.num_base)
    ctx.check([a.name for a in latt.atoms] == list("ABC"[:L.n]), what + ":atoms", lambda: latt.atoms)
    if L.n:
        ctx.check(np.allclose(np.array(latt.atom_positions), np.array(atoms[:L.n])), what + ":atom-positions", "")
        ctx.check(int(latt.num_distances) == max(L.C), what + ":num_distances", lambda: latt.num_distances)
    if L.ana is None:
        ctx.raises((lp.NotAnalyzedError, lp.ConfigurationError), lambda: latt.get_neighbors(), what + ":not-analyzed")
    else:
        cr = L.cr()
        for a in range(L.n):
            sh = cr.shells(a)
            got = sorted((round(float(dd), 4), tuple(int(x) for x in r)) for dd, rows in latt.base_neighbors[a].items() for r in rows)
            want = sorted((round(dd, 4), m) for dd, ms in sh for m in ms)
            ctx.check(got == want, what + ":base-neighbors", lambda: f"atom {a}: {got[:6]} want {want[:6]}")
            ctx.check(int(latt.num_neighbors[a]) == len(want), what + ":num_neighbors", lambda: latt.num_neighbors)
            dd = np.asarray(latt.distances[a], float)
            dd = dd[dd > 0]
            ctx.check(len(dd) == len(sh) and np.allclose(dd, [s[0] for s in sh], atol=1e-5), what + ":distances", lambda: dd)
            for k, (_, ms) in enumerate(sh):
                g = {tuple(int(x) for x in r) for r in latt.get_neighbors(alpha=a, distidx=k)}
                ctx.check(g == ms, what + ":get_neighbors", lambda: f"atom {a} level {k}: {g} want {ms}")
    if L.m is None:
        ctx.check(latt.num_sites == 0 and latt.shape is None, what + ":not-built", lambda: latt.num_sites)
    else:
        model.check_sites(ctx, latt, L.m, what)
        model.check_bonds(ctx, latt, L.m, what)
        ctx.check(sorted(int(x) for x in latt.periodic_axes) == sorted(L.m.tv), what + ":periodic_axes", lambda: latt.periodic_axes)
        P = L.m.cr.poss(L.m.ids)
        ctx.check(np.allclose(latt.shape, P.max(0) - P.min(0)) and np.allclose(latt.pos, P.min(0)), what + ":shape", lambda: f"{latt.shape} {latt.pos}")
        if full:
            n = len(L.m.ids)
            dv = lambda k: model.distval(latt, k)  # noqa
            want = {(i, j): x[0] for i, a in enumerate(L.m.adj()) for j, x in a.items()}
            am = latt.adjacency_matrix().toarray()
            got = {(int(i), int(j)): dv(int(am[i, j]) - 1) for i, j in zip(*np.nonzero(am))}
            ctx.check(am.shape == (n, n) and got == want, what + ":adjacency", "")
            levels = [k for k in range(len(latt.data.distvals)) if np.isfinite(latt.data.distvals[k])]
            model.check_dmap(ctx, latt, L.m, want, levels, dv, what)
