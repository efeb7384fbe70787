"""Model of a finite lattice and comparison of every public view with it.

A model state is (ordered site list, periodic translations).  The bonds follow from the crystal: all
configured neighbor relations between the sites, modulo the periodic translations.
"""
import itertools

import numpy as np

from . import cfgs, ref
from .obs import distval


def extent(ids, ax):
    """Extent in cells along ax: the largest extent of a sublattice."""
    by = {}
    for s in ids:
        by.setdefault(s[-1], []).append(s[ax])
    return max(max(v) - min(v) for v in by.values()) + 1


class Model:
    def __init__(self, cr, ids, tv=None):
        self.cr = cr
        self.ids = list(ids)
        self.tv = dict(tv or {})  # axis -> translation (cells)
        self._b = None

    def clone(self):
        m = Model(self.cr, self.ids, self.tv)
        m._b = self._b
        return m

    # -- transitions ----------------------------------------------------------------
    def set_periodic(self, axes):
        """Primitive blocks.  False if the quotient is not simple (operation disabled)."""
        tv = {}
        for ax in axes or ():
            tv[ax] = tuple(extent(self.ids, ax) if i == ax else 0 for i in range(self.cr.dim))
        old, self.tv, self._b = self.tv, tv, None
        if self.bonds() is None:
            self.tv, self._b = old, None
            return False
        return True

    def remove(self, sites):
        n = len(self.ids)
        gone = {s % n for s in sites}
        self.ids = [s for i, s in enumerate(self.ids) if i not in gone]
        self._b = None

    def permute(self, perm):
        self.ids = [self.ids[p] for p in perm]

    def shift_union(self, other_ids, nvec):
        new = [tuple(x + y for x, y in zip(s[:-1], nvec)) + (s[-1],) for s in other_ids]
        self.ids = self.ids + new
        self.tv, self._b = {}, None

    # -- observables ----------------------------------------------------------------
    def bonds(self):
        """{(s, t): (distance, image shift)} or None if not simple."""
        if self._b is None:
            z = (0,) * self.cr.dim
            if not self.tv:
                self._b = {e: (d, z) for e, d in self.cr.graph(self.ids).items()}
            else:
                self._b = simple_torus(self.cr, set(self.ids), [self.tv[a] for a in sorted(self.tv)])
        return self._b

    def adj(self):
        out = [dict() for _ in self.ids]
        pos = {s: i for i, s in enumerate(self.ids)}
        for (s, t), (d, sh) in self.bonds().items():
            out[pos[s]][pos[t]] = (d, sh)
        return out

    def canon(self):
        return (tuple(self.ids), tuple(sorted(self.tv.items())))


class Listed(Model):
    """The relation is what the neighbor iteration of the implementation lists (lattices that wrap around
    onto themselves, where the torus has several images per pair): only the agreement of the views is checked."""

    def read(self, ctx, latt, what):
        self.lists = []
        for i in range(len(self.ids)):
            a = {}
            for k, nbs in latt.iter_neighbors(i):
                for j in nbs:
                    ctx.check(int(j) not in a and 0 <= j < len(self.ids), what + ":listed-neighbor", lambda: f"site {i}: {nbs}")
                    a[int(j)] = (distval(latt, k), None)
            self.lists.append(a)
        rel = {(i, j) for i, a in enumerate(self.lists) for j in a}
        ctx.check(all((j, i) in rel for i, j in rel), what + ":listed-symmetry", lambda: str(sorted(rel)[:20]))

    def adj(self):
        return self.lists


def listing(latt):
    """Per site: sorted [(neighbor, distance, periodic flag, image vector, periodic axes)] as stored by the implementation."""
    d = latt.data
    out = []
    for i in range(latt.num_sites):
        mk = np.asarray(d.neighbor_mask(i))
        rows = zip(np.asarray(d.neighbors)[i][mk], np.asarray(d.distances)[i][mk], np.asarray(d.pmask)[i][mk],
                   np.asarray(d.pnvecs)[i][mk], np.asarray(d.paxes)[i][mk])
        out.append(sorted((int(j), distval(latt, k), bool(p), tuple(int(x) for x in v), tuple(int(x) for x in np.ravel(a)) if p else ())
                          for j, k, p, v, a in rows))
    return out


# blocks that wrap around onto themselves: sites with several images or that are their own neighbors
NARROW = [("chain", [1], [0]), ("chain", [2], [0]), ("chain-n3", [3], [0]), ("chain-n3", [5], [0]), ("ssh-n2", [2], [0]),
          ("tri-chain", [2], [0]), ("square", [1, 4], [0, 1]), ("square", [2, 3], [0, 1]), ("square-n2", [3, 2], [1]),
          ("square-n2", [1, 5], [0]), ("honeycomb", [1, 3], [0, 1]), ("honeycomb-n2", [2, 2], [0, 1]), ("kagome", [1, 3], [0]),
          ("centered-mix", [2, 2], [0, 1]), ("sc", [1, 2, 3], [0, 1, 2]), ("fcc", [2, 2, 2], [0, 1, 2])]


def simple_torus(cr, want, tvecs):
    """The quotient relation, or None if some pair is connected by several images."""
    t = ref.torus(cr, want, tvecs)
    T = np.array(tvecs)
    unit = {tuple(int(x) for x in np.array(c) @ T) for c in itertools.product((-1, 0, 1), repeat=len(T))}
    out = {}
    for (s, u), im in t.items():
        if s == u or len(im) != 1 or not all(sh in unit for _, sh in im):
            return None
        out[(s, u)] = next(iter(im))
    return out


# -- building -------------------------------------------------------------------------
def block(lp, name, cells, origin=0, latt=None, **kw):
    """Build the block of unit cells [origin, origin+cells) on the real code; model with the
    site order of the implementation (checked to be the right set)."""
    cr = cfgs.crystal(name)
    latt = latt if latt is not None else cfgs.make(lp, name)
    d = cr.dim
    o = [origin] * d if np.isscalar(origin) else list(origin)
    lo = np.array(o, float) - 0.02
    size = np.array(cells, float) - 0.02
    kw.setdefault("num_jobs", 1)
    latt.build(size if d > 1 else float(size[0]), primitive=True, pos=lo if d > 1 else float(lo[0]), **kw)
    want = {c + (a,) for c in itertools.product(*[range(a, a + n) for a, n in zip(o, cells)]) for a in range(cr.n)}
    return latt, cr, want


def ids_of(latt):
    return [tuple(int(x) for x in r) for r in np.asarray(latt.indices)]


def start(ctx, lp, name, cells, origin=0, what="build"):
    latt, cr, want = block(lp, name, cells, origin)
    ids = ids_of(latt)
    ctx.check(len(ids) == len(set(ids)) and set(ids) == want, what + ":sites", lambda: f"{len(ids)} sites, want {len(want)}")
    return latt, Model(cr, ids)


# -- comparison -------------------------------------------------------------------------
def check_sites(ctx, latt, m, what):
    ids = ids_of(latt)
    ctx.check(ids == m.ids, what + ":sites", lambda: f"got {ids[:8]} ({len(ids)}) want {m.ids[:8]} ({len(m.ids)})")
    ctx.check(latt.num_sites == len(ids) and latt.data.num_sites == len(ids), what + ":num_sites", lambda: latt.num_sites)
    pos = np.asarray(latt.positions, float)
    ctx.check(pos.shape == (len(ids), m.cr.dim) and (not len(ids) or np.abs(pos - m.cr.poss(ids)).max() < 1e-6),
              what + ":positions", "")


def check_bonds(ctx, latt, m, what):
    """Per-site neighbor lists with distances and periodic flags."""
    data = latt.data
    for i, want in enumerate(m.adj()):
        got = {}
        for k, nbs in latt.iter_neighbors(i):
            for j in nbs:
                j = int(j)
                ctx.check(j not in got, what + ":duplicate-neighbor", lambda: f"site {m.ids[i]} lists {j} twice")
                got[j] = distval(latt, k)
        ctx.check(got == {j: v[0] for j, v in want.items()}, what + ":neighbors",
                  lambda: f"site {i} {m.ids[i]}: got {sorted(got.items())} want {sorted((j, v[0]) for j, v in want.items())}")
        per = sorted(int(j) for j in data.get_neighbors(i, periodic=True))
        opn = sorted(int(j) for j in data.get_neighbors(i, periodic=False))
        ctx.check(per == sorted(j for j, v in want.items() if any(v[1])), what + ":periodic-flag", lambda: f"site {i}: {per}")
        ctx.check(opn == sorted(j for j, v in want.items() if not any(v[1])), what + ":open-flag", lambda: f"site {i}: {opn}")
        mk = np.asarray(data.neighbor_mask(i))
        for j, nv in zip(np.asarray(data.neighbors)[i][mk], np.asarray(data.pnvecs)[i][mk]):
            dd, sh = want[int(j)]
            dv = m.cr.pos(m.ids[int(j)]) - np.asarray(nv, float) @ m.cr.V - m.cr.pos(m.ids[i])
            ctx.check(abs(np.linalg.norm(dv) - dd) < 1e-3, what + ":image-vector", lambda: f"{i}->{j}: {nv}, want {sh}")
        if latt.primitive:
            # the axes a neighbor is wrapped around are those its image vector points along
            mk = mk & np.asarray(data.pmask)[i]
            for j, nv, ax in zip(np.asarray(data.neighbors)[i][mk], np.asarray(data.pnvecs)[i][mk], np.asarray(data.paxes)[i][mk]):
                axs = sorted({int(a) for a in np.ravel(ax) if 0 <= a < m.cr.dim})
                ctx.check(axs == [a for a in range(m.cr.dim) if nv[a]], what + ":periodic-axes", lambda: f"{i}->{j}: {axs}, image {nv}")


def check_views(ctx, latt, m, what):
    """All views of the neighbor relation agree with the model."""
    n = len(m.ids)
    adj = m.adj()
    want = {(i, j): v[0] for i, a in enumerate(adj) for j, v in a.items()}
    # a site that is its own periodic neighbor: unique lists may or may not name it
    own = lambda x, i: [j for j in x if int(j) != i]  # noqa
    dv = lambda k: distval(latt, k)  # noqa
    nlev = int(np.asarray(latt.data.distvals).shape[0])
    levels = [k for k in range(nlev) if np.isfinite(latt.data.distvals[k])]
    # neighbor lists
    for i in range(n):
        a = {j: v[0] for j, v in adj[i].items()}
        nb = [int(j) for j in latt.neighbors(i)]
        ctx.check(sorted(nb) == sorted(a), what + ":neighbors", lambda: f"site {i}: {nb} want {sorted(a)}")
        nb = sorted(int(j) for j in own(latt.neighbors(i, unique=True), i))
        ctx.check(nb == sorted(j for j in a if j > i), what + ":neighbors-unique", lambda: f"site {i}: {nb}")
        for k in levels:
            w = sorted(j for j, d in a.items() if d == dv(k))
            nb = sorted(int(j) for j in latt.neighbors(i, distidx=k))
            ctx.check(nb == w, what + ":neighbors-level", lambda: f"site {i} level {k}: {nb} want {w}")
            nb = sorted(int(j) for j in own(latt.neighbors(i, k, True), i))
            ctx.check(nb == [j for j in w if j > i], what + ":neighbors-level-unique", lambda: f"site {i} level {k}: {nb}")
        if levels:
            w = sorted(j for j, d in a.items() if d == dv(0))
            nb = sorted(int(j) for j in latt.nearest_neighbors(i))
            ctx.check(nb == w, what + ":nearest_neighbors", lambda: f"site {i}: {nb} want {w}")
            nb = sorted(int(j) for j in own(latt.nearest_neighbors(i, unique=True), i))
            ctx.check(nb == [j for j in w if j > i], what + ":nearest_neighbors-unique", lambda: f"site {i}: {nb}")
        got = sorted((int(j), dv(k)) for k, x in latt.iter_neighbors(i, unique=True) for j in own(x, i))
        ctx.check(got == sorted((j, d) for j, d in a.items() if j > i), what + ":iter_neighbors-unique", lambda: f"site {i}: {got}")
        for j in range(n):
            c = latt.check_neighbors(i, j)
            ctx.check((c is None) == (j not in a) and (c is None or dv(c) == a[j]), what + ":check_neighbors",
                      lambda: f"({i},{j}): {c}, want {a.get(j)}")
    # pair lists
    for uniq in (False, True):
        pairs, dist = latt.neighbor_pairs(unique=uniq)
        got = sorted((int(p[0]), int(p[1]), dv(k)) for p, k in zip(pairs, dist) if not uniq or p[0] != p[1])
        w = sorted((i, j, d) for (i, j), d in want.items() if not uniq or i < j)
        ctx.check(len(pairs) == len(dist) and got == w, what + f":neighbor_pairs-{uniq}", lambda: f"{got[:8]} want {w[:8]}")
    # adjacency matrix: distance index + 1
    am = latt.adjacency_matrix()
    ctx.check(am.shape == (n, n), what + ":adjacency-shape", lambda: am.shape)
    am = am.toarray()
    got = {(int(i), int(j)): dv(int(am[i, j]) - 1) for i, j in zip(*np.nonzero(am))}
    ctx.check(got == want and (am >= 0).all(), what + ":adjacency_matrix", lambda: f"{len(got)} entries, want {len(want)}")
    check_dmap(ctx, latt, m, want, levels, dv, what)


def check_dmap(ctx, latt, m, want, levels, dv, what):
    n = len(m.ids)
    dmap = latt.dmap()
    size = dmap.size
    ctx.check(size == n + len(want), what + ":dmap-size", lambda: f"{size} want {n + len(want)}")
    idx = np.asarray(dmap.indices)
    ctx.check(idx.shape == (2, size), what + ":dmap-indices-shape", lambda: idx.shape)
    rows, cols = [int(x) for x in dmap.rows], [int(x) for x in dmap.cols]
    ctx.check(rows == [int(x) for x in idx[0]] and cols == [int(x) for x in idx[1]], what + ":dmap-rows-cols", "")
    on, hop = np.asarray(dmap.onsite()), np.asarray(dmap.hopping())
    ctx.check(on.shape == (size,) and bool(np.all(on ^ hop)), what + ":dmap-partition", "")
    ctx.check(sorted((r, c) for r, c, o in zip(rows, cols, on) if o) == [(i, i) for i in range(n)], what + ":dmap-onsite", "")
    ctx.check(sorted((r, c) for r, c, o in zip(rows, cols, hop) if o) == sorted(want), what + ":dmap-hopping", "")
    data = np.asarray(dmap.zeros(), float)
    ctx.check(data.shape == (size,), what + ":dmap-zeros", lambda: data.shape)
    ref_ = np.zeros((n, n))
    for a in range(m.cr.n):
        mk = np.asarray(dmap.onsite(a))
        ctx.check(sorted(r for r, o in zip(rows, mk) if o) == [i for i, s in enumerate(m.ids) if s[-1] == a],
                  what + ":dmap-onsite-atom", lambda: f"atom {a}")
        data[mk] = 10 + a
    for i, s in enumerate(m.ids):
        ref_[i, i] = 10 + s[-1]
    for k in levels:
        mk = np.asarray(dmap.hopping(k))
        ctx.check(sorted((r, c) for r, c, o in zip(rows, cols, mk) if o) == sorted(e for e, d in want.items() if d == dv(k)),
                  what + ":dmap-hopping-level", lambda: f"level {k}")
        data[mk] = dv(k)
    for (i, j), d in want.items():
        ref_[i, j] += d  # sites that are their own neighbor: on-site and hopping entry
    h = dmap.build_csr(data)
    ctx.check(h.shape == (n, n) and np.array_equal(h.toarray(), ref_), what + ":dmap-csr", lambda: f"{h.shape}")
    h = dmap.build_csr(data, shape=(n, n), dtype=np.float32)
    ctx.check(np.allclose(h.toarray(), ref_, atol=1e-5), what + ":dmap-csr-shape", "")
    cols_, ptr = dmap.indices_indptr()
    ctx.check(len(ptr) == n + 1 and len(cols_) == size, what + ":dmap-indptr-size", lambda: f"{len(ptr)} {len(cols_)}")
    ctx.check([(i, int(c)) for i in range(n) for c in cols_[ptr[i]:ptr[i + 1]]] == list(zip(rows, cols)), what + ":dmap-indptr", "")
    norb = 2
    blk = np.asarray(dmap.zeros(norb), float)
    ctx.check(blk.shape == (size, norb, norb), what + ":dmap-zeros-norb", lambda: blk.shape)
    mat = np.array([[1.0, 0.25], [0.5, 2.0]])
    blk[:] = data[:, None, None] * mat
    h = dmap.build_bsr(blk)
    ctx.check(h.shape == (norb * n, norb * n) and np.allclose(h.toarray(), np.kron(ref_, mat)), what + ":dmap-bsr", lambda: h.shape)
    z = dmap.zeros(dtype=complex)
    ctx.check(z.shape == (size,) and np.iscomplexobj(z) and not z.any(), what + ":dmap-zeros-dtype", "")
    z += data * (1 + 2j)
    for h in (dmap.build_csr(z), dmap.build_csr(z, dtype=complex), dmap.build_bsr(z[:, None, None], shape=(n, n), dtype=complex)):
        ctx.check(h.shape == (n, n) and np.array_equal(h.toarray(), ref_ * (1 + 2j)), what + ":dmap-complex", lambda: h.shape)
    blk = dmap.zeros(3, dtype=complex)
    ctx.check(blk.shape == (size, 3, 3) and np.iscomplexobj(blk) and not blk.any(), what + ":dmap-zeros-norb-dtype", "")


def check_all(ctx, latt, m, what, views=True):
    check_sites(ctx, latt, m, what)
    check_bonds(ctx, latt, m, what)
    if views:
        check_views(ctx, latt, m, what)
