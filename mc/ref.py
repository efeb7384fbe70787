"""Reference models.  Deliberately boring, brute force, and independent of lattpy."""
import itertools
import math

import numpy as np

TOL = 1e-7  # equality of geometric quantities
SHAPE_TOL = 1e-3  # documented tolerance of the region check


def key(d):
    """Canonical distance label."""
    return round(float(d), 4)


class Crystal:
    """An infinite crystal: basis vectors (rows), atom positions, connection levels."""

    def __init__(self, vectors, atoms, conns):
        self.V = np.atleast_2d(np.array(vectors, dtype=float))
        self.dim = len(self.V)
        self.R = np.array([np.atleast_1d(a) for a in atoms], dtype=float).reshape(-1, self.dim)
        self.n = len(self.R)
        C = np.zeros((self.n, self.n), dtype=int)
        if np.isscalar(conns):
            C[:] = conns
        else:
            for (i, j), k in conns:
                C[i, j] = C[j, i] = k
        self.C = C
        self.Vinv = np.linalg.inv(self.V)
        self._nb = {}

    # -- geometry -----------------------------------------------------------------
    def pos(self, idx):
        return self.R[idx[-1]] + np.array(idx[:-1], dtype=float) @ self.V

    def poss(self, idxs):
        idxs = np.asarray(idxs, dtype=np.int64)
        return self.R[idxs[:, -1]] + idxs[:, :-1].astype(float) @ self.V

    def cells_near(self, center, radius):
        """All integer cells n with |n.V - center| <= radius (complete: uses dual norms)."""
        frac = center @ self.Vinv
        # |frac_i(x) - frac_i(c)| <= |x-c| * |column i of Vinv|
        ext = radius * np.linalg.norm(self.Vinv, axis=0) + 1e-9
        rngs = [range(math.ceil(f - e), math.floor(f + e) + 1) for f, e in zip(frac, ext)]
        ns = np.array(list(itertools.product(*rngs)), dtype=np.int64).reshape(-1, self.dim)
        if not len(ns):
            return ns, np.zeros(0)
        d = np.linalg.norm(ns @ self.V - center, axis=1)
        m = d <= radius + 1e-9
        return ns[m], d[m]

    def levels(self, a1, a2, k):
        """The k smallest nonzero distances a1->a2 with all sites at that distance."""
        base = np.max(np.linalg.norm(self.V, axis=1))
        radius = base
        while True:
            center = self.R[a1] - self.R[a2]
            ns, d = self.cells_near(center, radius)
            o = np.argsort(d, kind="stable")
            groups = []
            for i in o:
                if d[i] < 1e-6:
                    continue
                if groups and abs(groups[-1][0] - d[i]) < 2e-6:
                    groups[-1][1].append(tuple(int(x) for x in ns[i]))
                else:
                    groups.append((float(d[i]), [tuple(int(x) for x in ns[i])]))
            # the outermost group may be incomplete unless it lies clearly inside the radius
            groups = [g for g in groups if g[0] < radius - 1e-6]
            if len(groups) >= k:
                return groups[:k]
            radius *= 1.5

    def well_separated(self):
        """Distances of different shells can't be confused by 6-decimal rounding."""
        ds = sorted(d for a in range(self.n) for b in range(self.n)
                    for d, _ in self.levels(a, b, max(1, int(self.C[a, b]) + 1)))
        for x, y in zip(ds, ds[1:]):
            if 1e-9 < y - x < 1e-3:
                return False
        return all(abs((d * 1e6) % 1 - 0.5) > 1e-2 for d in ds)

    def nbrs(self, a1):
        """[(distance, (n..., a2)), ...]: all configured neighbors of atom a1 in cell 0."""
        if a1 not in self._nb:
            out = []
            for a2 in range(self.n):
                k = int(self.C[a1, a2])
                if k:
                    for d, ns in self.levels(a1, a2, k):
                        out += [(d, n + (a2,)) for n in ns]
            self._nb[a1] = out
        return self._nb[a1]

    def shells(self, a1):
        """Ordered list of (distance, set of neighbor indices) over all partner atoms."""
        groups = []
        for d, idx in sorted(self.nbrs(a1), key=lambda t: t[0]):
            if groups and abs(groups[-1][0] - d) < 2e-6:
                groups[-1][1].add(idx)
            else:
                groups.append((d, {idx}))
        return groups

    # -- finite pieces --------------------------------------------------------------
    def sites_where(self, lo, hi, inside):
        """All sites whose position satisfies ``inside`` (a vectorised signed margin:
        <=0 inside), scanning every cell that could reach the box [lo, hi].
        Returns (set of idx, ambiguous flag)."""
        lo, hi = np.asarray(lo, float), np.asarray(hi, float)
        c = (lo + hi) / 2
        rad = np.linalg.norm(hi - lo) / 2 + 0.1
        out, amb = set(), False
        for a in range(self.n):
            ns, _ = self.cells_near(c - self.R[a], rad)
            if not len(ns):
                continue
            m = inside(ns @ self.V + self.R[a])
            amb |= bool(np.any((m > 1e-6) & (m < 2.5e-3 * max(1, 1))))
            for n in ns[m <= 1e-6]:
                out.add(tuple(int(x) for x in n) + (a,))
        return out, amb

    def graph(self, sites):
        """Directed neighbor relation {(i, j): distance} among the given sites."""
        sites = set(sites)
        g = {}
        for s in sites:
            for d, nb in self.nbrs(s[-1]):
                t = tuple(x + y for x, y in zip(s[:-1], nb[:-1])) + (nb[-1],)
                if t in sites:
                    g[(s, t)] = key(d)
        return g


def box_margin(lo, size):
    lo, size = np.asarray(lo, float), np.asarray(size, float)

    def f(p):
        return np.max(np.maximum(lo - p, p - lo - size), axis=1)

    return f


def par_margin(lo, size, basis):
    """Parallelepiped {x: lo <= x.B^-1 <= lo+size} (margin in lattice coordinates)."""
    lo, size = np.asarray(lo, float), np.asarray(size, float)
    binv = np.linalg.inv(np.asarray(basis, float))

    def f(p):
        q = p @ binv
        return np.max(np.maximum(lo - q, q - lo - size), axis=1)

    return f


def ball_margin(c, r):
    c = np.asarray(c, float)
    return lambda p: np.linalg.norm(p - c, axis=1) - r


def donut_margin(c, ro, ri):
    c = np.asarray(c, float)

    def f(p):
        d = np.linalg.norm(p - c, axis=1)
        return np.maximum(d - ro, ri - d)

    return f


def hull_margin_2d(points):
    """Convex polygon given in counter-clockwise order."""
    P = np.asarray(points, float)

    def f(p):
        m = np.full(len(p), -np.inf)
        for a, b in zip(P, np.roll(P, -1, axis=0)):
            t = b - a
            n = np.array([t[1], -t[0]]) / np.linalg.norm(t)
            m = np.maximum(m, (p - a) @ n)
        return m

    return f


def torus(crystal, sites, tvecs):
    """Neighbor relation of the sites with positions identified modulo the translations
    ``tvecs`` (integer cell vectors).  Returns {(i, j): set of (distance, image vector)},
    where the neighbor is the copy of j displaced by the image vector (cell units).
    Images are enumerated completely: every configured neighbor of i is looked up modulo
    the translation group."""
    sites = set(sites)
    T = np.array(tvecs, dtype=np.int64).reshape(-1, crystal.dim)
    k = len(T)
    out = {}
    combos = list(itertools.product(range(-2, 3), repeat=k))
    shifts = [tuple(int(x) for x in (np.array(c) @ T if k else np.zeros(crystal.dim, int)))
              for c in combos]
    for s in sites:
        for d, nb in crystal.nbrs(s[-1]):
            t = tuple(x + y for x, y in zip(s[:-1], nb[:-1]))
            for sh in shifts:
                u = tuple(x - y for x, y in zip(t, sh)) + (nb[-1],)
                if u in sites:
                    out.setdefault((s, u), set()).add((key(d), sh))
    return out
