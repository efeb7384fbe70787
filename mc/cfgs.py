"""The finite alphabet of crystals shared by the checks."""
import numpy as np

from .ref import Crystal

S3 = np.sqrt(3.0)
E2, E3 = np.eye(2).tolist(), np.eye(3).tolist()


def _obl(deg, a1=1.0, a2=1.0):
    t = np.deg2rad(deg)
    return [[a1, 0.0], [a2 * np.cos(t), a2 * np.sin(t)]]


def rot(vecs, deg):
    t = np.deg2rad(deg)
    m = np.array([[np.cos(t), np.sin(t)], [-np.sin(t), np.cos(t)]])
    return (np.array(vecs) @ m).tolist()


HEX = [[1.5, S3 / 2], [1.5, -S3 / 2]]
HEXS = [[1.0, 0.0], [0.5, S3 / 2]]
FCC = [[0.5, 0.5, 0], [0.5, 0, 0.5], [0, 0.5, 0.5]]
BCC = [[0.5, 0.5, 0.5], [0.5, -0.5, 0.5], [-0.5, 0.5, 0.5]]
O1, O2, O3, O4 = [0.0], [0.0, 0.0], [0.0, 0.0, 0.0], [0.0] * 4

# name: (vectors, atom positions, connections)
BASE = {
    # 1D
    "chain": ([[1.0]], [O1], 1),
    "chain-n3": ([[0.7]], [O1], 3),
    "chain-neg": ([[-1.0]], [O1], 2),
    "chain-off": ([[2.0]], [[0.5]], 1),
    "ssh": ([[1.0]], [O1, [0.4]], [((0, 1), 1)]),
    "ssh-n2": ([[1.0]], [O1, [0.4]], [((0, 1), 2), ((0, 0), 1)]),
    "dichain": ([[1.0]], [O1, [0.5]], 1),
    "dichain-un": ([[1.0]], [O1, [0.3]], 2),
    "tri-chain": ([[2.0]], [O1, [0.5], [1.1]], [((0, 1), 1), ((1, 2), 1), ((0, 0), 1)]),
    "chain-iso": ([[1.0]], [O1, [0.45]], [((0, 0), 1)]),
    # 2D, one atom
    "square": (E2, [O2], 1),
    "square-n2": (E2, [O2], 2),
    "square-n3": (E2, [O2], 3),
    "square-big": ([[100.0, 0], [0, 100.0]], [O2], 2),
    "square-small": ([[0.05, 0], [0, 0.05]], [O2], 2),
    "square-off": (E2, [[0.25, 0.75]], 1),
    "rect": ([[1.0, 0], [0, 1.7]], [O2], 2),
    "rect-n3": ([[1.5, 0], [0, 1.0]], [O2], 3),
    "rect-13": ([[1.0, 0], [0, 2.9]], [O2], 3),
    "oblique60": (_obl(60), [O2], 2),
    "oblique75": (_obl(75, 1.0, 1.3), [O2], 2),
    "oblique110": (_obl(110, 1.2, 1.0), [O2], 2),
    "hex": (HEX, [O2], 1),
    "hex-n2": (HEX, [O2], 2),
    "hexs": (HEXS, [O2], 1),
    "left": ([[0.0, 1.0], [1.0, 0.0]], [O2], 1),
    "neg": ([[-1.0, 0.0], [0.0, 1.0]], [O2], 2),
    "skew1": ([[1.0, 0.0], [1.0, 1.0]], [O2], 1),
    "skew1-n2": ([[1.0, 0.0], [1.0, 1.0]], [O2], 2),
    "rot20": (rot(E2, 20), [O2], 1),
    # 2D, several atoms
    "honeycomb": (HEX, [O2, [1.0, 0.0]], [((0, 1), 1)]),
    "honeycomb-n2": (HEX, [O2, [1.0, 0.0]], [((0, 1), 1), ((0, 0), 1), ((1, 1), 1)]),
    "honeycomb-asym": (HEX, [O2, [1.0, 0.0]], [((0, 1), 1), ((0, 0), 1)]),
    "centered": (E2, [O2, [0.5, 0.5]], 1),
    "centered-ab": (E2, [O2, [0.5, 0.5]], [((0, 1), 1)]),
    "centered-mix": (E2, [O2, [0.5, 0.5]], [((0, 0), 2), ((0, 1), 1), ((1, 1), 1)]),
    "lieb": ([[2.0, 0], [0, 2.0]], [O2, [1.0, 0], [0, 1.0]], [((0, 1), 1), ((0, 2), 1)]),
    "lieb-all": ([[2.0, 0], [0, 2.0]], [O2, [1.0, 0], [0, 1.0]], 1),
    "kagome": ([[2.0, 0], [1.0, S3]], [O2, [1.0, 0], [0.5, S3 / 2]],
               [((0, 1), 1), ((0, 2), 1), ((1, 2), 1)]),
    "dimer": ([[2.0, 0], [0, 1.5]], [O2, [0.6, 0.2]], [((0, 1), 2)]),
    "generic2": (_obl(80, 1.1, 0.9), [[0.1, 0.05], [0.45, 0.6]], [((0, 1), 2), ((1, 1), 1)]),
    # 3D
    "sc": (E3, [O3], 1),
    "sc-n2": (E3, [O3], 2),
    "sc-n3": (E3, [O3], 3),
    "tetra": ([[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.6]], [O3], 2),
    "ortho": ([[1.0, 0, 0], [0, 1.2, 0], [0, 0, 1.5]], [O3], 3),
    "fcc": (FCC, [O3], 1),
    "fcc-n2": (FCC, [O3], 2),
    "bcc": (BCC, [O3], 1),
    "bcc-n2": (BCC, [O3], 2),
    "nacl": (FCC, [O3, [0.5, 0.5, 0.5]], 1),
    "nacl-ab": (FCC, [O3, [0.5, 0.5, 0.5]], [((0, 1), 1)]),
    "cscl": (E3, [O3, [0.5, 0.5, 0.5]], [((0, 1), 1), ((0, 0), 1)]),
    "diamond": (FCC, [O3, [0.25, 0.25, 0.25]], [((0, 1), 1)]),
    "hex3d": ([[1.5, S3 / 2, 0], [1.5, -S3 / 2, 0], [0, 0, 0.8]], [O3], 2),
    "left3": ([[0, 1.0, 0], [1.0, 0, 0], [0, 0, 1.0]], [O3], 1),
    "tric": ([[1.0, 0, 0], [0.2, 1.1, 0], [0.1, 0.3, 0.9]], [O3], 3),
    # extreme unit cells: strongly skewed bases, atoms far outside the cell, bilayers
    "skew4": ([[1.0, 0.0], [4.0, 1.0]], [O2], 2),
    "skew-3": ([[1.0, 0.0], [-2.7, 0.9]], [O2], 3),
    "far1": ([[1.0]], [O1, [2.65]], [((0, 1), 2)]),
    "far2": (E2, [O2, [3.5, -2.5]], [((0, 1), 1), ((0, 0), 1)]),
    "far3": (E3, [O3, [2.5, 0.5, -1.5]], [((0, 1), 1)]),
    "close": (E2, [O2, [0.1, 0.05]], [((0, 1), 1), ((0, 0), 1)]),
    "bilayer": ([[1.0, 0, 0], [0, 1.0, 0], [0, 0, 4.0]], [O3, [0, 0, 1.3]], [((0, 1), 1)]),
    "bilayer2": ([[1.0, 0, 0], [0, 1.0, 0], [0, 0, 4.0]], [O3, [0, 0, 1.3]], [((0, 1), 2), ((1, 1), 1)]),
    # many levels, many atoms, elongated cells
    "chain-n6": ([[1.3]], [O1], 6),
    "square-n5": (E2, [O2], 5),
    "hexs-n5": (HEXS, [O2], 5),
    "rect-16": ([[1.0, 0], [0, 6.0]], [O2], 2),
    "quad-chain": ([[2.0]], [O1, [0.3], [0.8], [1.5]], [((0, 1), 1), ((1, 2), 3), ((2, 3), 1), ((0, 3), 2), ((1, 1), 1)]),
    "five": ([[2.0, 0], [0.3, 1.7]], [O2, [0.5, 0.1], [1.1, 0.3], [0.4, 0.9], [1.3, 1.2]],
             [((0, 1), 1), ((1, 2), 1), ((0, 3), 2), ((3, 4), 1), ((2, 4), 1), ((4, 4), 1)]),
    "checker": ([[2.0, 0], [0, 2.0]], [O2, [1.0, 0], [0, 1.0], [1.0, 1.0]], [((0, 1), 1), ((0, 2), 1), ((1, 3), 1), ((2, 3), 1), ((0, 3), 1)]),
    "diamond-n2": (FCC, [O3, [0.25, 0.25, 0.25]], [((0, 1), 2), ((0, 0), 1), ((1, 1), 1)]),
    "sc4": ([[2.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]], [O3, [1.0, 0, 0], [0.5, 0.5, 0.2], [1.4, 0.5, 0.6]],
            [((0, 1), 1), ((0, 2), 1), ((1, 3), 1), ((2, 3), 1)]),
    # few connections at a distance within which many other sites lie
    "stripes": ([[1.0, 0], [0, 24.0]], [O2, [0, 12.0]], 1),
    "layers": ([[1.0, 0, 0], [0, 1.0, 0], [0, 0, 9.0]], [O3, [0, 0, 4.5]], 1),
    "screen": ([[1.0, 0], [0, 24.0]], [O2, [0, 6.0], [0, 18.0]], [((1, 2), 1), ((0, 0), 1)]),
    # 4D
    "hyper4": (np.eye(4).tolist(), [O4], 1),
    "hyper4-n2": (np.eye(4).tolist(), [O4], 2),
}


# not part of names(): many neighbors per site; 28 atoms with 379 different distances (a Ruzsa set: the
# differences of (29 i + 28 2^i + 43) mod 812 are all different)
MANY = {"chain*130": ([[1.0]], [O1], 130),
        "golomb": ([[40.6]], sorted([(29 * i + 28 * 2**i + 43) % 812 * 0.05] for i in range(28)), 1),
        "atoms260": ([[240.0]], [[0.88 * i + 0.1 * (i % 3)] for i in range(260)],
                     [((i, (i + 1) % 260), 1) for i in range(260)]),
        # the shortest vectors along the first axis are combinations of many lattice vectors
        "slant3": ([[1.0, 0.3], [0.0, 0.7]], [O2], 2),
        "slant4": ([[1.0, 0.4], [0.0, 0.7]], [O2], 1),
        "slant5": ([[1.0, 0.5], [0.0, 0.7]], [O2], 2),
        "slant11": ([[1.0, 0.55], [0.0, 0.65]], [O2, [0.5, 0.1]], 1),
        "slant-y": ([[0.7, 0.0], [0.4, 1.0]], [O2], 2)}


def _get(name):
    return BASE[name] if name in BASE else MANY[name]


def crystal(name):
    v, a, c = _get(name)
    return Crystal(v, a, c)


def names(dim=None, exclude=()):
    return [n for n, (v, _, _) in BASE.items()
            if (dim is None or len(v) == dim) and n not in exclude]


# crystals whose atoms all have the same name (atoms compare equal by name)
SAME = {"ssh-n2", "tri-chain", "honeycomb-n2", "kagome", "centered-mix", "generic2", "nacl-ab", "diamond"}


def make(lp, name, cls=None):
    """The configured (analysed) lattpy object for a crystal of the alphabet."""
    v, atoms, conns = _get(name)
    return make_from(lp, v, atoms, conns, cls, name in SAME)


def atom_name(i):
    return "ABCDEFGHIJKLMNOPQRSTUVWXYZab"[i] if i < 28 else f"at{i}"


def make_from(lp, v, atoms, conns, cls=None, same=False):
    cls = cls or lp.Lattice
    latt = cls(np.array(v, dtype=float))
    for i, p in enumerate(atoms):
        latt.add_atom(list(p), "A" if same else atom_name(i))
    if np.isscalar(conns):
        latt.add_connections(conns)
    else:
        for (i, j), k in conns:
            latt.add_connection(i, j, k)
        latt.analyze()
    return latt


def plain(x):
    """JSON-able copy."""
    return np.array(x).tolist()
