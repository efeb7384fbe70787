"""C20  Predefined lattices have the documented geometry."""
import itertools
import math

import numpy as np

from . import model, ref
from .core import lattpy

ID = "C20"
BOUNDS = {
    "quick": "all 10 basis constructors x 3 classes x 5 lattice constants (all pairs/angles); all 8 predefined lattices x 4 constants x "
    "5 kinds of atom argument x 1-3 neighbor levels, as crystal and built with a small finite block; finite_hypercubic in 1-3 dimensions x "
    "sizes 1-4 x 3 constants x neighbors 1-2 x primitive/cartesian x all sets of periodic axes and two shapes; keyword configuration: "
    "all combinations of 4 atom dictionaries, 5 kinds of connections, shape and periodic arguments on 12 bases vs explicit calls",
    "thorough": "as quick with 1-4 neighbor levels, more lattice constants and larger blocks",
}
ASSUMPTIONS = [
    "documented vectors are those of the source and tests: the hexagonal lattices take the atom distance a of the honeycomb "
    "(|a_i| = sqrt(3) a), hexagonal3d has the third vector (0, 0, a az / 2)",
]
S3 = math.sqrt(3)


def basis_defs(tier):
    A = [0.5, 1.0, 2.0, 3.7, 1e-2]
    B = [0.5, 1.0, 2.3]
    out = []
    for a in A:
        out += [("chain", (a,), [[a]]), ("square", (a,), [[a, 0], [0, a]]),
                ("hexagonal", (a,), [[1.5 * a, S3 / 2 * a], [1.5 * a, -S3 / 2 * a]]),
                ("sc", (a,), [[a, 0, 0], [0, a, 0], [0, 0, a]]),
                ("fcc", (a,), [[a / 2, a / 2, 0], [a / 2, 0, a / 2], [0, a / 2, a / 2]]),
                ("bcc", (a,), [[a / 2, a / 2, a / 2], [a / 2, -a / 2, a / 2], [-a / 2, a / 2, a / 2]])]
        for d in range(1, 6):
            out.append(("hypercubic", (d, a), [[a if i == j else 0 for j in range(d)] for i in range(d)]))
        for b in B:
            out.append(("rectangular", (a, b), [[a, 0], [0, b]]))
            out.append(("hexagonal3d", (a, b), [[1.5 * a, S3 / 2 * a, 0], [1.5 * a, -S3 / 2 * a, 0], [0, 0, a * b / 2]]))
            for deg in (30, 45, 60, 90, 110, 150):
                al = math.radians(deg)
                out.append(("oblique", (al, a, b), [[a, 0], [b * math.cos(al), b * math.sin(al)]]))
    out += [("chain", (), [[1.0]]), ("square", (), [[1.0, 0], [0, 1]]), ("rectangular", (), [[1.0, 0], [0, 1]]),
            ("sc", (), np.eye(3).tolist()), ("hexagonal", (), [[1.5, S3 / 2], [1.5, -S3 / 2]]), ("hypercubic", (2,), np.eye(2).tolist()),
            ("oblique", (math.pi / 3,), [[1, 0], [0.5, S3 / 2]]), ("bcc", (), [[.5, .5, .5], [.5, -.5, .5], [-.5, .5, .5]]),
            ("fcc", (), [[.5, .5, 0], [.5, 0, .5], [0, .5, .5]]), ("hexagonal3d", (), [[1.5, S3 / 2, 0], [1.5, -S3 / 2, 0], [0, 0, .5]])]
    return out


def full(n, k):
    return np.full((n, n), k)


def presets(tier):
    """(function name, kwargs, vectors, atoms, connection matrix, atom argument names)"""
    A = [1.0, 0.5, 3.7, 2.0] + ([0.1, 12.0] if tier == "thorough" else [])
    K = [None, 1, 2, 3] + ([4] if tier == "thorough" else [])
    out = []
    for a in A:
        hexv = [[1.5 * a, S3 / 2 * a], [1.5 * a, -S3 / 2 * a]]
        for k in K:
            kw = dict(a=a) if k is None else dict(a=a, neighbors=k)
            kk = k or 1
            out.append(("simple_chain", kw, [[a]], [[0.0]], full(1, kk), ["atom"]))
            out.append(("simple_square", kw, [[a, 0], [0, a]], [[0.0, 0.0]], full(1, kk), ["atom"]))
            out.append(("simple_hexagonal", kw, hexv, [[0.0, 0.0]], full(1, kk), ["atom"]))
            out.append(("simple_cubic", kw, (a * np.eye(3)).tolist(), [[0.0] * 3], full(1, kk), ["atom"]))
            out.append(("nacl_structure", kw, [[a / 2, a / 2, 0], [a / 2, 0, a / 2], [0, a / 2, a / 2]], [[0.0] * 3, [a / 2] * 3],
                        full(2, kk), ["atom1", "atom2"]))
            for x0 in (0.0, 0.1, -0.3):
                out.append(("alternating_chain", dict(kw, x0=x0), [[a]], [[x0 * a], [(0.5 + x0) * a]], full(2, kk), ["atom1", "atom2"]))
            for a2 in (1.0, 0.7, 2.9):
                kw2 = dict(a1=a, a2=a2) if k is None else dict(a1=a, a2=a2, neighbors=k)
                out.append(("simple_rectangular", kw2, [[a, 0], [0, a2]], [[0.0, 0.0]], full(1, k or 2), ["atom"]))
        off = np.array([[0, 1], [1, 0]])
        out.append(("honeycomb", dict(a=a), hexv, [[0.0, 0.0], [a, 0.0]], off, ["atom"]))
        out.append(("graphene", dict(a=a), hexv, [[0.0, 0.0], [a, 0.0]], off, []))
    return out


def cases(tier):
    out = [dict(part="basis", i=i) for i in range(len(basis_defs(tier)))]
    out += [dict(part="preset", i=i, tier=tier) for i in range(len(presets(tier)))]
    out += [dict(part="defaults")]
    out += [dict(part="finite", i=i, tier=tier) for i in range(len(finite_defs(tier)))]
    out += [dict(part="kwargs", basis=b, atoms=a) for b in range(len(KWB)) for a in range(4)]
    return out


def run(case, ctx):
    lp = lattpy()
    globals()["part_" + case["part"]](case, ctx, lp)


def check_basis(ctx, latt, V, what):
    V = np.array(V, float)
    d = len(V)
    s = np.abs(V).max()
    ctx.check(latt.dim == d and np.shape(latt.vectors) == (d, d) and np.allclose(latt.vectors, V, atol=1e-12 * s), what + ":vectors",
              lambda: f"{latt.vectors} want {V}")
    ctx.check(np.allclose(latt.norms, np.sqrt((V ** 2).sum(1))), what + ":norms", lambda: latt.norms)
    ctx.check(abs(float(latt.cell_volume) - abs(np.linalg.det(V))) < 1e-9 * s ** d, what + ":volume", lambda: latt.cell_volume)
    ctx.check(np.allclose(latt.cell_size, np.maximum(V.max(0), 0) - np.minimum(V.min(0), 0)), what + ":cell_size", lambda: latt.cell_size)
    if d <= 3:
        W = np.eye(3)
        W[:d, :d] = V
        ctx.check(np.allclose(latt.vectors3d, W), what + ":vectors3d", lambda: latt.vectors3d)


def part_basis(case, ctx, lp):
    name, args, V = basis_defs("quick")[case["i"]]
    import lattpy.basis as lb
    import lattpy.structure as ls

    for cls in (lb.LatticeBasis, ls.LatticeStructure, lp.Lattice):
        ctx.begin("basis", cls.__name__, name, args)
        ctx.op(name)
        latt = getattr(cls, name)(*args)
        ctx.check(type(latt) is cls, "basis:type", type(latt))
        check_basis(ctx, latt, V, "basis")
        # any equivalent way of passing the vectors
        for arg in (np.array(V, float), [list(map(float, r)) for r in V], latt, tuple(tuple(r) for r in V)):
            ctx.op("construct")
            check_basis(ctx, cls(arg), V, "construct")
        arr = np.array(V, float)
        o = cls(arr)
        arr[:] = 0.1
        check_basis(ctx, o, V, "independent")
        if cls is not lb.LatticeBasis:
            ctx.check(latt.num_base == 0, "basis:empty", latt.num_base)
    ctx.state((name, args))
    ctx.outcome((name, args))


def check_crystal(ctx, latt, cr, what):
    ctx.check(latt.num_base == cr.n and np.allclose(np.array(latt.atom_positions), cr.R, atol=1e-12), what + ":atoms", lambda: latt.atom_positions)
    ctx.check(np.array_equal(np.array(latt.todict()["connections"]), cr.C), what + ":connections", lambda: latt.todict()["connections"])
    for a in range(cr.n):
        sh = cr.shells(a)
        ctx.check(int(latt.num_neighbors[a]) == sum(len(s[1]) for s in sh), what + ":num_neighbors", lambda: f"{latt.num_neighbors}")
        dd = np.asarray(latt.distances[a], float)
        dd = dd[dd > 0]
        ctx.check(len(dd) == len(sh) and np.allclose(dd, [s[0] for s in sh], atol=2e-6), what + ":distances", lambda: f"{dd} want {[s[0] for s in sh]}")
        for k, (_, ms) in enumerate(sh):
            g = [tuple(int(x) for x in r) for r in latt.get_neighbors(alpha=a, distidx=k)]
            ctx.check(len(g) == len(ms) and set(g) == ms, what + ":neighbors", lambda: f"atom {a} level {k}: {g} want {ms}")


DEFNAMES = {"nacl_structure": ["Na", "Cl"], "graphene": ["C1", "C2"], "honeycomb": ["A", "A"]}


def part_preset(case, ctx, lp):
    fname, kw, V, R, C, argn = presets(case["tier"])[case["i"]]
    fn = getattr(lp, fname)
    cr = ref.Crystal(V, R, 0)
    cr.C = np.array(C)
    n = cr.n
    variants = [None, "str", "Atom"] if argn else [None]
    for var in itertools.product(variants, repeat=len(argn)) if argn else [()]:
        kw2 = dict(kw)
        names = list(DEFNAMES.get(fname, ["A"] * n))
        objs = {}
        for i, (an, v) in enumerate(zip(argn, var)):
            if v == "str":
                kw2[an] = "X%d" % i
            elif v == "Atom":
                kw2[an] = objs[i] = lp.Atom("Y%d" % i, color="g", energy=3)
            if v:
                nm = kw2[an] if v == "str" else kw2[an].name
                if fname == "honeycomb":
                    names = [nm, nm]
                else:
                    names[i] = nm
        ctx.begin(fname, {k: str(v) for k, v in kw2.items()})
        ctx.op(fname)
        latt = fn(**kw2)
        ctx.check(type(latt) is lp.Lattice and latt.num_sites == 0, "preset:type", "")
        check_basis(ctx, latt, V, "preset")
        ctx.check([a.name for a in latt.atoms] == names, "preset:names", lambda: f"{latt.atoms} want {names}")
        for i, o in objs.items():
            ctx.check(latt.atoms[i] is o and o["energy"] == 3 and o.color == "g", "preset:atom-object", "")
        if not any(var):
            check_crystal(ctx, latt, cr, "preset")
            # positional constants
            pos = [kw[k] for k in ("a", "a1", "a2") if k in kw]
            l2 = fn(*pos, **{k: v for k, v in kw.items() if k not in ("a", "a1", "a2")})
            check_basis(ctx, l2, V, "positional")
            # a small finite block
            cells = {1: [4], 2: [3, 3], 3: [2, 2, 2]}[cr.dim]
            size = np.array(cells) - 0.02
            lo = np.full(cr.dim, -0.02)
            ctx.op("build")
            if not (np.array([np.floor((np.array(R) @ np.linalg.inv(V)).round(9)) == 0]).all()):
                continue
            latt.build(size if cr.dim > 1 else float(size[0]), primitive=True, pos=lo if cr.dim > 1 else float(lo[0]), num_jobs=1)
            ids = model.ids_of(latt)
            want = {c + (a,) for c in itertools.product(*[range(x) for x in cells]) for a in range(n)}
            ctx.check(set(ids) == want and len(ids) == len(want), "preset:sites", lambda: f"{len(ids)} want {len(want)}")
            m = model.Model(cr, ids)
            model.check_sites(ctx, latt, m, "preset-built")
            model.check_bonds(ctx, latt, m, "preset-built")
        ctx.state((fname, str(kw2.keys()), tuple(kw.items())))
    ctx.outcome((fname, str(kw)))


def part_defaults(case, ctx, lp):
    want = dict(simple_chain=(1, [2], [1.0]), alternating_chain=(2, [4, 4], [0.5, 1.0]), simple_square=(1, [4], [1.0]),
                simple_rectangular=(1, [4], [1.0, 1.5]), simple_hexagonal=(1, [6], [S3]), honeycomb=(2, [3, 3], [1.0]), graphene=(2, [3, 3], [1.0]),
                simple_cubic=(1, [6], [1.0]), nacl_structure=(2, [18, 18], [0.5, S3 / 2, math.sqrt(0.5)]))
    for name, (n, nn, ds) in want.items():
        ctx.begin(name)
        ctx.op(name)
        latt = getattr(lp, name)()
        if name in ("alternating_chain", "nacl_structure"):
            ds = sorted({0.5, {"alternating_chain": 1.0, "nacl_structure": math.sqrt(0.5)}[name]})
        ctx.check(latt.num_base == n and [int(x) for x in latt.num_neighbors] == nn, "defaults:neighbors", lambda: f"{name} {latt.num_neighbors}")
        ctx.check(np.allclose(sorted(set(np.round(np.ravel(latt.distances), 6)) - {0.0}), ds, atol=1e-5), "defaults:distances", lambda: f"{name} {latt.distances}")
        ctx.state(name)
        ctx.outcome(nn)


# -- finite lattices -----------------------------------------------------------------------------
def finite_defs(tier):
    out = []
    sizes = [(n,) for n in (1, 2, 3, 4, 6)] + [(2, 2), (3, 2), (4, 3), (1, 3), (3, 3)] + [(2, 2, 2), (3, 2, 1), (3, 3, 3)]
    if tier == "thorough":
        sizes += [(9,), (6, 5), (4, 4, 3), (2, 2, 2, 2)]
    for s, a, k, prim in itertools.product(sizes, (1.0, 0.5, 2.3), (None, 1, 2), (None, True, False)):
        out.append((s, a, k, prim))
    return out


def part_finite(case, ctx, lp):
    s, a, k, prim = finite_defs(case["tier"])[case["i"]]
    d = len(s)
    kw = {}
    if k is not None:
        kw["neighbors"] = k
    if prim is not None:
        kw["primitive"] = prim
    cr = ref.Crystal((a * np.eye(d)).tolist(), [[0.0] * d], k or 1)
    cells = s if prim in (None, True) else [int(math.floor(x / a + 1e-9)) + 1 for x in s]
    want = set(itertools.product(*[range(n) for n in cells]))
    want = {c + (0,) for c in want}
    args = [s, list(s), np.array(s)]
    if d == 1:
        args += [s[0], float(s[0])] + ([np.int64(s[0]), np.uint8(s[0])] if float(s[0]).is_integer() else [])
    pers = [None, True, False] + [list(c) for r in range(1, d + 1) for c in itertools.combinations(range(d), r)] + [0]
    for pi, per in enumerate(pers):
        for ai, arg in enumerate(args):
            if ai and pi:
                continue
            ctx.begin("finite", str(arg), a, kw, per)
            axes = () if per is None or per is False else tuple(range(d)) if per is True else (per,) if isinstance(per, int) else tuple(per)
            m = model.Model(cr, sorted(want))
            if axes and not m.set_periodic(axes):
                continue
            ctx.op("finite_hypercubic")
            at = lp.Atom("Q") if pi % 2 else "Q"
            latt = lp.finite_hypercubic(arg, a, at, **kw, periodic=per) if per is not None else lp.finite_hypercubic(arg, a, at, **kw)
            ids = model.ids_of(latt)
            ctx.check(set(ids) == want and len(ids) == len(want), "finite:sites", lambda: f"{arg}: {len(ids)} want {len(want)}")
            check_basis(ctx, latt, cr.V, "finite")
            ctx.check([x.name for x in latt.atoms] == ["Q"] and (not pi % 2 or latt.atoms[0] is at), "finite:atom", "")
            m.ids = ids
            m._b = None
            model.check_sites(ctx, latt, m, "finite")
            model.check_bonds(ctx, latt, m, "finite")
            ctx.check(sorted(int(x) for x in latt.periodic_axes) == sorted(axes), "finite:axes", lambda: latt.periodic_axes)
            ctx.check(np.allclose(latt.shape, [(n - 1) * a for n in cells]), "finite:shape", lambda: latt.shape)
            ctx.state((str(arg), a, str(kw), str(per)))
            ctx.outcome((cells, axes, k))
    if d == 2 and prim is False:
        r = 1.21 * a * s[0]
        ctx.begin("finite-circle", s, a)
        ctx.op("circle")
        latt = lp.finite_hypercubic(lp.Circle((0.1 * a, 0.0), r), a, primitive=False, **{x: v for x, v in kw.items() if x == "neighbors"})
        w = {(i, j, 0) for i in range(-9, 10) for j in range(-9, 10) if math.hypot(i * a - 0.1 * a, j * a) <= r}
        ids = model.ids_of(latt)
        ctx.check(set(ids) == w and len(ids) == len(w), "finite:circle", lambda: f"{len(ids)} {len(w)}")
        m = model.Model(cr, ids)
        model.check_bonds(ctx, latt, m, "finite-circle")


# -- keyword configuration -----------------------------------------------------------------------
KWB = [("chain", (1.3,)), ("square", (1.0,)), ("hexagonal", (1.0,)), ("sc", (1.0,)), ("rectangular", (1.0, 1.4)), ("oblique", (1.2, 1.0, 1.3)),
       ("hexagonal3d", (1.0, 2.0)), ("fcc", (1.6,)), ("bcc", (1.5,)), ("hypercubic", (2, 1.1)), ("hypercubic", (1, 0.9)), (None, ([[1.0, 0.2], [0.1, 1.3]],))]


def part_kwargs(case, ctx, lp):
    bname, bargs = KWB[case["basis"]]
    new = lambda cls, **kw: getattr(cls, bname)(*bargs, **kw) if bname else cls(*bargs, **kw)  # noqa
    d = int(new(lp.LatticeBasis).dim)
    p = [tuple([0.0] * d), tuple([0.4] + [0.0] * (d - 1)), tuple([0.15] + [0.5] * (d - 1)) if d > 1 else (0.15,)]
    atoms = [{p[0]: "A"}, {p[0]: "A", p[1]: "B"}, {p[1]: lp.Atom("B", color="r"), p[0]: "A", p[2]: "B"}, {p[0]: None}][case["atoms"]]
    if d == 1:
        atoms = {(k[0] if i % 2 else k): v for i, (k, v) in enumerate(atoms.items())}
    n = len(atoms)
    cons = [1, 2, {(0, 0): 1}]
    if n > 1:
        cons += [{("A", "B"): 1}, {(0, 1): 2, (0, 0): 1}]
    import lattpy.structure as ls

    for con, shape, per in itertools.product(cons, (None, 3.2, "circle"), (None, True, 0, False)):
        if shape is None and per is not None:
            continue
        sh = None if shape is None else lp.Circle([0.0] * d, 2.3) if shape == "circle" else ([shape] * d if d > 1 else shape)
        kw = dict(atoms=atoms, cons=con)
        if sh is not None:
            kw["shape"] = sh
        if per is not None:
            kw["periodic"] = per
        for cls in (lp.Lattice, ls.LatticeStructure):
            if cls is ls.LatticeStructure and sh is not None:
                continue
            ctx.begin("kwargs", cls.__name__, bname, str(atoms), str(con), shape, per)
            ctx.op("keywords")
            a = new(cls, **kw)
            b = new(cls)
            for pos, at in atoms.items():
                b.add_atom(pos, at)
            if isinstance(con, int):
                b.add_connections(con)
            else:
                for (x, y), k in con.items():
                    b.add_connection(x, y, k)
                b.analyze()
            if sh is not None:
                b.build(sh, num_jobs=1)
                if per is not None:
                    b.set_periodic(per)
            same(ctx, a, b)
            cr = ref.Crystal(a.vectors, [np.atleast_1d(x) for x in atoms], 0)
            names = [x.name for x in a.atoms]
            want = np.zeros((n, n), int)
            if isinstance(con, int):
                want[:] = con
            else:
                for (x, y), k in con.items():
                    xs = [i for i in range(n) if names[i] == x] if isinstance(x, str) else [x]
                    ys = [i for i in range(n) if names[i] == y] if isinstance(y, str) else [y]
                    for i, j in itertools.product(xs, ys):
                        want[i, j] = want[j, i] = k
            cr.C = want
            check_crystal(ctx, a, cr, "kwargs")
            ctx.check([x if isinstance(x, str) else (x.name if x is not None else "A") for x in atoms.values()] == names, "kwargs:names", lambda: names)
            ctx.state((bname, bargs, case["atoms"], str(con), shape, per))
            ctx.outcome((bname, n, str(con), shape, per))


def same(ctx, a, b):
    ctx.check(np.array_equal(np.array(a.todict()["connections"]), np.array(b.todict()["connections"])), "kwargs:connections", "")
    ctx.check(np.allclose(np.array(a.atom_positions), np.array(b.atom_positions)), "kwargs:positions", "")
    if not hasattr(a, "data"):
        return
    ctx.check(model.ids_of(a) == model.ids_of(b) if b.num_sites else a.num_sites == 0, "kwargs:sites", lambda: f"{a.num_sites} {b.num_sites}")
    ctx.check([int(x) for x in a.periodic_axes] == [int(x) for x in b.periodic_axes], "kwargs:periodic", lambda: f"{a.periodic_axes} {b.periodic_axes}")
    for i in range(b.num_sites):
        for per in (None, True, False):
            x, y = (sorted(int(v) for v in q.data.get_neighbors(i, periodic=per)) for q in (a, b))
            ctx.check(x == y, "kwargs:neighbors", lambda: f"{i} {per}: {x} want {y}")
