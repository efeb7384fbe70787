"""C22  Operations change nothing but their target."""
import copy
import itertools

import numpy as np

from . import cfgs, model
from .core import lattpy

ID = "C22"
BOUNDS = {
    "quick": "6 lattices (1D-3D, one to three atoms) in 7 states (configured, built, periodic, removed, sorted, appended, built "
    "from a shape): all 58 queries and conversions and all 29 changing operations, in three of the states all ordered pairs of them; "
    "single plots; every argument as list, tuple, and array of floats or integers; after every operation the arguments, after every query also the results are "
    "overwritten by the caller; 36 constructors and functions on their own",
    "thorough": "as quick with 12 lattices, all pairs in all states and all ordered triples of a sub-alphabet of 12 changing operations",
}
ASSUMPTIONS = ["Atom objects are shared between the caller and the lattice on purpose", "stored positions, indices and vectors may be handed out as views of the data"]

LATTS = [("chain-n3", [5]), ("ssh", [4]), ("square-n2", [4, 3]), ("honeycomb", [3, 3]), ("kagome", [3, 2]), ("sc", [3, 2, 2])]
MORE = [("tri-chain", [4]), ("chain-neg", [6]), ("oblique75", [3, 4]), ("centered-mix", [3, 3]), ("nacl", [2, 2, 2]), ("bcc", [3, 3, 2])]
STATES = ["configured", "built", "periodic", "removed", "sorted", "appended", "shaped"]
PAIRS = {"quick": ["configured", "built", "periodic"], "thorough": STATES}
VIEWS = ("site", "base_atom_dict")  # stored positions are handed out as they are
KINDS = ["list", "tuple", "array", "int", "narrow"]


# -- values ------------------------------------------------------------------------------
def canon(x):
    """A comparable value of arguments and results."""
    if isinstance(x, np.ndarray):
        return ("array", x.shape, canon(x.tolist()))
    if isinstance(x, (np.floating, float)):
        return "nan" if np.isnan(x) else round(float(x), 9) + 0.0
    if isinstance(x, (np.integer, int, bool, np.bool_)):
        return int(x)
    if isinstance(x, (complex, np.complexfloating)):
        return (canon(x.real), canon(x.imag))
    if isinstance(x, dict):
        return ("dict", tuple((canon(k), canon(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return tuple(canon(v) for v in x)
    if x is None or isinstance(x, str):
        return x
    if hasattr(x, "toarray"):
        return canon(x.toarray())
    n = type(x).__name__
    if n == "Atom":
        return ("atom", x.name, canon(x.weight), canon(dict(x)))
    if n in ("Shape", "Circle", "Donut", "ConvexHull"):
        return (n, canon(x.pos), canon(np.asarray(x.limits())), canon(np.asarray(x.contains(GRID[x.dim]))))
    if n in ("Lattice", "LatticeStructure"):
        return snapshot(x)
    if n == "LatticeBasis":
        return ("basis", canon(x.vectors))
    if n == "LatticeData":
        return data(x)
    if n in ("WignerSeitzCell", "VoronoiTree"):
        return (n, canon(x.vertices), canon(x.points))
    if n == "DataMap":
        return (n, canon(x.indices), canon(x.onsite()), canon(x.hopping()))
    if n == "DispersionPath":
        return (n, x.dim, canon(x.points), tuple(x.labels), x.n_sect)
    raise TypeError(n)


GRID = {d: np.array(list(itertools.product(*[np.linspace(-2.1, 4.3, {1: 40, 2: 12, 3: 6}[d])] * d))) for d in (1, 2, 3)}


def data(d):
    if not d:
        return ("empty",)
    n = d.num_sites
    return (canon(np.asarray(d.indices)), canon(np.asarray(d.positions)),
            tuple(tuple(sorted((int(j), canon(d.distvals[k]), bool(p), tuple(int(v) for v in nv))
                  for j, k, p, nv, m in zip(np.asarray(d.neighbors)[i], np.asarray(d.distances)[i], np.asarray(d.pmask)[i],
                                            np.asarray(d.pnvecs)[i], d.neighbor_mask(i)) if m)) for i in range(n)))


def snapshot(l):
    """Everything a lattice consists of."""
    out = [canon(l.vectors), tuple(canon(a) for a in l.atoms), canon([list(map(float, p)) for p in l.atom_positions]),
           canon(np.asarray(l.todict()["connections"]))]
    if l.base_neighbors:
        out += [tuple(tuple((canon(k), tuple(sorted(map(tuple, np.asarray(v).tolist())))) for k, v in sorted(b.items())) for b in l.base_neighbors),
                canon(l.distances), canon(l.num_neighbors)]
    if hasattr(l, "data"):
        out += [data(l.data), None if l.shape is None else canon(np.asarray(l.shape)), None if l.pos is None else canon(np.asarray(l.pos)),
                canon(list(l.periodic_axes)), l.primitive]
    return tuple(out)


def spoil(x):
    """The caller reuses his objects."""
    if isinstance(x, np.ndarray):
        if x.flags.writeable:
            x[...] = 1 if x.dtype == bool else 77
    elif isinstance(x, list):
        for v in x:
            spoil(v)
        x[:] = [99] * (len(x) + 1)
    elif isinstance(x, dict):
        for v in x.values():
            if not isinstance(v, str):
                spoil(v)
        x.clear()
    elif isinstance(x, tuple):
        for v in x:
            spoil(v)
    elif type(x).__name__ in ("Shape", "Circle", "Donut"):
        for k in ("pos", "size", "basis", "radii"):
            if isinstance(getattr(x, k, None), np.ndarray):
                setattr(x, k, getattr(x, k) + 50)
        if hasattr(x, "radius"):
            x.radius = 1e-3
    elif type(x).__name__ == "Lattice":
        if x.data:
            x.data.remove([0])
            np.asarray(x.data.positions)[...] += 33
            np.asarray(x.data.indices)[...] += 33
            np.asarray(x.data.neighbors)[...] = 0
        np.asarray(x.todict()["connections"])[...] = 0
        x.add_atom(np.full(x.dim, 0.123), "spoiled")
    elif type(x).__name__ == "LatticeData":
        for k in ("indices", "positions", "neighbors", "distances", "distvals", "pnvecs", "pmask"):
            spoil(np.asarray(getattr(x, k)))


def as_kind(x, kind):
    """Numbers as nested list / tuple / array / integer array."""
    a = np.array(x)
    if kind == "array":
        return a
    if kind == "int":
        return a.astype(np.int64) if np.array_equal(a, np.round(a)) else a
    if kind == "narrow":  # the smallest type that holds the numbers
        for t in ("int8", "int16", "float32"):
            with np.errstate(all="ignore"):
                if np.array_equal(a.astype(t).astype(float), a.astype(float)):
                    return a.astype(t)
        return a
    if kind == "tuple":
        return totuple(a.tolist())
    return a.tolist()


def totuple(x):
    return tuple(totuple(v) for v in x) if isinstance(x, list) else x


# -- lattices ------------------------------------------------------------------------------
def fresh(lp, name, cells, state):
    if state == "configured":
        return cfgs.make(lp, name)
    d = len(cells)
    if state == "shaped":
        latt = cfgs.make(lp, name)
        latt.build(lp.Circle([0.3] * d, 2.6), num_jobs=1)
        return latt
    latt, cr, _ = model.block(lp, name, cells)
    if state == "periodic":
        latt.set_periodic(list(range(d)))
    elif state == "removed":
        latt.data.remove([1, -1])
    elif state == "sorted":
        latt.data.sort(d - 1, reverse=True)
    elif state == "appended":
        latt.append(model.block(lp, name, cells)[0], 0, 1)
    return latt


def queries(lp, latt, state, kind):
    """(name, call, arguments): calls that must not change anything."""
    d, nb = latt.dim, latt.num_base
    K = lambda x: as_kind(x, kind)  # noqa
    pts = GRID[d][::7]
    idx = np.array([[i - 1] * d + [i % nb] for i in range(4)])
    half = [2.0] * d
    out = [
        ("transform", lambda x: latt.transform(x), [K(pts)]),
        ("itransform", lambda x: latt.itransform(x), [K(pts)]),
        ("translate", lambda n, r: latt.translate(n, r), [K(np.ones(d)), K(np.full(d, 2.0))]),
        ("itranslate", lambda x: latt.itranslate(x), [K(pts[3])]),
        ("is_reciprocal", lambda v: latt.is_reciprocal(v), [K(2 * np.pi * np.linalg.inv(latt.vectors).T)]),
        ("reciprocal_vectors", lambda: latt.reciprocal_vectors(), []),
        ("reciprocal_lattice", lambda: latt.reciprocal_lattice().vectors, []),
        ("neighbor_cells", lambda: latt.get_neighbor_cells(), []),
        ("cell_superindex", lambda i, s: latt.get_cell_superindex(i, s), [K(np.ones(d, int)), K(np.full(d, 5))]),
        ("cell_index", lambda s: latt.get_cell_index(7, s), [K(np.full(d, 5))]),
        ("vectors3d", lambda: latt.vectors3d, []),
        ("get_alpha", lambda: [latt.get_alpha("A"), latt.get_alpha(latt.atoms[-1])], []),
        ("get_position", lambda n: latt.get_position(n, nb - 1), [K(np.ones(d, int))]),
        ("get_positions", lambda i: latt.get_positions(i), [as_kind(idx, "array" if kind in ("int", "narrow") else kind)]),
        ("estimate_index", lambda p: latt.estimate_index(p), [K(pts[1])]),
        ("get_neighbors", lambda n: latt.get_neighbors(n, nb - 1), [K(np.ones(d, int))]),
        ("neighbor_positions", lambda n: latt.get_neighbor_positions(n, 0), [K(np.ones(d, int))]),
        ("neighbor_vectors", lambda: latt.get_neighbor_vectors(0, include_zero=True), []),
        ("fourier_weights", lambda k: latt.fourier_weights(k), [K(np.full(d, 0.3))]),
        ("base_atom_dict", lambda: {k.name: v for k, v in latt.get_base_atom_dict().items()}, []),
        ("check_points", lambda p, s: latt.check_points(p, s), [as_kind(pts, "array"), K(half)]),
        ("check_points-pos", lambda p, s, o: latt.check_points(p, s, pos=o, relative=True), [as_kind(pts, "array"), K(half), K([1.0] * d)]),
        ("translation_vectors", lambda s, o: latt.build_translation_vectors(s, pos=o), [K(half), K([1.0] * d)]),
        ("build_indices", lambda s, o: latt.build_indices(s, pos=o, return_pos=True), [K(half), K([-1.0] * d)]),
        ("build_indices-shape", lambda s: latt.build_indices(s, return_pos=True), [lp.Circle(K([1.0] * d), 2.2)]),
        ("todict", lambda: [np.array(latt.todict()[k]) for k in ("vectors", "positions", "connections")], []),
        ("dumps-hash", lambda: [latt.dumps(), hash(latt), latt == latt, repr(latt)], []),
        ("copy", lambda: latt.copy(), []),
        ("fromdict", lambda x: snapshot(type(latt).fromdict(x))[:4], [{k: (copy.deepcopy(v) if k != "atoms" else list(v)) for k, v in latt.todict().items()}]),
    ]
    if d > 1:
        out.append(("wigner_seitz", lambda: canon(latt.wigner_seitz_cell().vertices), []))
    if state == "configured":
        return out
    n = latt.num_sites
    pos = np.array(latt.positions)
    ind = np.array(latt.indices)
    D = latt.data
    out += [
        ("neighbors", lambda: [latt.neighbors(i) for i in range(n)], []),
        ("neighbors-unique", lambda: [sorted(latt.neighbors(i, 0, True).tolist()) for i in range(n)], []),
        ("nearest", lambda: latt.nearest_neighbors(n // 2), []),
        ("iter_neighbors", lambda: [[(k, x) for k, x in latt.iter_neighbors(i, u)] for i in range(n) for u in (False, True)], []),
        ("check_neighbors", lambda: [latt.check_neighbors(0, j) for j in range(n)], []),
        ("pairs", lambda: [latt.neighbor_pairs(u) for u in (False, True)], []),
        ("adjacency", lambda: latt.adjacency_matrix(), []),
        ("dmap", lambda: latt.dmap(), []),
        ("limits", lambda: [latt.limits(), D.get_limits(), D.get_index_limits(), D.get_cell_limits(), D.get_translation_limits()], []),
        ("geometry", lambda: [latt.volume(), latt.num_cells, latt.center(), latt.center_of_gravity()], []),
        ("relative_position", lambda f: latt.relative_position(f), [K([1.0] * d)]),
        ("from_pos", lambda p: latt.superindex_from_pos(p), [K(pos[n // 2])]),
        ("from_index", lambda i: latt.superindex_from_index(i), [K(ind[n // 2])]),
        ("site", lambda: [latt.alpha(1), latt.atom(1).name, latt.position(1)], []),
        ("site_mask", lambda a, b: D.site_mask(a, b), [K([0.0] * d), K([2.0] * d)]),
        ("find_sites-short", lambda a, b: D.find_sites(a, b, True), [K([0.0])] + [K([2.0] * max(1, d - 1))]),
        ("find_sites-none", lambda a: D.find_sites(maxs=a), [[None] * (d - 1) + [1.0]]),
        ("outer_sites", lambda: D.find_outer_sites(0, 1), []),
        ("get_positions-alpha", lambda: [D.get_positions(a) for a in range(nb)], []),
        ("neighbor_mask", lambda: [D.neighbor_mask(0, periodic=p, unique=u) for p in (None, True, False) for u in (True, False)], []),
        ("data-copy", lambda: D.copy(), []),
        ("data-text", lambda: [str(D), bool(D), D.nbytes, D.num_sites], []),
        ("data-append-copy", lambda o: D.append(o, copy=True), [D.copy()]),
        ("kdtree", lambda p: latt.kdtree(p).query(num_jobs=1, decimals=6)[1], [as_kind(pos, "array")]),
        ("compute_neighbors", lambda i, p: latt.compute_neighbors(i, p)[1], [ind.copy(), pos.copy()]),
        ("compute_connections", lambda o: latt.compute_connections(o), [latt.copy()]),
        ("minimum_distances", lambda: [latt.minimum_distances(i) for i in (0, n - 1)], []),
        ("ptranslations", lambda a: [(tuple(map(int, x)), v) for x, v in latt.periodic_translation_vectors(a, latt.primitive)], [as_kind(list(range(d)), "list" if kind in ("int", "narrow") else kind)]),
    ]
    return out


def changes(lp, latt, name, cells, state, kind):
    """(name, call, arguments): operations that change the lattice."""
    d = latt.dim
    K = lambda x: as_kind(x, kind)  # noqa
    new = np.full(d, 0.25)
    far = np.full(d, 1.0)  # whole numbers, if that is not the site of another atom
    fr = [(far - p) @ np.linalg.inv(latt.vectors) for p in latt.atom_positions]
    if any(np.abs(x - np.round(x)).max() < 1e-3 for x in fr):
        far = np.full(d, 0.75)
    out = [
        ("add_atom", lambda p: (latt.add_atom(p, "N"), latt.add_connections(1)), [K(new)]),
        ("add_atom-int", lambda p: (latt.add_atom(p, "N"), latt.add_connections(1)), [K(far)]),
        ("add_atom-primitive", lambda p: (latt.add_atom(p, "N", primitive=True), latt.add_connections(1)), [K(np.full(d, 0.625))]),
        ("connect", lambda: latt.add_connection(0, 0, 2, analyze=True), []),
        ("build", lambda s: latt.build(s, num_jobs=1), [K([3.0] * d)]),
        ("build-pos", lambda s, p: latt.build(s, pos=p, num_jobs=1), [K([3.0] * d), K([-1.0] * d)]),
        ("build-primitive", lambda s, p: latt.build(s, primitive=True, pos=p, num_jobs=1), [K([2.5] * d), K([-1.0] * d)]),
        ("build-periodic", lambda s, a: latt.build(s, periodic=a, primitive=True, num_jobs=1), [K([3.5] * d), as_kind(list(range(d)), "list" if kind in ("int", "narrow") else kind)]),
        ("build-shape", lambda s: latt.build(s, num_jobs=1), [lp.Shape(K([3.0] * d), K([1.0] * d))]),
        ("build-circle", lambda s: latt.build(s, num_jobs=1), [lp.Circle(K([1.0] * d), 3.1)]),
        ("build-donut", lambda s: latt.build(s, num_jobs=1), [lp.Donut(K([1.0] * d), 3.1, 1.2)]),
        ("build-callback", lambda s: latt.build(s, callback=greedy, num_jobs=1), [K([3.0] * d)]),
        ("build-filter", lambda s: latt.build(s, min_neighbors=1, num_jobs=1), [K([3.0] * d)]),
    ]
    if d > 1:
        corners = [[0.0] * d] + (4 * np.eye(d)).tolist()
        out.append(("build-hull", lambda s: latt.build(s, num_jobs=1), [lp.ConvexHull(K(corners))]))
    if state == "configured":
        return out
    n = latt.num_sites
    D = latt.data
    other = Lazy(lambda: model.block(lp, name, cells)[0])
    out += [
        ("periodic", lambda a: latt.set_periodic(a), [as_kind([0], "list" if kind in ("int", "narrow") else kind)]),
        ("periodic-all", lambda a: latt.set_periodic(a), [as_kind(list(range(d)), "list" if kind in ("int", "narrow") else kind)]),
        ("open", lambda: latt.set_periodic(None), []),
        ("remove", lambda s: D.remove(s), [as_kind([2, 0], "list" if kind == "tuple" else kind)]),
        ("remove-negative", lambda s: D.remove(s), [as_kind([-1], "list" if kind == "tuple" else kind)]),
        ("sort-axis", lambda: D.sort(d - 1), []),
        ("sort-permutation", lambda s: D.sort(indices=s), [as_kind(np.roll(np.arange(n), 2), "list" if kind == "tuple" else kind)]),
        ("sort-neighbors", lambda: D.sort_neighbors(), []),
        ("append", lambda o: latt.append(o, 0, 1), [other]),
        ("append-left", lambda o: latt.append(o, d - 1, -1, sort_ax=0), [other]),
        ("append-periodic", lambda o: latt.append(o), [Lazy(lambda: periodic(other.f()))]),
        ("append-self", lambda: latt.append(latt), []),
        ("repeat", lambda: latt.repeat(2, d - 1), []),
        ("extend", lambda: latt.extend(2, 0, 1), []),
        ("add_neighbors", lambda j, x: D.add_neighbors(0, j, x), [as_kind([n - 1], "list" if kind == "tuple" else kind), as_kind([17.0], kind)]),
    ]
    return out


def periodic(latt):
    latt.set_periodic(True)
    return latt


def greedy(indices, positions):
    """A callback that keeps its arrays and reuses them."""
    mask = np.asarray(positions)[:, 0] < 2.0
    return mask


# -- exploration ------------------------------------------------------------------------------
def cases(tier):
    out = []
    for name, cells in LATTS + (MORE if tier == "thorough" else []):
        for state in STATES:
            for kind in KINDS:
                out.append(dict(mode="queries", cfg=name, cells=cells, state=state, kind=kind))
                out.append(dict(mode="changes", cfg=name, cells=cells, state=state, kind=kind))
            if state in PAIRS[tier]:
                out += [dict(mode="pairs", cfg=name, cells=cells, state=state, kind="list", first=i) for i in range(14 if state == "configured" else 29)]
            if tier == "thorough":
                out.append(dict(mode="triples", cfg=name, cells=cells, state=state, kind="list"))
            if state in ("configured", "periodic", "removed"):
                out.append(dict(mode="plots", cfg=name, cells=cells, state=state))
    for kind in KINDS:
        for i in range(NOBJ):
            out.append(dict(mode="object", item=i, kind=kind))
    for c in out:
        c["tier"] = tier
    return out


def run(case, ctx):
    globals()["run_" + case["mode"]](case, ctx, lattpy())


def perform(ctx, what, call, args):
    before = canon(args)
    ctx.op(what)
    res = canon(call(*args))
    ctx.check(canon(args) == before, "argument-changed:" + what, lambda: f"{args}")
    return res


def run_queries(case, ctx, lp):
    name, cells, state, kind = (case[k] for k in ("cfg", "cells", "state", "kind"))
    latt = fresh(lp, name, cells, state)
    S = snapshot(latt)
    num = len(queries(lp, latt, state, kind))
    base = []
    for i in range(num):
        what, call, args = queries(lp, latt, state, kind)[i]
        ctx.begin(name, state, kind)
        base.append(perform(ctx, what, call, args))
        ctx.check(snapshot(latt) == S, "query-changed:" + what)
        spoil(args)
        ctx.check(snapshot(latt) == S, "argument-shared:" + what)
        ctx.state((name, state, kind, what))
        if kind == "array" and what not in VIEWS:
            _, call, args = queries(lp, latt, state, kind)[i]
            spoil(call(*args))
            ctx.op(("overwrite result", what))
            ctx.check(snapshot(latt) == S, "result-shared:" + what)
            _, call, args = queries(lp, latt, state, kind)[i]
            got = perform(ctx, what, call, args)
            ctx.check(got == base[i], "result-shared:" + what, lambda: f"{got} want {base[i]}"[:600])
        if kind != "list" and what != "cell_superindex":  # documented: an array gives an array
            _, call, args = queries(lp, latt, state, "list")[i]
            ref = perform(ctx, what, call, args)
            ctx.check(ref == base[i], "kind-of-argument:" + what, lambda: f"{kind}: {base[i]} want {ref}"[:600])
    if kind != "array" or state not in PAIRS[case["tier"]]:
        return
    for i in range(num):
        for j in range(num):
            q = queries(lp, latt, state, kind) if j == 0 else q
            w1, c1, a1 = q[i]
            w2, c2, a2 = q[j]
            ctx.begin(name, state, kind)
            ctx.op(w1)
            c1(*a1)
            got = perform(ctx, w2, c2, a2)
            ctx.check(got == base[j], f"query-not-repeatable:{w1}:{w2}", lambda: f"{got} want {base[j]}"[:600])
        ctx.check(snapshot(latt) == S, "query-changed:" + w1)
        ctx.outcome((name, state, i))


def attempt(ctx, what, call, args):
    """The operation, or the type of its error (rejected requests must leave everything as it is)."""
    before = canon(args)
    ctx.op(what)
    try:
        call(*args)
        err = None
    except Exception as e:  # noqa: the same sequence decides the reference
        err = type(e).__name__
    ctx.check(canon(args) == before, "argument-changed:" + what, lambda: f"{args}")
    return err


def sequence(ctx, lp, case, seq, spoiling):
    """Run a sequence of changes (by number); with ``spoiling`` the caller overwrites all arguments afterwards."""
    name, cells, state, kind = (case[k] for k in ("cfg", "cells", "state", "kind"))
    latt = fresh(lp, name, cells, state)
    ctx.begin(name, state, kind, "spoil" if spoiling else "keep")
    errs = []
    for i in seq:
        st = state if latt.data else "configured"
        if latt.data and st == "configured":
            st = "built"
        ops = changes(lp, latt, name, cells, st, kind)
        if i >= len(ops):
            return None
        what, call, args = ops[i]
        args = [a.f() if isinstance(a, Lazy) else a for a in args]
        err = attempt(ctx, what, call, args)
        errs.append(err)
        if spoiling:
            S = snapshot(latt)
            spoil(args)
            ctx.check(snapshot(latt) == S, "argument-shared:" + what)
    return latt, errs


def run_changes(case, ctx, lp):
    num = len(changes(lp, fresh(lp, case["cfg"], case["cells"], case["state"]), case["cfg"], case["cells"], case["state"], case["kind"]))
    ref = dict(case, kind="list")
    for i in range(num):
        latt, errs = sequence(ctx, lp, case, [i], True)
        S = snapshot(latt)
        ctx.state((case["cfg"], case["state"], i, S))
        ctx.check(errs == [None], "operation-fails", lambda: f"{i} {errs}")
        if case["kind"] != "list":
            latt, e2 = sequence(ctx, lp, ref, [i], False)
            ctx.check(errs == e2 and snapshot(latt) == S, "kind-of-argument", lambda: f"operation {i} {case['kind']}")


def run_pairs(case, ctx, lp):
    i = case["first"]
    for j in range(29):
        a = sequence(ctx, lp, case, [i, j], True)
        b = sequence(ctx, lp, case, [i, j], False)
        if a is None or b is None:
            continue
        ctx.check(a[1] == b[1] and snapshot(a[0]) == snapshot(b[0]), "arguments-shared-later", lambda: f"{i} {j} {a[1]} {b[1]}")
        ctx.state((case["cfg"], case["state"], i, j))
        ctx.outcome((case["cfg"], i, j, str(a[1])))


def run_triples(case, ctx, lp):
    sub = [0, 3, 5, 7, 9, 13, 14, 16, 19, 21, 23, 26]
    for seq in itertools.product(sub, repeat=3):
        a = sequence(ctx, lp, case, seq, True)
        b = sequence(ctx, lp, case, seq, False)
        if a is None or b is None:
            continue
        ctx.check(a[1] == b[1] and snapshot(a[0]) == snapshot(b[0]), "arguments-shared-later", lambda: f"{seq} {a[1]} {b[1]}")
        ctx.state((case["cfg"], case["state"], seq))


def run_plots(case, ctx, lp):
    import matplotlib.pyplot as plt

    latt = fresh(lp, case["cfg"], case["cells"], case["state"])
    S = snapshot(latt)
    cols = [[0, 0, "r"], [0, latt.num_base - 1, "g"]]
    mar = [0.1] * max(latt.dim, 2)
    calls = [("plot_cell", lambda c, m: latt.plot_cell(con_colors=c, margins=m), [cols, mar]),
             ("plot_basis", lambda m: latt.plot_basis(margins=m), [mar])]
    if case["state"] != "configured":
        calls.append(("plot", lambda c, m: latt.plot(con_colors=c, margins=m, show_indices=True), [cols, mar]))
    for what, call, args in calls:
        for _ in range(2):
            ctx.begin(case["cfg"], case["state"])
            ctx.op(what)
            before = canon(args)
            call(*args)
            plt.close("all")
            ctx.check(canon(args) == before, "argument-changed:" + what)
            ctx.check(snapshot(latt) == S, "plot-changed:" + what)
            ctx.state((case["cfg"], case["state"], what))


# -- constructors and functions ------------------------------------------------------------------
P2 = [[0.0, 0.0], [3.0, 0.0], [0.0, 2.0], [3.0, 3.0], [1.0, 1.0]]
E3 = [[2.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 1.0, 3.0]]


def objects(lp, kind):
    """(name, call, arguments, independent): results that must not depend on later changes of the arguments."""
    from lattpy import spatial, utils

    K = lambda x: as_kind(x, kind)  # noqa
    A = lambda x: as_kind(x, kind if kind in ("int", "narrow") else "array")  # noqa
    path = lambda *a: lp.DispersionPath().add_points(*a)  # noqa

    def basis(v):
        b = lp.LatticeBasis(v)
        return Later(lambda: [b.vectors, b.norms, b.cell_volume, b.cell_size, b.itransform([1.0, 2.0, 3.0]), b.reciprocal_vectors()])

    def lattice(v, atoms, cons, s):
        return lp.Lattice(v, atoms=atoms, cons=cons, shape=s)

    def plotted(fn):
        def f(*a):
            import matplotlib.pyplot as plt

            fn(*a)
            plt.close("all")
        return f

    return [
        ("LatticeBasis", basis, [K(E3)]),
        ("LatticeBasis-basis", basis, [lp.LatticeBasis(E3)]),
        ("Lattice", lambda v: lp.Lattice(v), [K(E3)]),
        ("Lattice-kwargs", lattice, [K([[1.0, 0.0], [0.0, 2.0]]), {(0.0, 0.0): "A", (0.5, 1.0): "B"}, {("A", "B"): 1}, K([3.0, 4.0])]),
        ("Shape", lambda s, p, b: lp.Shape(s, p, b), [K([2.0, 3.0, 1.0]), K([1.0, 0.0, -1.0]), K(E3)]),
        ("Shape-nopos", lambda s: lp.Shape(s), [K([2.0, 3.0])]),
        ("Circle", lambda c: lp.Circle(c, 2.0), [K([1.0, 0.0])]),
        ("Donut", lambda c: lp.Donut(c, 2.0, 1.0), [K([1.0, 0.0, 1.0])]),
        ("ConvexHull", lambda p: lp.ConvexHull(p), [K(P2)]),
        ("contains", lambda p: [s.contains(p) for s in (lp.Shape([2.0, 2.0]), lp.Circle([0.0, 0.0], 1.5), lp.Donut([0.0, 0.0], 2.0, 1.0), lp.ConvexHull(P2))], [K(P2)]),
        ("contains-basis", lambda p: lp.Shape([2.0, 2.0], basis=[[1.0, 0.0], [1.0, 2.0]]).contains(p), [K(P2)]),
        ("path", path, [K(P2), ["a", "b", "c", "d", "e"]]),
        ("path-add", lambda p: lp.DispersionPath(2).add(p, "x").add([1.0, 5.0]).cycle(), [K([2.0, 1.0])]),
        ("path-build", lambda p: lp.DispersionPath(2).add(p, "x").add([1.0, 5.0]).build(5), [K([2.0, 1.0])]),
        ("voronoi", lambda p: np.sort(lp.VoronoiTree(p).vertices, axis=0), [K(P2)]),
        ("wigner-seitz", lambda p: np.sort(lp.WignerSeitzCell(p).vertices, axis=0), [K(list(itertools.product((-1, 0, 1), repeat=2)))]),
        ("ws-check", lambda p: lp.LatticeBasis.square(2.0).wigner_seitz_cell().check(p), [K(P2)]),
        ("ws-meshgrid", lambda n: lp.LatticeBasis.square(2.0).wigner_seitz_cell().meshgrid(n), [as_kind([3, 4], "list" if kind in ("int", "narrow") else kind)]),
        ("kdtree", lambda p: spatial.KDTree(p, k=3, max_dist=3.5).query(p), [A(P2)]),
        ("distance", lambda a, b: lp.distance(a, b), [A([1.0, 2.0]), A([3.0, 4.0])]),
        ("distances", lambda a, b: lp.distances(a, b), [K([1.0, 2.0]), K(P2)]),
        ("interweave", lambda *a: lp.interweave(a), [A(P2), A(P2[::-1])]),
        ("vindices", lambda l: lp.vindices(l), [as_kind([[-1, 2], [0, 3]], kind)]),
        ("vrange", lambda a, b, s: lp.vrange(a, b, s), [K([0.0, 1.0]), K([4.0, 7.0]), K([2.0, 3.0])]),
        ("cell_size", lambda v: lp.cell_size(v), [K(E3)]),
        ("cell_volume", lambda v: lp.cell_volume(v), [K(E3)]),
        ("rotate2d", lambda a: spatial.rotate2d(a, 30), [K([1.0, 2.0])]),
        ("rotate3d", lambda a: spatial.rotate3d(a, 30, 20, 10), [K(E3)]),
        ("lookup", lambda a: utils.create_lookup_table(a), [A(P2)]),
        ("min_dtype", lambda a: str(lp.min_dtype(a)), [K(P2)]),
        ("chain", lambda a: lp.chain(a, True), [K([1.0, 5.0, 3.0])]),
        ("atom", lambda d: lp.Atom("A", **d), [{"energy": 1.0, "spin": 2}]),
        ("plot_dispersion", plotted(lambda x, l, c: __import__("lattpy.disptools", fromlist=["x"]).plot_dispersion(x, l, color=c, show=False, fill=True)),
         [A(np.arange(24.0).reshape(12, 2)), ["a", "b", "c"], ["r", "b"]]),
        ("plot_disp_dos", plotted(lambda x, b, l, c: __import__("lattpy.disptools", fromlist=["x"]).plot_disp_dos(x, b, l, color=c, show=False)),
         [A(np.arange(24.0).reshape(12, 2)), [(np.arange(3.0), np.ones(3)), (np.arange(3.0), np.ones(3))], ["a", "b", "c"], ["r", "b"]]),
        ("plot_bands", plotted(lambda k, b: __import__("lattpy.disptools", fromlist=["x"]).plot_bands(k, b, show=False)),
         [[np.arange(4.0), np.arange(5.0)], np.arange(40.0).reshape(2, 5, 4)]),
        ("grid", lambda p, v: __import__("lattpy.plotting", fromlist=["x"]).interpolate_to_grid(p, v, (4, 5)), [as_kind(P2, "array"), np.arange(5.0)]),
    ]


class Lazy:
    """An argument made when it is needed."""

    def __init__(self, f):
        self.f = f


class Later:
    """A result evaluated on demand."""

    def __init__(self, f):
        self.f = f


NOBJ = 36


def run_object(case, ctx, lp):
    obs = lambda r: canon(r.f()) if isinstance(r, Later) else canon(r)  # noqa
    items = objects(lp, case["kind"])
    assert len(items) == NOBJ, len(items)
    what, call, args = items[case["item"]]
    ctx.begin(case["kind"])
    before = canon(args)
    ctx.op(what)
    res = call(*args)
    ctx.check(canon(args) == before, "argument-changed:" + what, lambda: f"{args}")
    val = obs(res)
    spoil(args)
    ctx.check(obs(res) == val, "argument-shared:" + what, lambda: f"{obs(res)} was {val}"[:500])
    _, call, args = objects(lp, case["kind"])[case["item"]]
    ctx.op(what)
    again = obs(call(*args))
    ctx.check(again == val, "not-repeatable:" + what)
    _, call, args = objects(lp, case["kind"])[case["item"]]
    res = call(*args)
    if isinstance(res, (np.ndarray, list, tuple)):
        ctx.op(("overwrite result", what))
        spoil(res)
        _, call, args = objects(lp, case["kind"])[case["item"]]
        ctx.check(obs(call(*args)) == val, "result-shared:" + what)
    _, call, args = objects(lp, "list" if what not in ("distance",) else "array")[case["item"]]
    if what not in ("min_dtype", "vindices"):
        ctx.check(obs(call(*args)) == val, "kind-of-argument:" + what, lambda: f"{val}"[:500])
    ctx.state((what, case["kind"]))
    ctx.outcome((what, str(val)[:200]))
