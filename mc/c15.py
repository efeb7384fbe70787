"""C15  Copies, files and dictionaries preserve the lattice."""
import copy
import itertools
import os
import pickle
import shutil
import tempfile

import numpy as np

from . import cfgs, hist, huge, life, model
from .core import lattpy

ID = "C15"
BOUNDS = {
    "quick": "every state reached by all life cycle sequences of length <= 2 (19 operations) from the empty lattice and six "
    "further states in 1D (2D, hexagonal, 3D: <= 1), and all modification sequences of length <= 1 (remove, sort, append, "
    "rebuild, ...) from 6 built lattices; in each state 5 ways of cloning (copy, deepcopy, pickle, file, unnamed file), every "
    "enabled next operation on the clone, spoiling of clone and original; dictionary round trip of every configured state; "
    "all pairs of 55 lattices and of the structures among them that differ in one aspect; structures of all crystals cloned at every stage of their configuration; every crystal at four scales (irrational numbers) and 12 lattices of 101 to 33000 sites cloned bit for bit",
    "thorough": "as quick with sequences of length <= 3 (2D, 3D: 2) and modification sequences of length <= 2 from 9 lattices",
}
ASSUMPTIONS = ["a lattice is equal to its clones; independently created lattices with new atoms are not compared (atoms carry a unique index)"]
from .c05 import PREFIXES  # noqa


def cases(tier):
    out = []
    for pool in life.POOLS:
        depth = (2 if pool == "1d" else 1) + (tier == "thorough")
        al = life.alphabet(pool)
        for p in range(len(PREFIXES)):
            for f in [None] + list(range(len(al))):
                out.append(dict(mode="life", pool=pool, prefix=p, first=f, depth=depth))
    for li, (name, cells) in enumerate(hist.LATTS):
        al = hist.alphabet(len(cells))
        if tier == "quick" and li in (3, 5, 8):
            continue
        for f in [None] + list(range(len(al))):
            out.append(dict(mode="hist", cfg=name, cells=cells, first=f, depth=1 if tier == "quick" else 2))
    for i in range(len(variants())):
        out.append(dict(mode="pairs", i=i))
        out.append(dict(mode="pairs", i=i, cls="LatticeStructure"))
    for name in cfgs.names():
        out.append(dict(mode="structure", cfg=name))
        out.append(dict(mode="exact", cfg=name))
    for name in cfgs.MANY:
        out.append(dict(mode="exact", cfg=name))
    for name, cells in huge.BIG:
        out.append(dict(mode="big", cfg=name, cells=cells))
    return out


WAYS = ["copy", "deepcopy", "pickle", "file", "none"]


def clone(lp, latt, way, scratch):
    if way == "copy":
        return latt.copy()
    if way == "deepcopy":
        return copy.deepcopy(latt)
    if way == "pickle":
        return pickle.loads(pickle.dumps(latt))
    if way == "file":
        f = os.path.join(scratch, "x.latt")
        latt.dump(f)
        return type(latt).load(f)
    old = os.getcwd()
    os.chdir(scratch)
    try:
        latt.dump(None)
        new = [f for f in os.listdir(scratch) if f != "x.latt"]
        assert len(new) == 1, new
        r = type(latt).load(os.path.join(scratch, new[0]))
        os.remove(os.path.join(scratch, new[0]))
        return r
    finally:
        os.chdir(old)


def run(case, ctx):
    lp = lattpy()
    scratch = tempfile.mkdtemp(prefix="mc_c15_")
    try:
        {"life": run_life, "hist": run_hist, "pairs": run_pairs, "structure": run_structure, "exact": run_exact, "big": run_big}[case["mode"]](case, ctx, lp, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def play(ctx, lp, pool, seq):
    ctx.begin("new", pool)
    latt, L = life.new(lp, pool), life.Life(pool)
    for op in seq:
        N = life.enabled(L, op)
        ctx.op(op)
        latt = life.execute(lp, latt, L, N, op)
        L = N
    return latt, L


def params(latt):
    return [(a.name, a.weight, sorted((k, repr(v)) for k, v in a.items()), a.index) for a in latt.atoms]


def run_life(case, ctx, lp, scratch):
    pool, al = case["pool"], life.alphabet(case["pool"])
    prefix = PREFIXES[case["prefix"]]

    def visit(L, seq):
        one(ctx, lp, pool, prefix + tuple(seq), scratch, al)
        if len(seq) < case["depth"]:
            for op in al:
                N = life.enabled(L, op)
                if N is not None:
                    visit(N, seq + [op])

    L = life.Life(pool)
    for op in prefix:
        L = life.enabled(L, op)
        if L is None:
            return
    if case["first"] is None:
        one(ctx, lp, pool, prefix, scratch, al)
        return
    N = life.enabled(L, al[case["first"]])
    if N is not None:
        visit(N, [al[case["first"]]])


def one(ctx, lp, pool, seq, scratch, al):
    latt, L = play(ctx, lp, pool, seq)
    for i, at in enumerate(latt.atoms):
        at["t"] = i + 0.5
        at.color = f"C{i}"
    h = hash(latt)
    base = list(ctx.trace)
    nxt = [(op, N) for op in al for N in [life.enabled(L, op)] if N is not None and op[0] not in ("query", "other", "spawn")]
    for wi, way in enumerate(WAYS):
        ctx.trace = base + [way]
        ctx.op(way)
        c = clone(lp, latt, way, scratch)
        ctx.check(type(c) is type(latt), "clone:type", lambda: type(c))
        same(ctx, lp, c, latt, L, h, way)
        # every further operation on a clone
        for oi, (op, N) in enumerate(nxt):
            if oi % len(WAYS) != wi:
                continue
            c2 = clone(lp, latt, way, scratch)
            ctx.trace = base + [way, op]
            ctx.op(op)
            N2 = N.clone()
            c2 = life.execute(lp, c2, L, N2, op)
            life.check(ctx, lp, c2, N2, "clone-op:" + way, full=False)
        # changing the clone leaves the original alone
        for at in c.atoms:
            at["t"] = -1
            at["new"] = 3
        ctx.trace = base + [way, "spoil"]
        life.spoil(lp, c, L)
        life.check(ctx, lp, latt, L, "original:" + way, full=wi == 0)
        ctx.check(hash(latt) == h, "original-hash:" + way)
        ctx.check([a["t"] for a in latt.atoms] == [i + 0.5 for i in range(L.n)] and all("new" not in a for a in latt.atoms),
                  "original-atoms:" + way)
    # and the other way round
    c = latt.copy()
    p = params(latt)
    if L.n and any(L.C):
        for cls in (lp.LatticeStructure, lp.Lattice):
            ctx.trace = base + ["fromdict", cls.__name__]
            ctx.op("fromdict")
            d = latt.todict()
            s = cls.fromdict(d)
            ctx.check(type(s) is cls, "fromdict:type", lambda: type(s))
            M = L.clone()
            M.ana, M.m, M.built = (L.n, L.C), None, None
            if cls is lp.Lattice:
                life.check(ctx, lp, s, M, "fromdict")
                if L.m is None:
                    ctx.check(s == latt and hash(s) == h, "fromdict:not-equal")
            structure_check(ctx, s, M)
            s.add_connection(0, 0, 3, analyze=True)
            s.add_atom([0.123] * L.dim, "X")
            ctx.check(hash(latt) == h, "fromdict:shared")
            life.check(ctx, lp, latt, L, "fromdict-original", full=False)
    ctx.trace = base + ["spoil original"]
    life.spoil(lp, latt, L)
    for at in latt.atoms:
        at["t"] = 99
    life.check(ctx, lp, c, L, "copy-after-spoil")
    ctx.check(hash(c) == h and params(c) == p, "copy-after-spoil:hash")
    ctx.state(L.canon())


def run_structure(case, ctx, lp, scratch):
    """Plain structures (without finite data) of every crystal at every stage of their configuration."""
    v, atoms, conns = cfgs.BASE[case["cfg"]]
    cr = cfgs.crystal(case["cfg"])
    if not cr.well_separated():
        ctx.skipped += 1
        return
    for cls in (lp.LatticeStructure, lp.Lattice):
        for stage in range(len(atoms) + 3):
            ctx.begin(case["cfg"], cls.__name__, stage)
            s = cls(np.array(v, float))
            pool = [lp.Atom(cfgs.atom_name(i), t=i + 0.5) for i in range(len(atoms))]
            finish(s, atoms, conns, pool, 0, stage)
            h = hash(s)
            for way in WAYS:
                ctx.op(way)
                c = clone(lp, s, way, scratch)
                ctx.check(type(c) is cls and c == s and s == c and not c != s and hash(c) == h, "structure-eq:" + way, stage)
                ctx.check(params(c) == params(s) and np.allclose(np.reshape(c.atom_positions, (-1,)), np.reshape(s.atom_positions, (-1,)))
                          and np.array_equal(c.vectors, s.vectors), "structure-atoms:" + way, stage)
                structure_answers(ctx, c, cr, stage - len(atoms), way)
                # the clone can be configured further like the original, which does not notice
                finish(c, atoms, conns, pool, stage, len(atoms) + 2)
                structure_answers(ctx, c, cr, 2, way)
                ctx.check(c.num_base == cr.n and hash(s) == h, "structure-next:" + way, stage)
                ctx.check((c == s) == (stage >= len(atoms) + 1), "structure-next-eq:" + way, stage)
                c.add_atom([0.123456] * cr.dim, "X")
                for at in c.atoms:
                    at["t"] = -1
                ctx.check(hash(s) == h and s.num_base == min(stage, len(atoms)) and c != s, "structure-shared:" + way, stage)
                structure_answers(ctx, s, cr, stage - len(atoms), way)
                for i, at in enumerate(pool):
                    ctx.check(i >= stage or s.atoms[i]["t"] == i + 0.5, "structure-shared-atom:" + way, stage)
                    at["t"] = i + 0.5
            ctx.state((case["cfg"], cls.__name__, stage))


def finish(s, atoms, conns, pool, stage, to):
    n = len(atoms)
    for i in range(stage, min(to, n)):
        s.add_atom(list(atoms[i]), pool[i])
    if stage < n + 1 <= to:
        if np.isscalar(conns):
            s.add_connections(conns, analyze=False)
        else:
            for (i, j), k in conns:
                s.add_connection(i, j, k)
    if stage < n + 2 <= to:
        s.analyze()


def structure_answers(ctx, s, cr, level, way):
    if level < 2:
        return
    for a in range(cr.n):
        for k, (_, ms) in enumerate(cr.shells(a)):
            g = {tuple(int(x) for x in r) for r in s.get_neighbors(alpha=a, distidx=k)}
            ctx.check(g == ms, "structure-neighbors:" + way, lambda: f"{g} want {ms}")


def structure_check(ctx, s, M):
    ctx.check(s.num_base == M.n and int(s.num_distances) == max(M.C), "fromdict:num")
    cr = M.cr()
    for a in range(M.n):
        for k, (_, ms) in enumerate(cr.shells(a)):
            g = {tuple(int(x) for x in r) for r in s.get_neighbors(alpha=a, distidx=k)}
            ctx.check(g == ms, "fromdict:neighbors", lambda: f"{g} want {ms}")


def same(ctx, lp, c, latt, L, h, way):
    life.check(ctx, lp, c, L, "clone:" + way)
    ctx.check(c == latt and latt == c and not (c != latt), "clone-eq:" + way)
    ctx.check(hash(c) == h, "clone-hash:" + way)
    ctx.check(params(c) == params(latt), "clone-atoms:" + way, lambda: f"{params(c)} want {params(latt)}")
    ctx.check(c.primitive == latt.primitive, "clone-primitive:" + way)


def run_hist(case, ctx, lp, scratch):
    name, cells = case["cfg"], case["cells"]
    al = hist.alphabet(len(cells))
    rest = [()] if case["first"] is None else hist.sequences(al, case["depth"] - 1)
    for seq in rest:
        full = (() if case["first"] is None else (al[case["first"]],)) + tuple(seq)

        def play():
            ctx.begin(name, cells)
            latt, m = model.start(ctx, lp, name, cells)
            for op in full:
                if not hist.apply(ctx, lp, latt, m, op, name, cells):
                    return None
            return latt, m

        r = play()
        if r is None:
            continue
        latt, m = r
        h = hash(latt)
        base = list(ctx.trace)
        for wi, way in enumerate(WAYS):
            ctx.trace = base + [way]
            c = clone(lp, latt, way, scratch)
            model.check_all(ctx, c, m, "clone:" + way, views=wi < 2)
            ctx.check(c == latt and hash(c) == h, "clone-eq:" + way)
            ctx.check([int(x) for x in c.periodic_axes] == [int(x) for x in latt.periodic_axes] and np.allclose(c.shape, latt.shape)
                      and np.allclose(c.pos, latt.pos), "clone-shape:" + way)
            for oi, op in enumerate(al):
                if oi % len(WAYS) != wi:
                    continue
                c2, m2 = clone(lp, latt, way, scratch), m.clone()
                ctx.trace = base + [way]
                if hist.apply(ctx, lp, c2, m2, op, name, cells):
                    model.check_all(ctx, c2, m2, "clone-op:" + way, views=False)
                    model.check_all(ctx, latt, m, "original:" + way, views=False)
            dc = latt.data.copy()
            c.data.positions += 3
            c.data.neighbors[:] = 0
            c.data.distances[:] = 0
            c.data.remove(0)
            model.check_all(ctx, latt, m, "original:" + way, views=wi == 0)
            dc.positions += 1
            dc.neighbors[:] = 0
            dc.pnvecs += 1
            model.check_sites(ctx, latt, m, "data-copy")
            model.check_bonds(ctx, latt, m, "data-copy")
        ctx.state(m.canon())


# -- inequality -------------------------------------------------------------------------
def variants():
    """(basis, atom positions, names, connections, size, periodic); all different."""
    E, H = [[1.0, 0.0], [0.0, 1.0]], cfgs.HEX
    out = []
    for s in (3, 4, 3.5):
        out.append((E, [[0, 0]], "A", 1, (s, 3)))
    out += [(E, [[0, 0]], "A", 2, (3, 3)), (E, [[0, 0]], "A", 3, (3, 3)), (E, [[0, 0]], "B", 1, (3, 3)), (E, [[0, 0]], "A", 1, None),
            (E, [[0, 0]], "A", 2, None), (E, [[0.25, 0]], "A", 1, (3, 3)), (E, [[0.25, 0]], "A", 1, None), (E, [[0, 0.25]], "A", 1, None),
            (E, [[0, 0]], "A", 0, None), (E, [], "", 0, None)]
    for dx in (1e-3, -1e-3, 0.1):
        out.append(([[1.0 + dx, 0], [0, 1.0]], [[0, 0]], "A", 1, None))
        out.append(([[1.0, 0], [dx, 1.0]], [[0, 0]], "A", 1, None))
        out.append(([[1.0, dx], [0, 1.0]], [[0, 0]], "A", 1, None))
    out += [(H, [[0, 0]], "A", 1, None), (H, [[0, 0]], "A", 1, (4, 4)), (H, [[0, 0], [1, 0]], "AB", 1, None)]
    for dx in (1e-4, 1e-5, 1e-6):
        out += [(E, [[dx, 0]], "A", 1, None), (E, [[0, -dx]], "A", 1, None), ([[1.0, 0], [0, 1.0 + dx]], [[0, 0]], "A", 1, None),
                ([[1.0 + dx]], [[0.0]], "A", 1, None), (E, [[0, 0], [0.5, 0.4 + dx]], "AB", [(0, 1, 1)], None)]
    two = [[0, 0], [0.5, 0.4]]
    for c in ([(0, 1, 1)], [(0, 1, 2)], [(0, 0, 1)], [(1, 1, 1)], [(0, 0, 1), (0, 1, 1)], [(0, 0, 1), (0, 1, 1), (1, 1, 1)], [(0, 0, 2), (1, 1, 1)]):
        out.append((E, two, "AB", c, None))
    out += [(E, two, "BA", [(0, 1, 1)], None), (E, two, "AA", [(0, 1, 1)], None), (E, two[::-1], "AB", [(0, 1, 1)], None), (E, two, "AB", [(0, 1, 1)], (3, 3)),
            ([[1.0]], [[0.0]], "A", 1, None), ([[2.0]], [[0.0]], "A", 1, None), ([[1.0]], [[0.0]], "A", 1, (4,)), ([[1.0]], [[0.0]], "A", 1, (5,)),
            (np.eye(3).tolist(), [[0, 0, 0]], "A", 1, None)]
    return out


def make(lp, v, atoms, cls=None):
    b, pos, names, cons, size = v
    latt = getattr(lp, cls or "Lattice")(np.array(b, float))
    for p, n in zip(pos, names):
        latt.add_atom([float(x) for x in p], atoms[n])
    if pos and cons:
        if isinstance(cons, int):
            latt.add_connections(cons)
        else:
            for i, j, k in cons:
                latt.add_connection(i, j, k)
            latt.analyze()
    if size and not cls:
        latt.build(size if len(size) > 1 else size[0], num_jobs=1)
    return latt


def run_pairs(case, ctx, lp, scratch):
    V = variants()
    atoms = {n: lp.Atom(n) for n in "AB"}
    ctx.begin("pairs", case["i"])
    cls = case.get("cls")
    if cls and V[case["i"]][4]:
        ctx.skipped += 1
        return
    a = make(lp, V[case["i"]], atoms, cls)
    for j in range(len(V)):
        if cls and V[j][4]:
            continue
        ctx.op(f"compare {j}")
        b = make(lp, V[j], atoms, cls)
        eq = a == b
        if j == case["i"]:
            ctx.check(eq and hash(a) == hash(b) and b == a, "pairs:equal-differ", lambda: f"{V[j]}")
        else:
            # 3.5 and 3 build the same lattice
            if not cls and built_same(a, b):
                continue
            ctx.check(not eq and a != b, "pairs:different-equal", lambda: f"{V[case['i']]} == {V[j]}")
        ctx.state((case["i"], j, cls))
    ctx.check((a == 5) is False and (a == "x") is False and (a == None) is False, "pairs:foreign")  # noqa


def built_same(a, b):
    return a.num_sites and b.num_sites and a.num_base == b.num_base and a.vectors.shape == b.vectors.shape and np.allclose(a.vectors, b.vectors) and \
        np.allclose(np.array(a.atom_positions), np.array(b.atom_positions)) and [x.name for x in a.atoms] == [x.name for x in b.atoms] and \
        a.num_distances == b.num_distances and a.num_sites == b.num_sites and np.allclose(a.shape, b.shape)


# -- exactness --------------------------------------------------------------------------
FIELDS = ["positions", "indices", "neighbors", "distances", "distvals", "paxes"]


def exact(ctx, c, s, what):
    """Bit for bit the same numbers."""
    ctx.check(np.array_equal(c.vectors, s.vectors), "exact:vectors:" + what)
    ctx.check(len(c.atom_positions) == len(s.atom_positions) and all(np.array_equal(x, y) for x, y in zip(c.atom_positions, s.atom_positions)),
              "exact:positions:" + what, lambda: f"{c.atom_positions[:2]} want {s.atom_positions[:2]}")
    ctx.check(np.array_equal(np.asarray(c._connections if hasattr(c, "_connections") else 0), np.asarray(s._connections if hasattr(s, "_connections") else 0)),
              "exact:connections:" + what)
    ctx.check(np.array_equal(np.asarray(c.distances, float), np.asarray(s.distances, float), equal_nan=True), "exact:distances:" + what)
    ctx.check([a.name for a in c.atoms] == [a.name for a in s.atoms] and [repr(dict(a)) for a in c.atoms] == [repr(dict(a)) for a in s.atoms],
              "exact:atoms:" + what)


def exact_data(ctx, c, s, what):
    for f in FIELDS:
        x, y = np.asarray(getattr(c.data, f)), np.asarray(getattr(s.data, f))
        ctx.check(x.shape == y.shape and np.array_equal(x, y), "exact:data:" + what, lambda: f)
    ctx.check(np.array_equal(c.positions, s.positions) and np.array_equal(c.indices, s.indices) and np.array_equal(c.shape, s.shape)
              and np.array_equal(c.pos, s.pos) and [int(x) for x in c.periodic_axes] == [int(x) for x in s.periodic_axes],
              "exact:lattice:" + what)


def run_exact(case, ctx, lp, scratch):
    """The numbers of the original, to the last digit, whatever their size."""
    v, atoms, conns = cfgs._get(case["cfg"])
    d = len(v)
    for scale, off in ((1.0, 0.0), (np.pi, np.sqrt(2) / 7), (1e-3 * np.e, 1e-4 / 3), (1234.5678 / 7, 17.0 / 3)):
        s = lp.Lattice(np.array(v, float) * scale)
        ctx.begin(case["cfg"], scale)
        for i, p in enumerate(atoms):
            s.add_atom(np.array(p, float) * scale + off, lp.Atom(cfgs.atom_name(i), t=np.pi * (i + 1), n=i, q=(1, 2.5), w=None))
        if np.isscalar(conns):
            s.add_connections(conns)
        else:
            for (i, j), k in conns:
                s.add_connection(i, j, k)
            s.analyze()
        for way in WAYS:
            ctx.op(way)
            exact(ctx, clone(lp, s, way, scratch), s, way)
        ctx.op("dict")
        d1 = s.todict()
        c = type(s).fromdict(d1)
        exact(ctx, c, s, "dict")
        ctx.check(c == s and hash(c) == hash(s), "exact:dict-eq")
        if d < 4 and len(atoms) < 8:
            s.build(np.linalg.norm(np.array(v), axis=1) * scale * 2.3 if d > 1 else abs(v[0][0]) * scale * 5.3, num_jobs=1)
            for way in WAYS:
                ctx.op("built " + way)
                c = clone(lp, s, way, scratch)
                exact(ctx, c, s, way)
                exact_data(ctx, c, s, way)
                ctx.check(c == s and hash(c) == hash(s), "exact:built-eq:" + way)
            ctx.op("built dict")
            exact(ctx, type(s).fromdict(s.todict()), s, "built-dict")
        ctx.state((case["cfg"], scale))


def run_big(case, ctx, lp, scratch):
    ctx.begin("big", case["cfg"], case["cells"])
    s, cr, ids = huge.block(ctx, lp, case["cfg"], case["cells"])
    for per in ([], [0]):
        if per:
            s.set_periodic(per)
        for way in WAYS:
            ctx.op(way)
            c = clone(lp, s, way, scratch)
            exact(ctx, c, s, way)
            exact_data(ctx, c, s, way)
            ctx.check(c == s and hash(c) == hash(s), "big:eq:" + way)
            pos = np.array(s.positions)
            nb = s.neighbors(len(ids) - 1)
            c.data.remove([0, len(ids) - 1])
            ctx.check(s.num_sites == len(ids) and np.array_equal(s.positions, pos) and np.array_equal(s.neighbors(len(ids) - 1), nb), "big:shared:" + way)
        ctx.op("data copy")
        dc = s.data.copy()
        for f in FIELDS:
            ctx.check(np.array_equal(getattr(dc, f), getattr(s.data, f)), "big:data-copy", lambda: f)
        dc.remove([1])
        ctx.check(s.num_sites == len(ids) and s.data.num_sites == len(ids), "big:data-shared")
        ctx.state((case["cfg"], len(ids), tuple(per)))
