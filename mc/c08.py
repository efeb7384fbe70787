"""C08  Appending, extending and repeating build the combined lattice."""
import itertools

import numpy as np

from . import cfgs, huge, model, obs, ref
from .c04 import axis_vectors
from .core import lattpy

ID = "C08"
BOUNDS = {
    "quick": "blocks of unit cells of all crystals (1D-3D): every single append (other lattices of 3 sizes, shifted, "
    "periodic), extend (1..3) and repeat (1..3) along every axis and side, with and without sorting, from open and "
    "periodic lattices, plus all sequences of two operations (incl. periodic set/unset and removal); cartesian boxes of "
    "14 crystals with every axis, side and operation; a lattice appended to itself; data joined in place and as copy; unions across the 127/128, 255/256, 32768 and 65536 boundaries",
    "thorough": "as quick with all sequences of three operations on 12 crystals",
}
ASSUMPTIONS = ["the parts are complete blocks: the union is then again a block of unit cells (or commensurate box)"]

SEQ = ["chain-n3", "ssh-n2", "tri-chain", "square-n2", "honeycomb", "centered-mix", "kagome", "lieb", "left", "skew1",
       "generic2", "sc"]
CART = ["chain", "ssh-n2", "tri-chain", "square-n2", "rect-n3", "hex-n2", "honeycomb", "centered-mix", "kagome", "lieb",
        "sc", "fcc", "square-off", "nacl-ab"]


def inside(cr):
    f = cr.R @ cr.Vinv
    return f.min() > -1e-6 and f.max() < 0.95


def cases(tier):
    out = []
    names = [n for n in cfgs.names() if cfgs.crystal(n).dim < 4]
    for n in names:
        cr = cfgs.crystal(n)
        if not inside(cr) or not cr.well_separated():
            continue
        for op in operations(cr.dim):
            for per in (False, True):
                out.append(dict(mode="prim", cfg=n, ops=[op], per=per))
    for n in SEQ:
        d = cfgs.crystal(n).dim
        al = seq_alphabet(d)
        for k in (2,) if tier == "quick" else (2, 3):
            for s in itertools.product(al, repeat=k):
                out.append(dict(mode="prim", cfg=n, ops=[list(x) for x in s], per=False))
    for n in CART:
        cr = cfgs.crystal(n)
        for ax in range(cr.dim):
            for side in (1, -1):
                for op in ("append", "repeat", "extend"):
                    for k in (1, 2):
                        for o in (0, -2) if op == "append" else (0,):
                            out.append(dict(mode="cart", cfg=n, ax=ax, side=side, op=op, k=k, shift=o))
    for a, b in ((100, 27), (100, 28), (100, 29), (127, 128), (127, 129), (128, 128), (200, 100), (255, 1), (256, 1), (1, 255), (3, 256)):
        for side in (1, -1):
            out.append(dict(mode="prim", cfg="chain-n3", cells=[a], ops=[["append", [b], 0, side, 0, None]], per=False))
    for s in (1, -1):
        out.append(dict(mode="prim", cfg="square", cells=[16, 8], ops=[["append", [3, 8], 0, s, 0, None], ["append", [13, 8], 0, s, 0, None]], per=False))
    out += huge.cases()
    return out


def operations(d):
    """["append", cells, ax, side, shift, sort] / ["extend", size, ax, side, sort] / ["repeat", num, ...]"""
    out = []
    base = [3, 2, 2][:d]
    for ax in range(d):
        for side in (1, -1):
            for var in range(3):
                cells = list(base)
                cells[ax] = (1, 2, 4)[var]
                if d > 1 and var == 1:
                    cells[(ax + 1) % d] += 1
                for shift in (0, 3):
                    out.append(["append", cells, ax, side, shift, None])
            out.append(["append", list(base), ax, side, 0, [ax, False]])
            out.append(["append", list(base), ax, side, 0, [d, True]])
            for s in (1, 2, 3):
                out.append(["extend", s, ax, side, None])
                out.append(["repeat", s, ax, side, None])
            out.append(["extend", 2, ax, side, [ax, True]])
            out.append(["repeat", 2, ax, side, [0, False]])
            out.append(["repeat", 1, ax, side, [ax, True]])
            out.append(["repeat", 2, ax, side, [ax, True]])
            out.append(["self", ax, side])
            out.append(["data", ax, side])
    return out


def seq_alphabet(d):
    base = [3, 2, 2][:d]
    out = []
    for ax in range(d):
        for side in (1, -1):
            out.append(["append", base, ax, side, 0, None])
            out.append(["extend", 1, ax, side, None])
        out.append(["repeat", 1, ax, 1, [ax, False]])
        out.append(["periodic", ax])
    out.append(["open"])
    out.append(["removeinner"])
    return out


def place(m, ids2, ax, side):
    """Cell shift that puts ids2 directly next to the model's block."""
    d = m.cr.dim
    e1, e2 = model.extent(m.ids, ax), model.extent(ids2, ax)
    nv = [0] * d
    nv[ax] = (e1 if side > 0 else -e2) + min(s[ax] for s in m.ids) - min(s[ax] for s in ids2)
    return nv


def apply(ctx, lp, latt, m, op, case):
    """Returns False if the operation is not enabled."""
    cr, d = m.cr, m.cr.dim
    kind = op[0]
    if kind == "append":
        _, cells, ax, side, shift, sort = op
        other, cr2, want2 = model.block(lp, case["cfg"], cells, origin=shift)
        m2 = model.Model(cr2, model.ids_of(other))
        if case["per"] and m2.set_periodic([ax]):
            other.set_periodic(ax)
        ctx.op(op)
        conn = latt.compute_connections(other)
        check_connections(ctx, cr, m, m2, conn)
        latt.append(other, ax, side, *(sort or ()))
        model.check_all(ctx, other, m2, "other", views=False)
        ctx.check(sorted(int(a) for a in other.periodic_axes) == sorted(m2.tv), "other:periodic_axes", "")
        m.shift_union(m2.ids, place(m, m2.ids, ax, side))
    elif kind == "extend":
        _, size, ax, side, sort = op
        lo = [min(s[i] for s in m.ids) for i in range(d)]
        hi = [max(s[i] for s in m.ids) for i in range(d)]
        hi[ax] = lo[ax] + size - 1
        new = [c + (a,) for c in itertools.product(*[range(a, b + 1) for a, b in zip(lo, hi)]) for a in range(cr.n)]
        ctx.op(op)
        kw = dict(sort_ax=sort[0], sort_reverse=sort[1]) if sort else {}
        latt.extend(size, ax, side, **kw)
        m.shift_union(new, place(m, new, ax, side))
    elif kind == "repeat":
        _, num, ax, side, sort = op
        orig = list(m.ids)
        ctx.op(op)
        kw = dict(sort_ax=sort[0], sort_reverse=sort[1]) if sort else {}
        latt.repeat(num, ax, side, **kw)
        for _ in range(num):
            m.shift_union(orig, place(m, orig, ax, side))
    elif kind == "self":
        # a lattice and its copy can be appended to itself
        _, ax, side = op
        orig = list(m.ids)
        ctx.op(op)
        latt.append(latt, ax, side)
        m.shift_union(orig, place(m, orig, ax, side))
        sort = None
    elif kind == "data":
        _, ax, side = op
        ctx.op(op)
        check_data(ctx, lp, latt, m, case, ax, side)
        sort = None
    elif kind == "periodic":
        if len(set(m.ids)) != len(m.ids) or not m.set_periodic([op[1]]):
            return False
        ctx.op(op)
        latt.set_periodic(op[1])
        sort = None
    elif kind == "open":
        ctx.op(op)
        latt.set_periodic(None)
        m.set_periodic(())
        sort = None
    elif kind == "removeinner":
        # a site whose removal leaves all extents unchanged
        for i, s in enumerate(m.ids):
            rest = m.ids[:i] + m.ids[i + 1:]
            if rest and s[-1] == 0 and all(model.extent(rest, a) == model.extent(m.ids, a) for a in range(d)) and \
                    all(min(x[a] for x in rest) == min(x[a] for x in m.ids) for a in range(d)):
                break
        else:
            return False
        ctx.op(f"remove({i})")
        latt.data.remove(i)
        m.remove([i])
        sort = None
    ids = model.ids_of(latt)
    ctx.check(len(ids) == len(set(ids)), "union:overlap", lambda: obs.dups(ids))
    ctx.check(sorted(ids) == sorted(m.ids), "union:sites", lambda: f"missing {sorted(set(m.ids) - set(ids))[:6]} extra {sorted(set(ids) - set(m.ids))[:6]}")
    m.ids = ids
    if sort:
        ks = [s[sort[0]] for s in ids]
        ctx.check(ks == sorted(ks, reverse=sort[1]), "union:not-sorted", lambda: str(ks[:20]))
    return True


def check_data(ctx, lp, latt, m, case, ax, side):
    """The data of two lattices are joined without new relations, in place or as a copy."""
    cells = [2, 3, 1][:m.cr.dim]
    other, cr2, _ = model.block(lp, case["cfg"], cells, origin=40)
    m2 = model.Model(cr2, model.ids_of(other))
    if side < 0 and m2.set_periodic([ax]):
        other.set_periodic(ax)
    u = m.clone()
    u.set_periodic(())
    u.shift_union(m2.ids, [0] * m.cr.dim)
    n = latt.data.num_sites
    joined = latt.data.append(other.data, copy=True)
    ctx.check(joined is not latt.data, "data:copy", "")
    model.check_all(ctx, latt, m, "data-original", views=False)
    c = latt.copy()
    d = c.data.append(other.data)
    raw = latt.copy()
    o = other.data
    keep = [np.array(o.indices), np.array(o.positions), np.array(o.neighbors), np.where(np.asarray(o.pmask), np.inf, np.asarray(o.distvals)[np.asarray(o.distances)])]
    raw.data.append(*[np.array(x) for x in keep])
    for data in (joined, c.data, d, raw.data):
        ids = [tuple(int(x) for x in r) for r in data.indices]
        ctx.check(data.num_sites == n + len(m2.ids) and ids == u.ids, "data:sites", lambda: f"{data.num_sites}")
        ctx.check(np.allclose(data.positions, m.cr.poss(ids), atol=1e-6), "data:positions", "")
        got = {(ids[i], ids[int(j)]): ref.key(data.distvals[k]) for i in range(len(ids)) for k, x in data.iter_neighbors(i) for j in x}
        ctx.check(got == m.cr.graph(u.ids), "data:neighbors", lambda: f"{len(got)}")
        ctx.check(not np.any(data.pmask), "data:periodic", "")
    model.check_all(ctx, other, m2, "data-other", views=False)


def check_connections(ctx, cr, m, m2, conn):
    """compute_connections: all configured bonds between the two lattices as they are."""
    pairs, dists = conn
    got = sorted((int(p[0]), int(p[1]), ref.key(d)) for p, d in zip(pairs, dists))
    pos2 = {s: i for i, s in enumerate(m2.ids)}
    want = []
    for i, s in enumerate(m.ids):
        for d, nb in cr.nbrs(s[-1]):
            t = tuple(x + y for x, y in zip(s[:-1], nb[:-1])) + (nb[-1],)
            if t in pos2:
                want.append((i, pos2[t], ref.key(d)))
    got = [g for g in got if m.ids[g[0]] != m2.ids[g[1]]]
    ctx.check(got == sorted(want), "compute_connections", lambda: f"{got[:6]} want {sorted(want)[:6]}")


def run(case, ctx):
    lp = lattpy()
    if case.get("mode") == "huge":
        return huge.run(ctx, lp, case, [(k, s) for k in ("append", "appendto", "repeat", "extend") for s in (1, -1)])
    if case["mode"] == "cart":
        return cart(lp, case, ctx)
    d = cfgs.crystal(case["cfg"]).dim
    cells = case.get("cells") or [3, 2, 2][:d]
    ctx.begin(f"build {case['cfg']} {cells}")
    latt, m = model.start(ctx, lp, case["cfg"], cells, origin=-1)
    if case["per"]:
        ok = False
        for ax in range(d):
            if m.set_periodic([ax]):
                latt.set_periodic(ax)
                ok = True
                break
        if not ok:
            ctx.skipped += 1
            return
    for op in case["ops"]:
        if not apply(ctx, lp, latt, m, op, case):
            ctx.skipped += 1
            return
        model.check_all(ctx, latt, m, op[0], views=False)
        ctx.check(sorted(int(a) for a in latt.periodic_axes) == sorted(m.tv), op[0] + ":periodic_axes", lambda: latt.periodic_axes)
        ctx.state((case["cfg"], m.canon()))
    p = m.cr.poss(m.ids)
    if case["ops"][-1][0] in ("append", "extend", "repeat", "self"):
        ctx.check(np.allclose(latt.shape, p.max(0) - p.min(0), atol=1e-6) and np.allclose(latt.pos, p.min(0), atol=1e-6),
                  "shape-attribute", lambda: f"{latt.shape} {latt.pos}")
    if len(m.ids) <= 12:
        model.check_views(ctx, latt, m, "views")
    ctx.outcome((case["cfg"], len(m.ids), len(m.bonds())))


def cart(lp, case, ctx):
    cr = cfgs.crystal(case["cfg"])
    d, ax, side = cr.dim, case["ax"], case["side"]
    av = [axis_vectors(cr.V, a) for a in range(d)]
    if any(a is None for a in av):
        ctx.skipped += 1
        return
    L = np.array([a[0] for a in av])
    e = np.array([2, 2, 1][:d], float)
    lo = cr.poss([(0,) * d + (0,)])[0] - 0.02

    def box(start, n):
        want, amb = cr.sites_where(start, start + n * L - 0.02, ref.box_margin(start, n * L - 0.02))
        assert not amb
        return want

    def mk(start, n):
        latt = cfgs.make(lp, case["cfg"])
        size = n * L - 0.02
        latt.build(size if d > 1 else float(size[0]), pos=start if d > 1 else float(start[0]), num_jobs=1)
        return latt

    ctx.begin(f"build box {case['cfg']}")
    latt = mk(lo, e)
    e2 = e.copy()
    e2[ax] = case["k"]
    tot = e.copy()
    if case["op"] == "append":
        s2 = lo.copy()
        s2[ax] += case["shift"] * L[ax]
        other = mk(s2, e2)
        ctx.op(f"append(k={case['k']}, ax={ax}, side={side})")
        latt.append(other, ax, side)
        n_new = case["k"]
    elif case["op"] == "repeat":
        ctx.op(f"repeat({case['k']}, ax={ax}, side={side})")
        latt.repeat(case["k"], ax, side)
        n_new = case["k"] * e[ax]
    else:
        ctx.op(f"extend({case['k'] * L[ax] - 0.05}, ax={ax}, side={side})")
        latt.extend(case["k"] * L[ax] - 0.05, ax, side)
        n_new = case["k"]
    tot[ax] += n_new
    start = lo.copy()
    if side < 0:
        start[ax] -= n_new * L[ax]
    want = box(start, tot)
    ids = model.ids_of(latt)
    ctx.check(len(ids) == len(set(ids)), "cart:overlap", lambda: obs.dups(ids))
    ctx.check(set(ids) == want, "cart:sites", lambda: f"missing {sorted(want - set(ids))[:6]} extra {sorted(set(ids) - want)[:6]}")
    m = model.Model(cr, ids)
    model.check_all(ctx, latt, m, "cart", views=len(ids) <= 16)
    ctx.state((case["cfg"], m.canon()))
    ctx.outcome((case["cfg"], len(ids)))
