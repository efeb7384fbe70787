"""Operation alphabet on built lattices, shared by the history checks (C05, C09, C13-C16).

Every operation is executed on the real lattice and on the model; the site order after rebuild and
append is taken from the implementation after checking that the set is right."""
import itertools

import numpy as np

from . import model, obs

# (crystal, cells): small lattices on which all sequences are explored
LATTS = [("chain", [5]), ("ssh-n2", [4]), ("tri-chain", [3]), ("square-n2", [3, 3]), ("honeycomb", [3, 2]),
         ("centered-mix", [3, 2]), ("kagome", [3, 1]), ("sc", [3, 2, 1]), ("generic2", [3, 2])]


def alphabet(d, rich=True):
    ops = [("query",)]
    ops += [("periodic", (ax,)) for ax in range(min(d, 2))]
    if d > 1:
        ops.append(("periodic", tuple(range(d))))
    ops += [("open",), ("remove", 0), ("remove", -1), ("sort", 0, True), ("sort", d, False)]
    if rich:
        ops += [("sortn",), ("reverse",)]
    ops += [("append", 0, 1), ("repeat", d - 1, -1), ("rebuild", 0), ("rebuild", 1)]
    if rich:
        ops += [("extend", 0, 1)]
    return ops


def query(latt):
    """Touch every cached / derived view."""
    latt.dmap()
    latt.neighbor_pairs()
    latt.adjacency_matrix()
    latt.neighbors(0)
    list(latt.iter_neighbors(0))
    latt.limits()
    latt.data.get_limits()
    latt.data.find_sites()
    str(latt.data), repr(latt), latt.volume(), latt.num_cells, latt.center()
    for ax, v in latt.periodic_translation_vectors(list(range(latt.dim)), latt.primitive):
        pass
    latt.minimum_distances(0)
    hash(latt)


def place(m, ids2, ax, side):
    e1, e2 = model.extent(m.ids, ax), model.extent(ids2, ax)
    nv = [0] * m.cr.dim
    nv[ax] = (e1 if side > 0 else -e2) + min(s[ax] for s in m.ids) - min(s[ax] for s in ids2)
    return nv


def is_block(m):
    d = m.cr.dim
    rng = [range(min(s[a] for s in m.ids), max(s[a] for s in m.ids) + 1) for a in range(d)]
    return set(m.ids) == {c + (a,) for c in itertools.product(*rng) for a in range(m.cr.n)}


def apply(ctx, lp, latt, m, op, name, cells):
    """Execute op on the real lattice and the model.  False: not enabled in this state."""
    d = m.cr.dim
    n = len(m.ids)
    k = op[0]
    resync = False
    if k == "query":
        ctx.op(op)
        query(latt)
    elif k == "periodic":
        if not m.set_periodic(op[1]):
            return False
        ctx.op(op)
        latt.set_periodic(list(op[1]))
    elif k == "open":
        ctx.op(op)
        latt.set_periodic(None)
        m.set_periodic(())
    elif k == "remove":
        if n < 3:
            return False
        ctx.op(op)
        latt.data.remove(op[1])
        m.remove([op[1]])
    elif k == "sort":
        ctx.op(op)
        latt.data.sort(op[1], reverse=op[2])
        ids = model.ids_of(latt)
        ks = [s[op[1]] for s in ids]
        ctx.check(ks == sorted(ks, reverse=op[2]), "hist:not-sorted", lambda: str(ks))
        resync = True
    elif k == "reverse":
        ctx.op(op)
        latt.data.sort(indices=np.arange(n)[::-1])
        m.permute(range(n)[::-1])
    elif k == "sortn":
        ctx.op(op)
        latt.data.sort_neighbors()
    elif k in ("append", "repeat", "extend"):
        if not is_block(m) or n > 24:
            return False
        _, ax, side = op
        if k == "append":
            other, cr2, _ = model.block(lp, name, cells)
            new = model.ids_of(other)
            ctx.op(op)
            latt.append(other, ax, side)
        elif k == "repeat":
            new = list(m.ids)
            ctx.op(op)
            latt.repeat(1, ax, side)
        else:
            lo = [min(s[a] for s in m.ids) for a in range(d)]
            hi = [max(s[a] for s in m.ids) for a in range(d)]
            hi[ax] = lo[ax]
            new = [c + (a,) for c in itertools.product(*[range(a, b + 1) for a, b in zip(lo, hi)]) for a in range(m.cr.n)]
            ctx.op(op)
            latt.extend(1, ax, side)
        m.shift_union(new, place(m, new, ax, side))
        resync = True
    elif k == "rebuild":
        c = list(cells) if op[1] == 0 else [max(2, x - 1) for x in cells]
        o = 0 if op[1] == 0 else 2
        ctx.op(op)
        _, _, want = model.block(lp, name, c, origin=o, latt=latt)
        m.ids, m.tv, m._b = sorted(want), {}, None
        resync = True
    else:
        raise KeyError(k)
    if resync:
        ids = model.ids_of(latt)
        ctx.check(len(ids) == len(set(ids)) and set(ids) == set(m.ids), "hist:sites",
                  lambda: f"{op}: missing {sorted(set(m.ids) - set(ids))[:5]} extra {sorted(set(ids) - set(m.ids))[:5]} dup {obs.dups(ids)}")
        m.ids = ids
    return True


def sequences(al, depth):
    for k in range(0, depth + 1):
        yield from itertools.product(al, repeat=k)
