"""C07  Sorting only relabels the lattice."""
import itertools

import numpy as np

from . import huge, model
from .core import lattpy

ID = "C07"
BOUNDS = {
    "quick": "all permutations of 12 lattices with up to 6 sites (open/periodic), all axis/reverse sorts and all "
    "sequences of two sort operations (axis sorts, reversals, neighbor sort, periodic set/unset) on 17 lattices of up "
    "to 36 sites, transpositions and axis sorts of 16 lattices that wrap around onto themselves, lattices across the 127/128, 255/256, 32767/32768 and 65535/65536 boundaries",
    "thorough": "as quick with permutations of up to 7 sites and all sequences of three operations",
}
ASSUMPTIONS = ["ties of the sort key may be resolved in any order"]

SMALL = [("chain", [4], []), ("chain", [5], [0]), ("ssh", [3], []), ("tri-chain", [2], []), ("square", [2, 3], []),
         ("chain-n3", [6], []), ("honeycomb", [1, 3], []), ("kagome", [2, 1], []), ("square", [3, 2], [0]),
         ("centered-mix", [1, 3], []), ("sc", [1, 2, 3], []), ("dimer", [3, 1], [])]
SMALL7 = [("chain-n3", [7], [0]), ("chain", [7], [])]
MEDIUM = [("chain", [7], [0]), ("ssh-n2", [6], [0]), ("square-n2", [4, 3], [0, 1]), ("honeycomb", [3, 3], [0, 1]),
          ("kagome", [3, 3], [0]), ("lieb", [2, 3], [1]), ("centered-mix", [3, 3], [0, 1]), ("hexs", [3, 4], [0, 1]),
          ("sc", [3, 3, 3], [0, 1, 2]), ("fcc", [3, 3, 3], []), ("nacl-ab", [2, 2, 3], []), ("generic2", [3, 4], []),
          ("tri-chain", [5], [0]), ("honeycomb-asym", [3, 3], [1]), ("bilayer", [3, 3, 1], [0, 1]),
          ("sc-n2", [3, 4, 3], [0, 2]), ("chain-n3", [8], [0])]


def cases(tier):
    out = []
    for name, cells, per in SMALL + (SMALL7 if tier == "thorough" else []):
        out.append(dict(mode="perm", cfg=name, cells=cells, per=per))
    for name, cells, per in MEDIUM + SMALL:
        out.append(dict(mode="seq", cfg=name, cells=cells, per=per, depth=2 if tier == "quick" else 3))
    for name, cells, per in model.NARROW:
        out.append(dict(mode="narrow", cfg=name, cells=cells, per=per))
    for n in (127, 128, 129, 255, 256, 257):
        out.append(dict(mode="large", cfg="chain", cells=[n], per=[0]))
    out.append(dict(mode="large", cfg="square-n2", cells=[16, 16], per=[0, 1]))
    out.append(dict(mode="large", cfg="honeycomb", cells=[8, 16], per=[0]))
    out += huge.cases()
    return out


def fresh(ctx, lp, case):
    latt, m = model.start(ctx, lp, case["cfg"], case["cells"], origin=-1)
    if case["per"]:
        if not m.set_periodic(case["per"]):
            return None, None
        latt.set_periodic(list(case["per"]))
    return latt, m


def sorted_ok(ctx, latt, m, ax, rev):
    """The implementation may order ties freely: take its order if it is a valid sort."""
    ids = model.ids_of(latt)
    ctx.check(sorted(ids) == sorted(m.ids), "sort:sites", lambda: f"{len(ids)} sites, want {len(m.ids)}")
    ks = [s[ax] for s in ids]
    ctx.check(ks == sorted(ks, reverse=rev), "sort:not-sorted", lambda: f"axis {ax}: {ks[:20]}")
    m.ids = ids


def ops(m, d, per):
    out = [("sort", ax, rev) for ax in range(d + 1) for rev in (False, True)]
    out += [("reverse",), ("rotate",), ("swap",), ("neighbors",)]
    if per:
        out += [("open",), ("periodic",)]
    return out


def apply(ctx, latt, m, op, per):
    n = len(m.ids)
    ctx.op(op)
    if op[0] == "sort":
        latt.data.sort(op[1], reverse=op[2])
        sorted_ok(ctx, latt, m, op[1], op[2])
    elif op[0] == "reverse":
        perm = list(range(n))[::-1]
        latt.data.sort(indices=np.array(perm))
        m.permute(perm)
    elif op[0] == "rotate":
        perm = [(i + 2) % n for i in range(n)]
        latt.data.sort(indices=np.array(perm))
        m.permute(perm)
    elif op[0] == "swap":
        perm = list(range(n))
        perm[0], perm[-1] = perm[-1], perm[0]
        latt.data.sort(indices=np.array(perm), reverse=True)
        m.permute(perm[::-1])
    elif op[0] == "neighbors":
        latt.data.sort_neighbors()
        dv = np.asarray(latt.data.distvals)
        for i in range(n):
            ds = dv[np.asarray(latt.data.distances)[i][np.asarray(latt.data.neighbor_mask(i))]]
            ctx.check(bool(np.all(np.diff(ds) >= -1e-9)), "sort_neighbors:order", lambda: f"site {i}: {ds}")
    elif op[0] == "open":
        latt.set_periodic(None)
        m.set_periodic(())
    elif op[0] == "periodic":
        latt.set_periodic(list(per))
        m.set_periodic(per)


def narrow(lp, case, ctx):
    """Periodic lattices that wrap around onto themselves: the stored relation is relabelled."""
    n = model.block(lp, case["cfg"], case["cells"])[0].num_sites
    idn = list(range(n))
    perms = list(itertools.permutations(idn)) if n <= 5 else [idn[::-1], idn[1:] + idn[:1], idn[2:] + idn[:2], idn[::2] + idn[1::2]]
    perms += [idn[:i] + [idn[j]] + idn[i + 1:j] + [idn[i]] + idn[j + 1:] for i, j in itertools.combinations(idn, 2)]
    d = len(case["cells"])
    for op in perms + [("ax", a, r) for a in range(d + 1) for r in (False, True)]:
        ctx.begin(f"build {case['cfg']} {case['cells']} periodic={case['per']}")
        latt, _, _ = model.block(lp, case["cfg"], case["cells"])
        latt.set_periodic(list(case["per"]))
        old, ids = model.listing(latt), model.ids_of(latt)
        ctx.op(f"sort {op}")
        if op[:1] == ("ax",):
            latt.data.sort(op[1], reverse=op[2])
            new = model.ids_of(latt)
            ctx.eq(sorted(new), sorted(ids), "narrow:sites")
            op = [ids.index(s) for s in new]
        else:
            latt.data.sort(indices=np.array(op))
        where = {k: i for i, k in enumerate(op)}
        ctx.eq(model.ids_of(latt), [ids[k] for k in op], "narrow:order")
        ctx.eq(model.listing(latt), [sorted((where[t[0]],) + t[1:] for t in old[k]) for k in op], "narrow:relation")
        ctx.op("sort_neighbors")
        latt.data.sort_neighbors()
        ctx.eq(model.listing(latt), [sorted((where[t[0]],) + t[1:] for t in old[k]) for k in op], "narrow:sort_neighbors")
        ctx.state((case["cfg"], tuple(case["cells"]), tuple(op)))
    ctx.outcome((case["cfg"], n))


def run(case, ctx):
    lp = lattpy()
    if case.get("mode") == "huge":
        return huge.run(ctx, lp, case, [("sort", 0, True), ("sort", len(case["cells"]), False), ("reverse",), ("sortn",)])
    if case["mode"] == "narrow":
        return narrow(lp, case, ctx)
    ctx.begin("build")
    latt, m0 = fresh(ctx, lp, case)
    if latt is None:
        ctx.skipped += 1
        return
    model.check_all(ctx, latt, m0, "before", views=False)
    n = len(m0.ids)
    per = case["per"]
    if case["mode"] == "perm":
        for perm in itertools.permutations(range(n)):
            for rev in (False, True):
                ctx.begin(f"build {case['cfg']} {case['cells']} periodic={per}")
                latt, m = fresh(ctx, lp, case)
                ctx.op(f"sort(indices={perm}, reverse={rev})")
                latt.data.sort(indices=np.array(perm), reverse=rev)
                m.permute(perm[::-1] if rev else perm)
                model.check_all(ctx, latt, m, "sorted", views=False)
                ctx.state((case["cfg"], m.canon()))
        ctx.outcome((case["cfg"], n))
        return
    alphabet = ops(m0, m0.cr.dim, per)
    depth = case.get("depth", 1)
    seqs = [s for k in range(1, depth + 1) for s in itertools.product(alphabet, repeat=k)]
    for seq in seqs:
        ctx.begin(f"build {case['cfg']} {case['cells']} periodic={per}")
        latt, m = fresh(ctx, lp, case)
        for op in seq:
            apply(ctx, latt, m, op, per)
        model.check_all(ctx, latt, m, "sorted", views=n <= 9 and len(seq) == 2)
        ctx.state((case["cfg"], m.canon()))
        ctx.outcome((case["cfg"], tuple(m.ids[:3])))
