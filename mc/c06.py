"""C06  Removing sites yields the induced sub-lattice."""
import itertools

import numpy as np

from . import cfgs, huge, model
from .core import lattpy

ID = "C06"
BOUNDS = {
    "quick": "every proper subset (also the empty one) of sites of 12 lattices with up to 9 sites (open and periodic), "
    "all ordered pairs (with repetitions, negative numbers) of two consecutive removals on lattices of up to 12 "
    "sites, all single/double removals on 14 lattices of up to 27 sites, removals across the 127/128 and 255/256 "
    "boundaries, up to 3 sites of 16 lattices that wrap around onto themselves, min_neighbors 0..max+1 on 20 lattices, removals from lattices across 32768 and 65536 sites",
    "thorough": "as quick with every subset of lattices of up to 12 sites, all triples of consecutive removals, "
    "min_neighbors on all crystals",
}
ASSUMPTIONS = ["where a pair of sites is linked by several images the stored relation before the removal is the reference"]

# (crystal, cells, periodic axes)
SMALL = [("chain", [5], []), ("chain", [6], [0]), ("chain-n3", [8], [0]), ("chain-n3", [6], []), ("ssh", [3], []),
         ("ssh", [4], [0]), ("ssh-n2", [4], []), ("tri-chain", [3], []), ("square", [3, 3], []), ("square", [3, 3], [0]),
         ("square", [3, 3], [0, 1]), ("square-n2", [3, 3], [1]), ("honeycomb", [2, 2], []), ("centered-mix", [2, 2], []),
         ("kagome", [3, 1], []), ("lieb", [1, 3], [])]
PAIRS = SMALL + [("square-n2", [4, 3], [0]), ("honeycomb", [3, 2], []), ("chain", [12], [0]), ("sc", [2, 2, 3], [])]
MEDIUM = [("square-n2", [4, 4], [0, 1]), ("honeycomb", [3, 3], [0, 1]), ("kagome", [3, 3], [0]), ("sc", [3, 3, 3], [0, 1, 2]),
          ("centered-mix", [3, 3], [1]), ("lieb", [3, 2], []), ("fcc", [3, 3, 3], []), ("hexs", [4, 4], [0, 1]),
          ("nacl-ab", [2, 2, 3], []), ("dimer", [3, 3], []), ("generic2", [3, 3], []), ("ssh-n2", [12], [0]),
          ("honeycomb-asym", [3, 3], [0]), ("bcc-n2", [3, 2, 2], [])]
DANGLING = ["chain", "chain-n3", "ssh", "tri-chain", "square", "square-n2", "rect", "oblique60", "hex", "honeycomb",
            "honeycomb-n2", "honeycomb-asym", "centered", "centered-mix", "lieb", "kagome", "dimer", "sc", "bcc", "nacl-ab"]


def cases(tier):
    out = []
    for name, cells, per in SMALL + ([p for p in PAIRS if p not in SMALL] if tier == "thorough" else []):
        out += [dict(mode="subsets", cfg=name, cells=cells, per=per, part=p) for p in range(4)]
    for name, cells, per in PAIRS:
        out += [dict(mode="pairs", cfg=name, cells=cells, per=per, part=p) for p in range(4)]
    if tier == "thorough":
        for name, cells, per in SMALL:
            out += [dict(mode="triples", cfg=name, cells=cells, per=per, part=p) for p in range(8)]
    for name, cells, per in MEDIUM:
        out += [dict(mode="double", cfg=name, cells=cells, per=per, part=p) for p in range(8)]
    for name, cells, per in model.NARROW:
        out.append(dict(mode="narrow", cfg=name, cells=cells, per=per))
    for n in (127, 128, 129, 130, 255, 256, 257, 258, 300):
        for per in ([], [0]):
            out.append(dict(mode="large", cfg="chain", cells=[n], per=per))
    for e in ([16, 16], [16, 17]):
        out.append(dict(mode="large", cfg="square", cells=e, per=[0, 1]))
    for name in DANGLING if tier == "quick" else cfgs.names():
        cr = cfgs.crystal(name)
        dims = {1: [[3], [6]], 2: [[1, 3], [3, 3], [2, 4]], 3: [[2, 2, 2], [1, 2, 3]], 4: [[2, 2, 1, 2]]}[cr.dim]
        for e in dims:
            mx = max(len(cr.nbrs(a)) for a in range(cr.n))
            for k in range(0, min(mx, 14) + 2):
                for per in [None] + list(range(cr.dim)):
                    out.append(dict(mode="dangling", cfg=name, cells=e, k=k, per=per))
    out += huge.cases()
    return out


def fresh(ctx, lp, case):
    latt, m = model.start(ctx, lp, case["cfg"], case["cells"])
    if case["per"]:
        if not m.set_periodic(case["per"]):
            return None, None
        latt.set_periodic(list(case["per"]))
    return latt, m


def removal_args(mode, n, part, nparts):
    """All removal sequences of the mode: lists of argument lists."""
    if mode == "subsets":
        sets = [[list(c)] for r in range(n) for c in itertools.combinations(range(n), r)]
        # the same set in other spellings
        sets += [[list(c[::-1])] for r in (2, 3) for c in itertools.combinations(range(n), r)]
        sets += [[[i - n]] for i in range(n)] + [[[i, i]] for i in range(n)] + [[i] for i in range(n)]
        sets += [[[i - n, j]] for i in range(n) for j in range(n)]
    elif mode == "pairs":
        sets = [[[i], [j]] for i in range(n) for j in range(-1, n - 1)]
        sets += [[[i, j], [k]] for i, j in itertools.combinations(range(n), 2) for k in (0, n - 3)]
    elif mode == "triples":
        sets = [[[i], [j], [k]] for i in range(n) for j in range(n - 1) for k in range(n - 2)]
    elif mode == "double":
        sets = [[[i]] for i in range(n)] + [[list(c)] for c in itertools.combinations(range(n), 2)]
    else:
        half = list(range(0, n, 2))
        sets = [[[0]], [[n - 1]], [[0, n - 1]], [[126]], [[n - 5, n - 4, n - 2]], [half], [list(range(1, n))], [[-1], [0], [-2]],
                [list(range(n // 2))], [list(range(n - 3, n))]]
    sets = [s for s in sets if len(set(x % n for x in np.atleast_1d(s[0]))) < n]
    return sets[part::nparts]


def run(case, ctx):
    lp = lattpy()
    if case.get("mode") == "huge":
        return huge.run(ctx, lp, case, [("remove", x) for x in ("ends", "mid", "tail", "neg")])
    if case["mode"] == "dangling":
        return dangling(lp, case, ctx)
    if case["mode"] == "narrow":
        return narrow(lp, case, ctx)
    nparts = {"subsets": 4, "pairs": 4, "triples": 8, "double": 8, "large": 1}[case["mode"]]
    ctx.begin("build")
    latt0, m0 = fresh(ctx, lp, case)
    if latt0 is None:
        ctx.skipped += 1
        return
    n = len(m0.ids)
    base = None
    for seq in removal_args(case["mode"], n, case.get("part", 0), nparts):
        ctx.begin(f"build {case['cfg']} {case['cells']} periodic={case['per']}")
        latt, m = latt0, m0.clone()
        latt = rebuild(lp, case)
        if base is None:
            model.check_all(ctx, latt, m, "before", views=False)
            base = True
        for s in seq:
            ctx.op(f"remove({s})")
            latt.data.remove(s if isinstance(s, int) else list(s))
            m.remove(np.atleast_1d(s).tolist())
            ctx.state((case["cfg"], m.canon()))
        model.check_all(ctx, latt, m, "removed", views=n <= 6)
        ctx.outcome((case["cfg"], len(m.ids), len(m.bonds())))


def rebuild(lp, case):
    latt, _, _ = model.block(lp, case["cfg"], case["cells"])
    if case["per"]:
        latt.set_periodic(list(case["per"]))
    return latt


def narrow(lp, case, ctx):
    """Periodic lattices that wrap around onto themselves: the stored relation is restricted to the rest."""
    n = rebuild(lp, case).num_sites
    for r in range(1, min(n, 4)):
        for gone in itertools.combinations(range(n), r):
            for one_by_one in (False, True):
                ctx.begin(f"build {case['cfg']} {case['cells']} periodic={case['per']}")
                latt = rebuild(lp, case)
                old, ids = model.listing(latt), model.ids_of(latt)
                ctx.op(f"remove({gone}, one by one: {one_by_one})")
                for s in (gone[::-1] if one_by_one else [list(gone)]):
                    latt.data.remove(s)
                keep = [i for i in range(n) if i not in gone]
                new = {k: i for i, k in enumerate(keep)}
                want = [sorted((new[t[0]],) + t[1:] for t in old[k] if t[0] in new) for k in keep]
                ctx.eq(model.ids_of(latt), [ids[k] for k in keep], "narrow:sites")
                ctx.eq(model.listing(latt), want, "narrow:neighbors")
                ctx.state((case["cfg"], tuple(case["cells"]), gone))
    ctx.outcome((case["cfg"], n))


def dangling(lp, case, ctx):
    """min_neighbors: one pass removes exactly the sites with too few neighbors."""
    ctx.begin("configure")
    cr = cfgs.crystal(case["cfg"])
    latt, m = model.start(ctx, lp, case["cfg"], case["cells"])
    adj = m.adj()
    keep = [i for i in range(len(m.ids)) if len(adj[i]) >= case["k"]]
    per = case["per"]
    latt2 = cfgs.make(lp, case["cfg"])
    ctx.op(f"build(min_neighbors={case['k']}, periodic={per})")
    if not keep:
        ctx.raises((ValueError,), lambda: model.block(lp, case["cfg"], case["cells"], latt=latt2, min_neighbors=case["k"]),
                   "dangling:no-error")
        return
    m.remove([i for i in range(len(m.ids)) if i not in keep])
    kw = {}
    if per is not None:
        if not m.set_periodic([per]):
            ctx.skipped += 1
            return
        kw["periodic"] = per
    model.block(lp, case["cfg"], case["cells"], latt=latt2, min_neighbors=case["k"], **kw)
    ids = model.ids_of(latt2)
    ctx.check(sorted(ids) == sorted(m.ids), "dangling:sites", lambda: f"got {len(ids)} want {len(m.ids)}")
    m.ids = ids
    model.check_all(ctx, latt2, m, "dangling", views=len(ids) < 8)
    ctx.state((case["cfg"], m.canon()))
    ctx.outcome((case["cfg"], len(ids)))
