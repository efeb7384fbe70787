"""C09  All views of the neighbor data agree."""
import itertools

import numpy as np

from . import cfgs, hist, huge, model
from .core import lattpy

ID = "C09"
BOUNDS = {
    "quick": "all views of every state reached by all operation sequences of length <= 2 (14-15 operations: queries, "
    "periodic axes, open, remove, sort, sort neighbors, reverse, append, repeat, extend, rebuild) from 9 lattices, and of "
    "length 3 beginning with a query on 4 lattices; the agreement of the views on all blocks of 1..3 cells per axis with all "
    "periodic axes (sites that wrap around onto themselves), also after sorting and reset; all views of all crystals on 3 blocks open and periodic; lattices "
    "across 127/128, 255/256, 32768 and 65536 sites, 130 and 379 neighbor distances",
    "thorough": "all sequences of length <= 3 on all 9 lattices",
}
ASSUMPTIONS = ["where a pair of sites is linked by several periodic images only the agreement of the views is decided"]


def cases(tier):
    out = []
    for name, cells in hist.LATTS:
        al = hist.alphabet(len(cells))
        for first in [None] + list(range(len(al))):
            out.append(dict(mode="hist", cfg=name, cells=cells, first=first, depth=2 if tier == "quick" else 3))
    for name, cells in hist.LATTS[:4]:
        al = hist.alphabet(len(cells))
        for sec in range(len(al)):
            out.append(dict(mode="stale", cfg=name, cells=cells, second=sec))
    for name in cfgs.names():
        d = cfgs.crystal(name).dim
        f = cfgs.crystal(name)
        fr = f.R @ f.Vinv
        if fr.min() < -1e-6 or fr.max() > 0.95 or not f.well_separated():
            continue
        for cells in {1: [[1], [2], [7]], 2: [[1, 1], [3, 3], [2, 4]], 3: [[1, 1, 1], [2, 2, 2], [3, 2, 2]], 4: [[2, 2, 2, 1]]}[d]:
            out.append(dict(mode="crystal", cfg=name, cells=cells))
        k = int(f.C.max())
        for cells in itertools.product((1, 2) if d > 2 else (1, 2, 3) if d > 1 or k < 3 else range(1, 7), repeat=d):
            if d < 4 and max(cells) * f.n < 40:
                out.append(dict(mode="narrow", cfg=name, cells=list(cells)))
    for n in (127, 128, 129, 254, 255, 256, 257):
        out.append(dict(mode="big", cfg="chain", cells=[n]))
    out.append(dict(mode="big", cfg="square", cells=[16, 16]))
    out += huge.cases() + [dict(mode="huge", cfg="chain*130", cells=[265], ops=[["views"]]), dict(mode="huge", cfg="atoms260", cells=[2], ops=[["views"], ["reverse"]])]
    return out


def explore(ctx, lp, case, seqs):
    name, cells = case["cfg"], case["cells"]
    for seq in seqs:
        ctx.begin(f"build {name} {cells}")
        latt, m = model.start(ctx, lp, name, cells)
        for op in seq:
            if not hist.apply(ctx, lp, latt, m, op, name, cells):
                break
        else:
            model.check_all(ctx, latt, m, "views")
            ctx.state((name, m.canon()))
            ctx.outcome((name, len(m.ids), len(m.bonds())))


def run(case, ctx):
    lp = lattpy()
    if case.get("mode") == "huge":
        return huge.run(ctx, lp, case, case.get("ops") or [("views",), ("open",), ("remove", "mid"), ("sortn",), ("append", 1), ("repeat", -1)])
    if case["mode"] == "hist":
        al = hist.alphabet(len(case["cells"]))
        if case["first"] is None:
            return explore(ctx, lp, case, [()])
        f = (al[case["first"]],)
        return explore(ctx, lp, case, [f + s for s in hist.sequences(al, case["depth"] - 1)])
    if case["mode"] == "stale":
        al = hist.alphabet(len(case["cells"]))
        return explore(ctx, lp, case, [(("query",), al[case["second"]], x) for x in al] +
                       [(al[case["second"]], ("query",), x) for x in al])
    d = len(case["cells"])
    ctx.begin("build")
    latt, m = model.start(ctx, lp, case["cfg"], case["cells"])
    ctx.op("views")
    if case["mode"] == "narrow":
        for r in range(1, d + 1):
            for axes in itertools.combinations(range(d), r):
                for then in ("", "sortn", "reverse", "open"):
                    ctx.op(("periodic", axes, then))
                    latt.set_periodic(list(axes))
                    m2 = model.Listed(m.cr, m.ids)
                    m2.read(ctx, latt, "narrow")
                    if then == "sortn":
                        latt.data.sort_neighbors()
                    elif then == "reverse":
                        n = len(m.ids)
                        latt.data.sort(indices=np.arange(n)[::-1])
                        m.permute(range(n)[::-1])
                        m2.permute(range(n)[::-1])
                        m2.lists = [{n - 1 - j: v for j, v in a.items()} for a in m2.lists[::-1]]
                    elif then == "open":
                        latt.set_periodic(None)
                        m2 = m
                    model.check_views(ctx, latt, m2, "narrow")
                    ctx.state((case["cfg"], m.canon(), axes, then))
        return ctx.outcome((case["cfg"], len(m.ids)))
    if case["mode"] == "crystal":
        model.check_all(ctx, latt, m, "views")
        ctx.state((case["cfg"], m.canon()))
        for r in range(1, d + 1):
            for axes in itertools.combinations(range(d), r):
                m2 = m.clone()
                if m2.set_periodic(axes):
                    ctx.op(("periodic", axes))
                    latt.set_periodic(list(axes))
                    model.check_all(ctx, latt, m2, "views")
                    ctx.state((case["cfg"], m2.canon()))
        ctx.outcome((case["cfg"], len(m.bonds())))
    else:
        for axes in ((), (0,), tuple(range(d))):
            m.set_periodic(axes)
            latt.set_periodic(list(axes) or None)
            ctx.op(("periodic", axes))
            model.check_all(ctx, latt, m, "views")
            ctx.state((case["cfg"], m.canon()))
