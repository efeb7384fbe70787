"""C03  Finite neighbors are exactly the restriction of the infinite relation."""
import numpy as np

from . import cfgs, huge, obs, regions
from .core import lattpy

ID = "C03"
BOUNDS = {
    "quick": "all crystals x every second box region and all shape regions of the alphabet, "
    "num_jobs in {1, 2, -1} on a sub-alphabet, site counts crossing 127/128, 255/256 and 32767/32768, 65535/65536 (every site), 130 and 379 neighbor distances",
    "thorough": "all crystals x all (dense) regions x num_jobs {1,2,-1}, sweeps of every site count "
    "1..300 for three chains",
}
ASSUMPTIONS = ["shell distances differ by more than 1e-3 (the library rounds to 6 decimals)"]

JOBS = ["chain-n3", "square-n2", "honeycomb-n2", "kagome", "diamond", "bcc-n2", "centered-mix", "hyper4"]


def cases(tier):
    out = []
    for name in cfgs.names():
        cr = cfgs.crystal(name)
        bx = regions.boxes(cr, tier)
        if tier == "quick":
            bx = bx[::2]
        for r in bx + regions.shapes(cr, tier):
            out.append(dict(cfg=name, region=r))
    for name in JOBS if tier == "quick" else cfgs.names():
        cr = cfgs.crystal(name)
        for r in (regions.boxes(cr, "quick")[::5] + regions.shapes(cr, "quick")[::3]):
            for nj in (2, -1):
                out.append(dict(cfg=name, region=r, jobs=nj))
    ns = [1, 2, 3, 125, 126, 127, 128, 129, 253, 254, 255, 256, 257, 258, 65534, 65535, 65536]
    if tier == "thorough":
        ns = list(range(1, 301)) + [511, 512, 1023, 4096, 65534, 65535, 65536]
    for n in ns:
        for name in ("chain", "ssh", "chain-n3") if n < 1000 else ("chain",):
            cr = cfgs.crystal(name)
            L = float(abs(cr.V[0, 0]))
            out.append(dict(cfg=name, region=dict(kind="box", size=n * L + 0.05)))
    for s in ([15.1, 15.1], [15.1, 16.1], [16.1, 16.1], [255.1, 1.1], [1.1, 255.1]):
        for name in ("square", "square-n2", "centered", "hexs", "honeycomb"):
            out.append(dict(cfg=name, region=dict(kind="box", size=s)))
    out += [dict(cfg="sc-n2", region=dict(kind="box", size=s)) for s in ([5.1, 6.1, 5.1], [2.1, 2.1, 28.1])]
    out += huge.cases() + [dict(mode="huge", cfg="chain*130", cells=[265]), dict(mode="huge", cfg="atoms260", cells=[2])]
    return out


def run(case, ctx):
    lp = lattpy()
    if case.get("mode") == "huge":
        return huge.run(ctx, lp, case, [("views",), ("rebuild",)])
    cr = cfgs.crystal(case["cfg"])
    want, amb = regions.sites(cr, case["region"])
    if amb or not want or not cr.well_separated():
        ctx.skipped += 1
        return
    shape, kw = regions.build_args(lp, cr, case["region"])
    ctx.begin("configure")
    latt = cfgs.make(lp, case["cfg"])
    ctx.op(f"build({case['region']}, num_jobs={case.get('jobs', 1)})")
    latt.build(shape, num_jobs=case.get("jobs", 1), **kw)
    ids = obs.check_sites(ctx, latt, cr, want)
    g = obs.graph(ctx, latt, ids)
    ref = cr.graph(want)
    obs.cmp_graph(ctx, g, ref)
    deg = {i: 0 for i in ids}
    for (s, t) in ref:
        deg[s] += 1
        ctx.check((t, s) in g and g[(t, s)] == g[(s, t)], "asymmetric", lambda: f"{s} {t}")
    ctx.check(all(len(latt.neighbors(i)) == deg[s] for i, s in enumerate(ids)), "degree", "")
    ctx.transitions += len(ids)
    ctx.state((case["cfg"], str(case["region"]), len(ref)))
    ctx.outcome(tuple(np.bincount(list(deg.values()))))
    # the stand-alone computation on the same sites agrees
    if len(ids) < 2000:
        ctx.op("compute_neighbors")
        nb, ds = latt.compute_neighbors(np.array(latt.indices), np.array(latt.positions), num_jobs=case.get("jobs", 1))
        got = {}
        for i, (row, drow) in enumerate(zip(nb, ds)):
            for j, d in zip(row, drow):
                if np.isfinite(d):
                    ctx.check((ids[i], ids[int(j)]) not in got, "compute_neighbors:duplicate-neighbor", f"{i},{j}")
                    got[(ids[i], ids[int(j)])] = round(float(d), 4)
        obs.cmp_graph(ctx, got, ref, "compute_neighbors")
