"""C19  Dispersion paths follow their points."""
import itertools
import math

import numpy as np

from .core import lattpy

ID = "C19"
BOUNDS = {
    "quick": "all sequences of at most 4 of 15 path operations (adding points with and without names, lists of points, symmetry "
    "points with two lattice constants, cycle, build, modifying the passed array) for dimension 0-3 (0: taken from the first point); "
    "in every state the path is built with 2, 3 and 7 samples per section and compared; predefined paths for 5 lattice constants; "
    "paths of up to 131 points and with up to 10001 samples per section; dispersion plots of all paths with up to 4 points",
    "thorough": "as quick with sequences of at most 5 operations",
}
ASSUMPTIONS = ["scales are claimed for paths whose first section has a non-zero length", "added points have at least the dimension of the path"]
OPS = [("add", 0, "P"), ("add", 1, ""), ("add", 2, "$Q$"), ("addarr", 0, "arr"), ("points", None), ("points", ("a", "")), ("cycle",),
       ("gamma",), ("x", 1.0), ("x", 2.0), ("m", 1.0), ("m", 0.5), ("r", 1.0), ("r", 4.0), ("build", 5)]
PTS = [[0.5, -1.0, 2.0], [1, 2, 3], [0.25, 0.5, 0.0, 9.0]]
PI = math.pi
HS = {"gamma": (r"$\Gamma$", (0, 0, 0)), "x": ("$X$", (PI, 0, 0)), "m": ("$M$", (PI, PI, 0)), "r": ("$R$", (PI, PI, PI))}


def cases(tier):
    depth = 4 if tier == "quick" else 5
    out = [dict(part="ops", dim=d, first=f, depth=depth) for d in range(4) for f in range(len(OPS))]
    out += [dict(part="preset"), dict(part="plot", n=2), dict(part="plot", n=3), dict(part="plot", n=4)]
    out += [dict(part="long", dim=d, num=k) for d in (1, 2, 3) for k in (2, 3, 9, 10, 11, 33, 130)]
    return out


class M:
    def __init__(self, dim):
        self.dim, self.pts, self.labels, self.n = dim, [], [], 0

    def add(self, p, name):
        name = name or str(len(self.pts))
        if not self.dim:
            self.dim = len(p)
        self.pts.append(tuple(float(x) for x in p[: self.dim]))
        self.labels.append(name)


def apply(ctx, path, m, op):
    """None if not enabled."""
    k = op[0]
    if k in ("add", "addarr"):
        p = PTS[op[1]]
        if len(p) < m.dim:
            return None
        arr = np.array(p) if k == "addarr" else list(p)
        r = path.add(arr, op[2]) if op[2] else path.add(arr)
        m.add(p, op[2])
        arr[0] = 77.0
    elif k == "points":
        ps = [PTS[1], PTS[0]]
        arr = np.array(ps, dtype=float)
        if m.dim > 3:
            return None
        r = path.add_points(arr, op[1]) if op[1] else path.add_points(arr)
        for p, nm in zip(ps, op[1] or ("", "")):
            m.add(p, nm)
        arr[:] = -5.0
    elif k == "cycle":
        if not m.pts:
            return None
        r = path.cycle()
        m.pts.append(m.pts[0])
        m.labels.append(m.labels[0])
    elif k == "build":
        if m.dim == 0:
            return None
        check_built(ctx, path.build(op[1]), m, op[1])
        m.n = op[1]
        r = path
    else:
        if m.dim > 3:
            return None
        lab, p = HS[k]
        a = op[1] if len(op) > 1 else 1.0
        r = getattr(path, k)(*op[1:])
        m.add([x / a for x in p], lab)
    ctx.check(r is path, "returns-self", k)
    return path


def check_built(ctx, vec, m, n):
    vec = np.asarray(vec)
    N = len(m.pts)
    want = [[p + (q - p) * i / (n - 1) for p, q in zip(a, b)] for a, b in zip(m.pts[:-1], m.pts[1:]) for i in range(n)]
    ctx.check(vec.shape == (n * max(N - 1, 0), m.dim), "build:shape", lambda: f"{vec.shape} {N} points {n}")
    if want:
        ctx.check(np.allclose(vec, want, atol=1e-12), "build:points", lambda: f"{vec.tolist()} want {want}")


def check(ctx, path, m):
    ctx.eq(path.num_points, len(m.pts), "num_points")
    ctx.eq(path.dim, m.dim, "dim")
    ctx.eq(list(path.labels), m.labels, "labels")
    ctx.check(len(path.points) == len(m.pts) and all(np.allclose(a, b, atol=1e-15) and len(a) == m.dim for a, b in zip(path.points, m.pts)),
              "points", lambda: f"{path.points} want {m.pts}")
    ed = path.edges()
    ctx.check(len(ed) == max(len(m.pts) - 1, 0), "edges:number", lambda: ed)
    for e, a, b in zip(ed, m.pts[:-1], m.pts[1:]):
        ctx.check(np.allclose(e[0], a) and np.allclose(e[1], b), "edges", lambda: f"{e} want {a} {b}")
    dist = [math.dist(a, b) for a, b in zip(m.pts[:-1], m.pts[1:])]
    ctx.check(np.shape(path.distances()) == (len(dist),) and np.allclose(path.distances(), dist, atol=1e-12), "distances", lambda: path.distances())
    if dist and dist[0] > 0:
        ctx.check(np.allclose(path.scales(), [x / dist[0] for x in dist], atol=1e-12), "scales", lambda: path.scales())
    ticks(ctx, path, m, m.n)


def ticks(ctx, path, m, n):
    t, lab = path.get_ticks()
    ctx.check(len(t) == len(m.pts) and list(lab) == m.labels and [int(x) for x in t] == [i * n for i in range(len(m.pts))], "ticks", lambda: f"{t} {lab}")


def run(case, ctx):
    lp = lattpy()
    if case["part"] == "preset":
        return preset(ctx, lp)
    if case["part"] == "long":
        return long(ctx, lp, case["dim"], case["num"])
    if case["part"] == "plot":
        return plot(ctx, lp, case["n"])

    for n in range(case["depth"]):
        for rest in itertools.product(OPS, repeat=n):
            seq = (OPS[case["first"]],) + rest
            path, m = lp.DispersionPath(case["dim"]), M(case["dim"])
            ctx.begin("path", case["dim"])
            ok = True
            for op in seq:
                ctx.op(op)
                if apply(ctx, path, m, op) is None:
                    ok = False
                    break
            if not ok:
                continue
            check(ctx, path, m)
            if m.dim and (n < 3 or m.labels[-1:] == m.labels[:1]):
                for k in (2, 3, 7):
                    vec = path.build(k)
                    check_built(ctx, vec, m, k)
                    ticks(ctx, path, m, k)
                    vec[:] = 3.0
                check(ctx, path, M_with(m, 7))
            ctx.state((m.dim, tuple(m.pts), tuple(m.labels), m.n))
            ctx.outcome((m.dim, tuple(m.pts), tuple(m.labels)))


def long(ctx, lp, d, num):
    """Many points, many samples."""
    P = np.modf(np.arange(1, num + 1)[:, None] * np.sqrt([2.0, 3.0, 5.0])[None, :d])[0] - 0.4
    for n in (None, 99, 100, 101, 255, 256, 257, 999, 1000, 1001, 1024, 1500, 2049, 4097, 10001):
        if n is not None and n * num > 300000:
            continue
        ctx.begin("long", d, num)
        path = lp.DispersionPath(d)
        m = M(d)
        for p in P:
            path.add(p)
            m.add(p, "")
        path.cycle()
        m.pts.append(m.pts[0])
        m.labels.append(m.labels[0])
        ctx.op(("build", n))
        vec = path.build() if n is None else path.build(n)
        k = 1000 if n is None else n
        A = np.array(m.pts)
        t = np.arange(k)[None, :, None] / (k - 1)
        want = (A[:-1, None] + t * (A[1:] - A[:-1])[:, None]).reshape(-1, d)
        ctx.check(vec.shape == want.shape, "build:shape", lambda: f"{vec.shape} {want.shape}")
        ctx.check(np.allclose(vec, want, atol=1e-12), "build:points")
        m.n = k
        check(ctx, path, m)
        ctx.state((d, num, n))


def M_with(m, n):
    o = M(m.dim)
    o.pts, o.labels, o.n = m.pts, m.labels, n
    return o


def preset(ctx, lp):
    D = lp.DispersionPath
    G = HS["gamma"]
    for a in (1.0, 0.5, 2.0, 3.7, 1e-3):
        for fn, keys, dim in ((D.chain_path, "xgx", 1), (D.square_path, "gxmg", 2), (D.cubic_path, "gxmgr", 3)):
            for args in ((a,), (), ((), {"a": a})):
                ctx.begin("preset", fn.__name__, a, args)
                ctx.op("preset")
                path = fn(**args[1]) if len(args) == 2 else fn(*args)
                aa = 1.0 if args == () else a
                m = M(dim)
                for k in keys:
                    lab, p = HS[{"g": "gamma"}.get(k, k)]
                    m.add([x / aa for x in p], lab)
                check(ctx, path, m)
                check_built(ctx, path.build(4), m, 4)
                ctx.check(path.n_sect == 4 and len(path.build()) == 1000 * (len(keys) - 1), "preset:sections", "")
                ctx.state((fn.__name__, a, str(args)))
                ctx.outcome((fn.__name__, aa))


def plot(ctx, lp, npts):
    import matplotlib.pyplot as plt

    pts = [(0.0, 0.0), (1.0, 0.0), (1.0, 2.0), (0.5, 0.5)]
    for idx in itertools.permutations(range(4), npts):
        for nb, nsec in itertools.product((1, 2), (3, 4)):
            path = lp.DispersionPath(2)
            for i in idx:
                path.add(pts[i], "P%d" % i)
            ctx.begin("plot", idx, nb, nsec)
            vec = path.build(nsec)
            disp = np.array([np.cos(vec[:, 0]) + j * vec[:, 1] for j in range(nb)]).T
            d = [math.dist(pts[i], pts[j]) for i, j in zip(idx[:-1], idx[1:])]
            k, t, k0 = [], [0.0], 0.0
            for x in d:
                k += [k0 + j * x / d[0] for j in range(nsec)]
                k0 = k[-1]
                t.append(k0)
            bins = np.linspace(0, 1, 5)
            for mode in ("disp", "dos", "fill", "sub"):
                ctx.op(mode)
                try:
                    if mode == "dos":
                        axs = path.plot_disp_dos(disp, [(bins, bins ** 2)] * nb, show=False)
                        ax = axs[0]
                        l2 = axs[1].get_lines()
                        ctx.check(len(l2) == nb and all(np.allclose(x.get_xdata(), bins ** 2) and np.allclose(x.get_ydata(), bins) for x in l2),
                                  "plot:dos", "")
                    elif mode == "sub":
                        fig, ax = path.subplots()
                        tk, lb = path.get_ticks()
                        ctx.check(np.allclose(ax.get_xticks(), tk) and [x.get_text() for x in ax.get_xticklabels()] == path.labels, "plot:subplots", "")
                        continue
                    else:
                        ax = path.plot_dispersion(disp, show=False, fill=mode == "fill", color="r" if nb == 1 else None)
                    lines = ax.get_lines()
                    ctx.check(len(lines) == nb, "plot:bands", lambda: len(lines))
                    for j, ln in enumerate(lines):
                        ctx.check(np.allclose(ln.get_xdata(), k) and np.allclose(ln.get_ydata(), disp[:, j]), "plot:band", lambda: f"{ln.get_xdata()} want {k}")
                    ctx.check(np.allclose(ax.get_xticks(), t), "plot:ticks", lambda: f"{ax.get_xticks()} want {t}")
                    ctx.check([x.get_text() for x in ax.get_xticklabels()] == path.labels, "plot:labels", "")
                    ctx.check(np.allclose(ax.get_xlim(), (0, t[-1])), "plot:xlim", lambda: ax.get_xlim())
                finally:
                    plt.close("all")
            ctx.state((idx, nb, nsec))
            ctx.outcome(tuple(k))
