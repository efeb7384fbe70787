"""C17  Atoms behave as named parameter mappings."""
import copy
import itertools
import pickle

import numpy as np

from .core import lattpy

ID = "C17"
BOUNDS = {
    "quick": "all sequences of at most 3 of 23 operations on an atom with five initial parameter sets; all 340 assignments "
    "of names (out of four) to one to four atoms x every pair of references (index, numpy index, name, object) for "
    "connections",
    "thorough": "as quick with sequences of at most 4 operations",
}
ASSUMPTIONS = [
    "parameters are not called like a property or method of the atom (name, weight, index, ...)",
    "an atom object that shares its name with others stands for any of them (equality is by name)",
]
INIT = [
    dict(name=None, weight=1.0, params={}),
    dict(name="B", weight=2.5, params=dict(radius=0.3, color="r")),
    dict(name="Cu", weight=0.0, params=dict(energy=1.5, tags=["x"])),
    dict(name="A", weight=1.0, params=dict(color=None, spin=0)),
    dict(name="A", weight=None, params={}),  # default weight
]
OPS = [
    ("set", "color", "b"), ("set", "energy", 2), ("set", "flag", None), ("attr", "radius", 0.7), ("attr", "energy", -1),
    ("attr", "weight", 9.0), ("attr", "name", "Z"), ("del", "radius"), ("del", "energy"), ("pop", "color"), ("pop", "tags", 5),
    ("popitem",), ("clear",), ("update", {"energy": 4, "u": [1]}), ("setdefault", "energy", 8), ("copy",), ("copymod",),
    ("deepcopy",), ("pickle",), ("spawn",), ("mutate",), ("other",), ("lattice",),
]
NAMES = ["A", "B", "AB", "C"]
POS = [[0.0, 0.0], [0.5, 0.0], [0.1, 0.5], [0.6, 0.7]]


def cases(tier):
    depth = 3 if tier == "quick" else 4
    out = [dict(part="ops", init=i, first=f, depth=depth) for i in range(len(INIT)) for f in range(len(OPS))]
    out += [dict(part="names", n=n, first=f) for n in range(1, 5) for f in range(4)]
    return out


class M:
    """The dictionary model."""

    def __init__(self, init):
        self.name = init["name"] or "A"
        self.weight = 1.0 if init["weight"] is None else init["weight"]
        self.p = dict(color=init["params"].get("color"), radius=init["params"].get("radius", 0.2))
        for k, v in init["params"].items():
            self.p[k] = copy.deepcopy(v)


MISSING = object()


def apply(ctx, lp, at, m, op, used):
    """Returns the atom to continue with."""
    k = op[0]
    p = m.p
    if k == "set":
        at[op[1]] = op[2]
        p[op[1]] = op[2]
    elif k == "attr":
        if op[1] in p:
            setattr(at, op[1], op[2])
            p[op[1]] = op[2]
        else:
            ctx.raises(AttributeError, lambda: setattr(at, op[1], op[2]), "attribute-unknown")
    elif k == "del":
        if op[1] in p:
            del at[op[1]]
            del p[op[1]]
        else:
            ctx.raises(KeyError, lambda: at.__delitem__(op[1]), "delete-missing")
    elif k == "pop":
        if op[1] in p:
            ctx.eq(at.pop(*op[1:]), p.pop(op[1]), "pop")
        elif len(op) > 2:
            ctx.eq(at.pop(*op[1:]), op[2], "pop-default")
        else:
            ctx.raises(KeyError, lambda: at.pop(op[1]), "pop-missing")
    elif k == "popitem":
        if p:
            key, val = at.popitem()
            ctx.check(key in p and p[key] == val, "popitem", f"{key} {val}")
            del p[key]
        else:
            ctx.raises(KeyError, at.popitem, "popitem-empty")
    elif k == "clear":
        at.clear()
        p.clear()
    elif k == "update":
        at.update(copy.deepcopy(op[1]))
        p.update(copy.deepcopy(op[1]))
    elif k == "setdefault":
        ctx.eq(at.setdefault(op[1], op[2]), p.setdefault(op[1], op[2]), "setdefault")
    elif k in ("copy", "copymod"):
        old, at = at, (at.copy() if k == "copy" else copy.copy(at))
        ctx.check(type(at) is lp.Atom and at is not old, "copy-object", "")
        ctx.check(at.index not in used, "copy-index", lambda: f"{at.index} in {used}")
        used.add(at.index)
        spoil(old)
    elif k == "deepcopy":
        old, at = at, copy.deepcopy(at)
        ctx.eq(at.index, old.index, "deepcopy-index")
        spoil(old)
    elif k == "pickle":
        at = pickle.loads(pickle.dumps(at))
    elif k == "spawn":
        new = at.copy()
        ctx.check(new == at and hash(new) == hash(at), "copy-equal", "")
        ctx.check(new.index not in used, "copy-index", "")
        used.add(new.index)
        spoil(new)
    elif k == "mutate":
        for v in at.values():
            if isinstance(v, list):
                v.append("y")
        for v in p.values():
            if isinstance(v, list):
                v.append("y")
    elif k == "other":
        o = lp.Atom(m.name, energy=77, radius=1.5)
        ctx.check(o.index not in used, "unique-index", lambda: f"{o.index} {used}")
        used.add(o.index)
        spoil(o)
    elif k == "lattice":
        # the atom is used, not copied, by the lattices it is added to
        for pos in (0.0, 0.5):
            latt = lp.Lattice([[1.0]])
            r = latt.add_atom([0.0], "X" if m.name != "X" else "Y")
            r2 = latt.add_atom([0.5], at)
            ctx.check(r2 is at and latt.atoms[1] is at and latt.get_alpha(at) == 1, "atom-added", "")
            ctx.check(r.name != m.name, "atom-named", "")
            spoil(r)
    return at


def spoil(at):
    for v in list(at.values()):
        if isinstance(v, list):
            v.append("spoiled")
    for key in list(at):
        at[key] = "spoiled"
    at["spoiled"] = 1
    if "radius" in at:
        del at["radius"]


def check(ctx, lp, at, m):
    p = m.p
    ctx.eq(dict(at), p, "items")
    ctx.eq(list(at), list(p), "iteration")
    ctx.eq(len(at), len(p), "len")
    ctx.check(list(at.keys()) == list(p) and list(at.values()) == list(p.values()) and list(at.items()) == list(p.items()),
              "views", "")
    for key in ("color", "radius", "energy", "tags", "flag", "u", "spin", "spoiled", "nope"):
        ctx.eq(key in at, key in p, "contains")
        ctx.eq(at.get(key), p.get(key), "get")
        ctx.eq(at.get(key, 42), p.get(key, 42), "get-default")
        if key in p:
            ctx.eq(at[key], p[key], "getitem")
            ctx.eq(getattr(at, key), p[key], "getattr")
        else:
            ctx.raises(KeyError, lambda: at[key], "getitem-missing")
            ctx.raises(AttributeError, lambda: getattr(at, key), "getattr-missing")
    ctx.eq(at.name, m.name, "name")
    ctx.eq(at.weight, m.weight, "weight")
    d = at.dict()
    for key, v in dict(p, name=m.name, index=at.index).items():
        ctx.check(key in d and d[key] == v, "dict", lambda: f"{key} {d}")
    d.clear()
    ctx.eq(dict(at), p, "dict-is-a-copy")
    ctx.eq(hash(at), hash(m.name), "hash")
    for other in ("A", "B", "Cu", "Z", "AB", ""):
        same = other == m.name
        ctx.check((at == other) is same and (at != other) is not same and (other == at) is same, "equal-name", other)
        if other:
            o = lp.Atom(other, radius=9.0, weight=3.0)
            ctx.check((at == o) is same and (at != o) is not same and at.is_identical(o) is same, "equal-atom", other)
            ctx.check((hash(at) == hash(o)) is same, "hash-atom", other)
            ctx.check(({o: 1}.get(at) == 1) is same and ({other: 1}.get(at) == 1) is same, "dict-key", other)
    ctx.check(m.name in repr(at) and isinstance(str(at), str), "repr", lambda: repr(at))


def run(case, ctx):
    lp = lattpy()
    if case["part"] == "names":
        return run_names(case, ctx, lp)
    init = INIT[case["init"]]
    for n in range(case["depth"]):
        for rest in itertools.product(OPS, repeat=n):
            seq = (OPS[case["first"]],) + rest
            ctx.begin("atom", init)
            m = M(init)
            kw = {} if init["weight"] is None else {"weight": init["weight"]}
            at = lp.Atom(init["name"], **kw, **copy.deepcopy(init["params"]))
            used = {at.index}
            for op in seq:
                ctx.op(op)
                at = apply(ctx, lp, at, m, op, used)
            check(ctx, lp, at, m)
            ctx.state((m.name, m.weight, tuple(m.p.items())))
            ctx.outcome((m.name, m.weight, tuple(m.p.items())))


def run_names(case, ctx, lp):
    n = case["n"]
    for dim in (2, 1):
        basis = np.eye(dim) * 1.5
        for names in itertools.product(NAMES, repeat=n):
            if names[0] != NAMES[case["first"]]:
                continue
            groups = {nm: [i for i in range(n) if names[i] == nm] for nm in names}

            def make():
                latt = lp.Lattice(basis)
                for i in range(n):
                    # by name, by object
                    a = names[i] if i % 2 == 0 else lp.Atom(names[i], color="C%d" % i)
                    if i == 2:
                        a = dict(name=names[i], e=-1, color="C2", t=0.5)
                    latt.add_atom([x for x in POS[i]][:dim] if dim == 2 else [i * 0.3], a, **({"e": i} if i % 2 == 0 else {}))
                return latt

            ctx.begin("lattice", dim, names)
            latt = make()
            ctx.check(latt.num_base == n and [a.name for a in latt.atoms] == list(names), "atoms", "")
            ctx.op("lookup")
            for i in range(n):
                at = latt.atoms[i]
                ctx.check(latt.get_atom(i) is at and latt.get_atom(at) is at, "get_atom", i)
                ctx.check(latt.get_atom(np.int64(i)) is at and latt.get_atom(np.uint8(i)) is at, "get_atom-numpy", i)
                ctx.check(latt.get_atom(i - n) is at, "get_atom-negative", i)
                ctx.eq(latt.get_alpha(i), i, "get_alpha-index")
                a = latt.get_alpha(at)
                ctx.check(a in groups[names[i]] and np.ndim(a) == 0, "get_alpha-atom", lambda: f"{i} -> {a}")
                for eq in (at.copy(), lp.Atom(names[i]), lp.Atom(names[i], color="r", weight=2.0)):
                    a = latt.get_alpha(eq)
                    ctx.check(a in groups[names[i]] and np.ndim(a) == 0, "get_alpha-equal-atom", lambda: f"{i} -> {a}")
                if i % 2 == 0:
                    ctx.eq(at["e"], i, "atom-parameters")
                if i == 2:
                    ctx.eq((at["color"], at["t"], at.radius), ("C2", 0.5, 0.2), "atom-dict")
                    hash(at)
            for nm in NAMES + ["nope", "a", ""]:
                ctx.eq(list(latt.get_alpha(nm)), groups.get(nm, []), "get_alpha-name")
                if nm in groups:
                    ctx.check(latt.get_atom(nm) is latt.atoms[groups[nm][0]], "get_atom-name", nm)
                else:
                    ctx.raises(ValueError, lambda: latt.get_atom(nm), "get_atom-unknown")
                    ctx.raises(ValueError, lambda: latt.get_alpha(lp.Atom(nm or "none")), "get_alpha-unknown")
            for two in (True, False):
                d = latt.get_base_atom_dict(atleast2d=two)
                ctx.check(len(d) == len(groups), "base-atom-dict", lambda: d)
                for nm, g in groups.items():
                    want = [list(latt.atom_positions[i]) + ([0] if two and dim == 1 else []) for i in g]
                    got = [list(np.atleast_1d(x)) for x in d[nm]]
                    ctx.check(got == want, "base-atom-dict", lambda: f"{nm}: {got} want {want}")
            # connections by every kind of reference
            refs = [("idx", i, [i]) for i in range(n)] + [("np", np.int64(i), [i]) for i in range(n)]
            refs += [("name", nm, g) for nm, g in groups.items()]
            objs = [("obj", i, [i]) for i in range(n) if len(groups[names[i]]) == 1]
            objs += [("equal", i, [i]) for k, i, g in objs]
            allrefs = refs + objs
            ctx.state((dim, names))
            for (k1, r1, g1), (k2, r2, g2) in itertools.product(allrefs, repeat=2):
                if n == 4 and (k1 == "np" or k2 == "np"):
                    continue
                latt.add_connections(0, analyze=False)
                latt.add_connection(0, 0, 3)
                a1 = latt.atoms[r1] if k1 == "obj" else lp.Atom(names[r1]) if k1 == "equal" else r1
                a2 = latt.atoms[r2] if k2 == "obj" else lp.Atom(names[r2]) if k2 == "equal" else r2
                ctx.op(("connect", k1, r1, k2, r2))
                latt.add_connection(a1, a2, 2)
                want = np.zeros((n, n), int)
                want[0, 0] = 3
                for i, j in itertools.product(g1, g2):
                    want[i, j] = want[j, i] = 2
                got = np.array(latt.todict()["connections"])
                ctx.check(np.array_equal(got, want), "connections", lambda: f"{k1} {r1} {k2} {r2}: {got} want {want}")
                ctx.outcome((names, want.tolist()))

