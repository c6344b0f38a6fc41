"""C20...: the Python layer (with stand-ins for the extension module and matplotlib)"""
import os
import random
from runner import *
from kpm_checks import scenarios


def driver(name):
    return os.path.join(VERIF, "harness", name)


# ------------------------------------------------------------------ C20: results
SUBS = [("A", ""), ("B", "1"), ("B", "2")]
HOPS = [("t", ""), ("u", "1"), ("u", "2"), ("B", "")]


def index(r, n, step=True):
    k = r.choice(["mask", "list", "slice", "slice", "mask"])
    if k == "mask":
        p = r.choice([0.0, 0.3, 0.6, 0.9, 1.0])
        return {"kind": "mask", "mask": [r.random() < p for _ in range(n)]}
    if k == "list" and n:
        return {"kind": "list", "list": [r.randrange(-n, n) for _ in range(r.choice([1, 2, 3, n]))], "array": True}
    if k == "slice":
        a, b = r.randint(0, n), r.randint(0, n + 1)
        if r.random() < 0.7:
            a, b = min(a, b), max(a, b)
        return {"kind": "slice", "start": a, "stop": b, "step": r.choice([1, 1, 2, 3]) if step else 1}
    return {"kind": "slice", "start": 0, "stop": n, "step": 1}


def selected(idx, n):
    if idx["kind"] == "mask":
        return sum(idx["mask"])
    if idx["kind"] == "list":
        return len(idx["list"])
    if idx["kind"] == "int":
        return 1
    return len(range(n)[idx["start"]:idx["stop"]:idx["step"]])


def maps(r):
    n = r.choice([1, 2, 3, 4, 6, 9])
    kind = r.choice(["structure", "structuremap", "structuremap", "spatial"])

    def names(of):
        order = list(range(len(of)))
        r.shuffle(order)
        return [[a, b, k] for (a, b), k in zip(r.sample(of, len(of)), order)]

    def hops():
        m, seen = [], set()
        for _ in range(r.choice([0, 1, 2, n, 2 * n])):
            i, j = r.randrange(n), r.randrange(n)
            if (i, j) not in seen:
                seen.add((i, j))
                m.append([i, j, r.randrange(4)])
        return m
    new = {"op": "map", "kind": kind, "names": names(SUBS), "hopnames": names(HOPS), "missing": kind != "structure" and r.random() < 0.05,
           "sites": [[r.randint(-2, 2), r.randint(-2, 2), r.choice([0, 0, 1]), r.randrange(3), r.randint(-9, 9)] for _ in range(n)],
           "hops": hops() if kind != "spatial" else [],
           "bounds": [[[r.randint(-3, 3), r.randint(-3, 3), 0], hops()] for _ in range(r.choice([0, 0, 1, 2]))] if kind != "spatial" else []}
    ops = [new]
    new["nosub"] = kind == "spatial" and r.random() < 0.3
    if new["nosub"]:        # no sublattices were given
        new["names"] = []
        for s in new["sites"]:
            s[3] = 0
    if new["missing"]:
        return ops
    objs = [(kind, [0] * n)]       # (kind, sites): the numbers of sites which may not be known are -1
    sizes = [n]
    kinds = [kind]
    for _ in range(r.randint(2, 6)):
        of = r.randrange(len(sizes))
        n, kind = sizes[of], kinds[of]
        x = r.random()
        if x < 0.4 and n is not None:
            idx = index(r, n)
            ops.append({"op": "select", "of": of, "idx": idx})
            sizes.append(selected(idx, n))
            kinds.append(kind)
        elif x < 0.5 and new["nosub"]:
            pass
        elif x < 0.5:
            ops.append({"op": "named", "of": of, "name": r.choice(["A", "B", "B|1", "C", "1"]), "equal": r.random() < 0.6})
            sizes.append(None)
            kinds.append(kind)
        elif x < 0.65:
            lim = []
            shape = r.random() < 0.4
            for name in r.sample(["x", "y", "z"] + ([] if shape else ["sub"] + (["data"] if kind != "structure" else [])), r.choice([1, 1, 2])):
                a, b = r.randint(-3, 3), r.randint(-3, 3)
                lim.append([name, min(a, b), max(a, b) + r.choice([0, 1])])
            ops.append({"op": "crop", "of": of, "limits": lim, "shape": shape})
            sizes.append(None)
            kinds.append(kind)
        elif x < 0.72 and n is not None:
            ops.append({"op": "data", "of": of, "data": [r.randint(-9, 9) for _ in range(n)]})
            sizes.append(n)
            kinds.append("structuremap" if kind == "structure" else kind)
        elif x < 0.8 and kind != "structure":
            a, b = sorted([r.randint(-9, 9), r.randint(-9, 9)])
            ops.append({"op": "clip", "of": of, "lo": a, "hi": b})
            sizes.append(n)
            kinds.append(kind)
        elif x < 0.83 and kind != "structure":
            ops.append({"op": "txt", "of": of})
        elif x < 0.87 and kind == "structuremap":
            ops.append({"op": "spatial", "of": of})
            sizes.append(n)
            kinds.append("spatial")
        elif x < 0.93:
            ops.append({"op": "copy", "of": of, "how": r.choice(["pickle", "protocol", "plain", "file.pbz", "file.x", "pathlib", "old", "other version"])})
            sizes.append(n)
            kinds.append(kind)
        elif n:
            ops.append({"op": "nearest", "of": of, "at": [r.randint(-3, 3) for _ in range(r.choice([1, 2, 3, 3]))], "sub": r.choice([-1, -1, 0, 1, 2])})
    for of in range(len(sizes)):
        ops.append({"op": "look", "of": of, "names": [] if new["nosub"] else ["A", "B", "B|2", "t"], "hopnames": ["t", "u", "u|1", "B"]})
    return ops


def sweeps(r):
    def axis(n):
        v = [0]
        while len(v) < n:
            v.append(v[-1] + r.choice([1, 1, 2, 3]))
        if r.random() < 0.5:
            s = r.randint(-4, 4)
            v = [a + s for a in v]
        return v
    nx, ny = r.choice([1, 2, 3, 5]), r.choice([1, 2, 3, 4])
    ops = [{"op": "sweep", "x": axis(nx), "y": axis(ny), "data": [[r.randint(-9, 9) for _ in range(ny)] for _ in range(nx)]}]
    sizes = [(nx, ny)]
    for _ in range(r.randint(2, 6)):
        of = r.randrange(len(sizes))
        nx, ny = sizes[of] or (None, None)
        x = r.random()
        if x < 0.4 and nx and ny:
            simple = [{"kind": "int", "i": 0}, {"kind": "slice", "start": 0, "stop": 99, "step": 1}]

            def some(n, single):
                if single and r.random() < 0.3:
                    return {"kind": "int", "i": r.randrange(-n, n)}
                return index(r, n)
            both = r.random() < 0.6
            ix, iy = some(nx, True), some(ny, True)
            if both and ix["kind"] in ("mask", "list") and iy["kind"] != "slice":
                iy = {"kind": "slice", "start": 0, "stop": ny, "step": 1}
            if both and iy["kind"] in ("mask", "list") and ix["kind"] != "slice":
                ix = {"kind": "slice", "start": 0, "stop": nx, "step": 1}
            a, b = selected(ix, nx), selected(iy, ny) if both else ny
            if a and b:
                ops.append({"op": "get", "of": of, "ix": ix, "iy": iy, "both": both})
                sizes.append((a, b))
        elif x < 0.6:
            def lim():
                a, b = sorted([r.randint(-4, 6), r.randint(-4, 9)])
                return r.choice([[], [a, b], [a, b]])
            c = {"op": "limits", "of": of, "x": lim(), "y": lim()}
            ops.append(c)
            sizes.append(None)
        elif x < 0.75 and nx and ny:
            a = r.choice(["x", "y", "x", "y", "z"])
            ops.append({"op": "mirror", "of": of, "axis": a})
            if a != "z":
                sizes.append((2 * nx - 1, ny) if a == "x" else (nx, 2 * ny - 1))
        elif x < 0.85 and nx and ny:
            ops.append({"op": "slices", "of": of, "x": r.randint(-5, 9), "y": r.randint(-5, 9)})
        elif of == 0 and nx > 1:
            how, k, j = r.choice(["steps", "steps", "size", "mul", "mul", "none"]), r.choice([1, 2, 3]), r.choice([1, 2]) if ny > 1 else 1
            if how == "mul":
                to, kw = [nx * k, ny * j], {"mul": k if j == 1 and r.random() < 0.5 else [k, j]}
            elif how == "none":
                to, kw = [nx, ny], {}
            else:
                to = [(nx - 1) * k + 1, (ny - 1) * j + 1] if how == "steps" else [r.randint(2, 9), r.randint(2, 6) if ny > 1 else ny]
                kw = {"size": to[0] if to[1] == ny and r.random() < 0.5 else [0 if n == m and r.random() < 0.5 else n for n, m in zip(to, (nx, ny))]}
            ops.append({"op": "refine", "of": 0, "nx": to[0], "ny": to[1], "kw": kw})
    # (the axes of the refined sweep have to be uniform)
    for o in ops:
        if o["op"] == "refine":
            s, t = r.choice([1, 2]), r.choice([1, 3])
            ops[0]["x"] = [s * i for i in range(len(ops[0]["x"]))]
            ops[0]["y"] = [t * i for i in range(len(ops[0]["y"]))]
    for of, s in enumerate(sizes):
        if s:
            ops.append({"op": "look", "of": of})
    return ops


VEC2 = [[1, 0], [0, 2], [-3, 0], [3, 4], [-4, 3], [0, -1], [2, 0], [6, 8]]


def paths(r):
    ops = []
    for _ in range(r.randint(1, 3)):
        x = r.random()
        if x < 0.6:
            dim = r.choice([1, 1, 2, 2, 3])
            p = [[r.randint(-3, 3) for _ in range(dim)]]
            for _ in range(r.choice([1, 1, 2, 3])):
                if dim == 1:
                    d = [r.choice([1, 2, 3, 4, 5, 6, -1, -2, -4])]
                else:
                    d = r.choice(VEC2) + [0] * (dim - 2)
                    r.shuffle(d)
                p.append([a + b for a, b in zip(p[-1], d)])
            lists = dim > 1 or r.random() < 0.5
            if r.random() < 0.08:
                p[r.randrange(1, len(p))] = [1, 1] if dim != 2 else [1]
                lists = True
            ops.append({"op": "path", "points": p, "step": r.choice([1, 1, 2, 3]), "lists": lists})
        elif x < 0.8:
            lens = [r.choice([1, 2, 3]) for _ in range(r.choice([1, 2, 3]))]
            n = 1
            for k in lens:
                n *= k
            ops.append({"op": "nd", "lens": lens, "flat": [r.randint(-9, 9) for _ in range(n)]})
        else:
            n, m = r.choice([1, 2, 4]), r.choice([1, 2, 3])
            ops.append({"op": "series", "variable": [r.randint(-9, 9) for _ in range(n)],
                        "data": [[r.randint(-9, 9) for _ in range(m)] for _ in range(n)]})
    # segments have at most 6 steps (coordinates are multiples of 1/60)
    for o in ops:
        if o["op"] == "path":
            for a, b in zip(o["points"], o["points"][1:]):
                if len(a) == len(b):
                    length = sum((s - t) ** 2 for s, t in zip(a, b)) ** 0.5
                    while length // o["step"] > 6:
                        o["step"] += 1
    return ops


def one(kind):
    def f(r):
        return {"id": 0, "ops": kind(r)}
    f.__name__ = kind.__name__
    return f


# ------------------------------------------------------------------ C21: modifiers
ARGS = {"site_state": ["state", "x", "y", "z", "sub_id", "sites"], "site_position": ["x", "y", "z", "sub_id", "sites"],
        "onsite": ["energy", "x", "y", "z", "sub_id", "sites"], "hopping": ["energy", "x1", "y1", "z1", "x2", "y2", "z2", "hop_id"],
        "site_generator": ["system", "x", "y", "z"], "hopping_generator": ["system", "x", "y", "z"]}
LAYOUTS = ["plain", "plain", "inplace", "inplace", "fortran", "copy_view", "core_order", "core_order_owned", "swapped", "core_swapped", "columns",
           "first_column", "reversed", "reversed_all", "offset", "repeated", "row", "readonly"]
TYPES = [("b", 8), ("i", 8), ("i", 32), ("i", 64), ("f", 32), ("f", 64), ("c", 64), ("c", 128)]
NAMES = [("A", "A"), ("B|1", "B"), ("A|2", "A"), ("t_nn", "t_nn"), ("t|x", "t")]


def modifiers(r):
    ops = []
    made = []
    for _ in range(r.choice([1, 1, 2])):
        kind = r.choice(list(ARGS) + ["onsite", "hopping", "onsite", "site_position"])
        words = ARGS[kind]
        args = r.sample(words, r.randint(0, len(words)))
        if r.random() < 0.08:
            args.insert(r.randint(0, len(args)), r.choice(["w", "hop_id" if "hop_id" not in words else "sub_id", "x1" if "x1" not in words else "x"]))
        opts = []
        if kind == "site_state" and r.random() < 0.4:
            opts.append(["min_neighbors", r.randint(0, 3)])
        if kind in ("onsite", "hopping") and r.random() < 0.3:
            opts.append([r.choice(["is_double", "is_double", "double"]), r.randint(0, 1)])
        if kind == "hopping" and r.random() < 0.3:
            opts.append(["is_complex", r.randint(0, 1)])
        o = {"op": "make", "kind": kind, "args": args, "opts": opts, "paren": r.random() < 0.3, "factory": r.choice(["made", "field"]),
             "a": r.randint(-3, 9), "b": r.randint(0, 9)}
        if kind.endswith("generator"):
            o.update(name=r.choice(["new", "C"]), energy=r.randint(-3, 3))
        ops.append(o)
        if set(args) <= set(words):
            made.append(o)
    for _ in range(r.randint(1, 4)):
        if not made:
            break
        of = r.randrange(len(made))
        m = made[of]
        n = r.choice([1, 2, 3, 5])
        if m["kind"].endswith("generator"):
            k = r.choice([1, 2, 4])
            res = []
            for _ in range(3 if m["kind"] == "site_generator" else 2):
                mask = m["kind"] == "hopping_generator" and r.random() < 0.4
                res.append({"mask": mask, "array": r.random() < 0.6,
                            "vals": [r.randint(0, 1) for _ in range(n)] if mask else [r.randint(0, 5) for _ in range(k)]})
            ops.append({"op": "generate", "of": of, "pos": [[r.randint(-5, 5) for _ in range(n)] for _ in range(3)], "results": res})
            continue
        a = b = 1
        if m["kind"] in ("onsite", "hopping") and r.random() < 0.6:
            a = b = r.choice([1, 2, 2, 3])
            if m["kind"] == "hopping" and r.random() < 0.5:
                b = r.choice([1, 2, 3])
        t = ("b", 8) if m["kind"] == "site_state" else ("f", 32) if m["kind"] == "site_position" else r.choice(TYPES[4:])

        def values(t, num):
            same = r.random() < 0.2
            v = [[r.randint(0, 1) if t[0] == "b" else r.randint(-9, 9), r.randint(-9, 9) if t[0] == "c" else 0] for _ in range(num)]
            return v[:1] * num if same else v
        pos = [[r.randint(-5, 5) for _ in range(n)] for _ in range(6 if m["kind"] == "hopping" else 3)]
        full, first = r.choice(NAMES)
        results = []
        num = 3 if m["kind"] == "site_position" else 1
        odd = r.random() < 0.15
        if odd and r.random() < 0.3:
            num = r.choice([1, 2, 3])
        wrong = [r.choice([-1, 0, 1]) for _ in range(num)] if odd and r.random() < 0.5 else [0] * num
        for j in range(num):
            size = n * a * b + wrong[j]
            x = r.random()
            rt = t if x < 0.6 else r.choice([u for u in TYPES if "bifc".index(u[0]) <= "bifc".index(t[0])]) if x < 0.85 else \
                r.choice(TYPES) if odd or m["kind"] in ("site_state", "site_position") else r.choice(TYPES)
            results.append({"kind": rt[0], "bits": rt[1], "vals": values(rt, size), "layout": r.choice(LAYOUTS) if size == n * a * b else "plain",
                            "array": not (odd and r.random() < 0.3)})
        ops.append({"op": "apply", "of": of, "prime": {"kind": t[0], "bits": t[1], "n": n, "a": a, "b": b, "vals": values(t, n * a * b)},
                    "pos": pos, "name": {"full": full, "first": first},
                    "tests": r.sample(["A", "B", "B|1", "1", "A|2", "t_nn", "t", "t|x", ""], 4), "results": results, "tuple": num > 1 or r.random() < 0.1})
    if r.random() < 0.15:
        which = r.choice(["constant_potential", "constant_potential", "force_double_precision", "force_complex_numbers"])
        n, a, t = r.choice([1, 2, 3, 5]), r.choice([1, 1, 2, 3]), r.choice(TYPES[4:])
        b = r.choice([a, 1, 2]) if which == "force_complex_numbers" else a
        ops.append({"op": "preset", "which": which, "magnitude": r.randint(-9, 9), "prime": {"kind": t[0], "bits": t[1], "n": n, "a": a, "b": b,
                    "vals": [[r.randint(-9, 9), r.randint(-9, 9) if t[0] == "c" else 0] for _ in range(n * a * b)]},
                    "pos": [[r.randint(-5, 5) for _ in range(n)] for _ in range(6 if which == "force_complex_numbers" else 3)], "name": {"full": "A", "first": "A"}})
    return ops


# ------------------------------------------------------------------ C22: parameter sweeps
def sweeping(r):
    kind = r.choice(["sweep", "ndsweep", "ndsweep", "plain"])
    nvars = 1 if kind == "sweep" else r.choice([1, 2, 2, 3])
    names = r.sample(["a", "b", "v"], nvars)

    def axis():
        n = r.choice([1, 2, 3, 4, 7]) if nvars < 3 else r.choice([1, 2, 3])
        return sorted(r.sample(range(-9, 10), n))
    vs = [axis() for _ in names]
    if kind != "ndsweep" and r.random() < 0.3:
        vs[0] = sorted(r.sample(range(-9, 10), r.choice([11, 15])))
    fixed = [[k, r.randint(1, 9)] for k in r.sample(["p", "q", "w"], r.choice([0, 0, 1, 2]))]
    order = names + [k for k, _ in fixed]
    if r.random() < 0.4:
        order = r.sample(order, len(order))
        names, vs = [k for k in order if k in names], [vs[names.index(k)] for k in order if k in names]
    if kind != "plain":
        order = order + ["energy"] if r.random() < 0.7 else order[:1] + ["energy"] + order[1:]
    n = 1
    for v in vs:
        n *= len(v)
    status = r.random() < 0.8
    file = r.random() < 0.5
    return [{"op": "run", "kind": kind, "names": names, "vars": vs, "fixed": fixed, "order": order, "energy": [r.randint(-5, 5) for _ in range(r.choice([1, 2, 3]) if kind != "plain" else 1)],
             "threads": r.choice([1, 2, 3, 4]), "queue": r.choice([1, 2, 3]), "every": r.choice([10, 10, 25, 34, 50, 100, 5]), "schedule": r.randrange(10 ** 6),
             "fail": r.randint(1, n) if r.random() < 0.06 else 0, "column": r.random() < 0.3, "arrays": r.random() < 0.5, "status": status, "file": file,
             "log": file and status and r.random() < 0.8, "stream": r.random() < 0.5, "plot": r.random() < 0.6, "plotfails": r.random() < 0.3}]


def sweep_trace(scenario, result):
    c = dict(scenario["ops"][0])
    return {"id": scenario["id"], "aspects": [], "cfg": c, "ev": result["ev"]}


# ------------------------------------------------------------------ C23: solutions of Hamiltonians
def orbital_system(r):
    """Sites in groups with an id and a number of orbitals each, not more than 12 rows"""
    ids = r.sample([0, 1, 2, 5], r.choice([1, 2, 2, 3]))
    groups, rows = [], 0
    for i in ids:
        norb = r.choice([1, 1, 2, 3])
        n = r.choice([1, 2, 3])
        n = min(n, (12 - rows) // norb)
        if n:
            groups.append([i, n, norb])
            rows += n * norb
    if r.random() < 0.3:
        groups = [[i, n, 1] for i, n, _ in groups]
    total = sum(g[1] for g in groups)
    spots = r.sample([[x, y] for x in range(-4, 5, 2) for y in range(-4, 5, 2)], total)
    names = [[c, i] for c, i in zip("ABCD", [0, 1, 2, 5])]
    return {"groups": groups, "sites": spots, "names": names}, sum(g[1] * g[2] for g in groups)


def spectra_model(r, op, given, distinct):
    o, n = orbital_system(r)
    o.update(op=op, unit=r.choice([1, 0.5, 4]), blocks=[], pairs=[], phase=r.random() < 0.3)
    moves = r.random() < 0.5

    def w():
        return [r.choice([0, 1, -1]), r.choice([0, 0, 1, -1])] if moves else [0, 0]
    if given:
        k = r.choice([n, n, r.randint(1, n)])
        values = r.sample(range(-6, 7), k) if distinct else [r.randint(-3, 3) for _ in range(k)]
        o["pairs"] = [[v, w() if not distinct else [0, 0], [[r.choice([0, 0, 1, -1, 2]), r.choice([0, 0, 1])] for _ in range(n)]] for v in values]
    else:
        rows = list(range(n))
        r.shuffle(rows)
        while rows:
            i = rows.pop()
            j = rows.pop() if rows and r.random() < 0.6 else i
            o["blocks"].append([i, j, r.randint(-3, 3), r.choice([0, 1, 1, -2]) if i != j else 0, w()])
    return o, n


def near_point(r, o, sub=None):
    """A point with a unique closest site"""
    ids = [g[0] for g in o["groups"] for _ in range(g[1])]
    while True:
        p = [r.randint(-5, 5), r.randint(-5, 5)]
        d = sorted((p[0] - x) ** 2 + (p[1] - y) ** 2 for (x, y), i in zip(o["sites"], ids) if sub is None or i == sub)
        if len(d) < 2 or d[0] < d[1]:
            return p


def lead_blocks(r, n):
    rows, blocks = list(range(n)), []
    r.shuffle(rows)
    real = r.random() < 0.4
    step = r.choice([1, 2])
    while rows:
        i = rows.pop()
        j = rows.pop() if rows and r.random() < 0.6 else i
        b0, b1 = r.choice([(3, 4), (0, 2), (1, 0), (-4, 3), (0, -5)]) if step == 1 else (r.randint(-4, 4), r.randint(-4, 4))
        blocks.append([i, j, r.randint(-4, 4), b0 if i != j else 0, [r.randint(-3, 3), 0 if real else r.randint(-3, 3)], b1 if i != j else 0])
    h0 = [[[0, 0] for _ in range(n)] for _ in range(n)]
    h1 = [[[0, 0] for _ in range(n)] for _ in range(n)]
    for i, j, a0, c0, a1, c1 in blocks:
        for q in {i, j}:
            h0[q][q], h1[q][q] = [a0, 0], list(a1)
        if i != j:
            h0[i][j] = h0[j][i] = [c0, 0]
            h1[i][j] = [c1, 0]
    a = r.choice([-2, -2, 0, -4])
    return {"op": "lead", "blocks": blocks, "h0": h0, "h1": h1, "real": real, "start": a, "stop": a + r.choice([2, 4, 4]), "step": step}


def arpack(r):
    """The levels closest to a value, which are distinct"""
    while True:
        values = r.sample(range(-9, 10), r.randint(4, 9))
        k, sigma = r.randint(1, len(values) - 2), r.choice([0, 0, 1, -7, 9, 21, -13])      # sigma in quarters
        d = sorted(abs(4 * v - sigma) for v in values)
        if d[k - 1] < d[k] and (sigma % 4 or sigma == 0):
            return {"op": "arpack", "values": values, "k": k, "sigma": sigma}


def spectra(r):
    given, distinct = r.random() < 0.6, r.random() < 0.4
    m, n = spectra_model(r, "solver", given, distinct)
    ops = [m]
    for _ in range(r.randint(4, 10)):
        x = r.random()
        pairs = len(m["pairs"]) or sum(1 if b[0] == b[1] else 2 for b in m["blocks"])
        if x < 0.12:
            m, n = spectra_model(r, "set_model", given, distinct)
            ops.append(m)
        elif x < 0.17 and given:
            ops.append({"op": "fail", "times": r.choice([1, 1, 2])})
        elif x < 0.22:
            ops.append({"op": "clear"})
        elif x < 0.30:
            ops.append({"op": "wave", "k": [r.randint(-2, 2) for _ in range(r.choice([1, 2]))]})
        elif x < 0.40:
            ops.append({"op": r.choice(["solve", "values", "pairs", "pairs"])})
        elif x < 0.50:
            ops.append({"op": "eigenvalues", "at": near_point(r, m), "form": r.choice(["none", "list", "list", "array", "tuple"])})
        elif x < 0.60:
            scalar = r.random() < 0.6
            reduce = r.choice([1, 1, 1, 3, 5]) if scalar else 1
            if scalar and given and distinct and r.random() < 0.4:
                reduce = 0
            if scalar or (given and distinct):
                ops.append({"op": "probability", "scalar": scalar, "n": r.randrange(pairs) if scalar else r.sample(range(pairs), r.randint(1, pairs)), "reduce": reduce})
        elif x < 0.66:
            ops.append({"op": "dos", "energies": [r.randint(-4, 4) for _ in range(r.choice([1, 1, 2, 3, 4]))]})
        elif x < 0.76:
            sub = r.choice([""] + [c for c, i in m["names"] if i in [g[0] for g in m["groups"]]])
            subid = dict((c, i) for c, i in m["names"]).get(sub, -1)
            ops.append({"op": "ldos", "energies": [r.randint(-4, 4) for _ in range(r.choice([1, 2, 3, 4]))], "sub": sub, "subid": subid,
                        "at": near_point(r, m, None if sub == "" else subid), "reduce": r.random() < 0.5})
        elif x < 0.82:
            ops.append({"op": "spatial", "energies": [r.randint(-3, 3)]})
        elif x < 0.87:
            dim, points = r.choice([1, 2]), []
            p = [r.randint(-2, 2) for _ in range(dim)]
            points.append(list(p))
            step = r.choice([1, 1, 2, 3])
            for _ in range(r.choice([1, 1, 2, 3])):
                p[r.randrange(dim)] += r.choice([1, -1]) * r.randint(1, 6)
                points.append(list(p))
            ops.append({"op": "bands", "points": points, "step": step})
        elif x < 0.90:
            ops.append({"op": "degenerate", "values": sorted(r.randint(-5, 5) for _ in range(r.randint(1, 9))), "tol": r.choice([1, 1, 3])})
        elif x < 0.95:
            size = r.choice([n, n, n, len(m["sites"]), n + 1])
            ops.append({"op": "reduce", "data": [r.randint(-9, 9) for _ in range(size)]})
        elif x < 0.955:
            ops.append(arpack(r))
        elif x < 0.975:
            ops.append(lead_blocks(r, r.choice([1, 2, 3, 4])))
        else:
            def mat(a, b):
                return [[[r.choice([0, 0, 1, 2]), r.choice([0, 0, -1])] for _ in range(b)] for _ in range(a)]
            ops.append({"op": "kwant", "sparse": r.random() < 0.5, "h": mat(n, n), "h0": mat(2, 2), "h1": mat(2, 2), "contact": [0, r.randrange(4)]})
    return ops


def spectra_trace(scenario, result):
    t = merge(scenario, result)
    for e in t["ev"]:
        if e["op"] == "probability" and e["scalar"]:
            e["n"] = [e["n"]]
    return t


# ------------------------------------------------------------------ C24: shapes and reciprocal geometry
def polygon(r):
    while True:
        vs = [[r.randint(-6, 6), r.randint(-6, 6)] for _ in range(r.choice([3, 3, 4, 4, 5, 6]))]
        area = sum(a[0] * b[1] - a[1] * b[0] for a, b in zip(vs, vs[1:] + vs[:1]))
        flat = all((b[0] - vs[0][0]) * (vs[1][1] - vs[0][1]) == (b[1] - vs[0][1]) * (vs[1][0] - vs[0][0]) for b in vs)
        if area and not flat and len({tuple(v) for v in vs}) == len(vs):
            return vs


def reduced_reach(vs):
    """How far the closest reciprocal lattice points are combinations of the given vectors"""
    (a, b), (c, d) = vs
    v, w = ((d, -c), (1, 0)), ((-b, a), (0, 1))
    def n2(x):
        return x[0][0] ** 2 + x[0][1] ** 2
    while True:
        if n2(w) < n2(v):
            v, w = w, v
        n = round((v[0][0] * w[0][0] + v[0][1] * w[0][1]) / n2(v))
        if n == 0:
            break
        w = tuple(tuple(q - n * p for p, q in zip(x, y)) for x, y in zip(v, w))
    return max(abs(v[1][k]) + abs(w[1][k]) for k in (0, 1)) + 1


def shapes(r):
    ops, dims = [], []

    def points():
        deep = any(d > 2 for d in dims) or r.random() < 0.1
        line = dims and max(dims) == 1
        return [[r.randint(-9, 9), 0 if line and r.random() < 0.7 else r.randint(-9, 9), r.randint(-4, 4) if deep and r.random() < 0.8 else 0] for _ in range(40)]
    only = r.choice([None, None, None, 1, 3])       # one kind of freeform shapes
    for _ in range(r.randint(2, 7)):
        x = r.random()
        n = len(dims)
        if only and x < 0.3 or 0.24 <= x < 0.36:
            d = only or r.choice([1, 2, 2, 3])
            width = [2 * r.randint(1, 5) for _ in range(d)]
            center = [r.randint(-3, 3) for _ in range(r.choice([0, d, d, 3, r.randint(1, 3)]))]
            full = center + [0] * 3
            ranges = [[full[k] - width[k] // 2, full[k] + width[k] // 2] if k < d else [full[k] - 1, full[k] + 1] for k in range(3)]
            ops.append({"op": "box", "width": width, "center": center, "explicit": bool(center) or r.random() < 0.5, "box": ranges})
            if ops[-1]["explicit"] and not center:
                ops[-1]["center"] = [0, 0, 0]
            dims.append(d)
        elif x < 0.10:
            ops.append({"op": "polygon", "vertices": polygon(r)})
            if r.random() < 0.05:
                ops[-1]["vertices"] = ops[-1]["vertices"][:2]
            else:
                dims.append(2)
        elif x < 0.15:
            ops.append({"op": "rectangle", "sides": [2 * r.randint(1, 8) for _ in range(r.choice([1, 2]))]})
            dims.append(2)
        elif x < 0.18:
            ops.append({"op": "regular", "radius": r.randint(1, 8), "quarters": r.randint(-1, 3)})
            dims.append(2)
        elif x < 0.24:
            ops.append({"op": "circle", "radius": r.randint(1, 8), "center": [r.choice([0, r.randint(-4, 4)]) for _ in range(2)]})
            dims.append(2)
        elif x < 0.58 and n:
            a, b = r.randrange(n), r.randrange(n)
            ops.append({"op": "compose", "how": r.choice(["and", "or", "xor", "add", "sub"]), "a": a, "b": b})
            dims.append(max(dims[a], dims[b]))
        elif x < 0.74 and n:
            a = r.randrange(n)
            ops.append({"op": "offset", "of": a, "by": [r.randint(-3, 3) for _ in range(r.choice([1, 2, 2, 3]))], "array": r.random() < 0.5})
            dims.append(dims[a])
        elif x < 0.78 and n:
            ops.append({"op": "look", "look": r.randrange(n)})
        elif x < 0.82 and n:
            ops.append({"op": "draw", "look": r.randrange(n), "fine": r.choice([1, 1, 1, 2])})
        elif x < 0.87:
            d = r.choice([1, 2])
            ops.append({"op": "line", "a": [r.randint(-9, 9) for _ in range(d)], "b": [r.randint(-9, 9) for _ in range(d)],
                        "by": [r.randint(-5, 5) for _ in range(r.choice([0, 1, 2, 2]))], "array": r.random() < 0.5})
        elif x < 0.90:
            args, expected = {}, [0, 0, 0]
            for k in range(3):
                v = r.choice([None, True, False, r.randint(1, 9)])
                if v is not None:
                    args["a%d" % (k + 1)] = v if isinstance(v, bool) else v / 2
                    expected[k] = 0 if v is True else -2 if v is False else v
            ops.append({"op": "symmetry", "args": args, "expected": expected})
        else:
            d = r.choice([1, 2, 2, 2, 3])
            while True:
                m = 7 if d == 2 else 3
                vs = [[r.randint(-m, m) for _ in range(d)] for _ in range(d)]
                det = vs[0][0] if d == 1 else vs[0][0] * vs[1][1] - vs[0][1] * vs[1][0] if d == 2 else \
                    sum(vs[0][k] * (vs[1][(k + 1) % 3] * vs[2][(k + 2) % 3] - vs[1][(k + 2) % 3] * vs[2][(k + 1) % 3]) for k in range(3))
                if det and abs(det) <= 40:
                    reach = reduced_reach(vs) if d == 2 else 0
                    if reach <= 14:
                        break
            ops.append({"op": "lattice", "vectors": vs, "det": det, "reach": reach})
    for o in ops:
        if o["op"] in ("polygon", "rectangle", "regular", "circle", "box", "compose", "offset", "look"):
            o["points"] = points()
    return ops


# ------------------------------------------------------------------ C25: plots
def plotting(r):
    n = r.choice([1, 2, 3, 4, 6])

    def names(of):
        order = list(range(len(of)))
        r.shuffle(order)
        return [[a, b, k] for (a, b), k in zip(r.sample(of, len(of)), order)]

    def hops():
        m = {}
        for _ in range(r.choice([0, 1, 2, n, 2 * n])):
            m[r.randrange(n), r.randrange(n)] = r.randrange(4)
        return sorted([i, j, k] for (i, j), k in m.items())

    def shifts():
        k = r.random()
        a, b = [r.randint(2, 5), r.choice([0, 0, 1]), 0], [r.choice([0, 0, -1]), r.randint(2, 5), 0]
        if k < 0.25:
            return [[]]
        if k < 0.45:
            return [a]
        if k < 0.7:
            return [a, b, [u + v for u, v in zip(a, b)], [u - v for u, v in zip(a, b)]][:r.choice([2, 3, 4])]
        return [[r.randint(-3, 3), r.randint(-3, 3), r.choice([0, 0, 2])] for _ in range(r.choice([1, 2]))]
    bounds = [[s, hops()] for s in shifts() if any(s)]
    flat = r.random() < 0.5
    ops = [{"op": "world", "names": names(SUBS), "hopnames": names(HOPS),
            "sites": [[r.randint(-3, 3), r.randint(-3, 3), 0 if flat else r.randint(-2, 2), r.randrange(3), r.randint(-9, 9)] for _ in range(n)],
            "hops": hops(), "bounds": bounds}]

    def look(o):
        axes = r.choice(["xy", "xy", "xyz", "yz", "xz", "yx", "zx", "zyx", "yzx"])
        o.update(axes=axes, letters=list(axes), three=r.random() < 0.2, depth=[r.randint(-2, 2) for _ in range(3)],
                 colors=r.choice([0, 1, 2, 3, 6]), hopcolors=r.choice([0, 0, 2, 4, 6]),
                 only=r.choice([[], [], r.sample(["t", "u", "u|1", "B", "none", "u|2"], r.choice([1, 2]))]))
        return o
    for _ in range(r.randint(2, 5)):
        x = r.random()
        off = [r.choice([0, r.randint(-4, 4)]) for _ in range(3)]
        if x < 0.14:
            ops.append(look({"op": "sites", "offset": off, "by": r.choice(["value", "sub"]), "radius": [r.randint(1, 9) for _ in range(n)] if n > 1 and r.random() < 0.6 else []}))
        elif x < 0.30:
            ops.append(look({"op": "hoppings", "offset": off, "of": r.randint(-1, len(bounds) - 1), "form": r.choice(["csr", "coo", "own"]),
                             "boundary": [r.randint(-5, 5) for _ in range(3)] if r.random() < 0.5 else [], "sign": r.choice([1, -1])}))
        elif x < 0.38:
            ops.append(look({"op": "periodic", "periods": r.choice([0, 1, 1, 2, 3 if len(bounds) < 2 else 2])}))
        elif x < 0.50:
            ops.append(look({"op": "structure", "periods": r.choice([0, 1, 1, 2]), "singular": r.random() < 0.6, "lattice": r.random() < 0.5}))
        elif x < 0.60:
            ops.append(look({"op": "map", "periods": r.choice([0, 1, 1, 2]), "delta": r.randint(1, 5)}))
        elif x < 0.66 and bounds:
            ops.append(look({"op": "lead", "k": r.randrange(len(bounds)), "length": r.randint(1, 4)}))
        elif x < 0.72:
            ops.append(look({"op": "model", "periods": r.choice([0, 1]), "length": r.randint(1, 3), "leads": [r.randrange(len(bounds)) for _ in range(r.randint(0, 2))] if bounds else []}))
        elif x < 0.745:
            (u, v, norm), (p, q, length) = ([r.choice([1, -1]) * k * c for c in t[:2]] + [k * t[2]] for t, k in ((r.choice([(1, 0, 1), (0, 1, 1), (3, 4, 5), (4, 3, 5)]), r.randint(1, 3)) for _ in range(2)))
            a = [r.randint(-4, 4), r.randint(-4, 4)]
            ops.append({"op": "contact", "dim": r.choice([2] * 8 + [1, 3]), "vertices": r.choice([2] * 8 + [1, 4]), "a": a, "b": [a[0] + p, a[1] + q], "length": length, "vector": [u, v, 0], "norm": norm,
                        "other": [r.randint(-4, 4), r.randint(-4, 4), 0], "axis": r.randrange(2), "sign": r.choice([1, -1]), "arrow": r.choice([5, 5, 10, 3]), "shade": r.choice([3, 3, 10, 1])})
            if ops[-1]["dim"] == 1:
                ops[-1]["axis"] = 0
        elif x < 0.765:
            ops.append({"op": "indices"})
        elif x < 0.78:
            ops.append({"op": "names"})
        elif x < 0.84:
            m = r.randint(1, 7)
            mixed = r.random() < 0.3      # not in order: degenerate levels are only looked for in sorted ones
            ops.append({"op": "levels", "energy": (list if mixed else sorted)(r.randint(-3, 3) for _ in range(m)), "probability": [r.choice([0, 1]) * r.randint(0, 9) for _ in range(m)],
                        "heat": r.random() < 0.7, "mark": not mixed and r.random() < 0.7, "numbers": r.random() < 0.3})
        elif x < 0.88:
            pts = walk(r, r.choice([1, 2]))
            m = 1 + sum(sum(abs(a - b) for a, b in zip(p, q)) for p, q in zip(pts, pts[1:]))
            ops.append({"op": "bands", "vectors": pts, "points": [p if len(p) > 1 else p[0] for p in pts], "energy": [[r.randint(-9, 9) for _ in range(2)] for _ in range(m)],
                        "labels": ["P%d" % i for i in range(len(pts))] if r.random() < 0.5 else []})
        elif x < 0.90:
            m = r.randint(1, 5)
            ops.append({"op": "series", "x": [r.randint(-9, 9) for _ in range(m)], "data": [r.randint(-9, 9) if True else 0 for _ in range(m)]})
            if r.random() < 0.4:
                ops[-1]["data"] = [[r.randint(-9, 9) for _ in range(3)] for _ in range(m)]
        elif x < 0.95:
            a, b = r.randint(1, 4), r.randint(1, 4)
            ops.append({"op": "sweep", "x": sorted(r.sample(range(-9, 10), a)), "y": sorted(r.sample(range(-9, 10), b)), "data": [[r.randint(-9, 9) for _ in range(b)] for _ in range(a)],
                        "slice": r.choice(["", "x", "y"]), "at": r.randint(-10, 10)})
        elif x < 0.97:
            ops.append({"op": "path", "points": walk(r, 2)})
        else:
            ops.append({"op": "spatial", "how": r.choice(["pcolor", "contour", "contourf"])})
    return ops


def lattice_plots(r):
    """Each operation has a lattice of its own"""
    ops = []
    for _ in range(r.randint(1, 2)):
        x = r.random()
        op = "lattice" if x < 0.5 else "vectors" if x < 0.65 else "zone" if x < 0.85 else "radius"
        dim = r.choice([1, 2, 2]) if op == "zone" else r.choice([1, 2, 2, 3])
        while True:
            if dim == 1:
                vectors = [[r.choice([-4, -2, 1, 2, 3, 5]), 0, 0]] if op == "zone" else [[r.randint(-4, 4) for _ in range(3)]]
                det = abs(vectors[0][0]) if op == "zone" else any(vectors[0])
            elif dim == 2:
                vectors = [[r.randint(-5, 5), r.randint(-5, 5), 0] for _ in range(2)]
                det = vectors[0][0] * vectors[1][1] - vectors[0][1] * vectors[1][0]
            else:
                vectors = [[r.randint(-4, 4) for _ in range(3)] for _ in range(3)]
                det = sum(vectors[0][k] * (vectors[1][(k + 1) % 3] * vectors[2][(k + 2) % 3] - vectors[1][(k + 2) % 3] * vectors[2][(k + 1) % 3]) for k in range(3))
            if det:
                break
        n = r.choice([1, 2, 3, 4])
        sites = [[r.randint(-2, 2), r.randint(-1, 1), r.randint(-2, 2) if r.random() < 0.6 else 0, k, 0] for k in range(n)]
        names = r.sample(["A", "B", "C", "D1", "top"], n)
        order = r.sample(range(n), n)
        families = [[name, k] for k, name in enumerate(r.sample(["t", "u", "w"], r.choice([1, 2, 3])))]
        rels = [[0, 0, 0]] + [[r.randint(-1, 1) if k < dim else 0 for k in range(3)] for _ in range(r.choice([1, 1, 2, 3]))]
        seen, terms, hops, bounds = set(), [], {}, {}
        for rel in rels:
            for _ in range(r.choice([1, 1, 2])):
                i, j = r.randrange(n), r.randrange(n)
                back = [-v for v in rel]
                if (tuple(rel), i, j) in seen or (not any(rel) and i == j):
                    continue
                seen |= {(tuple(rel), i, j), (tuple(back), j, i)}
                name, fam = r.choice(families)
                terms.append([name, rel, i, j])
                if not any(rel):
                    hops[i, j] = fam
                elif tuple(back) in bounds:
                    bounds[tuple(back)][i, j] = fam
                else:
                    bounds.setdefault(tuple(rel), {})[j, i] = fam
        shift = {rel: [sum(q * v[k] for q, v in zip(rel, vectors)) for k in range(3)] for rel in bounds}
        axes = r.choice(["xy", "xy", "yz", "xz", "yx", "zx", "xyz", "zyx"])
        ops.append({"op": op, "dim": dim, "vectors": vectors, "det": det, "sites": sites, "names": [[names[k], "", k] for k in order], "families": families, "terms": terms,
                    "hopnames": [[name, "", k] for name, k in families], "hops": [[i, j, k] for (i, j), k in sorted(hops.items())],
                    "bounds": [[shift[rel], [[i, j, k] for (i, j), k in sorted(h.items())]] for rel, h in bounds.items()],
                    "axes": axes, "letters": list(axes), "short": r.random() < 0.5, "where": r.choice(["center", "center", "none", "list", "array"]), "array": r.random() < 0.5,
                    "position": [r.randint(-4, 4), r.randint(-4, 4)], "scale": r.choice([1, 1, 2, 3]), "periods": r.choice([0, 1, 1, 2]) if len(bounds) < 2 else r.choice([0, 1]),
                    "decorate": r.random() < 0.7, "part": r.choice([33, 33, 10, 25, 49])})
    return ops


def walk(r, d):
    """Points in steps along the axes"""
    pts = [[r.randint(-3, 3) for _ in range(d)]]
    for _ in range(r.choice([1, 1, 2, 3])):
        p = list(pts[-1])
        p[r.randrange(d)] += r.choice([1, -1]) * r.randint(1, 4)
        pts.append(p)
    return pts


STANDINS = "matplotlib and the extension module are not installed: stand-ins (numpy and scipy are the installed ones)."


def c20(check):
    check.assumptions += [STANDINS, "Axes and positions are integers; segments of paths have integer lengths."]
    check.design("MCResults", exhaustive("MCResults.tla", "MCResults.cfg"))
    for f in ("rows_only", "zero_id", "bounds"):
        refuted("MCResults.tla", "MCResults.cfg", [("Faulty = {}", 'Faulty = {"%s"}' % f)])
        check.count("refuted_design_mistakes")
    for k in range(6 if tier() == "thorough" else 1):
        for kind, num in ((maps, 1500), (sweeps, 1500), (paths, 1200)):
            check.conformance(driver("results_driver.py"), scenarios(one(kind), num, seed() * 100 + k), "TraceResults.tla", "TraceResults.cfg", label=kind.__name__)


def c21(check):
    check.assumptions += [STANDINS, "The core reads the returned buffer as raw memory (cppmodule/src/modifiers.cpp); the driver does the same."]
    check.design("MCModifiers", exhaustive("MCModifiers.tla", "MCModifiers.cfg"))
    for f in ("owned_only", "always_copy_as_is"):
        refuted("MCModifiers.tla", "MCModifiers.cfg", [("Faulty = {}", 'Faulty = {"%s"}' % f)])
        check.count("refuted_design_mistakes")
    for k in range(6 if tier() == "thorough" else 2):
        check.conformance(driver("modifier_driver.py"), scenarios(one(modifiers), 2000, seed() * 100 + k), "TraceModifiers.tla", "TraceModifiers.cfg", label="modifiers")


def c22(check):
    check.assumptions += [STANDINS, "The parallel loop itself is a stand-in which keeps the contract of property C17 with schedules given by the scenario."]
    check.design("MCSweeps", exhaustive("MCSweeps.tla", "MCSweeps.cfg"))
    refuted("MCSweeps.tla", "MCSweeps.cfg", [("Faulty = {}", 'Faulty = {"in_order_of_retirement"}')])
    check.count("refuted_design_mistakes")
    for k in range(6 if tier() == "thorough" else 1):
        check.conformance(driver("sweep_driver.py"), scenarios(one(sweeping), 1500, seed() * 100 + k), "TraceSweeps.tla", "TraceSweeps.cfg", transform=sweep_trace, label="sweeps")


def c23(check):
    check.assumptions += [STANDINS, "Levels and weights are integers, Gaussians are evaluated where they are powers of two; the solutions are given, or found by LAPACK for Hamiltonians which couple rows in pairs."]
    check.design("MCSpectra", exhaustive("MCSpectra.tla", "MCSpectra.cfg"))
    for f in ("single", "one_row"):
        refuted("MCSpectra.tla", "MCSpectra.cfg", [("Faulty = {}", 'Faulty = {"%s"}' % f)])
        check.count("refuted_design_mistakes")
    for k in range(6 if tier() == "thorough" else 1):
        check.conformance(driver("spectra_driver.py"), scenarios(one(spectra), 2500, seed() * 100 + k), "TraceSpectra.tla", "TraceSpectra.cfg", transform=spectra_trace, label="spectra")


def c24(check):
    check.assumptions += [STANDINS, "Coordinates are multiples of one half; points on the edges of shapes are not decided. Lattices lie along x or in the xy plane."]
    check.design("MCShapes", exhaustive("MCShapes.tla", "MCShapes.cfg"))
    for f in ("first", "unmoved", "given"):
        refuted("MCShapes.tla", "MCShapes.cfg", [("Faulty = {}", 'Faulty = {"%s"}' % f)])
        check.count("refuted_design_mistakes")
    for k in range(6 if tier() == "thorough" else 1):
        check.conformance(driver("shape_driver.py"), scenarios(one(shapes), 2000, seed() * 100 + k), "TraceShapes.tla", "TraceShapes.cfg", label="shapes")


def c25(check):
    check.assumptions += [STANDINS, "What a plot shows are the collections and lines which are handed to matplotlib; positions are integers. Colors are those of the given list (blended with white or not)."]
    check.design("MCPlots", exhaustive("MCPlots.tla", "MCPlots.cfg"))
    for f in ("forward", "return", "recent", "oneway"):
        refuted("MCPlots.tla", "MCPlots.cfg", [("Faulty = {}", 'Faulty = {"%s"}' % f)])
        check.count("refuted_design_mistakes")
    for k in range(6 if tier() == "thorough" else 1):
        check.conformance(driver("plot_driver.py"), scenarios(one(plotting), 2500, seed() * 100 + k), "TracePlots.tla", "TracePlots.cfg", label="plotting")
        check.conformance(driver("plot_driver.py"), scenarios(one(lattice_plots), 2000, seed() * 100 + k), "TracePlots.tla", "TracePlots.cfg", label="lattices")


# ------------------------------------------------------------------ C26: the interface of KPM
NOTGIVEN = -999


def kpm_model(r, kind):
    o, n = orbital_system(r)
    if kind == "single":
        o["groups"] = [[i, k, 1] for i, k, _ in o["groups"]]
        n = sum(g[1] for g in o["groups"])
    o.update(op="model", subs=[g[0] for g in o["groups"] for _ in range(g[1])], norb=[g[2] for g in o["groups"] for _ in range(g[1])], re=[], im=[])
    if kind == "diagonal":
        d = [r.randint(-6, 6) for _ in range(n)]
        o["re"] = [[d[i] if i == j else 0 for j in range(n)] for i in range(n)]
        o["im"] = [[0] * n for _ in range(n)]
        o["usable"] = n >= 3 and len(set(d)) > 2
    if kind == "exact":
        cx = r.random() < 0.5
        o["re"], o["im"] = [[0] * n for _ in range(n)], [[0] * n for _ in range(n)]
        for i in range(n):
            o["re"][i][i] = r.randint(-1, 2)
            for j in range(i):
                if r.random() < 0.5:
                    a, b = r.choice([-1, 1, 1]), r.choice([-1, 0, 1]) if cx else 0
                    o["re"][i][j] = o["re"][j][i] = a
                    o["im"][i][j], o["im"][j][i] = b, -b
    return o, n


def kpm_target(r, m, sub):
    """The position of a site: given as its number on the list of nearest sites"""
    return near_point(r, m, None if sub == "" else dict((c, i) for c, i in m["names"])[sub])


def kpm_sub(r, m):
    return r.choice(["", ""] + [c for c, i in m["names"] if i in [g[0] for g in m["groups"]]])


def kpm_python(r):
    kind = r.choice(["exact", "exact", "diagonal"])
    models = [kpm_model(r, kind) for _ in range(r.choice([1, 2, 2, 3]))]
    if kind == "diagonal":
        models = [m for m in models if m[0]["usable"]] or [fallback(r)]
    ops = [m for m, n in models]
    k = r.randrange(len(models))
    center = r.randint(-2, 2)
    g = [r.choice([1, 1, 2, -1, 3]) for _ in range(2 * r.randint(1, 3))]
    ops.append({"op": "python", "model": k, "given": kind == "exact", "center": center, "g": g})
    for _ in range(r.randint(2, 5)):
        m, n = models[k]
        if r.random() < 0.35:
            k = r.randrange(len(models))
            ops.append({"op": "set_model", "model": k})
        elif kind == "diagonal":
            ops.append({"op": "bounds", "at": near_point(r, m)})
        else:
            sub, reduce = kpm_sub(r, m), r.random() < 0.6
            kw = {"sublattice": sub} if sub else {}
            if not reduce or r.random() < 0.4:
                kw["reduce"] = reduce
            energy = r.sample([center - 1, center, center + 1], r.randint(1, 3))
            ops.append({"op": "exact", "energy": energy, "broadening": r.choice([1, 2, 4]), "sub": sub, "reduce": reduce, "kw": kw, "at": kpm_target(r, m, sub)})
    return ops


def fallback(r):
    while True:
        m = kpm_model(r, "diagonal")
        if m[0]["usable"]:
            return m


def kpm_interface(r):
    if r.random() < 0.25:
        return kpm_python(r)
    kind = r.choice(["single", "any"])
    models = [kpm_model(r, kind) for _ in range(r.choice([1, 2, 2]))]
    ops = [m for m, n in models]
    k = 0

    def make():
        cuda = r.random() < 0.15
        extra = r.choice([{}, {}, {"optimal_size": 0}, {"interleaved": 1, "lanczos_precision": 3}])
        lo = r.randint(-9, 3)
        callback = not cuda and r.random() < 0.3
        return {"op": "kpm", "model": k, "cuda": cuda, "energy": r.choice([[], [lo, lo + r.randint(1, 9)], [0, 5], [-4, 0]]), "kernel": r.choice(["", "", "jackson", "lorentz", "lorentz5", "dirichlet"]),
                "threads": 0 if cuda else r.choice([0, 0, 1, 2, 7]), "silent": "no" if cuda else r.choice(["no", "no", "yes", "false"]), "callback": callback, "extra": extra,
                "extras": sorted([a, b] for a, b in extra.items())}
    ops.append(make())

    def some_energies():
        e = r.sample(range(-6, 7), r.choice([1, 1, 2, 3, 5]))
        return sorted(e) if r.random() < 0.7 else e
    for _ in range(r.randint(4, 9)):
        x = r.random()
        m, n = models[k]
        e, w = some_energies(), r.randint(1, 3)
        sub = kpm_sub(r, m)
        kw = {"sublattice": sub} if sub else {}
        if x < 0.10:
            k = r.randrange(len(models))
            ops.append(make())
        elif x < 0.20:
            k = r.randrange(len(models))
            ops.append({"op": "set_model", "model": k})
        elif x < 0.38:
            reduce = r.random() < 0.6
            if not reduce or r.random() < 0.3:
                kw["reduce"] = reduce
            ops.append({"op": "ldos", "energy": e, "broadening": w, "sub": sub, "reduce": reduce, "kw": kw, "at": kpm_target(r, m, sub)})
        elif x < 0.42:
            ops.append({"op": "deferred", "energy": e, "broadening": w, "sub": sub, "reduce": True, "kw": kw, "at": kpm_target(r, m, sub)})
        elif x < 0.62:
            if kind != "single":
                continue
            box = [sorted(r.sample(range(-5, 6), 2)) for _ in range(2)]
            ids = dict((c, i) for c, i in m["names"])
            inside = [i for i, (px, py) in enumerate(m["sites"]) if box[0][0] <= px <= box[0][1] and box[1][0] <= py <= box[1][1] and (sub == "" or m["subs"][i] == ids[sub])]
            look = r.choice(["", sub] + [c for c, i in m["names"] if i in {m["subs"][q] for q in inside}])
            ops.append({"op": "spatial", "energy": e, "broadening": w, "sub": sub, "kw": kw, "box": box, "pick": r.randint(-7, 7), "look": bool(inside), "looksub": look,
                        "ldoskw": {"sublattice": look} if look else {}, "at": [r.randint(-5, 5), r.randint(-5, 5)]})
        elif x < 0.68:
            kw = {} if r.random() < 0.4 else {"num_random": r.randint(1, 9)}
            ops.append({"op": "dos", "energy": e, "broadening": w, "random": kw.get("num_random", NOTGIVEN), "kw": kw})
        elif x < 0.75:
            many = r.random() < 0.5
            ops.append({"op": "greens", "energy": e, "broadening": w, "i": r.randrange(n), "many": many, "j": [r.randrange(n) for _ in range(r.randint(1, 3) if many else 1)]})
        elif x < 0.83:
            form = r.choice(["", "csr", "coo", "csc"])
            ops.append({"op": "moments", "num": 2 * r.randint(1, 4), "alpha": [r.randint(-3, 3) for _ in range(n)], "beta": [r.randint(-3, 3) for _ in range(n)] if r.random() < 0.5 else [],
                        "form": form, "matrix": [[r.choice([0, 0, 1, 2]) for _ in range(n)] for _ in range(n)] if form else []})
        elif x < 0.90:
            kw = {q: v for q, v in (("direction", r.choice(["xx", "xy", "yx", "yy", "zz"])), ("volume", r.choice([0.5, 1, 1.5, 2, 3, 4, 6])), ("num_random", r.randint(1, 9)), ("num_points", r.randint(10, 99))) if r.random() < 0.5}
            ops.append({"op": "conductivity", "energy": e, "broadening": w, "temperature": r.randint(0, 300), "kw": kw, "direction": kw.get("direction", ""),
                        "halves": int(2 * kw.get("volume", 1)), "random": kw.get("num_random", NOTGIVEN), "points": kw.get("num_points", NOTGIVEN)})
        else:
            calls = []
            for _ in range(r.choice([1, 1, 2, 3])):
                total = r.choice([1, 2, 3, 6])
                calls.append([-1, total])
                left = total
                while left > 0:
                    step = r.randint(1, left)
                    calls.append([step, total])
                    left -= step
                calls.append([total, total])
            ops.append({"op": "bar", "calls": calls})
    return ops


def c26(check):
    check.assumptions += [STANDINS, "The core's KPM is a stand-in whose answers tell what was asked (the core itself is decided in C13-C17). The Python implementation is decided with integer matrices, where the moments are exact."]
    for k in range(6 if tier() == "thorough" else 1):
        check.conformance(driver("kpm_py_driver.py"), scenarios(one(kpm_interface), 2500, seed() * 100 + k), "TraceKpmInterface.tla", "TraceKpmInterface.cfg", label="kpm interface")


# ------------------------------------------------------------------ C27: the prebuilt materials
TMD = {"MoS2": [3190, 1046, 2104, -184, 401, 507, 218, 338, 57], "WS2": [3191, 1130, 2275, -206, 567, 536, 286, 384, -61],
       "MoSe2": [3326, 919, 2065, -188, 317, 456, 211, 290, 130], "WSe2": [3325, 943, 2179, -207, 457, 486, 263, 329, 34],
       "MoTe2": [3557, 605, 1972, -169, 228, 390, 207, 239, 252], "WTe2": [3560, 606, 2102, -175, 342, 410, 233, 270, 190]}
TRIPLES = [(1, 0, 0), (2, 0, 0), (3, 4, 0), (5, 12, 0), (1, 2, 2), (2, 3, 6), (1, 4, 8), (4, 4, 7), (6, 6, 7), (2, 6, 9), (8, 6, 0)]


def jump(r, flat=False):
    """A step whose length is an integer"""
    v = list(r.choice([t for t in TRIPLES if not flat or t[2] == 0]))
    if flat:
        v = r.sample(v[:2], 2) + [0]
    else:
        r.shuffle(v)
    return [r.choice([-1, 1]) * c for c in v]


def bonds(r):
    out = []
    for _ in range(r.randint(1, 4)):
        p = [r.randint(-3, 3) for _ in range(3)]
        out.append([p, [a + b for a, b in zip(p, jump(r))]])
    return out


def lattice_of(r):
    m = r.choice(["monolayer"] * 3 + ["monolayer_alt", "monolayer_4atom", "bilayer", "bilayer", "phosphorene", "chain", "square", "tmd", "tmd"])
    o = {"op": "lattice", "material": m}

    def mev(*choices):
        return r.choice(choices or (-2700, -1, 1, 33, 250, 1900))
    onsite = [r.randint(-500, 500) for _ in range(4 if m == "bilayer" else 2)] if r.random() < 0.4 else []
    if m == "monolayer":
        o.update(n=r.choice([1, 1, 2, 3, 3, 4]), short=r.random() < 0.5, onsite=onsite, energies=[[k, mev()] for k in ("t", "t_nn", "t_nnn") if r.random() < 0.35])
        if o["n"] < 2:
            o["energies"] = [e for e in o["energies"] if e[0] != "t_nn"]
    elif m in ("monolayer_alt", "monolayer_4atom"):
        o.update(onsite=onsite)
    elif m == "bilayer":
        o.update(onsite=onsite, also=[k for k in ("gamma3", "gamma4") if r.random() < 0.5])
    elif m == "phosphorene":
        o.update(n=r.randint(1, 6), short=r.random() < 0.5)
    elif m == "chain":
        o.update(a=r.randint(1, 9), energy=[mev(), mev()])
    elif m == "square":
        o.update(a=r.randint(1, 9), energy=[mev()])
    else:
        given = r.random() < 0.4
        name = r.choice(["MoS2", "XyZ2", "NbSe2"] if given else sorted(TMD) + ["XyZ2", "MoS3"])
        known = given or name in TMD
        o.update(name=name, metal=name[:2] if name[1].islower() else name[:1], given=given, known=known,
                 params=[r.randint(2000, 4000)] + [r.choice([-1, 1]) * r.randint(1, 2500) for _ in range(8)] if given else TMD.get(name, [1] * 9))
    return o


def modifier_of(r):
    op = r.choice(["mass", "coulomb", "magnetic", "magnetic", "strain", "bump", "landau"])
    n = r.randint(1, 4)
    points = [[r.randint(-6, 6) for _ in range(3)] for _ in range(n)]
    if op == "mass":
        return {"op": op, "delta": r.choice([-2, 1, 3]), "energy": [r.randint(-5, 5) for _ in range(n)], "sub": r.choice(["A", "B", "C"]), "points": points}
    if op == "coulomb":
        offset = r.choice([[0, 0, 0], [r.randint(-3, 3) for _ in range(3)]])
        points = [[a + b for a, b in zip(offset, jump(r))] for _ in range(n)]
        cutoff = r.choice([0, 0, 1, 3, 9, 40])
        if cutoff and r.random() < 0.3:
            points[0] = list(offset)
        return {"op": op, "beta": r.choice([0.5, 1, -1, 2]), "cutoff": cutoff, "offset": offset, "points": points, "energy": [r.randint(-5, 5) for _ in range(n)]}
    if op == "magnetic":
        return {"op": op, "field": r.choice([-3, -1, 1, 2, 3]), "loop": [[r.randint(-4, 4), r.randint(-4, 4), r.choice([0, 0, 1])] for _ in range(r.randint(2, 6))]}
    if op == "strain":
        return {"op": op, "field": r.choice([-2, -1, 1, 3]), "points": points, "bonds": bonds(r)}
    if op == "bump":
        center = r.choice([[0, 0], [r.randint(-3, 3), r.randint(-3, 3)]])
        return {"op": op, "height": r.choice([0.5, 1, 3]), "sigma2": r.choice([20, 30, 49]), "center": center, "points": points, "bonds": bonds(r)}
    return {"op": op, "field": r.choice([1, 2, 5, 12]), "n": r.choice([0, 1, 2, 3, 7])}


def materials(r):
    ops = []
    for _ in range(r.randint(2, 5)):
        x = r.random()
        if x < 0.45:
            ops.append(lattice_of(r))
        elif x < 0.65:
            offset = [r.randint(-4, 4), r.randint(-4, 4)] if r.random() < 0.3 else []
            ops.append({"op": "hexagon", "side": r.choice([s for s in range(1, 80) if s % 6 != 2]), "offset": offset})
        else:
            ops.append(modifier_of(r))
    return ops


def c27(check):
    check.assumptions += [STANDINS, "Energies are whole meV. The sites of phosphorene are placed in units of 0.0001 nm, its families of bonds are told apart by their lengths (0.25 %). Only atoms with z = 0 are moved by a bump."]
    check.design("MCMaterials", exhaustive("MCMaterials.tla", "MCMaterials.cfg"))
    for edit in [("Faulty = {}", 'Faulty = {"one end"}'), ("Faulty = {}", 'Faulty = {"sum"}'), ("Sides = {2, 4, 6}", "Sides = {2, 3, 4}")]:
        refuted("MCMaterials.tla", "MCMaterials.cfg", [edit])
        check.count("refuted_design_mistakes")
    for k in range(6 if tier() == "thorough" else 1):
        check.conformance(driver("material_driver.py"), scenarios(one(materials), 1500, seed() * 100 + k), "TraceMaterials.tla", "TraceMaterials.cfg", label="materials")


# ------------------------------------------------------------------ C28: the progress display
def progress(r):
    size, file = r.choice([1, 2, 3, 4, 5, 8, 10, 16, 100]), r.random() < 0.4
    ops = [{"op": "make", "size": size, "width": r.choice([80, 80, 90, 120]), "display": r.choice(["own", "own", "stdout", "none"]), "file": file, "kind": r.choice(["default", "default", "own"])}]
    count, running, started, value = 0, False, 0, 0
    for _ in range(r.randint(4, 14)):
        x = r.random()
        may = not file or not started
        if x < 0.30:
            k = r.choice([1, 1, 2, 3])
            ops.append({"op": "print", "stream": r.choice(["out", "out", "err"]), "lines": list(range(count + 1, count + k + 1)), "how": r.choice(["print", "write"])})
            count += k
        elif x < 0.42:
            ops.append({"op": "tick", "seconds": r.choice([0, 1, 7, 61, 3601, 90000])})
        elif x < 0.50 and may:
            ops.append({"op": r.choice(["start", "enter"])})
            running, started, value = True, started + 1, 0
        elif x < 0.62 and (running or may):
            started, running, value = started + (not running), True, r.randint(0, size)
            ops.append({"op": "update", "value": value})
        elif x < 0.80 and (running or may) and value < size:
            v = r.randint(0, min(2, size - value))
            ops.append({"op": "add", "value": v})
            started, running, value = started + (not running), True, value + v
        elif x < 0.86 and running:
            ops.append({"op": "refresh"})
        elif x < 0.94:
            ops.append({"op": r.choice(["stop", "exit"])})
            running = False
        else:
            ops.append({"op": "finish"})
            value, running = (size if running else value), False
    if r.random() < 0.7:
        ops.append({"op": r.choice(["stop", "finish"])})
        ops.append({"op": "print", "stream": "out", "lines": [count + 1], "how": "print"})
    return ops


def c28(check):
    check.assumptions += [STANDINS, "The terminal is emulated (carriage return, new line); whole lines shorter than the display are printed; the log file belongs to one run of the display."]
    check.design("MCProgress", exhaustive("MCProgress.tla", "MCProgress.cfg"))
    for f in ("stop", "start", "update"):
        refuted("MCProgress.tla", "MCProgress.cfg", [("Faulty = {}", 'Faulty = {"%s"}' % f)])
        check.count("refuted_design_mistakes")
    for k in range(6 if tier() == "thorough" else 1):
        check.conformance(driver("progress_driver.py"), scenarios(one(progress), 3000, seed() * 100 + k), "TraceProgress.tla", "TraceProgress.cfg", label="progress")


# ------------------------------------------------------------------ C29: lattices and models are put together
def builders(r):
    ops, lats, models, ids, made = [], [], [], [0], []

    def energy():
        x = r.random()
        return ["number", [r.randint(-5, 5)]] if x < 0.6 else ["vector", [r.randint(-5, 5) for _ in range(r.choice([1, 2, 3]))]] if x < 0.8 else ["matrix", [r.randint(-5, 5) for _ in range(r.choice([1, 4]))]]

    def place():
        return [r.randint(-4, 4) for _ in range(r.choice([1, 2, 3]))]

    def fresh(used, bad):
        free = [n for n in ["A", "B", "C", "D", "E", "t", "u", "v", "a1", "B2"] if n not in used]
        return r.choice(used) if used and bad or not free else r.choice(free)

    def items(how, known):
        """Calls for a lattice with the known names; now and then one of them is wrong"""
        subs, originals, energies = known
        res = []
        for _ in range(r.choice([0, 1, 1, 2, 3, 4])):
            bad = r.random() < 0.06
            if how == "sublattices":
                name = fresh(subs, bad) if not bad or subs else ""
                x = r.random()
                if x < 0.3:
                    it = [name, place()]
                elif x < 0.85 or not originals:
                    it = [name, place(), energy()] + ([""] if r.random() < 0.2 else [])
                else:
                    it = [name, place(), ["number", [0]], r.choice(originals)]
                if name not in subs:
                    subs.append(name)
                    if len(it) < 4 or not it[3]:
                        originals.append(name)
            elif how == "aliases":
                it = [fresh(subs, bad), r.choice(originals + ["x"] * bad) if originals else "x", place()]
                if it[1] in originals and it[0] not in subs:
                    subs.append(it[0])
            elif how == "hoppings":
                if not subs:
                    continue
                it = [[r.randint(-2, 2) for _ in range(r.choice([1, 2, 3]))], r.choice(subs), "x" if bad else r.choice(subs), ["name", r.choice(energies + ["y"] * bad)] if energies and r.random() < 0.5 else energy()]
            else:
                name = fresh(energies, bad)
                if any(q[0] == name for q in res):
                    continue
                it = [name, energy()]
                if name not in energies:
                    energies.append(name)
            res.append(it)
        return res

    def parts(depth):
        res = []
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            if depth and r.random() < 0.35:
                res.append({"list": parts(depth - 1), "form": r.choice(["list", "tuple", "tuple", "iter"])})
                continue
            if made and r.random() < 0.2:  # the same object again
                res.append(dict(r.choice(made[-3:])))
                continue
            ids[0] += 1
            res.append({"kind": r.choice(["shape", "shape", "symmetry", "primitive", "state", "position", "onsite", "hopping", "onsite", "hopping", "site_gen", "hop_gen"]
                                         if r.random() < 0.95 else ["none", "other", "refused"]), "id": ids[0]})
            if res[-1]["kind"] not in ("none", "other", "refused"):
                made.append(res[-1])
        return res

    def good(ps):
        return all(good(p["list"]) if "list" in p else p["kind"] not in ("none", "other", "refused") for p in ps)
    n = r.choice([1, 2, 4])
    system = {"groups": [[0, n, 1]], "sites": [[r.randint(-5, 5), r.randint(-5, 5)] for _ in range(n)], "names": [["A", 0]],
              "hamiltonian": [[[r.randint(-5, 5), r.randint(-5, 5) if i != j else 0] for i in range(n)] for j in range(n)]}
    for _ in range(r.randint(3, 9)):
        x = r.random()
        if not lats or x < 0.12:
            ops.append({"op": "lattice", "vectors": [[r.randint(-4, 4) for _ in range(r.choice([d, 3]))] for d in [r.choice([1, 2, 3])] for _ in range(d)]})
            lats.append(([], [], []))
        elif x < 0.42:
            how, k = r.choice(["sublattices", "sublattices", "aliases", "hoppings", "hoppings", "energies"]), r.randrange(len(lats))
            if how == "aliases" and not lats[k][1]:
                how = "sublattices"
            new = items(how, lats[k])
            ops.append({"op": "build", "of": k, "how": how, "items": new, "sorted": sorted(new) if how == "energies" else [], "single": r.random() < 0.3})
        elif x < 0.55:
            w = r.choice(["offset", "min"])
            k = r.randrange(len(lats))
            ops.append({"op": r.choice(["set", "with", "with"]), "of": k, "what": w, "value": [r.choice([0, r.randint(-4, 4), 12 if r.random() < 0.1 else 1]) for _ in range(3)], "number": r.randint(0, 4)})
            if ops[-1]["op"] == "with" and (w == "min" or max(ops[-1]["value"]) < 10):
                lats.append(tuple(list(v) for v in lats[k]))
        elif not models or x < 0.68:
            ops.append({"op": "model", "of": r.randrange(len(lats)), "parts": parts(2)})
            if good(ops[-1]["parts"]):
                models.append(0)
        elif x < 0.86:
            ops.append({"op": "add", "m": r.randrange(len(models)), "parts": parts(3)})
        elif x < 0.94:
            ops.append({"op": "lead", "m": r.randrange(len(models)), "direction": r.choice([-2, -1, 1, 2]), "contact": r.randint(1, 9)})
        else:
            ops.append({"op": "values", "m": r.randrange(len(models)), "diagonal": [system["hamiltonian"][i][i][0] for i in range(n)]})
    for o in ops:
        o["system"] = system
    return ops


def c29(check):
    check.assumptions += [STANDINS]
    check.design("MCBuilders", exhaustive("MCBuilders.tla", "MCBuilders.cfg"))
    for f in ("skip", "again"):
        refuted("MCBuilders.tla", "MCBuilders.cfg", [("Faulty = {}", 'Faulty = {"%s"}' % f)])
        check.count("refuted_design_mistakes")
    for k in range(8 if tier() == "thorough" else 1):
        check.conformance(driver("builder_driver.py"), scenarios(one(builders), 5000, seed() * 100 + k), "TraceBuilders.tla", "TraceBuilders.cfg", label="builders")


CHECKS = {"C29": c29, "C28": c28, "C27": c27, "C26": c26, "C25": c25, "C24": c24, "C23": c23, "C20": c20, "C21": c21, "C22": c22}
