"""C01: lattice definitions"""
import random
from runner import *

OBS = {"op": "lat_obs"}


def det(v):
    if len(v) == 1:
        return v[0][0]
    if len(v) == 2:
        return v[0][0] * v[1][1] - v[0][1] * v[1][0]
    a, b, c = v
    return (a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0])
            + a[2] * (b[0] * c[1] - b[1] * c[0]))


def numeric_ops(rnd, names, vecs):
    """Positions and lattice coordinates; translate is scaled by the determinant (exact integers)"""
    d = len(vecs)
    return [
        {"op": "calc_pos", "idx": [rnd.randint(-9, 9) for _ in range(3)],
         "name": rnd.choice(names + ["", "nope"])},
        {"op": "translate", "pos": [rnd.randint(-40, 40), rnd.randint(-40, 40) if d > 1 else 0,
                                    rnd.randint(-40, 40) if d > 2 else 0], "scale": abs(det(vecs))},
    ]


def scenarios(num, sd):
    """Histories generated by TLC from MCLattice, with a full observation after every call"""
    hist, r = simulate_histories("MCLattice.tla", "GenLattice.cfg", num, 17, sd)
    rnd = random.Random(sd)
    out = []
    vecsets = [[[4, 0, 0]], [[4, 0, 0], [0, 4, 0]], [[4, 0, 0], [2, 4, 0]], [[3, 0, 0], [1, 5, 0]],
               [[4, 0, 0], [0, 4, 0], [0, 0, 4]], [[4, 0, 0], [2, 4, 0], [0, 2, 5]], [[-4, 0, 0], [0, 3, 0]]]
    for n, h in enumerate(hist):
        vecs = rnd.choice(vecsets)
        ops = [{"op": "lattice", "vecs": vecs}, OBS]
        names = ["A", "B", "X", "Y"]
        large = rnd.choice([0, 0, 1000, 1000000])  # energies which are nearly equal
        for e in h:
            e = dict(e)
            if large and e["op"] in ("reg_hop", "add_hop_e"):
                near = rnd.choice([0, 0, 1])
                e["e"] = [[[x + large + near if x else 0 for x in v] for v in row] for row in e["e"]]
            if e["op"] == "set_offset" and rnd.random() < 0.5:
                e["op"] = "with_offset"
            if e["op"] in ("set_offset", "with_offset"):
                e["pos"] = [rnd.randint(-3, 3) if i < len(vecs) else 0 for i in range(3)]
                if on_limit(vecs, e["pos"]):
                    continue
            if e["op"] == "min_nb" and rnd.random() < 0.5:
                e["op"] = "with_min_nb"
                e["n"] = rnd.randint(0, 5)
            if e["op"] in ("add_sub", "add_alias"):
                e["pos"] = [rnd.randint(-5, 5) for _ in range(3)]
            if e["op"] in ("reg_hop", "add_hop_e") and len(e["e"]) == 1 and len(e["e"][0]) == 1:
                e["scalar"] = rnd.random() < 0.5
            if e["op"] == "add_sub" and is_real_diagonal(e["e"]) and rnd.random() < 0.5:
                e["kind"] = "vector"
            if e["op"] in ("add_hop", "add_hop_e") and rnd.random() < 0.2:
                e["rel"] = [rnd.randint(-2, 2) for _ in range(3)]
            ops += [e, OBS]
            if rnd.random() < 0.3:
                ops += numeric_ops(rnd, names, vecs)
        out.append({"id": n + 1, "ops": ops})
    return out, r


def is_real_diagonal(m):
    return len(m) > 0 and all(len(r) == len(m) for r in m) and all(
        v[1] == 0 and (v[0] == 0 or i == j) for i, r in enumerate(m) for j, v in enumerate(r))


def on_limit(vecs, p):
    """Too close to the limit of the allowed offset for single precision"""
    from fractions import Fraction as F
    d = len(vecs)
    a = [[F(vecs[j][i]) for j in range(d)] + [F(p[i])] for i in range(d)]
    for c in range(d):
        piv = next(r for r in range(c, d) if a[r][c] != 0)
        a[c], a[piv] = a[piv], a[c]
        a[c] = [x / a[c][c] for x in a[c]]
        for r in range(d):
            if r != c:
                a[r] = [x - a[r][c] * y for x, y in zip(a[r], a[c])]
    return any(abs(abs(a[i][d]) - F(55, 100)) < F(1, 100) for i in range(d))


def c01(check):
    exe = B.build("model_driver", "model_driver.cpp", ["lib"])
    deep = tier() == "thorough"
    check.design("MCLattice", exhaustive("MCLattice.tla", "MCLattice.cfg"))
    sc, r = scenarios(1500 if deep else 250, seed())
    check.design("GenLattice", r)
    check.conformance(exe, sc, "TraceLattice.tla", "TraceLattice.cfg", batch=300)
    check.assumptions += ["energies and positions are small integers (exact in floating point)"]
