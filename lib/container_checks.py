"""C19: the containers of a system, registries and sparse matrices"""
import random
from runner import *
from kpm_checks import scenarios

BUILD_KW = dict(main="container_driver.cpp", parts=["lib"])
SPECS = ("TraceContainers.tla", "TraceContainers.cfg")


def blocks(r, big):
    n, k = r.choice([0, 1, 2, 3, 4, 6, 9, 40 if big else 5]), r.choice([1, 1, 2, 3])
    ops = [{"op": "hb_new", "n": n, "names": ["h%d" % i for i in range(k)]}]
    for _ in range(r.randint(2, 9)):
        x = r.random()
        if n == 0 and x < 0.62:
            x = 0.8
        if x < 0.22:
            ops.append({"op": "hb_add", "f": r.randrange(k), "r": r.randrange(n), "c": r.randrange(n)})
        elif x < 0.62:
            m = r.choice([0, 1, 2, 4, 7, 30 if big else 3])
            rows, cols = ([r.randrange(n) for _ in range(m)] for _ in "rc")
            if r.random() < 0.1:
                (rows if r.random() < 0.5 else cols).append(r.randrange(n))
            ops.append({"op": "hb_append", "f": r.randrange(k), "rows": rows, "cols": cols, "herm": r.random() < 0.6})
        elif x < 0.78:
            p = r.choice([0.0, 0.3, 0.6, 0.9, 1.0])
            keep = [r.random() < p for _ in range(n)]
            ops.append({"op": "hb_filter", "keep": keep})
            n = sum(keep)
        elif x < 0.88:
            m = r.choice([0, 1, 2, 5])
            ops.append({"op": "hb_sites", "k": m})
            n += m
        elif x < 0.94:
            ops.append({"op": "hb_reserve", "counts": [r.randint(0, 9) for _ in range(r.randint(0, k))]})
        else:
            ops.append({"op": "hb_copy"})
        if r.random() < 0.4:
            ops.append({"op": "hb_look"})
    return ops + [{"op": "hb_look"}, {"op": "hb_copy"}]


def groups(r, big):
    ops = [{"op": "cs_new"}]
    n, norb, ids = 0, 1, {}
    free = list(range(8))
    r.shuffle(free)
    for _ in range(r.randint(2, 9)):
        x = r.random()
        if x < 0.55:
            if ids and r.random() < (0.35 if r.random() < 0.8 else 0.9):
                i = list(ids)[-1] if r.random() < 0.8 else r.choice(list(ids))
            else:
                i = free.pop()
                norb = r.choice([norb, norb, norb + 1]) if r.random() < 0.85 else r.randint(1, 3)
                ids[i] = norb
            k = r.choice([1, 1, 2, 3, 7 if big else 1])
            ops.append({"op": "cs_add", "id": i, "norb": ids[i], "k": k})
            n += k
            if not free:
                break
        elif x < 0.7:
            p = r.choice([0.0, 0.3, 0.6, 0.9, 1.0])
            keep = [r.random() < p for _ in range(n)]
            ops.append({"op": "cs_filter", "keep": keep})
            n = sum(keep)
        elif x < 0.78:
            ops.append({"op": "cs_verify", "n": max(0, n + r.choice([0, 0, 0, 1, -1]))})
        elif x < 0.88:
            ops.append({"op": "cs_start", "norb": r.randint(1, 4)})
        else:
            ops.append({"op": "cs_copy"})
        if r.random() < 0.4:
            ops.append({"op": "cs_look"})
    return ops + [{"op": "cs_verify", "n": n}, {"op": "cs_start", "norb": norb}, {"op": "cs_look"}, {"op": "cs_copy"}]


def registry(r, big):
    kind = r.choice(["site", "hop"])
    ops = [{"op": "reg_new", "kind": kind}]
    names = ["a", "b", "A", "ab", "x|y"]

    def z():
        return [r.choice([0, 0, 1, -1, 2]), r.choice([0, 0, 0, 1, -1])]

    def energy():
        if r.random() < 0.08:
            return r.choice([[], [[]]])
        rows = r.choice([1, 1, 2, 3])
        cols = rows if r.random() < (0.9 if kind == "site" else 0.6) else r.choice([1, 2, 3])
        m = [[z() for _ in range(cols)] for _ in range(rows)]
        if r.random() < 0.3:
            m = [[[0, 0] for _ in range(cols)] for _ in range(rows)]
        if r.random() < 0.3:
            m = [[[v[0], 0] for v in row] for row in m]
        if kind == "site" and rows == cols and r.random() < 0.85:
            for i in range(rows):
                m[i][i][1] = 0
            herm = r.random() < 0.5
            for i in range(rows):
                for k in range(i):
                    m[i][k] = [m[k][i][0], -m[k][i][1]] if herm else [0, 0]
            if r.random() < 0.1:
                m[-1][0] = z()
        return m

    for _ in range(r.randint(2, 8)):
        x = r.random()
        if x < 0.6:
            ops.append({"op": "reg_add", "name": "" if r.random() < 0.07 else r.choice(names), "energy": energy()})
        elif x < 0.75:
            ops.append({"op": "reg_id", "name": r.choice(names + [""])})
        else:
            ops.append({"op": "reg_at", "id": r.randint(0, 4)})
        if r.random() < 0.4:
            ops.append({"op": "reg_look"})
    return ops + [{"op": "reg_look"}]


def matrices(r, big):
    ops = []
    for _ in range(r.choice([1, 1, 2])):
        nr, nc = (r.choice([1, 2, 3, 5, 9 if big else 4]) for _ in "rc")
        fill = r.choice([0.0, 0.2, 0.5, 0.9])
        rows = []
        for _ in range(nr):
            cols = [c for c in range(nc) if r.random() < fill]
            r.shuffle(cols)
            rows.append([[c, [r.choice([0, 1, -2, 3, 5]), r.choice([0, 0, 1, -4])]] for c in cols])
            if r.random() < 0.2:
                fill = r.choice([0.0, 0.2, 0.5, 0.9])
        ops.append({"op": "mat", "rows": rows, "cols": nc, "spare": r.choice([0, 0, 3]), "indexed": r.random() < 0.5})
        total = sum(map(len, rows))
        for _ in range(r.randint(1, 3)):
            ops.append({"op": "buffered", "size": r.choice([1, 2, 3, max(1, total), total + 1, max(1, total // 2), r.randint(1, 9)])})
        a, b = sorted(r.randint(0, nr) for _ in "ab")
        ops.append({"op": "rows", "start": a, "end": b})
    v = [r.randint(-5, 5) for _ in range(r.choice([0, 1, 2, 3, 5, 8]))]
    ops.append({"op": "pieces", "v": v, "size": r.choice([1, 2, 3, max(1, len(v)), len(v) + 2])})
    return ops


def one(kind):
    return lambda r: {"id": 0, "ops": kind(r, r.random() < 0.25)}


def c19(check):
    check.assumptions += ["Arguments which the containers require: indices of present sites; coordinates which are unique over all blocks for the matrix of families."]
    check.design("MCContainers", exhaustive("MCContainers.tla", "MCContainers.cfg"))
    for f in ("direction", "columns", "one_end", "groups"):
        refuted("MCContainers.tla", "MCContainers.cfg", [("Faulty = {}", 'Faulty = {"%s"}' % f)])
        check.count("refuted_design_mistakes")
    exe = B.build("container_driver", **BUILD_KW)
    for k in range(6 if tier() == "thorough" else 1):
        for kind, num in ((blocks, 1500), (groups, 1500), (registry, 1200), (matrices, 1500)):
            check.conformance(exe, scenarios(one(kind), num, seed() * 100 + k), *SPECS, label=kind.__name__)


CHECKS = {"C19": c19}
