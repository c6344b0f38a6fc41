"""Random scenarios for the model builder (integer geometry, exact in single precision)."""
import itertools
import math
import random
from fractions import Fraction as F

VECS = {1: [[[8, 0, 0]], [[12, 0, 0]], [[4, 0, 0]], [[-8, 0, 0]]],
        2: [[[8, 0, 0], [0, 8, 0]], [[8, 0, 0], [4, 8, 0]], [[12, 0, 0], [-4, 8, 0]], [[8, 0, 0], [0, 12, 0]],
            [[8, 4, 0], [-4, 8, 0]], [[0, 8, 0], [8, 0, 0]], [[4, 0, 0], [0, 4, 0]],
            [[8, 0, 0], [-24, 8, 0]], [[8, 0, 0], [16, 4, 0]]],
        3: [[[8, 0, 0], [0, 8, 0], [0, 0, 8]], [[8, 0, 0], [4, 8, 0], [0, 0, 12]],
            [[8, 0, 0], [0, 8, 0], [4, 4, 8]], [[8, 0, 0], [0, 8, 0], [-16, 0, 8]], [[8, 0, 0], [4, 8, 0], [0, 16, 8]]]}


def solve(vecs, p):
    """Lattice coordinates of a point (the vectors span the first len(vecs) axes)"""
    d = len(vecs)
    a = [[F(vecs[j][i]) for j in range(d)] + [F(p[i])] for i in range(d)]
    for c in range(d):
        piv = next(r for r in range(c, d) if a[r][c] != 0)
        a[c], a[piv] = a[piv], a[c]
        a[c] = [x / a[c][c] for x in a[c]]
        for r in range(d):
            if r != c:
                a[r] = [x - a[r][c] * y for x, y in zip(a[r], a[c])]
    return [a[i][d] for i in range(d)]


CELL_POINTS = {}


def cell_points(vecs):
    """The even points of the first unit cell"""
    key, d = str(vecs), len(vecs)
    if key not in CELL_POINTS:
        CELL_POINTS[key] = [list(p) for p in itertools.product(
            range(-24, 33, 2), range(-8, 25, 2) if d > 1 else [0], range(-8, 17, 2) if d > 2 else [0])
            if all(0 <= x < 1 for x in solve(vecs, p))]
    return CELL_POINTS[key]


def norm(v):
    return math.sqrt(sum(x * x for x in v))


class Gen:
    def __init__(self, rnd, **feat):
        self.r = rnd
        self.f = feat
        self.ops = []
        self.tag = 0

    def chance(self, name, default):
        return self.r.random() < self.f.get(name, default)

    # ------------------------------------------------------------------ matrices
    def val(self, cx):
        v = [self.r.randint(-5, 5), self.r.randint(-4, 4) if cx else 0]
        return v

    def onsite(self, n, cx):
        m = [[[0, 0] for _ in range(n)] for _ in range(n)]
        zero = self.r.random() < 0.25
        for i in range(n):
            m[i][i] = [0 if zero else self.r.randint(-6, 6), 0]
            for j in range(i + 1, n):
                m[i][j] = self.val(cx)
                if self.r.random() < 0.4:
                    m[i][j] = [0, 0]
        if self.r.random() < 0.5:   # given in full
            for i in range(n):
                for j in range(i):
                    m[i][j] = [m[j][i][0], -m[j][i][1]]
        return m

    def hopping(self, rows, cols, cx):
        m = [[self.val(cx) if self.r.random() < 0.7 else [0, 0] for _ in range(cols)] for _ in range(rows)]
        if all(v == [0, 0] for r in m for v in r):
            m[0][0] = [self.r.choice([-3, -1, 1, 2]), 0]
        return m

    # ------------------------------------------------------------------- lattice
    def lattice(self):
        r = self.r
        self.ndim = d = self.f.get("ndim") or r.choices([1, 2, 3], [2, 6, 2])[0]
        self.vecs = vecs = r.choice(VECS[d][:self.f.get("nvecs", 99)])
        nsub = self.f.get("nsub") or r.choices([1, 2, 3], [3, 5, 2])[0]
        multi = self.chance("multi", 0.3)
        cx = self.chance("complex", 0.25)
        pts = cell_points(vecs)
        nalias = 1 if self.chance("alias", 0.3) else 0
        pos = r.sample(pts, min(len(pts), nsub + nalias))
        if self.chance("outside", 0.12):    # some sites are outside of the first unit cell
            pos = [[x + sum(c * v[i] for c, v in zip(shift, vecs)) for i, x in enumerate(p)]
                   for p in pos for shift in [[r.choice([0, 0, 1, -1, 2, -2]) for _ in range(d)]]]
        nsub = min(nsub, len(pos) - nalias) or 1
        nalias = min(nalias, len(pos) - nsub)
        # the offset moves all sublattices, they stay in the first cell
        off = [0, 0, 0]
        if self.chance("offset", 0.4):
            for _ in range(20):
                o = [r.randint(-4, 4), r.randint(-4, 4) if d > 1 else 0, r.randint(-4, 4) if d > 2 else 0]
                if all(abs(x) <= F(1, 2) for x in solve(vecs, o)):
                    off = o
                    break
        self.off = off
        self.shapeoff = [0, 0, 0]
        if self.chance("shapeoff", 0.25):
            for _ in range(20):
                o = [r.randint(-3, 3), r.randint(-3, 3) if d > 1 else 0, r.randint(-3, 3) if d > 2 else 0]
                t = [a + b for a, b in zip(o, off)]
                if all(abs(x) <= F(1, 2) for x in solve(vecs, t)):
                    self.shapeoff = o
                    break
        total = [a + b for a, b in zip(self.off, self.shapeoff)]
        self.ops.append({"op": "lattice", "vecs": vecs})
        self.subs = {}
        self.public = {}
        names = ["A", "B", "C"][:nsub]
        subs = []
        for i, n in enumerate(names):
            norb = r.choice([1, 2, 2, 3]) if multi else 1
            subs.append((n, [a - b for a, b in zip(pos[i], total)], norb, None))
        for i in range(nalias):
            o = r.choice(names)
            if r.random() < 0.2 and i:
                o = "X"
            subs.append(("XY"[i], [a - b for a, b in zip(pos[nsub + i], total)], 0, o))
        if nalias and nsub > 1 and r.random() < 0.4:    # an alias may come before another original
            first = next(k for k, s in enumerate(subs) if s[0] == subs[-1][3])
            al = subs.pop()
            subs.insert(first + 1, al)
        for n, p, norb, orig in subs:
            if orig:
                self.ops.append({"op": "add_alias", "name": n, "orig": orig, "pos": p})
                self.subs[n] = self.subs[orig]
                self.public[n] = orig
            else:
                self.ops.append({"op": "add_sub", "name": n, "pos": p, "kind": "matrix", "e": self.onsite(norb, cx)})
                self.subs[n] = norb
                self.public[n] = n
        self.cx = cx
        self.fams = {}
        nhop = r.randint(1, 4) if "nhop" not in self.f else self.f["nhop"]
        seen = set()
        far = self.f.get("far", 0.1)
        for k in range(nhop):
            for _ in range(10):
                m = 2 if r.random() < far else 1
                rel = [r.randint(-m, m) if i < d else 0 for i in range(3)]
                a, b = r.choice(list(self.subs)), r.choice(list(self.subs))
                if r.random() < 0.5:
                    rel = [x if r.random() < 0.6 else 0 for x in rel]
                t, u = (tuple(rel), a, b), (tuple(-x for x in rel), b, a)
                if (a == b and not any(rel)) or t in seen or u in seen:
                    continue
                same = [n for n, (x, y) in self.fams.items() if (x, y) == (self.subs[a], self.subs[b])]
                if same and r.random() < 0.3:
                    n = r.choice(same)
                else:
                    n = "t%d" % (len(self.fams) + 1)
                    self.fams[n] = (self.subs[a], self.subs[b])
                    self.ops.append({"op": "reg_hop", "name": n, "scalar": False,
                                     "e": self.hopping(self.subs[a], self.subs[b], cx)})
                self.ops.append({"op": "add_hop", "rel": rel, "from": a, "to": b, "hop": n})
                seen.add(t)
                break
        if any(self.off):
            self.ops.append({"op": "set_offset", "pos": self.off})
        if self.chance("minnb", 0.5):
            self.ops.append({"op": "min_nb", "n": r.choice(self.f.get("minnbs", [0, 1, 1, 2, 2, 3]))})
        return self

    # --------------------------------------------------------------------- parts
    def model(self, name="m"):
        self.ops.append({"op": "model", "m": name})

    def primitive(self, big=None):
        d = self.ndim
        hi = big or {1: 9, 2: 5, 3: 3}[d]
        self.n = [self.r.randint(1, hi) if i < d else 1 for i in range(3)]
        return {"op": "primitive", "n": self.n}

    def odd(self, a, b):
        return 2 * self.r.randint(a // 2, (b - 1) // 2) + 1

    def shape(self, kind=None, size=None):
        r, d = self.r, self.ndim
        L = max(norm(v) for v in self.vecs)
        size = size or self.f.get("size") or {1: 8, 2: 3.2, 3: 1.6}[d]
        w = int(size * L)
        kind = kind or r.choice({1: ["line", "polygon", "box", "circle"], 2: ["polygon", "polygon", "box", "circle", "line"],
                                 3: ["box", "circle", "box", "polygon"]}[d])
        e = {"op": "shape", "kind": kind, "offset": self.shapeoff}
        o = lambda: self.odd(-w, w)
        if kind == "polygon":
            n = r.choice([3, 4, 4, 5, 6])
            z = [0, 0] if d < 3 else [-self.odd(3, int(L)), self.odd(3, int(L))]
            if r.random() < 0.7:   # simple polygon around a center
                c = [self.odd(-w // 2, w // 2), self.odd(-w // 2, w // 2)]
                ang = sorted(r.random() * 2 * math.pi for _ in range(n))
                v = []
                for i, a in enumerate(ang):
                    q = r.uniform(0.5, 1.0) * w
                    v.append([2 * int((c[0] + q * math.cos(a)) // 2) + 1, 2 * int((c[1] + q * math.sin(a)) // 2) + 1, z[i % 2]])
            else:                  # anything, may cross itself
                v = [[o(), o(), z[i % 2]] for i in range(n)]
            if d == 1:
                v = [[p[0], p[1] + (w if i % 2 else -w) // 2 * 2, 0] for i, p in enumerate(v)]
            if r.random() < 0.3 and d > 1:    # some corners are at the height of sites
                for p in v:
                    if r.random() < 0.5:
                        p[1] += 1
            e["verts"] = v
        elif kind == "line":
            e["a"] = [o(), o() if d > 1 else 0, o() if d > 2 else 0]
            e["b"] = [o(), o() if d > 1 else 0, o() if d > 2 else 0]
            if d == 1:
                e["a"][1] = e["b"][1] = 0
            if e["a"] == e["b"]:
                e["b"][0] += 4
        elif kind == "box":
            lo, hi = [], []
            for i in range(3):
                if i >= d:
                    lo.append(-1), hi.append(1)
                    continue
                a, b = o(), o()
                if abs(a - b) < L:
                    b = a + int(L) // 2 * 2
                lo.append(min(a, b)), hi.append(max(a, b))
            e["lo"], e["hi"] = lo, hi
        else:
            c = [self.odd(-w // 2, w // 2) if i < d else 0 for i in range(3)]
            rad = r.randint(max(2, w // 3), max(3, w))
            e["c"], e["r2"] = c, rad * rad - r.randint(0, rad)
            e["h"] = rad + (rad % 2)       # even: the corners of the bounding box are odd
            if d < 3:
                e["c"][2] = 0
        return e

    def rule(self):
        m = self.r.choice([2, 3, 4, 5])
        return {"lin": [self.r.choice([0, 1, 1, 3, -1]), self.r.choice([0, 1, 2, 1]), self.r.choice([0, 1]),
                        self.r.randint(0, 4)], "m": m, "r": self.r.randint(0, m - 1)}

    def newtag(self):
        self.tag += 1
        return "g%d" % self.tag

    def names(self, system=False):
        return sorted(set(self.public.values())) if system else list(self.subs)

    def state_mod(self, minnb=0, system=False):
        return {"op": "state_mod", "tag": self.newtag(), "sub": self.r.choice(["", ""] + self.names(system)),
                "rule": self.rule(), "minnb": minnb}

    def pos_mod(self, system=False):
        return {"op": "pos_mod", "tag": self.newtag(), "sub": self.r.choice(["", ""] + self.names(system)),
                "rule": self.rule(), "d": [self.r.randint(-3, 3) for _ in range(3)]}

    def lin(self, big=1):
        return [self.r.randint(-big, big), self.r.randint(-big, big), self.r.randint(-big, big), self.r.randint(-2, 3)]

    slopes = 0

    def slope(self):
        """Factors which depend on the position: two at most, the energies have to stay small"""
        if self.slopes < 2 and self.r.random() < 0.4:
            self.slopes += 1
            return 1
        return 0

    def onsite_mod(self, kinds=("add", "mul", "mix")):
        k = self.r.choice(list(kinds))
        e = {"op": "onsite_mod", "tag": self.newtag(), "sub": self.r.choice(["", ""] + self.names(True)), "kind": k,
             "lin": self.lin(), "w": [self.r.randint(-2, 2), self.r.choice([0, 0, 1, -2])],
             "complex": self.r.random() < 0.2, "double": self.r.random() < 0.3}
        if k == "mul":
            e["lin"] = [self.slope(), 0, 0, self.r.randint(-2, 2)]
        return e

    def hop_mod(self, kinds=("add", "mul", "phase"), fams=None, sym=False):
        k = self.r.choice(list(kinds))
        e = {"op": "hop_mod", "tag": self.newtag(), "fam": self.r.choice(["", ""] + list(fams if fams is not None else self.fams)),
             "kind": k, "lin1": self.lin(), "lin2": self.lin(),
             "complex": self.r.random() < 0.2, "double": self.r.random() < 0.3, "log": True}
        if k == "mul":
            e["lin1"] = [self.slope(), 0, 0, self.r.randint(-2, 2)]
            e["lin2"] = [self.r.choice([0, 1]) if e["lin1"][0] else self.slope(), 0, 0, self.r.randint(0, 2)]
        if sym:
            if k == "phase":
                e["lin2"] = [-x for x in e["lin1"]]
            else:
                e["lin2"] = list(e["lin1"])
        return e

    def symmetry(self, size=None):
        """periods in cells (-1: none); the length is near a multiple of the length of the vector"""
        r, d = self.r, self.ndim
        n = [-1, -1, -1]
        dirs = [i for i in range(d) if r.random() < 0.6] or [r.randrange(d)]
        for i in dirs:
            n[i] = r.randint(1, min(4, size[i] if size else 4)) if r.random() < 0.9 else r.randint(1, 6)
        ln = [-1.0, -1.0, -1.0]
        for i in range(3):
            if n[i] > 0:
                v = norm(self.vecs[i])
                ln[i] = n[i] * v + r.uniform(-0.4, 0.4) * v
                if n[i] == 1 and r.random() < 0.3:
                    ln[i] = 0.0 if r.random() < 0.5 else 0.2 * v
        # a direction beyond the dimension of the lattice has no effect
        return {"op": "symmetry", "n": n, "len": ln}

    def wave(self):
        return {"op": "wave", "k": [self.r.randint(-3, 3) for _ in range(3)]}  # in units of pi/8

    def site_gen(self):
        n = "S%d" % (self.tag + 1)
        norb = self.r.choice([1, 1, 2]) if any(v > 1 for v in self.subs.values()) or self.r.random() < 0.2 else 1
        src = self.r.choice(self.names(True))
        e = {"op": "site_gen", "tag": self.newtag(), "name": n, "e": self.onsite(norb, self.cx), "sub": src,
             "rule": self.rule(), "d": [2 * self.r.randint(-3, 3) + 1, self.r.randint(-3, 3), self.r.choice([0, 5])]}
        self.subs[n], self.public[n] = norb, n
        self.gens = getattr(self, "gens", {})
        self.gens[n] = (src, e["d"])
        return e

    def hop_gen(self):
        n = "h%d" % (self.tag + 1)
        gens = getattr(self, "gens", {})
        if gens and self.r.random() < 0.7:
            to = self.r.choice(list(gens))
            fr, d = gens[to]
            if self.r.random() < 0.3:
                fr, to, d = to, fr, [-x for x in d]
        else:
            fr = self.r.choice(self.names(True))
            to = fr
            d = list(self.r.choice(self.vecs))
        a, b = self.subs[fr], self.subs[to]
        e = self.hopping(a, b, self.cx)
        if a == b and self.r.random() < 0.5:
            for i in range(a):
                e[i][i][1] = 0
                for j in range(i):
                    e[i][j] = [e[j][i][0], -e[j][i][1]]
        self.fams[n] = (a, b)
        return {"op": "hop_gen", "tag": self.newtag(), "name": n, "e": e, "from": fr, "to": to, "d": d,
                "twice": a == b and self.r.random() < 0.4, "again": self.r.random() < 0.3}

    def lead(self, ax=None, bad=True):
        """A lead along one of the axes: mostly a shape which is the same for every layer of cells"""
        r, d = self.r, self.ndim
        if bad and r.random() < 0.05:
            return {"op": "lead", "dir": r.choice([0, 3, -3, 4]), "shape": {"kind": "line", "a": [1, 1, 0], "b": [1, 9, 0]}}
        ax = r.randrange(d) if ax is None else ax
        u = self.vecs[ax]
        sign = r.choice([1, -1])
        L = int(max(norm(v) for v in self.vecs))
        for _ in range(30):
            sh = self.lead_shape(ax, u, L)
            vs = [sh["a"], sh["b"]] if sh["kind"] == "line" else list(itertools.product(*zip(sh["lo"], sh["hi"])))
            # the corners must not lie on the border of a cell
            if all(x.denominator != 1 for v in vs for x in solve(self.vecs, v)):
                break
        return {"op": "lead", "dir": sign * (ax + 1), "shape": sh}

    def lead_shape(self, ax, u, L):
        r, d = self.r, self.ndim
        if r.random() < 0.3:
            # a shape with a cross-section which varies along the axis
            if d >= 2 and r.random() < 0.5:
                a = [self.odd(-2 * L, 2 * L), self.odd(-2 * L, 2 * L), 0]
                b = [self.odd(-2 * L, 2 * L), self.odd(-2 * L, 2 * L), 0]
                if a != b:
                    return {"kind": "line", "a": a, "b": b}
            lo = [self.odd(-2 * L, L) if i < d else -1 for i in range(3)]
            return {"kind": "box", "lo": lo, "hi": [x + 2 * r.randint(L // 4 + 1, 2 * L) if i < d else 1 for i, x in enumerate(lo)]}
        if d == 2 and r.random() < 0.85:
            # a segment perpendicular to the axis, through an odd point
            p = [-u[1] // 4, u[0] // 4] if self.vecs[ax] else None
            w = max(1, int(L * r.choice([0.3, 0.6, 1])))
            c = [self.odd(-w, w), self.odd(-w, w), 0]
            k = r.choice([1, 1, 2, 3])
            a = [c[0] - k * p[0], c[1] - k * p[1], 0]
            b = [c[0] + k * p[0], c[1] + k * p[1], 0]
            sh = {"kind": "line", "a": a, "b": b}
        else:
            other = [v for i, v in enumerate(self.vecs) if i != ax]
            # a box which is unlimited along the axis (when the vector is along a Cartesian axis)
            lo, hi = [-9999] * 3, [9999] * 3
            axes = [i for i in range(3) if u[i] != 0]
            free = axes[0] if len(axes) == 1 else None
            lo, hi = [], []
            for i in range(3):
                if i == free:
                    lo.append(-4 * L - 1), hi.append(4 * L + 1)
                elif i >= d:
                    lo.append(-1), hi.append(1)
                else:
                    a = self.odd(-L, L)
                    lo.append(a), hi.append(a + 2 * r.randint(1, L))
            sh = {"kind": "box", "lo": lo, "hi": hi}
        return sh
