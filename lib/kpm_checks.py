"""C13-C15: the kernel polynomial method"""
import random
from runner import *
from model_gen import Gen

BUILD_KW = dict(main="kpm_driver.cpp", parts=["lib", "kpm"], include=("simd",))


def kpm_exe(simd=False):
    return B.build("kpm_driver_simd" if simd else "kpm_driver",
                   extra_flags=("-DVERIF_SIMD=1",) if simd else (), **BUILD_KW)


def graph(r, n, kind):
    """Edges of a sparse graph"""
    perm = list(range(n))
    r.shuffle(perm)
    e = set()
    deg = [0] * n

    def add(i, j, cap=3):
        a, b = min(i, j), max(i, j)
        if a != b and (a, b) not in e and deg[a] < cap and deg[b] < cap:
            e.add((a, b))
            deg[a] += 1
            deg[b] += 1

    if kind in ("path", "ring"):
        for i in range(n - 1):
            add(perm[i], perm[i + 1])
        if kind == "ring" and n > 2:
            add(perm[-1], perm[0])
    elif kind == "tree":
        for i in range(1, n):
            for _ in range(6):
                j = perm[r.randrange(i)]
                if deg[j] < 3:
                    add(perm[i], j)
                    break
    elif kind == "ladder":
        h = n // 2
        for i in range(h):
            add(perm[i], perm[h + i])
            if i + 1 < h:
                add(perm[i], perm[i + 1])
                add(perm[h + i], perm[h + i + 1])
    elif kind == "random":
        for _ in range(2 * n):
            add(r.randrange(n), r.randrange(n), cap=r.choice([2, 3]))
    elif kind == "split":           # several components and isolated sites
        cut = r.randint(1, max(1, n - 1))
        for part in (perm[:cut], perm[cut:]):
            for i in range(len(part) - 1):
                if r.random() < 0.85:
                    add(part[i], part[i + 1])
    return sorted(e)


def hamiltonian(r, typ, a, b, kinds, nmax, nmin=1):
    n = r.randint(nmin, nmax)
    comp = typ.startswith("c")
    ws = [(1, 0), (-1, 0), (1, 0)] + ([(0, 1), (0, -1)] * 2 if comp else [])
    h = []
    for i, j in graph(r, n, r.choice(kinds)):
        w = r.choice(ws)
        h.append([i, j, w[0] * a // 2, w[1] * a // 2])
    mode = r.choice(["none", "none", "b", "some"])
    for i in range(n):
        d = r.choice([0, 0, 0, 1, -1]) if mode == "some" else 0
        v = d * a // 2 + (b if mode != "none" else 0)
        if v or (mode != "none" and r.random() < 0.15):
            h.append([i, i, v, 0])
    r.shuffle(h)
    return n, h


KINDS = ["path", "path", "ring", "tree", "ladder", "random", "split"]


def ivec(r, n, comp, dense=0.5):
    v = []
    for _ in range(n):
        if r.random() > dense:
            v.append([0, 0])
        else:
            v.append([r.choice([1, -1, 2]), r.choice([0, 0, 1, -1]) if comp else 0])
    return v


class KpmGen:
    def __init__(self, r, types=("f", "d", "cf", "cd"), kinds=KINDS, nmax=14, bs=(0, 0, 0, 1, -2, 3),
                 kernels=("dirichlet", "custom", "custom", "lorentz"), threads=(1, 2, 3, 4, 8), nmin=1):
        self.r, self.kinds, self.nmax, self.nmin = r, kinds, nmax, nmin
        self.type = r.choice(types)
        self.a, self.b = r.choice([2, 2, 4]), r.choice(bs)
        if self.a == 4:
            self.b *= 2
        self.n, h = hamiltonian(r, self.type, self.a, self.b, kinds, nmax, nmin)
        k = r.choice(kernels)
        self.ops = [{"op": "core", "type": self.type, "n": self.n, "h": h, "a": self.a, "b": self.b, "kernel": k,
                     "lambda": r.choice([3, 4, 5]), "ell": r.random() < 0.5, "opt": r.random() < 0.7,
                     "inter": r.random() < 0.5, "threads": r.choice(threads), "auto": False}]

    @property
    def comp(self):
        return self.type.startswith("c")

    def set_ham(self, types=None):
        r = self.r
        if r.random() < 0.5:
            self.type = r.choice(types or ["f", "d", "cf", "cd"])
        self.n, h = hamiltonian(r, self.type, self.a, self.b, self.kinds, self.nmax, self.nmin)
        self.ops.append({"op": "set_ham", "type": self.type, "n": self.n, "h": h})

    def num(self):
        return self.r.choice([1, 2, 3, 5, 6, 6, 7, 9, 10, 10, 11, 13, 14])

    def moments(self):
        r = self.r
        alpha = ivec(r, self.n, self.comp, r.choice([0.2, 0.5, 1]))
        if not any(x != [0, 0] for x in alpha):
            alpha[r.randrange(self.n)] = [1, 0]
        beta = ivec(r, self.n, self.comp) if r.random() < 0.5 else []
        hasop = r.random() < 0.4
        mat = {}
        if hasop:
            for _ in range(r.randint(0, 2 * self.n)):
                mat[(r.randrange(self.n), r.randrange(self.n))] = (
                    r.choice([1, -1, 2]), r.choice([0, 1, -1]) if self.comp else 0)
        self.ops.append({"op": "moments", "num": self.num(), "alpha": alpha, "beta": beta, "hasop": hasop,
                         "mat": [[i, j, v[0], v[1]] for (i, j), v in sorted(mat.items())]})

    def ldos(self, most=5):
        r = self.r
        k = 1 if r.random() < 0.4 else r.randint(1, most)
        self.ops.append({"op": "ldos", "num": self.num(), "idx": [r.randrange(self.n) for _ in range(k)]})

    def greens(self):
        r = self.r
        row = r.randrange(self.n)
        x = r.random()
        cols = [row] if x < 0.2 else [r.randrange(self.n) for _ in range(r.randint(1, 5))]
        self.ops.append({"op": "greens", "num": self.num(), "row": row, "cols": cols})

    def dos(self, most=12):
        self.ops.append({"op": "dos", "num": self.num(), "vectors": self.r.randint(1, most)})

    def cond(self):
        r = self.r
        core = self.ops[0]
        cfg = {k: core[k] for k in ("a", "b", "kernel", "lambda", "ell", "opt", "inter")}
        self.ops.append({"op": "cond", "num": r.choice([1, 2, 5, 6, 9, 10]), "vectors": r.randint(1, 3),
                         "left": [r.randint(-2, 2) for _ in range(self.n)],
                         "right": [r.randint(-2, 2) for _ in range(self.n)], "config": cfg})


def finish(g):
    return {"id": 0, "ops": g.ops}


def c13_one(r):
    """Single calculations: moments, LDOS, Green's functions"""
    g = KpmGen(r)
    r.choice([g.moments, g.ldos, g.greens, g.greens])()
    if r.random() < 0.3:
        r.choice([g.moments, g.ldos, g.greens])()
    return finish(g)


def c14_one(r):
    """Histories on one Core: the indices and the Hamiltonian change between the calculations"""
    g = KpmGen(r, nmax=8, types=("f", "d", "d", "cd", "cf"))
    for _ in range(r.randint(3, 7)):
        x = r.random()
        if x < 0.2:
            g.set_ham()
        elif x < 0.4:
            g.moments()
        elif x < 0.6:
            g.ldos(3)
        elif x < 0.85:
            g.greens()
        else:
            g.dos(3)
        if len(g.ops) > 2 and r.random() < 0.25:       # the same calculation again, or with other indices
            prev = dict(r.choice([o for o in g.ops if o["op"] in ("ldos", "greens")] or [g.ops[-1]]))
            if prev["op"] in ("ldos", "greens") and max(prev.get("idx", [0]) + prev.get("cols", [0]) + [prev.get("row", 0)]) < g.n:
                if prev["op"] == "greens" and r.random() < 0.5:
                    prev["cols"] = list(reversed(prev["cols"]))
                g.ops.append(prev)
    return finish(g)


def c15_one(r):
    """Stochastic calculations and batches: DOS, conductivity, LDOS with many indices"""
    g = KpmGen(r, types=("f", "d", "cf", "cd"), nmax=8, kinds=["path", "path", "ring", "tree", "split"])
    if g.comp:
        g = KpmGen(r, types=(g.type,), nmax=6, kinds=["path", "path", "ring", "tree", "split"])
    x = r.random()
    if x < 0.08:
        g.ops.append({"op": "random", "vectors": 256})
    if x < 0.45:
        g.dos(r.choice([3, 12, 20]))
    elif x < 0.6:
        g.cond()
    else:
        g2 = KpmGen(r, nmax=10)
        g2.ldos(r.choice([8, 12, 20]))
        return finish(g2)
    return finish(g)


def scenarios(fn, num, sd):
    r = random.Random(sd * 7919 + len(fn.__name__))
    out = []
    for i in range(num):
        s = fn(random.Random(r.random()))
        s["id"] = i + 1
        out.append(s)
    return out


# ------------------------------------------------------------------ C16: the interface for models
class SmallGen(Gen):
    """Models with small energies"""

    def val(self, cx):
        return [self.r.choice([1, -1, 1, 0]), self.r.choice([0, 0, 1, -1]) if cx else 0]

    def onsite(self, n, cx):
        m = super().onsite(n, cx)
        for i in range(n):
            m[i][i] = [self.r.choice([0, 0, 1, -1, 2]) if m[i][i][0] else 0, 0]
        return m


FAR = {"kind": "box", "lo": [9000, 9000, 9000], "hi": [9001, 9001, 9001]}


class ModelGen:
    def __init__(self, r):
        self.r = r
        self.ops = []

    def build(self):
        r = self.r
        small = r.random() < 0.8
        g = (SmallGen if small else Gen)(r, ndim=r.choice([1, 1, 2, 2, 3]), multi=0.3, nhop=r.randint(1, 3), far=0.1,
                                         complex=0.25, minnb=0.15)
        g.lattice()
        g.model()
        g.ops.append(g.primitive(big={1: 5, 2: 3, 3: 2}[g.ndim]) if r.random() < 0.75 else g.shape(size={1: 3, 2: 1.5, 3: 1}[g.ndim]))
        if r.random() < 0.2 and g.ops[-1]["op"] == "primitive":
            g.ops.append(g.symmetry(size=g.n))
            g.ops.append(g.wave())
        if r.random() < 0.25:
            g.ops.append(g.state_mod())
        if r.random() < 0.25:
            g.ops.append(g.pos_mod())
        if r.random() < 0.2:
            g.ops.append(g.site_gen())
        if r.random() < 0.4:
            g.ops.append({"op": "onsite_mod", "tag": g.newtag(), "sub": "", "kind": "add", "lin": [0, 0, 0, r.choice([0, 1])],
                          "w": [0, 0], "complex": r.random() < 0.3, "double": r.random() < 0.7})
        self.g = g
        self.names = ["", "", ""] + g.names(True) + (["Z"] if r.random() < 0.3 else [])
        return g.ops

    def first(self):
        r = self.r
        self.core = {"a": r.choice([2, 2, 1]), "b": r.choice([0, 0, 0, 1, -1]),
                     "kernel": r.choice(["dirichlet", "custom", "custom"]), "lambda": 4, "ell": r.random() < 0.5,
                     "opt": r.random() < 0.7, "inter": r.random() < 0.5}
        self.ops.append(dict(self.core, op="kpm", threads=r.choice([1, 2, 4]), build=self.build()))
        # sizes are known roughly
        n = 1
        for x in getattr(self.g, "n", [1, 1, 1]):
            n *= max(1, x)
        self.est = sum(self.g.subs.values()) * n

    def set_model(self):
        build = list(self.build())
        if self.r.random() < 0.15:
            build.append(dict(FAR, op="shape"))        # there are no sites
        self.ops.append({"op": "set_model", "build": build, "late": self.r.random() < 0.5})

    def mutate(self):
        g, r = self.g, self.r
        k = len(g.ops)
        for _ in range(r.randint(1, 2)):
            g.ops.append(r.choice([g.onsite_mod, g.state_mod])())
        self.ops.append({"op": "mutate", "build": g.ops[k:] + [{"op": "ham"}] * r.randint(0, 1)})
        del g.ops[k:]

    def num(self):
        return self.r.choice([1, 2, 3, 5, 6, 6, 7, 9, 10])

    def pos(self):
        r, d = self.r, self.g.ndim
        return [r.randint(-16, 16) if i < d else 0 for i in range(3)]

    def ldos(self):
        self.ops.append({"op": "k_ldos", "num": self.num(), "pos": self.pos(), "sub": self.r.choice(self.names),
                         "reduce": self.r.random() < 0.6})

    def spatial(self):
        r, d = self.r, self.g.ndim
        p = self.pos()
        if r.random() < 0.6:
            lo = [x - r.choice([1, 3, 5, 9, 15]) for x in p]
            hi = [max(l, x + r.choice([1, 3, 5, 9, 15])) for l, x in zip(lo, p)]
            sh = {"kind": "box", "lo": lo, "hi": hi}
        else:
            h = r.choice([2, 4, 8, 12])
            sh = {"kind": "circle", "c": p, "r2": h * h + r.choice([0, 1, -1]), "h": h + 1}
        self.ops.append({"op": "k_spatial", "num": self.num(), "shape": sh, "sub": r.choice(self.names)})

    def index(self):
        r = self.r
        x = r.random()
        if x < 0.08:
            return r.choice([-1, -2, self.est, self.est + 1])
        return r.randrange(max(1, self.est)) if x < 0.6 else r.randrange(max(1, (self.est + 1) // 2))

    def greens(self):
        if self.r.random() < 0.5:
            self.ops.append({"op": "k_greens", "num": self.num(), "row": self.index(), "cols": [self.index()]})
        else:
            self.ops.append({"op": "k_greensv", "num": self.num(), "row": self.index(),
                             "cols": [self.index() for _ in range(self.r.choice([0, 1, 2, 3]))]})

    def dos(self):
        self.ops.append({"op": "k_dos", "num": self.num(), "vectors": self.r.randint(1, 4)})

    def cond(self):
        r = self.r
        d = "".join(r.choice("xyzxyzxyq") for _ in range(2)) if r.random() < 0.85 else r.choice(["", "x", "xyz", "qx", "XX"])
        self.ops.append({"op": "k_cond", "num": r.choice([1, 2, 5, 6]), "vectors": r.randint(1, 2), "dir": d, "real": True,
                         "axes": ["xyz".find(c) + 1 for c in d], "config": self.core})

    def moments(self):
        r = self.r
        n = max(1, self.est + (r.choice([1, -1]) if r.random() < 0.1 else 0))
        comp = r.random() < 0.35
        alpha = ivec(r, n, comp and r.random() < 0.5)
        beta = ivec(r, n + (1 if r.random() < 0.07 else 0), comp and r.random() < 0.5) if r.random() < 0.5 else []
        hasop = r.random() < 0.4
        rows = max(1, n + (1 if r.random() < 0.1 else 0))
        mat = {}
        if hasop:
            for _ in range(r.randint(1, 2 * n)):
                mat[(r.randrange(rows), r.randrange(rows))] = (r.choice([1, -1, 2]), r.choice([0, 1, -1]) if comp and r.random() < 0.5 else 0)
        self.ops.append({"op": "k_moments", "num": self.num(), "alpha": alpha, "beta": beta, "hasop": hasop, "oprows": rows,
                         "mat": [[i, j, v[0], v[1]] for (i, j), v in sorted(mat.items())]})


def c16_one(r):
    g = ModelGen(r)
    g.first()
    for _ in range(r.randint(2, 6)):
        x = r.random()
        if x < 0.08:
            g.set_model()
        elif x < 0.12:
            g.mutate()
        elif x < 0.4:
            g.ldos()
        elif x < 0.55:
            g.spatial()
        elif x < 0.75:
            g.greens()
        elif x < 0.82:
            g.dos()
        elif x < 0.9:
            g.moments()
        else:
            g.cond()
    return finish(g)


# ---------------------------------------------------------------- automatic bounds (part of C14)
def certified(r, typ):
    """A bipartite Hamiltonian with integer extreme eigenvalues, and their eigenvectors"""
    edges, v, side = [], [], []

    def ring(n):
        o = len(v)
        edges.extend((o + i, o + (i + 1) % n) for i in range(n))
        v.extend([1] * n)
        side.extend([1 if i % 2 else -1 for i in range(n)])

    def star(k):
        o = len(v)
        edges.extend((o, o + i + 1) for i in range(k * k))
        v.extend([k] + [1] * (k * k))
        side.extend([1] + [-1] * (k * k))

    def full(k):
        o = len(v)
        edges.extend((o + i, o + k + j) for i in range(k) for j in range(k))
        v.extend([1] * (2 * k))
        side.extend([1] * k + [-1] * k)

    def cube(d):
        o = len(v)
        for i in range(2 ** d):
            edges.extend((o + i, o + i + 2 ** b) for b in range(d) if not i & 2 ** b)
        v.extend([1] * 2 ** d)
        side.extend([1 if bin(i).count("1") % 2 else -1 for i in range(2 ** d)])

    lam = r.choice([2, 2, 3, 4])
    for _ in range(r.choice([1, 1, 2])):
        r.choice({2: [lambda: ring(r.choice([4, 6, 8, 10, 12])), lambda: star(2), lambda: full(2)],
                  3: [lambda: star(3), lambda: full(3), lambda: cube(3)],
                  4: [lambda: full(4), lambda: cube(4)]}[lam])()
    n = len(v)
    w, c = r.choice([1, 2, 3]), r.choice([0, 0, 1, -2, 5])
    gauge = [r.choice([1, -1]) for _ in range(n)]
    h = [[min(i, j), max(i, j), w * gauge[i] * gauge[j], 0] for i, j in edges]
    h += [[i, i, c, 0] for i in range(n) if c]
    return {"type": typ, "n": n, "h": h}, {
        "op": "scale", "emax": c + lam * w, "emin": c - lam * w, "vmax": [g * x for g, x in zip(gauge, v)],
        "vmin": [g * x * s for g, x, s in zip(gauge, v, side)]}


def bounds_one(r):
    """The bounds of the spectrum are found automatically, for each Hamiltonian anew"""
    ops = []
    for k in range(r.randint(1, 4)):
        ham, scale = certified(r, r.choice(["f", "d", "d"]))
        if k == 0:
            ops.append(dict(ham, op="core", a=2, b=0, kernel="dirichlet", ell=r.random() < 0.5, opt=True, inter=True,
                            threads=1, auto=True))
        else:
            ops.append(dict(ham, op="set_ham"))
        ops += [scale] * r.choice([1, 1, 2])
    return {"id": 0, "ops": ops}


# ------------------------------------------------------------------------------------- checks
SPECS = ("TraceKpm.tla", "TraceKpm.cfg")
ASSUMPTIONS = [
    "Integer Hamiltonians (a scaled spectrum of integers): the recurrence is exact, moments beyond 20000 are not compared.",
    "The vectorized kernels are compiled against an emulation of libsimdpp (harness/simd), which is not installed here."]


def populations(check, parts):
    """parts: (function, quick number); both the generic and the vectorized kernels"""
    scale = 8 if tier() == "thorough" else 1
    for simd in (False, True):
        exe = kpm_exe(simd)
        for fn, num in parts:
            for k in range(scale):
                check.conformance(exe, scenarios(fn, num, seed() * 100 + k + (50 if simd else 0)), *SPECS,
                                  label="%s-%s" % (fn.__name__, "simd" if simd else "generic"))


def slices(check, faults):
    check.design("MCSlices", exhaustive("MCSlices.tla", "MCSlicesSmall.cfg" if tier() == "quick" and not faults else "MCSlices.cfg"))
    if tier() == "thorough":
        check.design("MCSlicesDeep", exhaustive("MCSlices.tla", "MCSlicesDeep.cfg", timeout=1500))
    for f in faults:
        refuted("MCSlices.tla", "MCSlices.cfg", [("N = 4", "N = %d" % (4 if f in ("src_offset", "dst_first") else 3)), ("Faulty = {}", 'Faulty = {"%s"}' % f)])
        check.count("refuted_design_mistakes")


def c13(check):
    check.assumptions += ASSUMPTIONS
    slices(check, ["no_rest", "shrink", "eager"] + (["src_offset", "dst_first"] if tier() == "thorough" else []))
    populations(check, [(c13_one, 2500)])


def c14(check):
    check.assumptions += ASSUMPTIONS
    check.design("MCKpmCache", exhaustive("MCKpmCache.tla", "MCKpmCache.cfg"))
    for f in ("keep_bounds", "keep_opt", "ignore_dst"):
        refuted("MCKpmCache.tla", "MCKpmCache.cfg", [("Faulty = {}", 'Faulty = {"%s"}' % f)])
        check.count("refuted_design_mistakes")
    populations(check, [(c14_one, 1200), (bounds_one, 400)])


def c15(check):
    check.assumptions += ASSUMPTIONS
    slices(check, [])
    populations(check, [(c15_one, 1200)])


def c16(check):
    check.assumptions += ASSUMPTIONS
    slices(check, [])
    populations(check, [(c16_one, 1800)])


CHECKS = {"C13": c13, "C14": c14, "C15": c15, "C16": c16}
