"""Checks of the model builder: scenario populations over the one trace specification"""
import copy
import random
from runner import *
from model_gen import Gen, solve

DRIVER = ("model_driver", "model_driver.cpp", ["lib"])


def driver():
    return B.build(*DRIVER)


def obs(*ops):
    return [{"op": o} for o in ops]


def finish(n, ops, aspects):
    return {"id": n, "ops": ops, "aspects": aspects}


def population(num, sd, make):
    out = []
    k = 0
    while len(out) < num:
        rnd = random.Random(sd * 1000003 + k)
        k += 1
        s = make(rnd)
        if s is not None:
            s["id"] = len(out) + 1
            out.append(s)
    return out


def c02_one(r):
    g = Gen(r, multi=0.2).lattice()
    g.model()
    g.ops.append(g.shape() if r.random() < 0.7 else g.primitive())
    if r.random() < 0.15:
        g.ops.append(g.primitive() if r.random() < 0.5 else g.shape())
    return finish(0, g.ops + obs("system"), [])


def c03_one(r):
    g = Gen(r, far=0.2, nhop=r.randint(2, 5)).lattice()
    g.model()
    g.ops.append(g.shape() if r.random() < 0.5 else g.primitive())
    return finish(0, g.ops + obs("system"), ["hops"])


def c04_one(r):
    g = Gen(r, multi=0.6, complex=0.5, nhop=r.randint(2, 4)).lattice()
    g.model()
    g.ops.append(g.shape(size=1.6) if r.random() < 0.4 else g.primitive())
    return finish(0, g.ops + obs("ham"), ["ham"])


def c05_one(r):
    g = Gen(r, far=0.2, nhop=r.randint(2, 4), multi=0.3, shapeoff=0.2, minnbs=[0, 1]).lattice()
    g.model()
    if r.random() < 0.25:
        g.ops.append(g.shape())
        sym = g.symmetry(size=[2, 2, 2])
    else:
        g.ops.append(g.primitive())
        sym = g.symmetry(size=g.n)
    g.ops.append(sym)
    for _ in range(r.choice([0, 0, 1])):
        g.ops.append(g.state_mod())
    for _ in range(r.choice([0, 0, 0, 1])):
        g.ops.append(g.pos_mod())
    for _ in range(r.choice([0, 0, 1, 2])):
        g.ops.append(g.hop_mod())
    if r.random() < 0.2:
        g.ops.append(g.onsite_mod())
    g.ops += obs("system")
    for _ in range(r.choice([1, 1, 2])):
        g.ops.append(g.wave())
        g.ops += obs("ham")
    return finish(0, g.ops, ["hops", "bounds", "ham", "hamlog"])


def c06_one(r):
    g = Gen(r, far=0.05, nhop=r.randint(2, 5), minnb=0.9, minnbs=[1, 2, 2, 3, 3, 4], nsub=r.choice([1, 2, 3])).lattice()
    g.model()
    g.ops.append(g.shape(size={1: 9, 2: 4, 3: 2}[g.ndim]) if r.random() < 0.6 else g.primitive(big={1: 14, 2: 8, 3: 4}[g.ndim]))
    for _ in range(r.choice([0, 1, 1, 2])):
        m = g.state_mod(minnb=r.choice([0, 1, 1, 2, 2, 3]))
        m["rule"]["m"] += r.choice([0, 2, 5])
        g.ops.append(m)
    return finish(0, g.ops + obs("system"), ["hops"])


def c07_one(r):
    g = Gen(r, nhop=r.randint(1, 4), multi=0.3, minnbs=[0, 0, 1]).lattice()
    g.model()
    prim = r.random() < 0.6
    g.ops.append(g.primitive() if prim else g.shape())
    if prim and r.random() < 0.25:
        g.ops.append(g.symmetry(size=g.n))
    sysphase = False
    for _ in range(r.randint(1, 5)):
        x = r.random()
        if x < 0.3:
            g.ops.append(g.state_mod(system=sysphase, minnb=1 if sysphase and r.random() < 0.05 else 0))
        elif x < 0.5:
            g.ops.append(g.pos_mod(system=sysphase))
        elif x < 0.75:
            g.ops.append(g.site_gen())
            sysphase = True
        else:
            g.ops.append(g.hop_gen())
            sysphase = True
        if r.random() < 0.1:
            g.ops.append(dict(g.ops[-1], name=r.choice(["", "A", "t1"])) if g.ops[-1]["op"].endswith("gen")
                         else {"op": "system"})
    g.ops += obs("system")
    if r.random() < 0.5:
        if r.random() < 0.4:
            g.ops.append(g.onsite_mod())
        if r.random() < 0.4:
            g.ops.append(g.hop_mod(kinds=("mul", "phase"), sym=True))
        g.ops += obs("ham")
    return finish(0, g.ops, ["hops", "bounds", "indices", "log", "ham"])


def chunks(r):
    """A chain with large and sparse matrices: the energies are modified in several pieces"""
    g = Gen(r, ndim=1)
    g.ndim, g.vecs, g.off, g.shapeoff = 1, [[8, 0, 0]], [0, 0, 0], [0, 0, 0]
    rows = r.choice([50, 60, 64, 100])
    cols = rows if r.random() < 0.5 else r.choice([40, 80, 100])

    def sparse(n, m, herm=False):
        e = [[[0, 0] for _ in range(m)] for _ in range(n)]
        for _ in range(3):
            i, j = r.randrange(n), r.randrange(m)
            if herm and i >= j:
                e[i][i] = [r.randint(-5, 5), 0]
            else:
                e[i][j] = [r.randint(1, 5), 0]
        return e

    g.ops.append({"op": "lattice", "vecs": g.vecs})
    g.ops.append({"op": "add_sub", "name": "A", "pos": [0, 0, 0], "kind": "matrix", "e": sparse(rows, rows, True)})
    g.subs, g.public, g.fams = {"A": rows}, {"A": "A"}, {"t1": (rows, cols)}
    to = "A"
    if cols != rows:
        to = "B"
        g.ops.append({"op": "add_sub", "name": "B", "pos": [4, 0, 0], "kind": "matrix", "e": sparse(cols, cols, True)})
        g.subs["B"], g.public["B"] = cols, "B"
    g.ops.append({"op": "reg_hop", "name": "t1", "scalar": False, "e": sparse(rows, cols)})
    g.ops.append({"op": "add_hop", "rel": [1, 0, 0], "from": "A", "to": to, "hop": "t1"})
    g.model()
    per = 100000 // (rows * cols)
    n = r.choice([per, per + 1, 2 * per, 2 * per + 1, 2 * per + 2, per * 2 + r.randint(0, per), 3 * per + 1])
    g.ops.append({"op": "primitive", "n": [n, 1, 1]})
    for _ in range(r.randint(1, 2)):
        g.ops.append(g.hop_mod(kinds=("mul", "phase")))
    g.ops += obs("ham")
    return finish(0, g.ops, ["ham", "hamlog"])


def c08_one(r):
    if r.random() < 0.012:
        return chunks(r)
    g = Gen(r, multi=0.4, nhop=r.randint(1, 4), minnb=0.2, complex=0.3).lattice()
    g.model()
    prim = r.random() < 0.7
    g.ops.append(g.primitive() if prim else g.shape())
    if prim and r.random() < 0.2:
        g.ops.append(g.symmetry(size=g.n))
    if r.random() < 0.3:
        g.ops.append(g.state_mod())
    if r.random() < 0.2:
        g.ops.append(g.pos_mod())
    hg = r.random() < 0.2
    if hg:
        g.ops.append(g.site_gen())
        g.ops.append(g.hop_gen())
    for _ in range(r.randint(1, 5)):
        g.ops.append(g.onsite_mod() if r.random() < 0.45 else
                     g.hop_mod(kinds=("mul", "phase") if hg else ("add", "mul", "phase"), sym=hg))
    g.ops += obs("ham")
    return finish(0, g.ops, ["ham", "hamlog"])


def c10_one(r):
    g = Gen(r, ndim=r.choice([2, 2, 2, 3]), nhop=r.randint(2, 4), multi=0.2, minnbs=[0, 1, 1, 2], minnb=0.3, far=0.05,
            complex=0.3, shapeoff=0.1).lattice()
    g.model()
    g.ops.append(g.shape() if r.random() < 0.35 else g.primitive(big=6 if g.ndim == 2 else 3))
    if r.random() < 0.25:
        g.ops.append(g.state_mod())
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        g.ops.append(g.lead())
    if r.random() < 0.25:
        g.ops.append(g.site_gen())
        if r.random() < 0.5:
            g.ops.append(g.hop_gen())
    gens = any(o["op"].endswith("_gen") for o in g.ops)
    for _ in range(r.choice([0, 0, 1, 2])):
        g.ops.append(g.onsite_mod() if r.random() < 0.5 else
                     g.hop_mod(kinds=("mul",) if gens or r.random() < 0.5 else ("add", "mul", "phase"), sym=r.random() < 0.3 or gens))
    if r.random() < 0.3:
        g.ops += obs("system")
    g.ops += obs("leads")
    return finish(0, g.ops, ["hops", "ham", "indices"])


def c11_one(r):
    g = Gen(r, multi=0.5, minnb=0.2, nhop=r.randint(1, 3)).lattice()
    g.model()
    prim = r.random() < 0.6
    g.ops.append(g.primitive() if prim else g.shape())
    if r.random() < 0.3:
        g.ops.append(g.state_mod())
    if r.random() < 0.35:
        g.ops.append(g.site_gen())
        if r.random() < 0.5:
            g.ops.append(g.state_mod(system=True))
    g.ops += obs("system")
    names = ["", "nope"] + list(g.subs)
    for n in names:
        g.ops.append({"op": "range", "sub": n})
    for _ in range(6):
        g.ops.append({"op": "nearest", "sub": r.choice(names), "pos": [r.randint(-30, 30), r.randint(-30, 30) if g.ndim > 1 else 0,
                                                                       r.randint(-30, 30) if g.ndim > 2 else 0]})
    g.ops += obs("expanded")
    return finish(0, g.ops, ["indices"])


def c12_one(r):
    g = Gen(r, multi=0.3, complex=0.3, nhop=r.randint(1, 3), minnb=0.1).lattice()
    g.model()
    g.ops.append(g.primitive())
    if r.random() < 0.15:
        g.ops.append(g.symmetry(size=g.n))
    if r.random() < 0.15:
        g.ops.append(g.site_gen())
    if r.random() < 0.1:
        g.ops.append(g.hop_gen())
    g.ops += obs("flags")
    for _ in range(r.choice([0, 1, 2, 3])):
        x = r.random()
        gens = any(o["op"].endswith("_gen") for o in g.ops)
        if x < 0.4:
            g.ops.append(g.onsite_mod(kinds=("add", "mul", "mix", "mix", "nan", "inf") if r.random() < 0.5 else ("add", "mul", "mix")))
        else:
            g.ops.append(g.hop_mod(kinds=("mul", "phase") if gens else ("add", "mul", "phase"), sym=gens))
    g.ops += obs("flags", "ham", "flags")
    return finish(0, g.ops, ["type"])


def histories_with_leads(r):
    """Leads which can be attached, observed before and after each change"""
    g = Gen(r, ndim=2, multi=0.2, nhop=r.randint(1, 3), minnb=0.15, minnbs=[0, 1], complex=0.2, nsub=r.choice([1, 1, 2]),
            alias=0.15, outside=0, nvecs=5).lattice()
    g.model()

    def body():
        g.ops.append({"op": "primitive", "n": [r.randint(3, 5), r.randint(3, 5), 1]})

    def lead():
        ax = r.randrange(2)
        u = g.vecs[ax]
        p = [-u[1] // 4, u[0] // 4]
        for _ in range(30):
            k = r.choice([1, 2, 3])
            c = [r.choice([-3, -1, 1, 3]), r.choice([-3, -1, 1, 3])]
            ends = [[c[0] + x * p[0], c[1] + x * p[1], 0] for x in (-k, k)]
            # the ends must not lie on the border of a cell
            if all(x.denominator != 1 for v in ends for x in solve(g.vecs, v)):
                break
        g.ops.append({"op": "lead", "dir": r.choice([1, -1]) * (ax + 1),
                      "shape": {"kind": "line", "a": ends[0], "b": ends[1]}})

    body()
    lead()
    if r.random() < 0.3:
        lead()
    models = ["m"]
    for _ in range(r.randint(3, 7)):
        g.ops += obs(*r.choice([["leads"], ["leads"], ["leads"], ["ham", "leads"], ["eval", "leads"], ["system", "leads"], ["ham"]]))
        x = r.random()
        if x < 0.35:
            g.ops.append(g.hop_mod(kinds=("mul", "phase"), sym=True))
        elif x < 0.6:
            g.ops.append(g.onsite_mod())
        elif x < 0.68:
            g.ops.append({"op": "clear_ham"})
        elif x < 0.75:
            body()
        elif x < 0.8:
            g.ops.append(g.state_mod(system=True))
        elif x < 0.85:
            lead()
        elif x < 0.9:
            g.ops.append(g.wave())
        elif x < 0.96 and len(models) < 2:
            g.ops.append({"op": "copy", "to": "m2"})
            models.append("m2")
            if r.random() < 0.5:
                g.ops.append({"op": "use", "m": "m2"})
        elif len(models) > 1:
            g.ops.append({"op": "use", "m": r.choice(models)})
    g.ops += obs("leads", "ham")
    for m in models:
        g.ops += [{"op": "use", "m": m}] + obs("leads", "ham", "flags")
    return finish(0, g.ops, ["hops", "bounds", "indices", "ham", "type"])


def histories_of_types(r):
    """A real model becomes complex by a modifier which didn't say so, and real again without it; wave vectors nearby"""
    g = Gen(r, ndim=r.choice([1, 1, 2]), multi=0.2, nhop=r.randint(1, 2), complex=0, size=2.2).lattice()
    g.model()
    g.ops.append(g.primitive(big={1: 4, 2: 3}[g.ndim]))
    if r.random() < 0.5:
        g.ops.append(g.symmetry(size=[2, 2, 1]))
    seen = lambda: obs(*r.choice([["ham"], ["ham"], ["ham", "flags"], ["flags", "ham"], ["eval"], []]))
    for _ in range(r.randint(2, 4)):
        x = r.random()
        if x < 0.55:
            if r.random() < 0.7:
                g.ops.append(dict(g.hop_mod(kinds=("phase",), sym=True), complex=False))
            else:
                g.ops.append(dict(g.onsite_mod(kinds=("mix",)), complex=False))
            g.ops += seen()
            g.ops.append(r.choice([{"op": "clear_ham"}, {"op": "clear_ham"}, {"op": "clear_all"}, g.primitive(big=2)]))
        elif x < 0.8:
            k = [r.randint(-400, 400) if i < g.ndim else 0 for i in range(3)]
            near = list(k)
            near[r.randrange(g.ndim)] += r.choice([-1, 1])
            g.ops.append({"op": "wave", "k": k})
            g.ops += seen()
            g.ops.append({"op": "wave", "k": near})
        else:
            g.ops.append(g.hop_mod(kinds=("mul",), sym=True))
        g.ops += obs("ham", "flags")
    return finish(0, g.ops, ["hops", "bounds", "ham", "type"])


def c09_one(r):
    """Histories: changes, observations, copies, clears and rejected calls in any order"""
    x = r.random()
    if x < 0.22:
        return histories_with_leads(r)
    if x < 0.32:
        return histories_of_types(r)
    g = Gen(r, ndim=r.choice([1, 2, 2, 2]), multi=0.3, nhop=r.randint(1, 3), minnbs=[0, 1, 1], minnb=0.3,
            complex=0.15, shapeoff=0.5, size=2.2).lattice()
    g.model()
    small = {1: 6, 2: 4}[g.ndim]
    leads = g.ndim > 1 and r.random() < 0.5
    g.ops.append(g.primitive(big=small) if r.random() < 0.6 else g.shape(size=2.5))
    hold = [0]
    models = ["m"]
    base = (dict(g.subs), dict(g.public), dict(g.fams))
    state = {"m": dict(sym=False, gens=False)}
    cur = "m"
    held = set()

    def change():
        st = state[cur]
        x = r.random()
        if x < 0.10:
            g.ops.append(g.primitive(big=small))
        elif x < 0.20:
            g.ops.append(g.shape(size=2.5) if r.random() < 0.7 else dict(g.shape(size=2.5), offset=[0, 0, 0]))
        elif x < 0.27 and not leads:
            g.ops.append(g.symmetry(size=[2, 2, 1]))
            if r.random() < 0.3:
                g.ops[-1].update(n=[-1, -1, -1], len=[-1.0, -1.0, -1.0])
        elif x < 0.38:
            g.ops.append(g.state_mod(system=True))
        elif x < 0.44:
            g.ops.append(g.pos_mod(system=True))
        elif x < 0.54:
            g.ops.append(g.onsite_mod(kinds=("add", "mul", "mix") if r.random() < 0.9 else ("nan",)))
        elif x < 0.64:
            g.ops.append(g.hop_mod(kinds=("mul", "phase"), sym=True))
        elif x < 0.72 and leads:
            g.ops.append(g.lead(bad=False))
        elif x < 0.78:
            g.ops.append(g.site_gen())
        elif x < 0.84:
            g.ops.append(g.hop_gen())
        elif x < 0.90:
            g.ops.append(g.wave())
        elif x < 0.94:
            g.ops.append({"op": r.choice(["clear_structure", "clear_ham", "clear_all"])})
        else:
            invalid()

    def invalid():
        k = r.choice(["prim", "lead", "poly", "sitegen", "hopgen", "offset", "prim0", "badonsite"])
        if k == "prim":
            g.ops.append({"op": "primitive", "n": [2, 2, 2]})
        elif k == "prim0":
            g.ops.append({"op": "primitive", "n": [r.choice([0, -1]), 1, 1]})
        elif k == "lead":
            g.ops.append({"op": "lead", "dir": r.choice([0, 3, -3]), "shape": {"kind": "line", "a": [1, 1, 0], "b": [1, 9, 0]}})
        elif k == "poly":
            g.ops.append({"op": "shape", "kind": "polygon", "verts": [[1, 1, 0]], "offset": [1, 0, 0]})
        elif k == "offset":
            g.ops.append(dict(g.shape(size=2.5), offset=[99, 0, 0]))
        elif k == "sitegen":
            old = next(iter(g.subs))
            keep = (dict(g.subs), dict(g.public), dict(getattr(g, "gens", {})))
            e = g.site_gen()
            e["name"] = r.choice(["", old if g.public.get(old) == old else ""])
            g.subs, g.public, g.gens = keep
            g.ops.append(e)
        elif k == "badonsite":
            keep = (dict(g.subs), dict(g.public), dict(getattr(g, "gens", {})))
            e = g.site_gen()
            e["e"] = r.choice([[], [[[1, 0], [2, 0]]], [[[1, 1]]]])
            g.subs, g.public, g.gens = keep
            g.ops.append(e)
        elif k == "hopgen" and g.fams:
            keep = dict(g.fams)
            e = g.hop_gen()
            e["name"] = r.choice(["", r.choice(list(keep))])
            g.fams = keep
            g.ops.append(e)

    def observe():
        x = r.random()
        if x < 0.3:
            g.ops.extend(obs("system"))
        elif x < 0.6:
            g.ops.extend(obs("ham"))
        elif x < 0.7 and leads:
            g.ops.extend(obs("leads"))
        elif x < 0.75:
            g.ops.extend(obs(r.choice(["eval", "report"])))
        elif x < 0.85:
            g.ops.extend(obs("flags"))
        elif x < 0.93:
            g.ops.extend(obs("registries"))
        else:
            g.ops.extend(obs("model_lattice"))

    for _ in range(r.randint(6, 16)):
        x = r.random()
        if x < 0.48:
            change()
        elif x < 0.88:
            observe()
        elif x < 0.92 and len(models) < 3:
            n = "m%d" % len(models)
            g.ops.append({"op": "copy", "to": n})
            models.append(n)
        elif x < 0.94 and not held:
            g.ops.append({"op": "hold", "h": "h"})
            held.add("h")
        elif x < 0.99 and len(models) > 1:
            cur = r.choice(models)
            g.ops.append({"op": "use", "m": cur})
            state.setdefault(cur, {})
    g.ops += obs("system", "flags", "ham", "registries", "model_lattice")
    if leads:
        g.ops += obs("leads")
    if held:
        # a result which could not be computed is not held
        g.ops.append({"op": "held", "h": "h"})
    return finish(0, g.ops, ["hops", "bounds", "indices", "ham", "type"])


POPS = {"C09": c09_one, "C02": c02_one, "C03": c03_one, "C04": c04_one, "C05": c05_one, "C06": c06_one, "C07": c07_one,
        "C08": c08_one, "C10": c10_one, "C11": c11_one, "C12": c12_one}


DESIGN = {"C02": ["MCStructure"], "C03": ["MCStructure"], "C04": ["MCHam"], "C05": ["MCSymmetry"], "C06": ["MCDangling"],
          "C07": ["MCEdits"], "C08": ["MCHam"], "C09": [], "C10": ["MCLeads"], "C11": ["MCEdits"], "C12": ["MCHam"]}
QUICK = {"C02": 1800, "C03": 1800, "C04": 1500, "C05": 1500, "C06": 1800, "C07": 1600, "C08": 1600, "C09": 1200, "C10": 1200,
         "C11": 1000, "C12": 1200}


def make(prop):
    def check_one(check):
        exe = driver()
        for name in DESIGN[prop]:
            check.design(name, exhaustive("MCModel.tla", name + ".cfg"))
        if prop == "C09":
            check.design("MCCache", exhaustive("MCCache.tla", "MCCache.cfg"))
            for f in ("keep_ham", "keep_lead", "keep_override", "reject_changes"):
                refuted("MCCache.tla", "MCCache.cfg", [("Faulty = {}", 'Faulty = {"%s"}' % f), (" CachesFresh", "")])
                check.count("design_mistakes_refuted")
        num = QUICK[prop] * (10 if tier() == "thorough" else 1)
        sc = population(num, seed(), POPS[prop])
        check.conformance(exe, sc, "TraceModel.tla", "TraceModel.cfg", batch=400, label=prop)
        check.assumptions += ["coordinates and energies are integers, which single precision represents exactly"]
    return check_one
