"""C17: the multithreaded parts under explored schedules, against Queue.tla and TraceThreads.tla"""
import random

import build as B
from runner import exhaustive, refuted, tier, seed

BUILD_KW = dict(main="thread_driver.cpp", parts=["lib", "kpm"], include=("simd",), link=("-ldl",))


def build_driver(simd):
    return B.build("thread_driver_simd" if simd else "thread_driver",
                   extra_flags=("-DVERIF_SIMD=1",) if simd else (), **BUILD_KW)


# ------------------------------------------------------------------------------------ schedules
def schedule(rng, most=60):
    kind = rng.choice(["random", "random", "pct", "dfs"])
    return {"kind": kind, "seed": rng.randrange(1, 2 ** 31), "spurious": rng.choice([0, 0, 1, 3]),
            "preempt": rng.choice([0, 1, 2, 3]), "depth": rng.choice([1, 2, 3, 5]),
            "max": 3000 if kind == "dfs" else 1200, "distinct": most}


def queue_op(rng):
    """Producers and consumers; sometimes they are too few, so that somebody waits for ever"""
    n_prod, n_cons = rng.randint(1, 2), rng.randint(1, 3)
    programs, item = [], 0
    for _ in range(n_prod):
        p = [["addp"]] if rng.random() < 0.9 else []
        for _ in range(rng.randint(0, 3)):
            item += 1
            p.append([rng.choice(["push", "pushm"]), item])
        if p[:1] == [["addp"]] and rng.random() < 0.9:
            p.append(["remp"])
        programs.append(p)
    for _ in range(n_cons):
        programs.append([["popall"]] if rng.random() < 0.7 else [["pop"]] * rng.randint(1, 3))
    if rng.random() < 0.2:    # a thread which produces and consumes
        programs[-1] = [["addp"], ["push", 90], ["pop"], ["remp"]]
    return {"op": "queue", "max": rng.choice([0, 1, 1, 2, 3]), "programs": programs}


def for_op(rng):
    threads = rng.randint(1, 3)
    return {"op": "for", "size": rng.choice([0, 1, 2, 3, 4, 6]), "threads": threads,
            "queue": rng.choice([0, 0, 1, 1, 2, 5]), "barrier": rng.random() < 0.4}


def pool_op(rng):
    threads = rng.randint(1, 3)
    count = [0]

    def job(depth=0):
        count[0] += 1
        j = {"id": count[0]}
        if depth < 2 and rng.random() < 0.2:
            j["nested"] = [job(depth + 1) for _ in range(rng.randint(1, 2))]
        return j

    jobs = [job() for _ in range(rng.randint(0, 4))]
    adders = []
    if rng.random() < 0.3:
        adders = [[job() for _ in range(rng.randint(1, 2))] for _ in range(rng.randint(1, 2))]
    if threads > 1 and rng.random() < 0.5:   # as many jobs as threads wait for each other
        for _ in range(threads):
            count[0] += 1
            jobs.insert(rng.randint(0, len(jobs)), {"id": count[0], "barrier": 1, "of": threads})
    return {"op": "pool", "threads": threads, "jobs": jobs, "adders": adders, "joins": rng.choice([0, 1, 1, 2])}


def batch_op(rng):
    return {"op": "batch", "type": rng.choice(["f", "d", "cf", "cd"]), "vectors": rng.choice([1, 2, 3, 4, 5, 6, 7, 9]),
            "threads": rng.randint(1, 3), "size": rng.random() < 0.3, "interleaved": rng.random() < 0.3,
            "ell": rng.random() < 0.5}


def ids(op):
    r = []

    def walk(j):
        r.append(j["id"])
        for k in j.get("nested", []):
            walk(k)
    for j in op.get("jobs", []):
        walk(j)
    for a in op.get("adders", []):
        for j in a:
            walk(j)
    return r


def scenario(rng, index, make=None, most=60):
    op = (make or rng.choice([queue_op, queue_op, for_op, pool_op, batch_op]))(rng)
    op["sched"] = schedule(rng, most)
    return {"id": "thread-%d" % index, "ops": [op]}


def transform(s, r):
    op = s["ops"][0]
    cfg = {"op": op["op"], "max": op.get("max", 0), "threads": op.get("threads", len(op.get("programs", []))),
           "size": op.get("size", 0), "queue": op.get("queue", 0), "vectors": op.get("vectors", 0), "ids": []}
    if op["op"] == "batch":
        cfg["size"] = 0
    ev = []
    for n, run in enumerate(r["results"][0]["obs"]["runs"]):
        ev.append({"k": "start", "run": n, "pos": 0})
        for i, e in enumerate(run["log"]):
            ev.append(dict(e, run=n, pos=i + 1))
        ev.append({"k": "end of run", "x": run["end"], "run": n, "pos": len(run["log"]) + 1})
    return {"id": s["id"], "cfg": cfg, "ids": ids(op), "ev": ev}


def c17(check):
    check.assumptions += [
        "A schedule switches between threads at the operations of mutexes, condition variables and threads and inside of the jobs; "
        "the accesses in between are taken to be free of data races.",
        "A sample of the schedules (random, PCT, bounded preemptions), not all of them; the design is explored exhaustively."]
    check.design("MCParallelFor", exhaustive("MCParallelFor.tla", "MCParallelFor.cfg"))
    if tier() == "thorough":
        check.design("MCParallelForDeep", exhaustive("MCParallelFor.tla", "MCParallelForDeep.cfg", timeout=1500))
    for f in ("close_one", "no_pop_note", "no_recheck", "close_any", "drop_rest", "late_guard"):
        refuted("MCParallelFor.tla", "MCParallelFor.cfg", [("Faulty = {}", 'Faulty = {"%s"}' % f)])
        check.count("refuted_design_mistakes")
    n = 1 if tier() == "quick" else 6
    for simd, makes in ((False, [queue_op, for_op, pool_op, batch_op]), (True, [batch_op])):
        exe = build_driver(simd)
        for make in makes:
            rng = random.Random("%d-%s-%s" % (seed(), make.__name__, simd))
            sc = [scenario(rng, i, make) for i in range(60 * n)]
            check.conformance(exe, sc, "TraceThreads.tla", "TraceThreads.cfg", transform=transform,
                              label="%s-%s" % (make.__name__, "simd" if simd else "generic"), batch=60)


CHECKS = {"C17": c17}
