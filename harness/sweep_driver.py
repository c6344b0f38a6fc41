#!/usr/bin/env -S python3-vt -W ignore
"""Runs parameter sweeps of the Python layer with a parallel loop whose schedule is given by the scenario"""
import io
import os
import random
import re
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from py_common import *
import _pybinding as cpp
import pybinding as pb
from pybinding import parallel

SCRATCH = tempfile.mkdtemp(prefix="sweeps-")
EV = []


class Wanted(Exception):
    """Raised by the job itself"""


class Solver:
    def __init__(self, job):
        self.job = job

    def report(self, shortform=False):
        return "job %d short" % self.job if shortform else "job %d" % self.job


class Deferred:
    def __init__(self, job, row, column, event):
        self.job, self.row, self.column, self.event = job, row, column, event
        self.solver = Solver(job)
        self._result = None
        self.taken = False

    def compute(self):
        self.event({"op": "compute", "job": self.job})
        r = np.array(self.row, dtype=float)
        self._result = r.reshape(-1, 1) if self.column else r

    @property
    def result(self):
        if not self.taken:      # the job is retired
            self.taken = True
            self.event({"op": "retire", "job": self.job})
        return self._result


def cpp_loop(schedule):
    def loop(sequence, produce, retire, num_threads, queue_size):
        EV.append({"op": "loop", "n": len(sequence), "threads": num_threads, "queue": queue_size})
        rng = random.Random(schedule)
        bias = rng.choice([0.2, 0.5, 0.8])
        todo, waiting, done = list(enumerate(sequence)), [], []
        while todo or waiting or done:
            can = []
            if todo and len(waiting) < queue_size:
                can.append("produce")
            if waiting and len(done) < num_threads:
                can.append("compute")
            if done:
                can.append("retire")
            what = "retire" if "retire" in can and rng.random() < bias else rng.choice(can)
            if what == "produce":
                i, v = todo.pop(0)
                waiting.append((i, produce(v)))
            elif what == "compute":
                i, d = waiting.pop(0)
                d.compute()
                done.append((i, d))
            else:
                i, d = done.pop(rng.randrange(len(done)))
                retire(d, i)
                if rng.random() < 0.5:
                    d._result[...] = -77     # the memory is used again
    return loop


def rows_of(c, data):
    if c["kind"] == "plain":
        return [ints(np.asarray(v).reshape(-1)) if v is not None else [] for v in data]
    return [ints(v) for v in np.asarray(data.data).reshape(-1, len(c["energy"]))]


def parse_log(text, c):
    lines = []
    for line in text.splitlines()[1:]:
        m = re.match(r"^ *(\d+)\| (.*?) *\| job (\d+) short$", line)
        if not m:
            continue
        lines.append({"count": int(m.group(1)), "job": int(m.group(3)),
                      "vars": [[p.split(" = ")[0], to_int(float(p.split(" = ")[1]))] for p in m.group(2).split(", ")]})
    return lines


def run(c):
    del EV[:]
    counter = [0]
    c["n"] = 1
    for v in c["vars"]:
        c["n"] *= len(v)

    def event(e):
        path = name + ".pbz"
        if c["file"] and os.path.exists(path):      # something was saved since the last event
            EV.append({"op": "saved", "rows": rows_of(c, pb.load(path))})
            os.unlink(path)
        EV.append(e)

    def body(kw):
        if kw.pop("energy", None) is not None and c["kind"] == "plain":
            raise DriverError("energy")
        event({"op": "produce", "given": [[k, to_int(v)] for k, v in kw.items()]})
        counter[0] += 1
        if counter[0] == c["fail"]:
            raise Wanted("job %d" % c["fail"])
        row = [sum(w * to_int(kw[k]) for k, w in zip(c["names"], [10, 100, 1000])) + e for e in c["energy"]]
        return Deferred(counter[0], row, c["column"], event)
    name = os.path.join(SCRATCH, "sweep")
    scope = {"body": body, "pb": pb, "np": np, "ENERGY": np.array(c["energy"], dtype=float)}
    params = []
    for p in c["order"]:
        fixed = dict(map(tuple, c["fixed"]))
        default = "=ENERGY" if p == "energy" else "=%d" % fixed[p] if p in fixed else "=0" if any("=" in q for q in params) else ""
        params.append(p + default)
    swept = ", ".join("%s=%s" % (k, "np.array(%r)" % v if c["arrays"] else repr(v)) for k, v in zip(c["names"], c["vars"]))
    exec("def outer(q=3):\n"
         "    @pb.parallelize(num_threads=%d, queue_size=%d, %s)\n"
         "    def factory(%s):\n"
         "        return body(dict(%s))\n"
         "    return factory\n"
         % (c["threads"], c["queue"], swept, ", ".join(params), ", ".join("%s=%s" % (p, p) for p in c["order"])), scope)
    factory = scope["outer"]()
    factory.config.pbar_fd = io.StringIO() if c["stream"] else None
    factory.config.save_every = c["every"]
    for f in os.listdir(SCRATCH):
        os.unlink(os.path.join(SCRATCH, f))
    factory.config.filename = name if c["file"] else None
    if not c["status"]:
        factory.hooks.status.clear()
    else:
        factory.hooks.status.append(lambda d, idx, count: EV.append({"op": "status", "job": idx + 1, "count": count}))
    factory.hooks.first.append(lambda d: EV.append({"op": "first", "job": d.job}))
    if c["status"] and not c["log"]:
        del factory.hooks.status[0]
    cpp.parallel_for = cpp_loop(c["schedule"])

    def plot(result):
        EV.append({"op": "plot", "rows": rows_of(c, result)})
        if hasattr(result, "data"):
            result.data = result.data * 0       # "may modify the local"
        if c["plotfails"]:
            raise RuntimeError("a plot fails")
    streams = sys.stdout, sys.stderr
    try:
        if c["kind"] == "plain":
            if c["plot"]:
                factory.hooks.plot.append(plot)
            r = pb.parallel_for(factory, lambda data: list(data)) if c["column"] else pb.parallel_for(factory)
        else:
            kw = dict(plot=plot if c["plot"] else None)
            if not c["status"]:
                kw["silent"] = True
            f = pb.parallel.sweep if c["kind"] == "sweep" else pb.parallel.ndsweep
            r = f(factory, **kw)
        e = {"op": "return", "stdout": (sys.stdout, sys.stderr) == streams, "rows": rows_of(c, r)}
        if c["kind"] == "sweep":
            e["vars"], e["energy"] = [ints(r.x)], ints(r.y)
        elif c["kind"] == "ndsweep":
            e["vars"], e["energy"] = [ints(v) for v in r.variables[:-1]], ints(r.variables[-1])
        if c["log"]:
            e["log"] = parse_log(open(name + ".log").read(), c)
        event(e)
    except DriverError:
        raise
    except Exception as err:
        event({"op": "raise", "own": isinstance(err, Wanted), "stdout": (sys.stdout, sys.stderr) == streams, "what": repr(err)[:300]})
    finally:
        sys.stdout, sys.stderr = streams
    return list(EV)


try:
    main_loop(lambda sc: {"id": sc["id"], "ev": run(sc["ops"][0])})
finally:
    shutil.rmtree(SCRATCH, ignore_errors=True)
