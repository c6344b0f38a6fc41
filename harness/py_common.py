"""Imports /repo's Python layer with stand-ins for the extension module and for matplotlib (neither is
installed), and runs scenarios:  driver IN OUT [SKIP]"""
import importlib.machinery
import json
import os
import sys
import types
import warnings

sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
REPO = os.environ.get("VERIF_REPO", "/repo")
NONINT = 999999999


class Stub(types.ModuleType):
    """Has whatever is asked for: classes without behaviour"""
    __path__ = []

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        c = type(n, (object,), {"__init__": lambda self, *a, **k: None})
        setattr(self, n, c)
        return c


class Finder:
    real = set()

    def find_spec(self, name, path=None, target=None):
        if name in self.real:
            return None
        if name.split(".")[0] in ("matplotlib", "mpl_toolkits", "_pybinding") or name == "pybinding.pltutils":
            return importlib.machinery.ModuleSpec(name, self, is_package=True)

    def create_module(self, spec):
        return Stub(spec.name)

    def exec_module(self, m):
        pass


sys.meta_path.insert(0, Finder())
sys.path.insert(0, REPO)
import numpy as np

if not hasattr(np, "row_stack"):      # newer numpy
    np.row_stack = np.vstack
import _pybinding as cpp

cpp.physical_core_count = lambda: 4
cpp.logical_core_count = lambda: 4
cpp.cache_info = lambda: []


class DriverError(Exception):
    pass


def to_int(v, tol=1e-6):
    if isinstance(v, complex) or np.iscomplexobj(v):
        v = complex(v)
        return [to_int(v.real), to_int(v.imag)]
    v = float(v)
    if v != v or abs(v) > 5e7 or abs(v - round(v)) > tol:
        return NONINT
    return int(round(v))


def ints(a):
    """Nested list of integers of an array of any shape"""
    a = np.asarray(a)
    return to_int(a) if a.ndim == 0 else [ints(v) for v in a]


def main_loop(run):
    skip = int(sys.argv[3]) if len(sys.argv) > 3 else 0
    with open(sys.argv[1]) as fin, open(sys.argv[2], "a" if skip else "w") as fout:
        for n, line in enumerate(fin):
            if n < skip or not line.strip():
                continue
            fout.write(json.dumps(run(json.loads(line))) + "\n")
            fout.flush()


LOG = []      # what an operation has seen, also when it fails


def run_ops(sc, world, run_op):
    results = []
    for o in sc["ops"]:
        del LOG[:]
        try:
            results.append({"res": "ok", "obs": run_op(world, o)})
        except DriverError:
            raise
        except Exception as e:
            results.append({"res": "error", "what": "%s: %s" % (type(e).__name__, e)})
        if LOG:
            results[-1]["log"] = LOG[0]
    return {"id": sc["id"], "results": results}
