#!/usr/bin/env -S python3-vt -W ignore
"""Makes modifiers of the Python layer and applies them like the core does (cppmodule/src/modifiers.cpp)"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from py_common import *
import _pybinding as cpp


def base(*names):
    class Base:
        def __init__(self, *args, **kwargs):
            self.init = dict(zip(names, args), **kwargs)
    return Base


cpp.SiteStateModifier = base("apply", "min_neighbors")
cpp.PositionModifier = base("apply")
cpp.OnsiteModifier = base("apply", "is_complex", "is_double")
cpp.HoppingModifier = base("apply", "is_complex", "is_double")
cpp.SiteGenerator = base("name", "energy", "make")
cpp.HoppingGenerator = base("name", "energy", "make")

import pybinding as pb

DECO = {"site_state": pb.site_state_modifier, "site_position": pb.site_position_modifier, "onsite": pb.onsite_energy_modifier,
        "hopping": pb.hopping_energy_modifier, "site_generator": pb.site_generator, "hopping_generator": pb.hopping_generator}
DTYPE = {("b", 8): np.bool_, ("i", 8): np.int8, ("i", 32): np.int32, ("i", 64): np.int64, ("f", 32): np.float32, ("f", 64): np.float64,
         ("c", 64): np.complex64, ("c", 128): np.complex128}
NAME = {np.dtype(v): k for k, v in DTYPE.items()}


def typed(vals, dtype):
    """1D array of the pairs (real, imaginary)"""
    a = np.array([complex(*v) for v in vals])
    return a.astype(dtype) if np.dtype(dtype).kind == "c" else a.real.astype(dtype)


def pairs(a):
    a = np.asarray(a)
    return [[to_int(complex(v).real), to_int(complex(v).imag)] for v in a.reshape(-1)]


def laid_out(a, layout):
    """An array equal to `a` with another place in memory"""
    if layout == "fortran":
        return np.asfortranarray(a)
    if layout == "copy_view":
        return a.copy().reshape(-1).reshape(a.shape)
    if layout == "core_order" and a.ndim == 3:
        return np.moveaxis(np.moveaxis(a, 0, 2).copy(), 2, 0)
    if layout == "core_order_owned" and a.ndim == 3:
        r = np.empty_like(np.moveaxis(np.moveaxis(a, 0, 2).copy(), 2, 0))
        r[...] = a
        return r
    if layout == "swapped" and a.ndim == 3:
        return np.swapaxes(np.swapaxes(a, 1, 2).copy(), 1, 2)
    if layout == "core_swapped" and a.ndim == 3:
        return np.transpose(np.transpose(a, (2, 1, 0)).copy(), (2, 1, 0))
    if layout == "columns":       # one column of a table
        t = np.zeros(a.shape + (3,), dtype=a.dtype)
        t[..., 1] = a
        return t[..., 1]
    if layout == "first_column":
        t = np.stack([a, a + a, a], axis=-1)
        return t[..., 0]
    if layout == "reversed":
        return a[::-1].copy()[::-1]
    if layout == "reversed_all":
        return np.flip(np.flip(a).copy())
    if layout == "offset":
        t = np.zeros((a.shape[0] + 2,) + a.shape[1:], dtype=a.dtype)
        t[1:-1] = a
        return t[1:-1]
    if layout == "repeated":
        if a.size and np.all(a == a[:1]):
            return np.broadcast_to(a[0].copy(), a.shape)
        return a.copy()
    if layout == "row" and a.ndim == 1:
        return a.copy().reshape(1, -1)
    if layout == "readonly":
        r = a.copy()
        r.flags.writeable = False
        return r
    return a.copy()


def raw_read(r):
    """What the core reads: memory from the first element on"""
    start, size = r.__array_interface__["data"][0], r.size * r.itemsize
    owner = r
    while isinstance(owner.base, np.ndarray):
        owner = owner.base
    low, high = np.lib.array_utils.byte_bounds(owner)
    if size and not (low <= start and start + size <= high):
        return np.zeros(0)      # the core would read outside of the array
    return np.lib.stride_tricks.as_strided(r.reshape(-1)[:0] if r.size == 0 else r, shape=(r.size,), strides=(r.itemsize,))


class Fake:
    def __init__(self, pos):
        self.x, self.y, self.z = pos
        self.num_sites = len(pos[0])


class Made:
    pass


def make(o):
    m = Made()
    m.kind, m.arglist = o["kind"], o["args"]
    m.current = None
    scope = {"deco": None, "body": lambda kw: m.current(kw)}
    opts = {k: (bool(v) if k != "min_neighbors" else v) for k, v in o["opts"]}
    deco = DECO[o["kind"]]
    if o["kind"].endswith("generator"):
        opts = {"name": o["name"], "energy": o["energy"]}
    exec("def %s(a, b=%d):\n"
         "    @deco%s\n"
         "    def inner(%s):\n"
         "        return body(dict(%s))\n"
         "    return inner\n"
         % (o["factory"], o["b"], "(%s)" % ", ".join("%s=%r" % kv for kv in opts.items()) if opts or o["paren"] else "",
            ", ".join(o["args"]), ", ".join("%s=%s" % (a, a) for a in o["args"])), scope)
    scope["deco"] = deco
    m.mod = scope[o["factory"]](o["a"])
    apply = m.mod.init.pop("apply", None) or m.mod.init.pop("make", None)
    m.apply = apply
    if not o["kind"].endswith("generator") and m.mod.apply is not apply:
        raise RuntimeError("two functions")
    m.init = [[k, int(v) if not isinstance(v, str) else v] for k, v in m.mod.init.items()]
    if str(m.mod) != repr(m.mod).split(".")[-1]:
        raise RuntimeError("str and repr")
    return m


def seen_arg(o, name, v, prime):
    if name in ("sub_id", "hop_id"):
        same = [bool(v == t) for t in o["tests"]]
        if any(bool(np.all(np.asarray(v == t))) != s or bool(np.all(np.asarray(v != t))) == s for t, s in zip(o["tests"], same)):
            return {"wrong": "lazy arrays"}
        if o["prime"]["a"] == o["prime"]["b"] == 1:     # as an index
            w = np.arange(o["prime"]["n"])
            if any(len(w[v == t]) != (len(w) if s else 0) for t, s in zip(o["tests"], same)):
                return {"wrong": "index"}
        eye = np.asarray(v.eye)
        if not np.array_equal(eye, np.eye(*eye.shape)) or hash(v) != hash(str(v)):
            return {"wrong": "eye"}
        return {"same": same, "other": [bool(v != t) for t in o["tests"]], "eye": list(eye.shape), "str": str(v)}
    if name == "sites":
        if np.any(v.distances([v.x[0], v.y[0], v.z[0]])[:1]) or v.find_nearest([v.x[-1], v.y[-1], v.z[-1]]) < 0:
            return {"wrong": "distances"}
        return {"x": ints(v.x), "y": ints(v.y), "z": ints(v.z), "n": int(v.size)}
    return {"shape": list(v.shape), "vals": pairs(v)}


def given_to(o):
    p = o["prime"]
    n, a, b = p["n"], p["a"], p["b"]
    buffer = typed(p["vals"], DTYPE[p["kind"], p["bits"]]).reshape(n, a, b)
    # the core's order
    return buffer[:, 0, 0].copy() if a == b == 1 else np.moveaxis(buffer, 0, 2).copy(), [np.array(v, dtype=np.float32) for v in o["pos"]], n, a, b


def came_back(out, size):
    res = []
    for v in out:
        if type(v) is not np.ndarray or v.size != size:
            res.append({"kind": "?", "bits": 0, "raw": []})
            continue
        kind, bits = NAME[v.dtype]
        res.append({"kind": kind, "bits": bits, "raw": pairs(raw_read(v))})
    return res


def run_op(w, o):
    if o["op"] == "make":
        m = make(o)
        w.append(m)
        return {"init": m.init, "str": str(m.mod)}
    if o["op"] == "preset":
        m = getattr(pb, o["which"])(*([o["magnitude"]] if o["which"] == "constant_potential" else []))
        prime, pos, n, a, b = given_to(o)
        return {"out": came_back([m.apply(prime, *pos, o["name"]["full"])], n * a * b), "init": [[k, int(v)] for k, v in m.init.items() if k.startswith("is_")], "kind": [k for k in ("OnsiteModifier", "HoppingModifier") if isinstance(m, getattr(cpp, k))][0]}
    m = w[o["of"]]
    if o["op"] == "apply":
        prime, pos, n, a, b = given_to(o)
        for v in pos:
            v.flags.writeable = m.kind == "site_position"
        given = {}

        def current(kw):
            LOG.append([seen_arg(o, k, kw[k], prime) for k in m.arglist])
            out = []
            for j, r in enumerate(o["results"]):
                v = typed(r["vals"], DTYPE[r["kind"], r["bits"]])
                if not (a == b == 1) and v.size == n * a * b:
                    v = v.reshape(n, a, b)
                if r["layout"] == "inplace" and r["array"]:      # only if the function has got the array and it has the same type
                    target = kw.get(("x", "y", "z")[j] if m.kind == "site_position" else "state" if m.kind == "site_state" else "energy")
                    if target is not None and target.shape == v.shape and target.dtype == v.dtype:
                        target[...] = v
                        out.append(target)
                        continue
                out.append(laid_out(v, r["layout"]))
                if not r["array"]:
                    out[-1] = list(out[-1])
            return tuple(out) if o["tuple"] or len(out) != 1 else out[0]
        m.current = current
        args = pos[:] if m.kind == "site_position" else [prime] + pos
        r = m.apply(*(args + [o["name"]["full"]]))
        return {"out": came_back([r] if not isinstance(r, tuple) else list(r), n * a * b)}
    if o["op"] == "generate":
        pos = [np.array(v, dtype=np.float32) for v in o["pos"]]
        system = Fake(pos)

        def current(kw):
            LOG.append([{k: ints(getattr(v, k)) for k in "xyz"} if name == "system" else {"vals": ints(v)} for name, v in kw.items()])
            return tuple((np.array(r["vals"], dtype=bool) if r["mask"] else np.array(r["vals"], dtype=int)) if r["array"] else
                         ([bool(v) for v in r["vals"]] if r["mask"] else list(r["vals"])) for r in o["results"])
        m.current = current
        return [ints(np.asarray(v)) for v in m.apply(system)]
    raise DriverError("unknown op " + o["op"])


main_loop(lambda sc: run_ops(sc, [], run_op))
