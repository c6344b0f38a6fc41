"""Runs drivers and TLC, reports violations and writes the evidence files."""
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B

VERIF = B.VERIF
SPEC = os.path.join(VERIF, "spec")
REPLAYS = os.path.join(VERIF, "build", "replays")
CORES = os.cpu_count() or 4


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def tier():
    return "thorough" if os.environ.get("VERIF_TIER", "quick") == "thorough" else "quick"


class CheckError(Exception):
    pass


class Tlc:
    """Result of one TLC run"""

    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        self.finished = "Finished in" in out
        self.violated = re.findall(r"(?:Invariant|Action property|Temporal properties were) (\S+)? ?(?:is )?violated", out)

    @property
    def eval_error(self):
        """An error while evaluating the specification (not a property violation)"""
        return any(e in self.out for e in (
            "Attempted to", "Overflow when", "TLC threw an unexpected exception", "was not in the domain",
            "Evaluating invariant", "In applying the function", "The exception was",
            "non-enumerable", "TLC was unable to fingerprint"))


def run_tlc(module, cfg, env=None, extra=(), workers=None, timeout=600, heap="6g", workdir=None):
    """Run TLC in a scratch directory on a copy of the specification"""
    tmp = workdir or tempfile.mkdtemp(prefix="tlc-")
    try:
        for f in glob.glob(os.path.join(SPEC, "*.tla")) + glob.glob(os.path.join(SPEC, "*.cfg")):
            shutil.copy(f, tmp)
        if not os.path.isfile(os.path.join(tmp, cfg)):
            raise CheckError("no such config " + cfg)
        e = dict(os.environ)
        e.update(env or {})
        e["JAVA_TOOL_OPTIONS"] = "-Xmx%s -Xss64m -XX:+UseParallelGC" % heap
        cmd = ["tlc", "-config", cfg, "-workers", str(workers or CORES), "-metadir",
               os.path.join(tmp, "states"), "-noGenerateSpecTE"] + list(extra) + [module]
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=tmp, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, universal_newlines=True,
                               timeout=timeout, errors="replace")
        except subprocess.TimeoutExpired as ex:
            raise CheckError("TLC timed out on %s after %ss" % (module, timeout))
        return Tlc(p.returncode, p.stdout, time.time() - t)
    finally:
        if workdir is None:
            shutil.rmtree(tmp, ignore_errors=True)


def exhaustive(module, cfg, timeout=600, expect_ok=True, extra=(), workers=None):
    """Exhaustive check of the design: it has to hold, whatever the code does"""
    r = run_tlc(module, cfg, timeout=timeout, extra=["-deadlock"] + list(extra), workers=workers)
    ok = "Model checking completed. No error has been found." in r.out
    if not ok:
        raise CheckError("model checking of %s/%s failed:\n%s" % (module, cfg, r.out[-3000:]))
    return r


def refuted(module, cfg, change, timeout=300):
    """The model with a design mistake: the model checker has to find the counterexample
    (otherwise the invariants would be too weak to mean anything)"""
    tmp = tempfile.mkdtemp(prefix="tlc-")
    try:
        src = open(os.path.join(SPEC, cfg)).read()
        new = src
        for a, b in change:
            if a not in new:
                raise CheckError("cannot change %s: %s" % (cfg, a))
            new = new.replace(a, b)
        for f in glob.glob(os.path.join(SPEC, "*.tla")):
            shutil.copy(f, tmp)
        with open(os.path.join(tmp, "M.cfg"), "w") as f:
            f.write(new)
        cmd = ["tlc", "-config", "M.cfg", "-workers", str(CORES), "-metadir", os.path.join(tmp, "states"),
               "-noGenerateSpecTE", "-deadlock", module]
        p = subprocess.run(cmd, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           universal_newlines=True, timeout=timeout, errors="replace")
        if not any(m in p.stdout for m in ("violated", "Deadlock reached", "MCMaterials is false")):
            raise CheckError("%s with %s is not refuted:\n%s" % (module, change, p.stdout[-2000:]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def simulate_histories(module, cfg, num, depth, sd, timeout=300):
    """Behaviours of the specification, printed by TLC's simulator as JSON"""
    r = run_tlc(module, cfg, extra=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed",
                                    str(sd), "-deadlock"], workers=1, timeout=timeout)
    hist = []
    for line in r.out.splitlines():
        if line.startswith('"HIST '):
            hist.append(json.loads(json.loads(line)[5:]))
    if not hist:
        raise CheckError("the generator %s printed no history:\n%s" % (module, r.out[-3000:]))
    return hist, r


# ------------------------------------------------------------------------------------ driver
def run_driver(exe, scenarios, timeout=300, args=(), per_scenario=60):
    """Run scenarios through a driver, in parallel; a crash is itself an observation"""
    tmp = tempfile.mkdtemp(prefix="drv-")
    try:
        n = min(CORES, max(1, len(scenarios) // 4))
        chunks = [scenarios[i::n] for i in range(n)]
        state = []
        for i, ch in enumerate(chunks):
            fin, fout = os.path.join(tmp, "in%d" % i), os.path.join(tmp, "out%d" % i)
            with open(fin, "w") as f:
                for s in ch:
                    f.write(json.dumps(s, separators=(",", ":")) + "\n")
            state.append([fin, fout, ch, None, {}])

        def start(st, skip):
            st[3] = subprocess.Popen([exe, st[0], st[1], str(skip)] + list(args),
                                     stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)

        for st in state:
            start(st, 0)
        results = {}
        deadline = time.time() + timeout
        for st in state:
            crashed = {}
            while True:
                try:
                    _, err = st[3].communicate(timeout=max(1, deadline - time.time()))
                    rc = st[3].returncode
                except subprocess.TimeoutExpired:
                    st[3].kill()
                    _, err = st[3].communicate()
                    rc = "timeout"
                lines = open(st[1]).read().splitlines() if os.path.exists(st[1]) else []
                done = sum(1 for l in lines if _complete(l))
                if rc == 0 and done + len(crashed) >= len(st[2]):
                    break
                text = err.decode(errors="replace")[-600:]
                if rc in (1, 2) or "driver:" in text:
                    raise CheckError("driver error: %s" % text)
                # the scenario after the last complete result crashed or hung
                pos = done + len(crashed)
                if pos >= len(st[2]):
                    break
                crashed[pos] = "timeout" if rc == "timeout" else "crash (%s) %s" % (rc, text)
                with open(st[1], "w") as f:
                    f.write("".join(l + "\n" for l in lines if _complete(l)))
                if rc == "timeout":
                    deadline = time.time() + per_scenario
                if len(crashed) > 20:
                    for p in range(pos + 1, len(st[2])):
                        crashed[p] = "not run"
                    break
                start(st, pos + 1)
            lines = [json.loads(l) for l in open(st[1]).read().splitlines() if _complete(l)]
            it = iter(lines)
            for p, sc in enumerate(st[2]):
                if p in crashed:
                    results[sc["id"]] = {"id": sc["id"], "crash": crashed[p]}
                else:
                    results[sc["id"]] = next(it)
        return [results[s["id"]] for s in scenarios]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _complete(line):
    try:
        json.loads(line)
        return True
    except ValueError:
        return False


# ------------------------------------------------------------------------------------ traces
def sanitize(x):
    """JSON values which TLA+ can hold: no null, no real numbers, 32 bit integers"""
    if isinstance(x, bool) or isinstance(x, str):
        return x
    if x is None:
        return 0
    if isinstance(x, int):
        return x if abs(x) < 2 ** 31 else 999999999
    if isinstance(x, float):
        return int(x) if x == int(x) and abs(x) < 2 ** 31 else 999999999
    if isinstance(x, list):
        return [sanitize(v) for v in x]
    return {k: sanitize(v) for k, v in x.items()}


ALL_ASPECTS = ["hops", "bounds", "indices", "ham", "type", "log", "hamlog"]


def merge(scenario, result):
    """One trace: the operations together with what the real code answered"""
    ev = []
    for op, r in zip(scenario["ops"], result["results"]):
        e = dict(op)
        e["res"] = r["res"]
        e["hasobs"] = "obs" in r
        e["obs"] = r.get("obs", 0)
        e["haslog"] = "log" in r
        if "log" in r:
            e["log"] = r["log"]
        ev.append(e)
    return {"id": scenario["id"], "aspects": scenario.get("aspects", ALL_ASPECTS), "ev": ev}


class Verdict:
    def __init__(self):
        self.rejected = []      # (scenario, why, detail)
        self.states = 0
        self.transitions = 0
        self.accepted = 0
        self.skipped = 0
        self.wall = 0.0


def validate(module, cfg, traces, timeout=600, heap="8g", strict=True):
    """Check traces against a trace specification: returns {index: reason} of the rejected ones.

    The trace specification prints  "REJECT <tid> <event> <reason>"  for every trace it rejects,
    "ACCEPT <tid>" for each one which it could follow to the end."""
    rejected, accepted, skipped = {}, set(), {}
    states = gen = 0
    wall = 0.0

    def go(idx):
        nonlocal states, gen, wall
        # (each of these costs a run of its own; the first few are reported)
        if wall > 600 or sum(why.startswith("outside the domain of the spec") for why in rejected.values()) >= 4:
            return
        tmp = tempfile.mkdtemp(prefix="tr-")
        try:
            with open(os.path.join(tmp, "traces.json"), "w") as f:
                json.dump([sanitize(traces[i]) for i in idx], f)
            r = run_tlc(module, cfg, timeout=timeout, heap=heap, workdir=tmp,
                        env={"TRACES": os.path.join(tmp, "traces.json")}, extra=["-deadlock"])
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        states += r.distinct
        gen += r.generated
        wall += r.wall
        done = set()
        for line in r.out.splitlines():
            m = re.match(r'^"?(REJECT|ACCEPT|SKIP) (\d+)(.*)$', line.strip())
            if m:
                i = idx[int(m.group(2)) - 1]
                done.add(i)
                if m.group(1) == "REJECT":
                    rejected[i] = m.group(3).strip(' "').replace('\\"', '"')
                elif m.group(1) == "SKIP":
                    skipped[i] = m.group(3).split(':', 1)[-1].strip(' "')
                else:
                    accepted.add(i)
        ok = "No error has been found" in r.out
        if ok and all(i in done for i in idx):
            return
        if not ok and len(idx) == 1:
            if "Overflow when" in r.out:      # numbers which the specification cannot hold
                skipped[idx[0]] = "overflow"
                accepted.discard(idx[0])
                return
            if r.eval_error:
                rejected[idx[0]] = "outside the domain of the specification: " + _tlc_error(r.out)
                accepted.discard(idx[0])
                return
            raise CheckError("TLC failed on a trace:\n" + r.out[-3000:])
        if ok:
            missing = [i for i in idx if i not in done]
            if len(idx) == 1:
                raise CheckError("trace neither accepted nor rejected:\n" + r.out[-3000:])
            for i in missing:
                go([i])
            return
        if not r.eval_error:
            raise CheckError("TLC failed:\n" + r.out[-4000:])
        # an evaluation error hides the other traces: bisect
        todo = [i for i in idx if i not in done]
        if not todo:
            return
        if len(todo) == 1 and len(idx) > 1:
            go(todo)
            return
        h = max(1, len(todo) // 2)
        go(todo[:h])
        if todo[h:]:
            go(todo[h:])

    if traces:
        go(list(range(len(traces))))
    return {"rejected": rejected, "accepted": accepted, "skipped": skipped, "states": states,
            "generated": gen, "wall": wall}


def _tlc_error(out):
    i = out.find("Error:")
    return " ".join(out[i:i + 500].split())


# ------------------------------------------------------------------------------------ report
def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.isfile(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


class Check:
    """Collects the results of one check, writes the evidence, prints the verdict"""

    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.samples = []
        self.violations = []
        self.known = []
        self.cover = {}
        self.assumptions = []

    def design(self, name, r):
        self.states += r.distinct
        self.transitions += r.generated
        self.cover.setdefault("design_models", {})[name] = {
            "distinct_states": r.distinct, "states_generated": r.generated,
            "wall_s": round(r.wall, 1)}

    def count(self, key, n=1):
        self.cover[key] = self.cover.get(key, 0) + n

    def sample(self, x, limit=3):
        if len(self.samples) < limit:
            self.samples.append(x)

    def violation(self, what, replay):
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, "%s-%d.json" % (self.prop, len(self.violations) + 1))
        with open(path, "w") as f:
            json.dump({"property": self.prop, "what": what, "replay": replay}, f, indent=1)
        self.violations.append((what, path))

    def conformance(self, exe, scenarios, module, cfg, timeout=600, transform=None, batch=None,
                    known_ids=None, driver_args=(), label=None, driver_timeout=300, heap="8g"):
        """Run the scenarios through the real code and check the traces with TLC"""
        results = run_driver(exe, scenarios, args=driver_args, timeout=driver_timeout)
        traces, index = [], []
        bad = []
        for s, r in zip(scenarios, results):
            if "crash" in r:
                bad.append((s, "the code crashed: " + r["crash"], None))
                continue
            t = (transform or merge)(s, r)
            traces.append(t)
            index.append((s, r))
        batch = batch or len(traces) or 1
        v_all = {"accepted": 0, "skipped": 0}
        for b in range(0, len(traces), batch):
            v = validate(module, cfg, traces[b:b + batch], timeout=timeout, heap=heap)
            self.states += v["states"]
            self.transitions += v["generated"]
            self.validated += len(v["accepted"])
            v_all["accepted"] += len(v["accepted"])
            v_all["skipped"] += len(v["skipped"])
            for i, why in sorted(v["rejected"].items()):
                bad.append((index[b + i][0], why, traces[b + i]))
        c = self.cover.setdefault("conformance", {})
        lab = label or cfg.replace(".cfg", "")
        d = c.setdefault(lab, {"scenarios": 0, "accepted": 0, "outside_domain": 0, "rejected": 0,
                               "events": 0})
        d["scenarios"] += len(scenarios)
        d["accepted"] += v_all["accepted"]
        d["outside_domain"] += v_all["skipped"]
        d["rejected"] += len(bad)
        d["events"] += sum(len(t["ev"]) for t in traces)
        if traces:
            self.sample({"scenario": scenarios[0]["id"], "ops": scenarios[0]["ops"][:12]})
        # a rejection counts only if it is repeated
        for s, why, trace in bad[:6]:
            r2 = run_driver(exe, [s], args=driver_args, timeout=driver_timeout)[0]
            if "crash" in r2:
                repeated = True
                why2 = "the code crashed: " + r2["crash"]
            else:
                t2 = (transform or merge)(s, r2)
                v2 = validate(module, cfg, [t2], timeout=timeout, heap=heap)
                repeated = 0 in v2["rejected"]
                why2 = v2["rejected"].get(0, "")
                trace = t2
            if not repeated:
                self.count("rejections_not_repeated")
                continue
            self.violation(why2, {"scenario": s, "trace": trace})
        return results

    def known_finding(self, entry, exe, module, cfg, transform=None, driver_args=()):
        """A recorded finding: the scenario is expected to be rejected; no alarm"""
        s = entry["scenario"]
        r = run_driver(exe, [s], args=driver_args)[0]
        if "crash" in r:
            rejected = True
        else:
            v = validate(module, cfg, [(transform or merge)(s, r)])
            rejected = bool(v["rejected"])
        if rejected:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, entry["what"]))
            self.known.append(entry["what"])
        return rejected

    def finish(self):
        cov = dict(self.cover)
        if self.level == "model_checking":
            cov.update({"states": self.states, "transitions": self.transitions,
                        "traces_validated_against_impl": self.validated,
                        "samples": self.samples or ["none"]})
        cov["known_findings_seen"] = self.known
        ev = {"property": self.prop, "tier": tier(), "seed": seed(), "level": self.level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for what, path in self.violations:
            print("# " + " ".join(str(what).split())[:1500])
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        print("%s: %s (%d states, %d traces validated, %.0f s)" % (
            self.prop, "VIOLATED" if self.violations else "held", self.states, self.validated,
            time.time() - self.t0))
        return 1 if self.violations else 0
