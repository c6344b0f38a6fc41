"""C18: the eigensolver interface"""
import random
from runner import *
from kpm_checks import ModelGen, scenarios, FAR

BUILD_KW = dict(main="solver_driver.cpp", parts=["lib", "solver"])
SPECS = ("TraceSolver.tla", "TraceSolver.cfg")


class SolverGen(ModelGen):
    def model(self, op):
        r = self.r
        build = list(self.build())
        if r.random() < 0.12 and op == "set_model":
            build.append(dict(FAR, op="shape"))            # there are no sites
        self.ops.append({"op": op, "build": build, "evaluated": r.random() < 0.5,
                         "refuse": 1 if op == "set_model" and r.random() < 0.12 else 0})

    def at(self):
        r = self.r
        return [[r.choice([0, 0, 1, -1, 2, r.randint(-6, 6)]), r.choice([0, 0, 1, -1, 2, 3, -4, 6])]
                for _ in range(r.choice([1, 1, 2, 3, 5]))]


def solver_one(r):
    g = SolverGen(r)
    g.model("solver")
    for _ in range(r.randint(4, 12)):
        x = r.random()
        if x < 0.2:
            g.model("set_model")
        elif x < 0.27:
            g.mutate()
        elif x < 0.35:
            g.ops.append({"op": "fail", "times": r.choice([1, 1, 2])})
        elif x < 0.45:
            g.ops.append({"op": "clear"})
        elif x < 0.5:
            g.ops.append({"op": "report", "short": r.random() < 0.5})
        elif x < 0.57:
            g.ops.append({"op": "look"})
        else:
            op = r.choice(["solve", "values", "vectors", "dos", "dos", "ldos"])
            g.ops.append({"op": op, "at": g.at()} if op in ("dos", "ldos") else {"op": op})
    return {"id": 0, "ops": g.ops}


def c18(check):
    check.assumptions += ["The strategy is a stand-in whose results identify the Hamiltonian (FEAST needs the MKL); levels are integers."]
    check.design("MCSolver", exhaustive("MCSolver.tla", "MCSolver.cfg"))
    for f in ("any_type", "assign_first", "keep_ham", "keep_flag", "keep_flag_same_type", "flag_first"):
        refuted("MCSolver.tla", "MCSolver.cfg", [("Faulty = {}", 'Faulty = {"%s"}' % f)])
        check.count("refuted_design_mistakes")
    exe = B.build("solver_driver", **BUILD_KW)
    for k in range(8 if tier() == "thorough" else 1):
        check.conformance(exe, scenarios(solver_one, 2500, seed() * 100 + k), *SPECS, label="solver")


CHECKS = {"C18": c18}
