import container_checks
import kpm_checks
import lattice_checks
import model_checks
import python_checks
import solver_checks
import thread_checks

CHECKS = {"C01": (lattice_checks.c01, "model_checking")}
for _p in model_checks.POPS:
    CHECKS[_p] = (model_checks.make(_p), "model_checking")
for _p, _f in kpm_checks.CHECKS.items():
    CHECKS[_p] = (_f, "model_checking")
for _p, _f in thread_checks.CHECKS.items():
    CHECKS[_p] = (_f, "model_checking")
for _p, _f in solver_checks.CHECKS.items():
    CHECKS[_p] = (_f, "model_checking")
for _p, _f in container_checks.CHECKS.items():
    CHECKS[_p] = (_f, "model_checking")
for _p, _f in python_checks.CHECKS.items():
    CHECKS[_p] = (_f, "model_checking")
