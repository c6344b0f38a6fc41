"""All drivers (built once by setup_verif.py)"""
import container_checks
import kpm_checks
import solver_checks
import thread_checks

DRIVERS = [("model_driver", dict(main="model_driver.cpp", parts=["lib"])),
           ("kpm_driver", dict(kpm_checks.BUILD_KW)),
           ("kpm_driver_simd", dict(kpm_checks.BUILD_KW, extra_flags=("-DVERIF_SIMD=1",))),
           ("container_driver", dict(container_checks.BUILD_KW)),
           ("solver_driver", dict(solver_checks.BUILD_KW)),
           ("thread_driver", dict(thread_checks.BUILD_KW)),
           ("thread_driver_simd", dict(thread_checks.BUILD_KW, extra_flags=("-DVERIF_SIMD=1",)))]
