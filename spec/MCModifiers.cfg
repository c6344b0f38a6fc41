CONSTANTS
  Faulty = {}
  NMAX = 3
  AMAX = 3
  BMAX = 2
INIT Init
NEXT Next
INVARIANTS CoreReadsTheValues NoCopyInPlace
CHECK_DEADLOCK FALSE
