SPECIFICATION Spec
CONSTANTS
  Norbs = {1, 2}
  Faulty = {}
INVARIANT Inv
CHECK_DEADLOCK FALSE
