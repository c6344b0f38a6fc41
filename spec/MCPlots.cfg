SPECIFICATION Spec
CONSTANTS
  Size = 2
  Periods = 3
  Faulty = {}
INVARIANT Inv
CHECK_DEADLOCK FALSE
