SPECIFICATION Spec
CONSTANTS
  Size = 2
  Faulty = {}
INVARIANT Inv
CHECK_DEADLOCK FALSE
