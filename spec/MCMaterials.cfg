CONSTANTS
  Size = 1
  Steps = 6
  Sides = {2, 4, 6}
  Faulty = {}
SPECIFICATION Spec
INVARIANT Flux
CHECK_DEADLOCK FALSE
