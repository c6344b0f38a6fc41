SPECIFICATION Spec
CONSTANTS
  Faulty = {}
INVARIANT Once
INVARIANT Told
CHECK_DEADLOCK FALSE
