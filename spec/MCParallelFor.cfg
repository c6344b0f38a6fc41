SPECIFICATION Spec
CONSTANTS
  Size = 3
  W = 2
  Cap = 1
  Spurious = 1
  Faulty = {}
INVARIANTS Once Bounded Complete NotStuck
PROPERTIES Ends
CHECK_DEADLOCK FALSE
