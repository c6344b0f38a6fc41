SPECIFICATION Spec
CONSTANTS
  Size = 4
  W = 2
  Cap = 2
  Spurious = 2
  Faulty = {}
INVARIANTS Once Bounded Complete NotStuck
PROPERTIES Ends
CHECK_DEADLOCK FALSE
