CONSTANTS
  Lines = 3
  Size = 2
  Displays = {"own", "stdout", "none"}
  Restarts = 2
  Faulty = {}
SPECIFICATION Spec
INVARIANT Complete
INVARIANT Ordered
INVARIANT InLog
INVARIANT Released
INVARIANT OnScreen
INVARIANT FirstInLog
CHECK_DEADLOCK FALSE
