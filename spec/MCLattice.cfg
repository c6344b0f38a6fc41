SPECIFICATION Spec
CONSTANTS MaxOps = 3
          Emit = FALSE
INVARIANT Integrity
PROPERTY Monotone
CHECK_DEADLOCK FALSE
