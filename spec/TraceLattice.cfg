SPECIFICATION Spec
INVARIANT Integrity
CHECK_DEADLOCK FALSE
