SPECIFICATION GenSpec
CONSTANTS MaxOps = 16
          Emit = TRUE
INVARIANT Integrity
CONSTRAINT EmitHistory
CHECK_DEADLOCK FALSE
