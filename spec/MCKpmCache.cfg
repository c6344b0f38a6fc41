SPECIFICATION Spec
CONSTANTS Hams = {1, 2, 3}
          Indices = {1, 2, 3}
          MaxOps = 6
          Faulty = {}
INVARIANTS UsesPresent UsesIndices
CHECK_DEADLOCK FALSE
