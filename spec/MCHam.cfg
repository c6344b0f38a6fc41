SPECIFICATION Spec
CONSTANTS Lats = {1, 2, 3}
          Kinds = {"prim", "onsite", "hop", "wave"}
          MaxSteps = 3
INVARIANTS Ham_
CHECK_DEADLOCK FALSE
