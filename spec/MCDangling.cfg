SPECIFICATION Spec
CONSTANTS Lats = {2, 3, 4}
          Kinds = {"shape", "state"}
          MaxSteps = 3
INVARIANTS Structure_ Dangling_
CHECK_DEADLOCK FALSE
