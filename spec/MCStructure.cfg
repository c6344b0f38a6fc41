SPECIFICATION Spec
CONSTANTS Lats = {1, 2, 3, 4}
          Kinds = {"prim", "shape", "sym"}
          MaxSteps = 3
INVARIANTS Structure_ Shape_
CHECK_DEADLOCK FALSE
