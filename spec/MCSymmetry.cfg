SPECIFICATION Spec
CONSTANTS Lats = {1, 2, 3, 4}
          Kinds = {"prim", "sym", "wave"}
          MaxSteps = 3
INVARIANTS Structure_ Symmetry_ Ham_
CHECK_DEADLOCK FALSE
