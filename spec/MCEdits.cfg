SPECIFICATION Spec
CONSTANTS Lats = {1, 2, 3}
          Kinds = {"prim", "state", "pos", "sgen", "hgen"}
          MaxSteps = 3
INVARIANTS Structure_ Ham_
CHECK_DEADLOCK FALSE
