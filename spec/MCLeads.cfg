SPECIFICATION Spec
CONSTANTS Lats = {3, 4}
          Kinds = {"prim", "shape", "state", "lead"}
          MaxSteps = 3
INVARIANTS Structure_ Leads_
CHECK_DEADLOCK FALSE
