CONSTANTS
  Models = {"a", "b", "c", "bad"}
  Bad = {"bad"}
  TypeOf <- Types
  Faulty = {}
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
