CONSTANTS
  Faulty = {}
  NMAX = 4
SPECIFICATION Spec
INVARIANTS EachAtItsPlace NoLoss InOrderAlone Bounded
PROPERTIES Ends
CHECK_DEADLOCK FALSE
