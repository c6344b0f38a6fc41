SPECIFICATION Spec
CONSTANTS
  N = 3
  Depth = 2
  Faulty = {}
INVARIANT Together
