SPECIFICATION Spec
CONSTANTS
  MaxSites = 4
  MaxOps = 6
  Faulty = {}
INVARIANTS Represents HermitianUpper NeighborsAgree OrbitalsAgree
