SPECIFICATION Spec
CONSTANTS N = 5
          MaxMoments = 10
          Multi = FALSE
          Faulty = {}
INVARIANTS MomentsRight Complete
CHECK_DEADLOCK FALSE
