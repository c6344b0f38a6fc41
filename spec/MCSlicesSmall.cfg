SPECIFICATION Spec
CONSTANTS N = 3
          MaxMoments = 10
          Multi = TRUE
          Faulty = {}
INVARIANTS MomentsRight Complete
CHECK_DEADLOCK FALSE
