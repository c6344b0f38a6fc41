SPECIFICATION Spec
CONSTANTS N = 4
          MaxMoments = 10
          Multi = TRUE
          Faulty = {}
INVARIANTS MomentsRight Complete
CHECK_DEADLOCK FALSE
